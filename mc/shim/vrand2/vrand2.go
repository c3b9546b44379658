// Package vrand2 replaces math/rand/v2 like vrand replaces math/rand.
package vrand2

import "verif/shim/vrand"

func Float64() float64     { return vrand.Float64() }
func Float32() float32     { return vrand.Float32() }
func NormFloat64() float64 { return 0 }
func ExpFloat64() float64  { return 1 }

func Int() int       { return vrand.Int() }
func Int32() int32   { return vrand.Int31() }
func Int64() int64   { return vrand.Int63() }
func Uint() uint     { return uint(vrand.Uint64()) }
func Uint32() uint32 { return vrand.Uint32() }
func Uint64() uint64 { return vrand.Uint64() }

func IntN(n int) int          { return vrand.Intn(n) }
func Int32N(n int32) int32    { return vrand.Int31n(n) }
func Int64N(n int64) int64    { return vrand.Int63n(n) }
func UintN(n uint) uint       { return uint(vrand.Intn(int(n))) }
func Uint32N(n uint32) uint32 { return uint32(vrand.Intn(int(n))) }
func Uint64N(n uint64) uint64 { return uint64(vrand.Intn(int(n))) }

func Perm(n int) []int                   { return vrand.Perm(n) }
func Shuffle(n int, swap func(i, j int)) {}
