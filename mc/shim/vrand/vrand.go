// Package vrand replaces math/rand: the global generator always answers the same, an extreme value is a deviation.
package vrand

import "verif/rt"

// Extreme makes the generator answer the extreme value always; every execution starts without.
var Extreme bool

func init() { rt.RegisterReset("vrand", func() { Extreme = false }) }

func extreme() bool { return Extreme || rt.ChooseEnv(2) == 1 }

func Float64() float64 {
	if extreme() {
		return 0
	}
	return 0.5
}
func Float32() float32     { return float32(Float64()) }
func NormFloat64() float64 { return 0 }
func ExpFloat64() float64  { return 1 }

func Int63() int64   { return 1 << 40 }
func Uint32() uint32 { return 1 << 20 }
func Uint64() uint64 { return 1 << 40 }
func Int31() int32   { return 1 << 20 }
func Int() int       { return 1 << 40 }

func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if n > 1 && extreme() {
		return 0
	}
	return n / 2
}
func Int63n(n int64) int64 { return int64(Intn(int(n))) }
func Int31n(n int32) int32 { return int32(Intn(int(n))) }
func Perm(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}
func Shuffle(n int, swap func(i, j int)) {}
func Seed(int64)                         {}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(i)
	}
	return len(p), nil
}
