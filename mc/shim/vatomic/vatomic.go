// Code generated; DO NOT EDIT.

// Package vatomic replaces sync/atomic: every operation is a (fine) scheduling point.
package vatomic

import (
	real "sync/atomic"
	"unsafe"

	"verif/rt"
)

func pt() { rt.PointFine("atomic") }

type Value struct{ r real.Value }

func (v *Value) Load() any                    { pt(); return v.r.Load() }
func (v *Value) Store(x any)                  { pt(); v.r.Store(x) }
func (v *Value) Swap(x any) any               { pt(); return v.r.Swap(x) }
func (v *Value) CompareAndSwap(o, n any) bool { pt(); return v.r.CompareAndSwap(o, n) }

type Bool struct{ r real.Bool }

func (v *Bool) Load() bool                    { pt(); return v.r.Load() }
func (v *Bool) Store(x bool)                  { pt(); v.r.Store(x) }
func (v *Bool) Swap(x bool) bool              { pt(); return v.r.Swap(x) }
func (v *Bool) CompareAndSwap(o, n bool) bool { pt(); return v.r.CompareAndSwap(o, n) }

type Pointer[T any] struct{ r real.Pointer[T] }

func (v *Pointer[T]) Load() *T                    { pt(); return v.r.Load() }
func (v *Pointer[T]) Store(x *T)                  { pt(); v.r.Store(x) }
func (v *Pointer[T]) Swap(x *T) *T                { pt(); return v.r.Swap(x) }
func (v *Pointer[T]) CompareAndSwap(o, n *T) bool { pt(); return v.r.CompareAndSwap(o, n) }

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { pt(); return real.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { pt(); real.StorePointer(a, v) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt()
	return real.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt()
	return real.CompareAndSwapPointer(a, o, n)
}

func LoadInt32(a *int32) int32                      { pt(); return real.LoadInt32(a) }
func StoreInt32(a *int32, v int32)                  { pt(); real.StoreInt32(a, v) }
func SwapInt32(a *int32, v int32) int32             { pt(); return real.SwapInt32(a, v) }
func AddInt32(a *int32, d int32) int32              { pt(); return real.AddInt32(a, d) }
func AndInt32(a *int32, m int32) int32              { pt(); return real.AndInt32(a, m) }
func OrInt32(a *int32, m int32) int32               { pt(); return real.OrInt32(a, m) }
func CompareAndSwapInt32(a *int32, o, n int32) bool { pt(); return real.CompareAndSwapInt32(a, o, n) }

type Int32 struct{ r real.Int32 }

func (v *Int32) Load() int32                    { pt(); return v.r.Load() }
func (v *Int32) Store(x int32)                  { pt(); v.r.Store(x) }
func (v *Int32) Swap(x int32) int32             { pt(); return v.r.Swap(x) }
func (v *Int32) Add(d int32) int32              { pt(); return v.r.Add(d) }
func (v *Int32) And(m int32) int32              { pt(); return v.r.And(m) }
func (v *Int32) Or(m int32) int32               { pt(); return v.r.Or(m) }
func (v *Int32) CompareAndSwap(o, n int32) bool { pt(); return v.r.CompareAndSwap(o, n) }

func LoadInt64(a *int64) int64                      { pt(); return real.LoadInt64(a) }
func StoreInt64(a *int64, v int64)                  { pt(); real.StoreInt64(a, v) }
func SwapInt64(a *int64, v int64) int64             { pt(); return real.SwapInt64(a, v) }
func AddInt64(a *int64, d int64) int64              { pt(); return real.AddInt64(a, d) }
func AndInt64(a *int64, m int64) int64              { pt(); return real.AndInt64(a, m) }
func OrInt64(a *int64, m int64) int64               { pt(); return real.OrInt64(a, m) }
func CompareAndSwapInt64(a *int64, o, n int64) bool { pt(); return real.CompareAndSwapInt64(a, o, n) }

type Int64 struct{ r real.Int64 }

func (v *Int64) Load() int64                    { pt(); return v.r.Load() }
func (v *Int64) Store(x int64)                  { pt(); v.r.Store(x) }
func (v *Int64) Swap(x int64) int64             { pt(); return v.r.Swap(x) }
func (v *Int64) Add(d int64) int64              { pt(); return v.r.Add(d) }
func (v *Int64) And(m int64) int64              { pt(); return v.r.And(m) }
func (v *Int64) Or(m int64) int64               { pt(); return v.r.Or(m) }
func (v *Int64) CompareAndSwap(o, n int64) bool { pt(); return v.r.CompareAndSwap(o, n) }

func LoadUint32(a *uint32) uint32           { pt(); return real.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)       { pt(); real.StoreUint32(a, v) }
func SwapUint32(a *uint32, v uint32) uint32 { pt(); return real.SwapUint32(a, v) }
func AddUint32(a *uint32, d uint32) uint32  { pt(); return real.AddUint32(a, d) }
func AndUint32(a *uint32, m uint32) uint32  { pt(); return real.AndUint32(a, m) }
func OrUint32(a *uint32, m uint32) uint32   { pt(); return real.OrUint32(a, m) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	pt()
	return real.CompareAndSwapUint32(a, o, n)
}

type Uint32 struct{ r real.Uint32 }

func (v *Uint32) Load() uint32                    { pt(); return v.r.Load() }
func (v *Uint32) Store(x uint32)                  { pt(); v.r.Store(x) }
func (v *Uint32) Swap(x uint32) uint32            { pt(); return v.r.Swap(x) }
func (v *Uint32) Add(d uint32) uint32             { pt(); return v.r.Add(d) }
func (v *Uint32) And(m uint32) uint32             { pt(); return v.r.And(m) }
func (v *Uint32) Or(m uint32) uint32              { pt(); return v.r.Or(m) }
func (v *Uint32) CompareAndSwap(o, n uint32) bool { pt(); return v.r.CompareAndSwap(o, n) }

func LoadUint64(a *uint64) uint64           { pt(); return real.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)       { pt(); real.StoreUint64(a, v) }
func SwapUint64(a *uint64, v uint64) uint64 { pt(); return real.SwapUint64(a, v) }
func AddUint64(a *uint64, d uint64) uint64  { pt(); return real.AddUint64(a, d) }
func AndUint64(a *uint64, m uint64) uint64  { pt(); return real.AndUint64(a, m) }
func OrUint64(a *uint64, m uint64) uint64   { pt(); return real.OrUint64(a, m) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	pt()
	return real.CompareAndSwapUint64(a, o, n)
}

type Uint64 struct{ r real.Uint64 }

func (v *Uint64) Load() uint64                    { pt(); return v.r.Load() }
func (v *Uint64) Store(x uint64)                  { pt(); v.r.Store(x) }
func (v *Uint64) Swap(x uint64) uint64            { pt(); return v.r.Swap(x) }
func (v *Uint64) Add(d uint64) uint64             { pt(); return v.r.Add(d) }
func (v *Uint64) And(m uint64) uint64             { pt(); return v.r.And(m) }
func (v *Uint64) Or(m uint64) uint64              { pt(); return v.r.Or(m) }
func (v *Uint64) CompareAndSwap(o, n uint64) bool { pt(); return v.r.CompareAndSwap(o, n) }

func LoadUintptr(a *uintptr) uintptr            { pt(); return real.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)        { pt(); real.StoreUintptr(a, v) }
func SwapUintptr(a *uintptr, v uintptr) uintptr { pt(); return real.SwapUintptr(a, v) }
func AddUintptr(a *uintptr, d uintptr) uintptr  { pt(); return real.AddUintptr(a, d) }
func AndUintptr(a *uintptr, m uintptr) uintptr  { pt(); return real.AndUintptr(a, m) }
func OrUintptr(a *uintptr, m uintptr) uintptr   { pt(); return real.OrUintptr(a, m) }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	pt()
	return real.CompareAndSwapUintptr(a, o, n)
}

type Uintptr struct{ r real.Uintptr }

func (v *Uintptr) Load() uintptr                    { pt(); return v.r.Load() }
func (v *Uintptr) Store(x uintptr)                  { pt(); v.r.Store(x) }
func (v *Uintptr) Swap(x uintptr) uintptr           { pt(); return v.r.Swap(x) }
func (v *Uintptr) Add(d uintptr) uintptr            { pt(); return v.r.Add(d) }
func (v *Uintptr) And(m uintptr) uintptr            { pt(); return v.r.And(m) }
func (v *Uintptr) Or(m uintptr) uintptr             { pt(); return v.r.Or(m) }
func (v *Uintptr) CompareAndSwap(o, n uintptr) bool { pt(); return v.r.CompareAndSwap(o, n) }
