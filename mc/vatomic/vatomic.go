// Package vatomic stands in for package sync/atomic in instrumented code: every operation is a
// scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/anivanovic/gotit/verifmc/vsched"
)

func AddInt32(p *int32, d int32) int32  { vsched.Point(); return atomic.AddInt32(p, d) }
func LoadInt32(p *int32) int32          { vsched.Point(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vsched.Point(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { vsched.Point(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsched.Point()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AndInt32(p *int32, m int32) int32 { vsched.Point(); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32  { vsched.Point(); return atomic.OrInt32(p, m) }

type Int32 struct{ v atomic.Int32 }

func (a *Int32) Load() int32                    { vsched.Point(); return a.v.Load() }
func (a *Int32) Store(v int32)                  { vsched.Point(); a.v.Store(v) }
func (a *Int32) Add(d int32) int32              { vsched.Point(); return a.v.Add(d) }
func (a *Int32) Swap(v int32) int32             { vsched.Point(); return a.v.Swap(v) }
func (a *Int32) CompareAndSwap(o, n int32) bool { vsched.Point(); return a.v.CompareAndSwap(o, n) }
func (a *Int32) And(m int32) int32              { vsched.Point(); return a.v.And(m) }
func (a *Int32) Or(m int32) int32               { vsched.Point(); return a.v.Or(m) }

func AddInt64(p *int64, d int64) int64  { vsched.Point(); return atomic.AddInt64(p, d) }
func LoadInt64(p *int64) int64          { vsched.Point(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { vsched.Point(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { vsched.Point(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsched.Point()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AndInt64(p *int64, m int64) int64 { vsched.Point(); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64  { vsched.Point(); return atomic.OrInt64(p, m) }

type Int64 struct{ v atomic.Int64 }

func (a *Int64) Load() int64                    { vsched.Point(); return a.v.Load() }
func (a *Int64) Store(v int64)                  { vsched.Point(); a.v.Store(v) }
func (a *Int64) Add(d int64) int64              { vsched.Point(); return a.v.Add(d) }
func (a *Int64) Swap(v int64) int64             { vsched.Point(); return a.v.Swap(v) }
func (a *Int64) CompareAndSwap(o, n int64) bool { vsched.Point(); return a.v.CompareAndSwap(o, n) }
func (a *Int64) And(m int64) int64              { vsched.Point(); return a.v.And(m) }
func (a *Int64) Or(m int64) int64               { vsched.Point(); return a.v.Or(m) }

func AddUint32(p *uint32, d uint32) uint32  { vsched.Point(); return atomic.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32           { vsched.Point(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { vsched.Point(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { vsched.Point(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsched.Point()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AndUint32(p *uint32, m uint32) uint32 { vsched.Point(); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { vsched.Point(); return atomic.OrUint32(p, m) }

type Uint32 struct{ v atomic.Uint32 }

func (a *Uint32) Load() uint32                    { vsched.Point(); return a.v.Load() }
func (a *Uint32) Store(v uint32)                  { vsched.Point(); a.v.Store(v) }
func (a *Uint32) Add(d uint32) uint32             { vsched.Point(); return a.v.Add(d) }
func (a *Uint32) Swap(v uint32) uint32            { vsched.Point(); return a.v.Swap(v) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool { vsched.Point(); return a.v.CompareAndSwap(o, n) }
func (a *Uint32) And(m uint32) uint32             { vsched.Point(); return a.v.And(m) }
func (a *Uint32) Or(m uint32) uint32              { vsched.Point(); return a.v.Or(m) }

func AddUint64(p *uint64, d uint64) uint64  { vsched.Point(); return atomic.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64           { vsched.Point(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { vsched.Point(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { vsched.Point(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsched.Point()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AndUint64(p *uint64, m uint64) uint64 { vsched.Point(); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { vsched.Point(); return atomic.OrUint64(p, m) }

type Uint64 struct{ v atomic.Uint64 }

func (a *Uint64) Load() uint64                    { vsched.Point(); return a.v.Load() }
func (a *Uint64) Store(v uint64)                  { vsched.Point(); a.v.Store(v) }
func (a *Uint64) Add(d uint64) uint64             { vsched.Point(); return a.v.Add(d) }
func (a *Uint64) Swap(v uint64) uint64            { vsched.Point(); return a.v.Swap(v) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool { vsched.Point(); return a.v.CompareAndSwap(o, n) }
func (a *Uint64) And(m uint64) uint64             { vsched.Point(); return a.v.And(m) }
func (a *Uint64) Or(m uint64) uint64              { vsched.Point(); return a.v.Or(m) }

func AddUintptr(p *uintptr, d uintptr) uintptr  { vsched.Point(); return atomic.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr            { vsched.Point(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { vsched.Point(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { vsched.Point(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vsched.Point()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AndUintptr(p *uintptr, m uintptr) uintptr { vsched.Point(); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { vsched.Point(); return atomic.OrUintptr(p, m) }

type Uintptr struct{ v atomic.Uintptr }

func (a *Uintptr) Load() uintptr                    { vsched.Point(); return a.v.Load() }
func (a *Uintptr) Store(v uintptr)                  { vsched.Point(); a.v.Store(v) }
func (a *Uintptr) Add(d uintptr) uintptr            { vsched.Point(); return a.v.Add(d) }
func (a *Uintptr) Swap(v uintptr) uintptr           { vsched.Point(); return a.v.Swap(v) }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool { vsched.Point(); return a.v.CompareAndSwap(o, n) }
func (a *Uintptr) And(m uintptr) uintptr            { vsched.Point(); return a.v.And(m) }
func (a *Uintptr) Or(m uintptr) uintptr             { vsched.Point(); return a.v.Or(m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vsched.Point(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vsched.Point(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vsched.Point()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsched.Point()
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v atomic.Bool }

func (a *Bool) Load() bool                    { vsched.Point(); return a.v.Load() }
func (a *Bool) Store(v bool)                  { vsched.Point(); a.v.Store(v) }
func (a *Bool) Swap(v bool) bool              { vsched.Point(); return a.v.Swap(v) }
func (a *Bool) CompareAndSwap(o, n bool) bool { vsched.Point(); return a.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (a *Pointer[T]) Load() *T                    { vsched.Point(); return a.v.Load() }
func (a *Pointer[T]) Store(v *T)                  { vsched.Point(); a.v.Store(v) }
func (a *Pointer[T]) Swap(v *T) *T                { vsched.Point(); return a.v.Swap(v) }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool { vsched.Point(); return a.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (a *Value) Load() any                    { vsched.Point(); return a.v.Load() }
func (a *Value) Store(v any)                  { vsched.Point(); a.v.Store(v) }
func (a *Value) Swap(v any) any               { vsched.Point(); return a.v.Swap(v) }
func (a *Value) CompareAndSwap(o, n any) bool { vsched.Point(); return a.v.CompareAndSwap(o, n) }
