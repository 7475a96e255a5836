// Package simatomic replaces package sync/atomic in the instrumented code: every
// operation is the real one, preceded by a yield point.
package simatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/vorlif/spreak/zz_verif/simrt"
)

var _ unsafe.Pointer

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { simrt.Y(10); return x.v.Load() }
func (x *Int32) Store(n int32)                  { simrt.Y(10); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32             { simrt.Y(10); return x.v.Swap(n) }
func (x *Int32) Add(n int32) int32              { simrt.Y(10); return x.v.Add(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { simrt.Y(10); return x.v.CompareAndSwap(o, n) }
func (x *Int32) And(m int32) int32              { simrt.Y(10); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { simrt.Y(10); return x.v.Or(m) }

func LoadInt32(a *int32) int32          { simrt.Y(10); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, n int32)      { simrt.Y(10); atomic.StoreInt32(a, n) }
func SwapInt32(a *int32, n int32) int32 { simrt.Y(10); return atomic.SwapInt32(a, n) }
func AddInt32(a *int32, n int32) int32  { simrt.Y(10); return atomic.AddInt32(a, n) }
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	simrt.Y(10)
	return atomic.CompareAndSwapInt32(a, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { simrt.Y(10); return x.v.Load() }
func (x *Int64) Store(n int64)                  { simrt.Y(10); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64             { simrt.Y(10); return x.v.Swap(n) }
func (x *Int64) Add(n int64) int64              { simrt.Y(10); return x.v.Add(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { simrt.Y(10); return x.v.CompareAndSwap(o, n) }
func (x *Int64) And(m int64) int64              { simrt.Y(10); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { simrt.Y(10); return x.v.Or(m) }

func LoadInt64(a *int64) int64          { simrt.Y(10); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, n int64)      { simrt.Y(10); atomic.StoreInt64(a, n) }
func SwapInt64(a *int64, n int64) int64 { simrt.Y(10); return atomic.SwapInt64(a, n) }
func AddInt64(a *int64, n int64) int64  { simrt.Y(10); return atomic.AddInt64(a, n) }
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	simrt.Y(10)
	return atomic.CompareAndSwapInt64(a, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { simrt.Y(10); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { simrt.Y(10); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32            { simrt.Y(10); return x.v.Swap(n) }
func (x *Uint32) Add(n uint32) uint32             { simrt.Y(10); return x.v.Add(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { simrt.Y(10); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) And(m uint32) uint32             { simrt.Y(10); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { simrt.Y(10); return x.v.Or(m) }

func LoadUint32(a *uint32) uint32           { simrt.Y(10); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, n uint32)       { simrt.Y(10); atomic.StoreUint32(a, n) }
func SwapUint32(a *uint32, n uint32) uint32 { simrt.Y(10); return atomic.SwapUint32(a, n) }
func AddUint32(a *uint32, n uint32) uint32  { simrt.Y(10); return atomic.AddUint32(a, n) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	simrt.Y(10)
	return atomic.CompareAndSwapUint32(a, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { simrt.Y(10); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { simrt.Y(10); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64            { simrt.Y(10); return x.v.Swap(n) }
func (x *Uint64) Add(n uint64) uint64             { simrt.Y(10); return x.v.Add(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { simrt.Y(10); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) And(m uint64) uint64             { simrt.Y(10); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { simrt.Y(10); return x.v.Or(m) }

func LoadUint64(a *uint64) uint64           { simrt.Y(10); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, n uint64)       { simrt.Y(10); atomic.StoreUint64(a, n) }
func SwapUint64(a *uint64, n uint64) uint64 { simrt.Y(10); return atomic.SwapUint64(a, n) }
func AddUint64(a *uint64, n uint64) uint64  { simrt.Y(10); return atomic.AddUint64(a, n) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	simrt.Y(10)
	return atomic.CompareAndSwapUint64(a, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { simrt.Y(10); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { simrt.Y(10); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { simrt.Y(10); return x.v.Swap(n) }
func (x *Uintptr) Add(n uintptr) uintptr            { simrt.Y(10); return x.v.Add(n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { simrt.Y(10); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) And(m uintptr) uintptr            { simrt.Y(10); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { simrt.Y(10); return x.v.Or(m) }

func LoadUintptr(a *uintptr) uintptr            { simrt.Y(10); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, n uintptr)        { simrt.Y(10); atomic.StoreUintptr(a, n) }
func SwapUintptr(a *uintptr, n uintptr) uintptr { simrt.Y(10); return atomic.SwapUintptr(a, n) }
func AddUintptr(a *uintptr, n uintptr) uintptr  { simrt.Y(10); return atomic.AddUintptr(a, n) }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	simrt.Y(10)
	return atomic.CompareAndSwapUintptr(a, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { simrt.Y(10); return x.v.Load() }
func (x *Bool) Store(n bool)                  { simrt.Y(10); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { simrt.Y(10); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { simrt.Y(10); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { simrt.Y(10); return x.v.Load() }
func (x *Value) Store(n any)                  { simrt.Y(10); x.v.Store(n) }
func (x *Value) Swap(n any) any               { simrt.Y(10); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { simrt.Y(10); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { simrt.Y(10); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { simrt.Y(10); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { simrt.Y(10); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { simrt.Y(10); return x.v.CompareAndSwap(o, n) }
