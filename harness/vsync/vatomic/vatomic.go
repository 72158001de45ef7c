// Package vatomic stands in for sync/atomic in packages rewritten by cmd/instrument.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/harness/sched"
)

func p(what string) { sched.Current().P(what) }

func AddInt32(a *int32, d int32) int32     { p("add"); return atomic.AddInt32(a, d) }
func AddInt64(a *int64, d int64) int64     { p("add"); return atomic.AddInt64(a, d) }
func AddUint32(a *uint32, d uint32) uint32 { p("add"); return atomic.AddUint32(a, d) }
func AddUint64(a *uint64, d uint64) uint64 { p("add"); return atomic.AddUint64(a, d) }
func LoadInt32(a *int32) int32             { p("load"); return atomic.LoadInt32(a) }
func LoadInt64(a *int64) int64             { p("load"); return atomic.LoadInt64(a) }
func LoadUint32(a *uint32) uint32          { p("load"); return atomic.LoadUint32(a) }
func LoadUint64(a *uint64) uint64          { p("load"); return atomic.LoadUint64(a) }
func StoreInt32(a *int32, v int32)         { p("store"); atomic.StoreInt32(a, v) }
func StoreInt64(a *int64, v int64)         { p("store"); atomic.StoreInt64(a, v) }
func StoreUint32(a *uint32, v uint32)      { p("store"); atomic.StoreUint32(a, v) }
func StoreUint64(a *uint64, v uint64)      { p("store"); atomic.StoreUint64(a, v) }
func SwapInt32(a *int32, v int32) int32    { p("swap"); return atomic.SwapInt32(a, v) }
func SwapInt64(a *int64, v int64) int64    { p("swap"); return atomic.SwapInt64(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	p("cas")
	return atomic.CompareAndSwapInt32(a, o, n)
}
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	p("cas")
	return atomic.CompareAndSwapInt64(a, o, n)
}
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	p("cas")
	return atomic.CompareAndSwapUint32(a, o, n)
}
func LoadPointer(a *unsafe.Pointer) unsafe.Pointer { p("load"); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) {
	p("store")
	atomic.StorePointer(a, v)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { p("load"); return x.v.Load() }
func (x *Int32) Store(v int32)                  { p("store"); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { p("add"); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32             { p("swap"); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { p("cas"); return x.v.CompareAndSwap(o, n) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { p("load"); return x.v.Load() }
func (x *Int64) Store(v int64)                  { p("store"); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { p("add"); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64             { p("swap"); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { p("cas"); return x.v.CompareAndSwap(o, n) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { p("load"); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { p("store"); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { p("add"); return x.v.Add(d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { p("cas"); return x.v.CompareAndSwap(o, n) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { p("load"); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { p("store"); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { p("add"); return x.v.Add(d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { p("cas"); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { p("load"); return x.v.Load() }
func (x *Bool) Store(v bool)                  { p("store"); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { p("swap"); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { p("cas"); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { p("load"); return x.v.Load() }
func (x *Value) Store(v any)                  { p("store"); x.v.Store(v) }
func (x *Value) Swap(v any) any               { p("swap"); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { p("cas"); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { p("load"); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { p("store"); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { p("swap"); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { p("cas"); return x.v.CompareAndSwap(o, n) }
