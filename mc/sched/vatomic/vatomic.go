// Package vatomic replaces package sync/atomic in the code under test: each operation is a scheduling point.
package vatomic

import (
	"sync/atomic"

	"verif/mc/sched"
)

func AddInt32(p *int32, d int32) int32     { sched.Point(); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64     { sched.Point(); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32 { sched.Point(); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64 { sched.Point(); return atomic.AddUint64(p, d) }
func LoadInt32(p *int32) int32             { sched.Point(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64             { sched.Point(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32          { sched.Point(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64          { sched.Point(); return atomic.LoadUint64(p) }
func StoreInt32(p *int32, v int32)         { sched.Point(); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)         { sched.Point(); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)      { sched.Point(); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)      { sched.Point(); atomic.StoreUint64(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sched.Point()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sched.Point()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sched.Point()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sched.Point()
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Add(d int32) int32              { sched.Point(); return x.v.Add(d) }
func (x *Int32) Load() int32                    { sched.Point(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { sched.Point(); x.v.Store(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { sched.Point(); return x.v.CompareAndSwap(o, n) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Add(d int64) int64              { sched.Point(); return x.v.Add(d) }
func (x *Int64) Load() int64                    { sched.Point(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { sched.Point(); x.v.Store(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { sched.Point(); return x.v.CompareAndSwap(o, n) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Add(d uint32) uint32             { sched.Point(); return x.v.Add(d) }
func (x *Uint32) Load() uint32                    { sched.Point(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { sched.Point(); x.v.Store(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { sched.Point(); return x.v.CompareAndSwap(o, n) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Add(d uint64) uint64             { sched.Point(); return x.v.Add(d) }
func (x *Uint64) Load() uint64                    { sched.Point(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { sched.Point(); x.v.Store(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { sched.Point(); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { sched.Point(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { sched.Point(); x.v.Store(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { sched.Point(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { sched.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { sched.Point(); x.v.Store(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { sched.Point(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any   { sched.Point(); return x.v.Load() }
func (x *Value) Store(v any) { sched.Point(); x.v.Store(v) }
