// Package gatomic is package sync/atomic with points of preemption where the engine has them.
package gatomic

import (
	"sync/atomic"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { vs.Gate(); return x.v.Load() }
func (x *Value) Store(v any)                  { vs.Gate(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { vs.Gate(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { vs.Gate(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vs.Gate(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { vs.Gate(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { vs.Gate(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { vs.Gate(); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { vs.Gate(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { vs.Gate(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { vs.Gate(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { vs.Gate(); return x.v.CompareAndSwap(o, n) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { vs.Gate(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { vs.Gate(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { vs.Gate(); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32             { vs.Gate(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { vs.Gate(); return x.v.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32          { vs.Gate(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vs.Gate(); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { vs.Gate(); return atomic.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 { vs.Gate(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vs.Gate()
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { vs.Gate(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { vs.Gate(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { vs.Gate(); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64             { vs.Gate(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { vs.Gate(); return x.v.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64          { vs.Gate(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { vs.Gate(); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { vs.Gate(); return atomic.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 { vs.Gate(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vs.Gate()
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { vs.Gate(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { vs.Gate(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { vs.Gate(); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32            { vs.Gate(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { vs.Gate(); return x.v.CompareAndSwap(o, n) }

func LoadUint32(p *uint32) uint32           { vs.Gate(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { vs.Gate(); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { vs.Gate(); return atomic.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { vs.Gate(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vs.Gate()
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { vs.Gate(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { vs.Gate(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { vs.Gate(); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64            { vs.Gate(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { vs.Gate(); return x.v.CompareAndSwap(o, n) }

func LoadUint64(p *uint64) uint64           { vs.Gate(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { vs.Gate(); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { vs.Gate(); return atomic.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { vs.Gate(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vs.Gate()
	return atomic.CompareAndSwapUint64(p, o, n)
}
