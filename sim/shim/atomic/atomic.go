//go:build go1.25

// Package atomic is sync/atomic with a scheduling point at every operation.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"powsim/rt"
)

func pt(p unsafe.Pointer) { rt.Point("atomic") }

func AddInt32(p *int32, d int32) int32                 { rt.Point("atomic"); return real.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64                 { rt.Point("atomic"); return real.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { rt.Point("atomic"); return real.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { rt.Point("atomic"); return real.AddUint64(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr         { rt.Point("atomic"); return real.AddUintptr(p, d) }
func LoadInt32(p *int32) int32                         { rt.Point("atomic"); return real.LoadInt32(p) }
func LoadInt64(p *int64) int64                         { rt.Point("atomic"); return real.LoadInt64(p) }
func LoadUint32(p *uint32) uint32                      { rt.Point("atomic"); return real.LoadUint32(p) }
func LoadUint64(p *uint64) uint64                      { rt.Point("atomic"); return real.LoadUint64(p) }
func LoadUintptr(p *uintptr) uintptr                   { rt.Point("atomic"); return real.LoadUintptr(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { rt.Point("atomic"); return real.LoadPointer(p) }
func StoreInt32(p *int32, v int32)                     { rt.Point("atomic"); real.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)                     { rt.Point("atomic"); real.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)                  { rt.Point("atomic"); real.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)                  { rt.Point("atomic"); real.StoreUint64(p, v) }
func StoreUintptr(p *uintptr, v uintptr)               { rt.Point("atomic"); real.StoreUintptr(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { rt.Point("atomic"); real.StorePointer(p, v) }
func SwapInt32(p *int32, v int32) int32                { rt.Point("atomic"); return real.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64                { rt.Point("atomic"); return real.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { rt.Point("atomic"); return real.SwapUint32(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { rt.Point("atomic"); return real.SwapUint64(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	rt.Point("atomic")
	return real.SwapPointer(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	rt.Point("atomic")
	return real.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	rt.Point("atomic")
	return real.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	rt.Point("atomic")
	return real.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	rt.Point("atomic")
	return real.CompareAndSwapUint64(p, o, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	rt.Point("atomic")
	return real.CompareAndSwapPointer(p, o, n)
}

// Value, Bool, Int32... wrap the real types with a scheduling point.
type Value struct{ v real.Value }

func (x *Value) Load() interface{}              { rt.Point("atomic"); return x.v.Load() }
func (x *Value) Store(v interface{})            { rt.Point("atomic"); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{} { rt.Point("atomic"); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool {
	rt.Point("atomic")
	return x.v.CompareAndSwap(o, n)
}

type Bool struct{ v real.Bool }

func (x *Bool) Load() bool                    { rt.Point("atomic"); return x.v.Load() }
func (x *Bool) Store(v bool)                  { rt.Point("atomic"); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { rt.Point("atomic"); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { rt.Point("atomic"); return x.v.CompareAndSwap(o, n) }

type Int32 struct{ v real.Int32 }

func (x *Int32) Load() int32                    { rt.Point("atomic"); return x.v.Load() }
func (x *Int32) Store(v int32)                  { rt.Point("atomic"); x.v.Store(v) }
func (x *Int32) Add(v int32) int32              { rt.Point("atomic"); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32             { rt.Point("atomic"); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { rt.Point("atomic"); return x.v.CompareAndSwap(o, n) }

type Int64 struct{ v real.Int64 }

func (x *Int64) Load() int64                    { rt.Point("atomic"); return x.v.Load() }
func (x *Int64) Store(v int64)                  { rt.Point("atomic"); x.v.Store(v) }
func (x *Int64) Add(v int64) int64              { rt.Point("atomic"); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64             { rt.Point("atomic"); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { rt.Point("atomic"); return x.v.CompareAndSwap(o, n) }

type Uint32 struct{ v real.Uint32 }

func (x *Uint32) Load() uint32         { rt.Point("atomic"); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { rt.Point("atomic"); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32  { rt.Point("atomic"); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32 { rt.Point("atomic"); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	rt.Point("atomic")
	return x.v.CompareAndSwap(o, n)
}

type Uint64 struct{ v real.Uint64 }

func (x *Uint64) Load() uint64         { rt.Point("atomic"); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { rt.Point("atomic"); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64  { rt.Point("atomic"); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64 { rt.Point("atomic"); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	rt.Point("atomic")
	return x.v.CompareAndSwap(o, n)
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v real.Pointer[T] }

func (x *Pointer[T]) Load() *T     { rt.Point("atomic"); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { rt.Point("atomic"); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { rt.Point("atomic"); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	rt.Point("atomic")
	return x.v.CompareAndSwap(o, n)
}
