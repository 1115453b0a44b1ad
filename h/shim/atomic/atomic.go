// Package atomic replaces sync/atomic: every operation is a scheduling point
// and a synchronisation edge.
package atomic

import "verif.local/h/nd"

//go:norace
func LoadInt32(p *int32) int32 {
	nd.Sched()
	nd.HBAcquire(p)
	return *p
}

//go:norace
func StoreInt32(p *int32, v int32) {
	nd.Sched()
	*p = v
	nd.HBRelease(p)
}

//go:norace
func AddInt32(p *int32, d int32) int32 {
	nd.Sched()
	nd.HBAcquire(p)
	*p += d
	nd.HBRelease(p)
	return *p
}

//go:norace
func SwapInt32(p *int32, v int32) int32 {
	nd.Sched()
	nd.HBAcquire(p)
	o := *p
	*p = v
	nd.HBRelease(p)
	return o
}

//go:norace
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	nd.Sched()
	nd.HBAcquire(p)
	if *p != o {
		return false
	}
	*p = v
	nd.HBRelease(p)
	return true
}

type Int32 struct {
	v int32
	c int
}

//go:norace
func (x *Int32) Load() int32 {
	nd.Sched()
	nd.HBAcquire(&x.c)
	return x.v
}

//go:norace
func (x *Int32) Store(v int32) {
	nd.Sched()
	x.v = v
	nd.HBRelease(&x.c)
}

//go:norace
func (x *Int32) Add(d int32) int32 {
	nd.Sched()
	nd.HBAcquire(&x.c)
	x.v += d
	nd.HBRelease(&x.c)
	return x.v
}

//go:norace
func (x *Int32) Swap(v int32) int32 {
	nd.Sched()
	nd.HBAcquire(&x.c)
	o := x.v
	x.v = v
	nd.HBRelease(&x.c)
	return o
}

//go:norace
func (x *Int32) CompareAndSwap(o, v int32) bool {
	nd.Sched()
	nd.HBAcquire(&x.c)
	if x.v != o {
		return false
	}
	x.v = v
	nd.HBRelease(&x.c)
	return true
}

//go:norace
func LoadInt64(p *int64) int64 {
	nd.Sched()
	nd.HBAcquire(p)
	return *p
}

//go:norace
func StoreInt64(p *int64, v int64) {
	nd.Sched()
	*p = v
	nd.HBRelease(p)
}

//go:norace
func AddInt64(p *int64, d int64) int64 {
	nd.Sched()
	nd.HBAcquire(p)
	*p += d
	nd.HBRelease(p)
	return *p
}

//go:norace
func SwapInt64(p *int64, v int64) int64 {
	nd.Sched()
	nd.HBAcquire(p)
	o := *p
	*p = v
	nd.HBRelease(p)
	return o
}

//go:norace
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	nd.Sched()
	nd.HBAcquire(p)
	if *p != o {
		return false
	}
	*p = v
	nd.HBRelease(p)
	return true
}

type Int64 struct {
	v int64
	c int
}

//go:norace
func (x *Int64) Load() int64 {
	nd.Sched()
	nd.HBAcquire(&x.c)
	return x.v
}

//go:norace
func (x *Int64) Store(v int64) {
	nd.Sched()
	x.v = v
	nd.HBRelease(&x.c)
}

//go:norace
func (x *Int64) Add(d int64) int64 {
	nd.Sched()
	nd.HBAcquire(&x.c)
	x.v += d
	nd.HBRelease(&x.c)
	return x.v
}

//go:norace
func (x *Int64) Swap(v int64) int64 {
	nd.Sched()
	nd.HBAcquire(&x.c)
	o := x.v
	x.v = v
	nd.HBRelease(&x.c)
	return o
}

//go:norace
func (x *Int64) CompareAndSwap(o, v int64) bool {
	nd.Sched()
	nd.HBAcquire(&x.c)
	if x.v != o {
		return false
	}
	x.v = v
	nd.HBRelease(&x.c)
	return true
}

//go:norace
func LoadUint32(p *uint32) uint32 {
	nd.Sched()
	nd.HBAcquire(p)
	return *p
}

//go:norace
func StoreUint32(p *uint32, v uint32) {
	nd.Sched()
	*p = v
	nd.HBRelease(p)
}

//go:norace
func AddUint32(p *uint32, d uint32) uint32 {
	nd.Sched()
	nd.HBAcquire(p)
	*p += d
	nd.HBRelease(p)
	return *p
}

//go:norace
func SwapUint32(p *uint32, v uint32) uint32 {
	nd.Sched()
	nd.HBAcquire(p)
	o := *p
	*p = v
	nd.HBRelease(p)
	return o
}

//go:norace
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	nd.Sched()
	nd.HBAcquire(p)
	if *p != o {
		return false
	}
	*p = v
	nd.HBRelease(p)
	return true
}

type Uint32 struct {
	v uint32
	c int
}

//go:norace
func (x *Uint32) Load() uint32 {
	nd.Sched()
	nd.HBAcquire(&x.c)
	return x.v
}

//go:norace
func (x *Uint32) Store(v uint32) {
	nd.Sched()
	x.v = v
	nd.HBRelease(&x.c)
}

//go:norace
func (x *Uint32) Add(d uint32) uint32 {
	nd.Sched()
	nd.HBAcquire(&x.c)
	x.v += d
	nd.HBRelease(&x.c)
	return x.v
}

//go:norace
func (x *Uint32) Swap(v uint32) uint32 {
	nd.Sched()
	nd.HBAcquire(&x.c)
	o := x.v
	x.v = v
	nd.HBRelease(&x.c)
	return o
}

//go:norace
func (x *Uint32) CompareAndSwap(o, v uint32) bool {
	nd.Sched()
	nd.HBAcquire(&x.c)
	if x.v != o {
		return false
	}
	x.v = v
	nd.HBRelease(&x.c)
	return true
}

//go:norace
func LoadUint64(p *uint64) uint64 {
	nd.Sched()
	nd.HBAcquire(p)
	return *p
}

//go:norace
func StoreUint64(p *uint64, v uint64) {
	nd.Sched()
	*p = v
	nd.HBRelease(p)
}

//go:norace
func AddUint64(p *uint64, d uint64) uint64 {
	nd.Sched()
	nd.HBAcquire(p)
	*p += d
	nd.HBRelease(p)
	return *p
}

//go:norace
func SwapUint64(p *uint64, v uint64) uint64 {
	nd.Sched()
	nd.HBAcquire(p)
	o := *p
	*p = v
	nd.HBRelease(p)
	return o
}

//go:norace
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	nd.Sched()
	nd.HBAcquire(p)
	if *p != o {
		return false
	}
	*p = v
	nd.HBRelease(p)
	return true
}

type Uint64 struct {
	v uint64
	c int
}

//go:norace
func (x *Uint64) Load() uint64 {
	nd.Sched()
	nd.HBAcquire(&x.c)
	return x.v
}

//go:norace
func (x *Uint64) Store(v uint64) {
	nd.Sched()
	x.v = v
	nd.HBRelease(&x.c)
}

//go:norace
func (x *Uint64) Add(d uint64) uint64 {
	nd.Sched()
	nd.HBAcquire(&x.c)
	x.v += d
	nd.HBRelease(&x.c)
	return x.v
}

//go:norace
func (x *Uint64) Swap(v uint64) uint64 {
	nd.Sched()
	nd.HBAcquire(&x.c)
	o := x.v
	x.v = v
	nd.HBRelease(&x.c)
	return o
}

//go:norace
func (x *Uint64) CompareAndSwap(o, v uint64) bool {
	nd.Sched()
	nd.HBAcquire(&x.c)
	if x.v != o {
		return false
	}
	x.v = v
	nd.HBRelease(&x.c)
	return true
}

//go:norace
func LoadUintptr(p *uintptr) uintptr {
	nd.Sched()
	nd.HBAcquire(p)
	return *p
}

//go:norace
func StoreUintptr(p *uintptr, v uintptr) {
	nd.Sched()
	*p = v
	nd.HBRelease(p)
}

//go:norace
func AddUintptr(p *uintptr, d uintptr) uintptr {
	nd.Sched()
	nd.HBAcquire(p)
	*p += d
	nd.HBRelease(p)
	return *p
}

//go:norace
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	nd.Sched()
	nd.HBAcquire(p)
	o := *p
	*p = v
	nd.HBRelease(p)
	return o
}

//go:norace
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	nd.Sched()
	nd.HBAcquire(p)
	if *p != o {
		return false
	}
	*p = v
	nd.HBRelease(p)
	return true
}

type Uintptr struct {
	v uintptr
	c int
}

//go:norace
func (x *Uintptr) Load() uintptr {
	nd.Sched()
	nd.HBAcquire(&x.c)
	return x.v
}

//go:norace
func (x *Uintptr) Store(v uintptr) {
	nd.Sched()
	x.v = v
	nd.HBRelease(&x.c)
}

//go:norace
func (x *Uintptr) Add(d uintptr) uintptr {
	nd.Sched()
	nd.HBAcquire(&x.c)
	x.v += d
	nd.HBRelease(&x.c)
	return x.v
}

//go:norace
func (x *Uintptr) Swap(v uintptr) uintptr {
	nd.Sched()
	nd.HBAcquire(&x.c)
	o := x.v
	x.v = v
	nd.HBRelease(&x.c)
	return o
}

//go:norace
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool {
	nd.Sched()
	nd.HBAcquire(&x.c)
	if x.v != o {
		return false
	}
	x.v = v
	nd.HBRelease(&x.c)
	return true
}

type Bool struct {
	v bool
	c int
}

//go:norace
func (x *Bool) Load() bool {
	nd.Sched()
	nd.HBAcquire(&x.c)
	return x.v
}

//go:norace
func (x *Bool) Store(v bool) {
	nd.Sched()
	x.v = v
	nd.HBRelease(&x.c)
}

//go:norace
func (x *Bool) Swap(v bool) bool {
	nd.Sched()
	nd.HBAcquire(&x.c)
	o := x.v
	x.v = v
	nd.HBRelease(&x.c)
	return o
}

//go:norace
func (x *Bool) CompareAndSwap(o, v bool) bool {
	nd.Sched()
	nd.HBAcquire(&x.c)
	if x.v != o {
		return false
	}
	x.v = v
	nd.HBRelease(&x.c)
	return true
}

type Pointer[T any] struct {
	v *T
	c int
}

//go:norace
func (x *Pointer[T]) Load() *T {
	nd.Sched()
	nd.HBAcquire(&x.c)
	return x.v
}

//go:norace
func (x *Pointer[T]) Store(v *T) {
	nd.Sched()
	x.v = v
	nd.HBRelease(&x.c)
}

//go:norace
func (x *Pointer[T]) Swap(v *T) *T {
	nd.Sched()
	nd.HBAcquire(&x.c)
	o := x.v
	x.v = v
	nd.HBRelease(&x.c)
	return o
}

//go:norace
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	nd.Sched()
	nd.HBAcquire(&x.c)
	if x.v != o {
		return false
	}
	x.v = v
	nd.HBRelease(&x.c)
	return true
}

type Value struct {
	v any
	c int
}

//go:norace
func (x *Value) Load() any {
	nd.Sched()
	nd.HBAcquire(&x.c)
	return x.v
}

//go:norace
func (x *Value) Store(v any) {
	nd.Sched()
	x.v = v
	nd.HBRelease(&x.c)
}

//go:norace
func (x *Value) Swap(v any) any {
	nd.Sched()
	nd.HBAcquire(&x.c)
	o := x.v
	x.v = v
	nd.HBRelease(&x.c)
	return o
}

//go:norace
func (x *Value) CompareAndSwap(o, v any) bool {
	nd.Sched()
	nd.HBAcquire(&x.c)
	if x.v != o {
		return false
	}
	x.v = v
	nd.HBRelease(&x.c)
	return true
}
