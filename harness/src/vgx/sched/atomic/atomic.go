// Package atomic stands in for sync/atomic in instrumented code: same API, with
// a scheduling point before every operation and the ordering it creates.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"vgx/sched"
)

func load[T any](p *T) T {
	sched.Yield()
	sched.Acquire(uintptr(unsafe.Pointer(p)))
	return *p
}

func store[T any](p *T, v T) {
	sched.Yield()
	*p = v
	sched.Release(uintptr(unsafe.Pointer(p)))
}

func swap[T any](p *T, v T) (old T) {
	sched.Yield()
	sched.Acquire(uintptr(unsafe.Pointer(p)))
	old, *p = *p, v
	sched.Release(uintptr(unsafe.Pointer(p)))
	return old
}

func cas[T comparable](p *T, old, new T) bool {
	sched.Yield()
	sched.Acquire(uintptr(unsafe.Pointer(p)))
	if *p != old {
		return false
	}
	*p = new
	sched.Release(uintptr(unsafe.Pointer(p)))
	return true
}

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func rmw[T integer](p *T, f func(T) T) (old, new T) {
	sched.Yield()
	sched.Acquire(uintptr(unsafe.Pointer(p)))
	old = *p
	*p = f(old)
	sched.Release(uintptr(unsafe.Pointer(p)))
	return old, *p
}

func add[T integer](p *T, d T) T { _, n := rmw(p, func(v T) T { return v + d }); return n }
func and[T integer](p *T, m T) T { o, _ := rmw(p, func(v T) T { return v & m }); return o }
func or[T integer](p *T, m T) T  { o, _ := rmw(p, func(v T) T { return v | m }); return o }

func LoadInt32(p *int32) int32                          { return load(p) }
func StoreInt32(p *int32, v int32)                      { store(p, v) }
func SwapInt32(p *int32, v int32) int32                 { return swap(p, v) }
func CompareAndSwapInt32(p *int32, old, new int32) bool { return cas(p, old, new) }
func AddInt32(p *int32, d int32) int32                  { return add(p, d) }
func AndInt32(p *int32, m int32) int32                  { return and(p, m) }
func OrInt32(p *int32, m int32) int32                   { return or(p, m) }

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                        { return load(&x.v) }
func (x *Int32) Store(v int32)                      { store(&x.v, v) }
func (x *Int32) Swap(v int32) int32                 { return swap(&x.v, v) }
func (x *Int32) CompareAndSwap(old, new int32) bool { return cas(&x.v, old, new) }
func (x *Int32) Add(d int32) int32                  { return add(&x.v, d) }
func (x *Int32) And(m int32) int32                  { return and(&x.v, m) }
func (x *Int32) Or(m int32) int32                   { return or(&x.v, m) }

func LoadInt64(p *int64) int64                          { return load(p) }
func StoreInt64(p *int64, v int64)                      { store(p, v) }
func SwapInt64(p *int64, v int64) int64                 { return swap(p, v) }
func CompareAndSwapInt64(p *int64, old, new int64) bool { return cas(p, old, new) }
func AddInt64(p *int64, d int64) int64                  { return add(p, d) }
func AndInt64(p *int64, m int64) int64                  { return and(p, m) }
func OrInt64(p *int64, m int64) int64                   { return or(p, m) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                        { return load(&x.v) }
func (x *Int64) Store(v int64)                      { store(&x.v, v) }
func (x *Int64) Swap(v int64) int64                 { return swap(&x.v, v) }
func (x *Int64) CompareAndSwap(old, new int64) bool { return cas(&x.v, old, new) }
func (x *Int64) Add(d int64) int64                  { return add(&x.v, d) }
func (x *Int64) And(m int64) int64                  { return and(&x.v, m) }
func (x *Int64) Or(m int64) int64                   { return or(&x.v, m) }

func LoadUint32(p *uint32) uint32                          { return load(p) }
func StoreUint32(p *uint32, v uint32)                      { store(p, v) }
func SwapUint32(p *uint32, v uint32) uint32                { return swap(p, v) }
func CompareAndSwapUint32(p *uint32, old, new uint32) bool { return cas(p, old, new) }
func AddUint32(p *uint32, d uint32) uint32                 { return add(p, d) }
func AndUint32(p *uint32, m uint32) uint32                 { return and(p, m) }
func OrUint32(p *uint32, m uint32) uint32                  { return or(p, m) }

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                        { return load(&x.v) }
func (x *Uint32) Store(v uint32)                      { store(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32                { return swap(&x.v, v) }
func (x *Uint32) CompareAndSwap(old, new uint32) bool { return cas(&x.v, old, new) }
func (x *Uint32) Add(d uint32) uint32                 { return add(&x.v, d) }
func (x *Uint32) And(m uint32) uint32                 { return and(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32                  { return or(&x.v, m) }

func LoadUint64(p *uint64) uint64                          { return load(p) }
func StoreUint64(p *uint64, v uint64)                      { store(p, v) }
func SwapUint64(p *uint64, v uint64) uint64                { return swap(p, v) }
func CompareAndSwapUint64(p *uint64, old, new uint64) bool { return cas(p, old, new) }
func AddUint64(p *uint64, d uint64) uint64                 { return add(p, d) }
func AndUint64(p *uint64, m uint64) uint64                 { return and(p, m) }
func OrUint64(p *uint64, m uint64) uint64                  { return or(p, m) }

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                        { return load(&x.v) }
func (x *Uint64) Store(v uint64)                      { store(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64                { return swap(&x.v, v) }
func (x *Uint64) CompareAndSwap(old, new uint64) bool { return cas(&x.v, old, new) }
func (x *Uint64) Add(d uint64) uint64                 { return add(&x.v, d) }
func (x *Uint64) And(m uint64) uint64                 { return and(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64                  { return or(&x.v, m) }

func LoadUintptr(p *uintptr) uintptr                          { return load(p) }
func StoreUintptr(p *uintptr, v uintptr)                      { store(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr               { return swap(p, v) }
func CompareAndSwapUintptr(p *uintptr, old, new uintptr) bool { return cas(p, old, new) }
func AddUintptr(p *uintptr, d uintptr) uintptr                { return add(p, d) }
func AndUintptr(p *uintptr, m uintptr) uintptr                { return and(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr                 { return or(p, m) }

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                        { return load(&x.v) }
func (x *Uintptr) Store(v uintptr)                      { store(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr               { return swap(&x.v, v) }
func (x *Uintptr) CompareAndSwap(old, new uintptr) bool { return cas(&x.v, old, new) }
func (x *Uintptr) Add(d uintptr) uintptr                { return add(&x.v, d) }
func (x *Uintptr) And(m uintptr) uintptr                { return and(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr                 { return or(&x.v, m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer                          { return load(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer)                      { store(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer        { return swap(p, v) }
func CompareAndSwapPointer(p *unsafe.Pointer, old, new unsafe.Pointer) bool { return cas(p, old, new) }

type Bool struct{ v bool }

func (x *Bool) Load() bool                        { return load(&x.v) }
func (x *Bool) Store(v bool)                      { store(&x.v, v) }
func (x *Bool) Swap(v bool) bool                  { return swap(&x.v, v) }
func (x *Bool) CompareAndSwap(old, new bool) bool { return cas(&x.v, old, new) }

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T                        { return load(&x.v) }
func (x *Pointer[T]) Store(v *T)                      { store(&x.v, v) }
func (x *Pointer[T]) Swap(v *T) *T                    { return swap(&x.v, v) }
func (x *Pointer[T]) CompareAndSwap(old, new *T) bool { return cas(&x.v, old, new) }

type Value struct{ v atomic.Value }

func (x *Value) at() uintptr         { return uintptr(unsafe.Pointer(x)) }
func (x *Value) Load() interface{}   { sched.Yield(); sched.Acquire(x.at()); return x.v.Load() }
func (x *Value) Store(v interface{}) { sched.Yield(); x.v.Store(v); sched.Release(x.at()) }
func (x *Value) Swap(v interface{}) interface{} {
	sched.Yield()
	sched.Acquire(x.at())
	o := x.v.Swap(v)
	sched.Release(x.at())
	return o
}
func (x *Value) CompareAndSwap(old, new interface{}) bool {
	sched.Yield()
	sched.Acquire(x.at())
	ok := x.v.CompareAndSwap(old, new)
	if ok {
		sched.Release(x.at())
	}
	return ok
}
