// Code generated by gen.py; DO NOT EDIT.

// Package vatomic has the interface of sync/atomic; every operation is a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verifmc/vsched"
)

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func AddInt32(addr *int32, delta int32) int32 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.AddInt32(addr, delta)
	vsched.Note(uint64(v))
	vsched.Log("atomic add %d -> %d", delta, v)
	return v
}

func AndInt32(addr *int32, mask int32) int32 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.AndInt32(addr, mask)
	vsched.Note(uint64(v))
	return v
}

func OrInt32(addr *int32, mask int32) int32 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.OrInt32(addr, mask)
	vsched.Note(uint64(v))
	return v
}

func LoadInt32(addr *int32) int32 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), false)
	v := atomic.LoadInt32(addr)
	vsched.Note(uint64(v))
	vsched.Log("atomic load -> %d", v)
	return v
}

func StoreInt32(addr *int32, val int32) {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	vsched.Log("atomic store %d", val)
	vsched.Note(2)
	atomic.StoreInt32(addr, val)
}

func SwapInt32(addr *int32, val int32) int32 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.SwapInt32(addr, val)
	vsched.Note(uint64(v))
	vsched.Log("atomic swap %d -> %d", val, v)
	return v
}

func CompareAndSwapInt32(addr *int32, o, n int32) bool {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	ok := atomic.CompareAndSwapInt32(addr, o, n)
	vsched.Note(b2u(ok) + 10)
	vsched.Log("atomic compare-and-swap %d -> %d: %v", o, n, ok)
	return ok
}

// Int32 is atomic.Int32.
type Int32 struct {
	_ [0]atomic.Int32
	v int32
}

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(val int32)                { StoreInt32(&x.v, val) }
func (x *Int32) Swap(val int32) int32           { return SwapInt32(&x.v, val) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(d int32) int32              { return AndInt32(&x.v, d) }
func (x *Int32) Or(d int32) int32               { return OrInt32(&x.v, d) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func AddInt64(addr *int64, delta int64) int64 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.AddInt64(addr, delta)
	vsched.Note(uint64(v))
	vsched.Log("atomic add %d -> %d", delta, v)
	return v
}

func AndInt64(addr *int64, mask int64) int64 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.AndInt64(addr, mask)
	vsched.Note(uint64(v))
	return v
}

func OrInt64(addr *int64, mask int64) int64 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.OrInt64(addr, mask)
	vsched.Note(uint64(v))
	return v
}

func LoadInt64(addr *int64) int64 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), false)
	v := atomic.LoadInt64(addr)
	vsched.Note(uint64(v))
	vsched.Log("atomic load -> %d", v)
	return v
}

func StoreInt64(addr *int64, val int64) {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	vsched.Log("atomic store %d", val)
	vsched.Note(2)
	atomic.StoreInt64(addr, val)
}

func SwapInt64(addr *int64, val int64) int64 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.SwapInt64(addr, val)
	vsched.Note(uint64(v))
	vsched.Log("atomic swap %d -> %d", val, v)
	return v
}

func CompareAndSwapInt64(addr *int64, o, n int64) bool {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	ok := atomic.CompareAndSwapInt64(addr, o, n)
	vsched.Note(b2u(ok) + 10)
	vsched.Log("atomic compare-and-swap %d -> %d: %v", o, n, ok)
	return ok
}

// Int64 is atomic.Int64.
type Int64 struct {
	_ [0]atomic.Int64
	v int64
}

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(val int64)                { StoreInt64(&x.v, val) }
func (x *Int64) Swap(val int64) int64           { return SwapInt64(&x.v, val) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(d int64) int64              { return AndInt64(&x.v, d) }
func (x *Int64) Or(d int64) int64               { return OrInt64(&x.v, d) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func AddUint32(addr *uint32, delta uint32) uint32 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.AddUint32(addr, delta)
	vsched.Note(uint64(v))
	vsched.Log("atomic add %d -> %d", delta, v)
	return v
}

func AndUint32(addr *uint32, mask uint32) uint32 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.AndUint32(addr, mask)
	vsched.Note(uint64(v))
	return v
}

func OrUint32(addr *uint32, mask uint32) uint32 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.OrUint32(addr, mask)
	vsched.Note(uint64(v))
	return v
}

func LoadUint32(addr *uint32) uint32 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), false)
	v := atomic.LoadUint32(addr)
	vsched.Note(uint64(v))
	vsched.Log("atomic load -> %d", v)
	return v
}

func StoreUint32(addr *uint32, val uint32) {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	vsched.Log("atomic store %d", val)
	vsched.Note(2)
	atomic.StoreUint32(addr, val)
}

func SwapUint32(addr *uint32, val uint32) uint32 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.SwapUint32(addr, val)
	vsched.Note(uint64(v))
	vsched.Log("atomic swap %d -> %d", val, v)
	return v
}

func CompareAndSwapUint32(addr *uint32, o, n uint32) bool {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	ok := atomic.CompareAndSwapUint32(addr, o, n)
	vsched.Note(b2u(ok) + 10)
	vsched.Log("atomic compare-and-swap %d -> %d: %v", o, n, ok)
	return ok
}

// Uint32 is atomic.Uint32.
type Uint32 struct {
	_ [0]atomic.Uint32
	v uint32
}

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(val uint32)                { StoreUint32(&x.v, val) }
func (x *Uint32) Swap(val uint32) uint32          { return SwapUint32(&x.v, val) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(d uint32) uint32             { return AndUint32(&x.v, d) }
func (x *Uint32) Or(d uint32) uint32              { return OrUint32(&x.v, d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func AddUint64(addr *uint64, delta uint64) uint64 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.AddUint64(addr, delta)
	vsched.Note(uint64(v))
	vsched.Log("atomic add %d -> %d", delta, v)
	return v
}

func AndUint64(addr *uint64, mask uint64) uint64 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.AndUint64(addr, mask)
	vsched.Note(uint64(v))
	return v
}

func OrUint64(addr *uint64, mask uint64) uint64 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.OrUint64(addr, mask)
	vsched.Note(uint64(v))
	return v
}

func LoadUint64(addr *uint64) uint64 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), false)
	v := atomic.LoadUint64(addr)
	vsched.Note(uint64(v))
	vsched.Log("atomic load -> %d", v)
	return v
}

func StoreUint64(addr *uint64, val uint64) {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	vsched.Log("atomic store %d", val)
	vsched.Note(2)
	atomic.StoreUint64(addr, val)
}

func SwapUint64(addr *uint64, val uint64) uint64 {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.SwapUint64(addr, val)
	vsched.Note(uint64(v))
	vsched.Log("atomic swap %d -> %d", val, v)
	return v
}

func CompareAndSwapUint64(addr *uint64, o, n uint64) bool {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	ok := atomic.CompareAndSwapUint64(addr, o, n)
	vsched.Note(b2u(ok) + 10)
	vsched.Log("atomic compare-and-swap %d -> %d: %v", o, n, ok)
	return ok
}

// Uint64 is atomic.Uint64.
type Uint64 struct {
	_ [0]atomic.Uint64
	v uint64
}

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(val uint64)                { StoreUint64(&x.v, val) }
func (x *Uint64) Swap(val uint64) uint64          { return SwapUint64(&x.v, val) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(d uint64) uint64             { return AndUint64(&x.v, d) }
func (x *Uint64) Or(d uint64) uint64              { return OrUint64(&x.v, d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func AddUintptr(addr *uintptr, delta uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.AddUintptr(addr, delta)
	vsched.Note(uint64(v))
	vsched.Log("atomic add %d -> %d", delta, v)
	return v
}

func AndUintptr(addr *uintptr, mask uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.AndUintptr(addr, mask)
	vsched.Note(uint64(v))
	return v
}

func OrUintptr(addr *uintptr, mask uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.OrUintptr(addr, mask)
	vsched.Note(uint64(v))
	return v
}

func LoadUintptr(addr *uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), false)
	v := atomic.LoadUintptr(addr)
	vsched.Note(uint64(v))
	vsched.Log("atomic load -> %d", v)
	return v
}

func StoreUintptr(addr *uintptr, val uintptr) {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	vsched.Log("atomic store %d", val)
	vsched.Note(2)
	atomic.StoreUintptr(addr, val)
}

func SwapUintptr(addr *uintptr, val uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.SwapUintptr(addr, val)
	vsched.Note(uint64(v))
	vsched.Log("atomic swap %d -> %d", val, v)
	return v
}

func CompareAndSwapUintptr(addr *uintptr, o, n uintptr) bool {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	ok := atomic.CompareAndSwapUintptr(addr, o, n)
	vsched.Note(b2u(ok) + 10)
	vsched.Log("atomic compare-and-swap %d -> %d: %v", o, n, ok)
	return ok
}

// Uintptr is atomic.Uintptr.
type Uintptr struct {
	_ [0]atomic.Uintptr
	v uintptr
}

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(val uintptr)                { StoreUintptr(&x.v, val) }
func (x *Uintptr) Swap(val uintptr) uintptr         { return SwapUintptr(&x.v, val) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(d uintptr) uintptr            { return AndUintptr(&x.v, d) }
func (x *Uintptr) Or(d uintptr) uintptr             { return OrUintptr(&x.v, d) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

func LoadPointer(addr *unsafe.Pointer) unsafe.Pointer {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), false)
	v := atomic.LoadPointer(addr)
	vsched.Note(uint64(uintptr(v)))
	return v
}

func StorePointer(addr *unsafe.Pointer, val unsafe.Pointer) {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	atomic.StorePointer(addr, val)
}

func SwapPointer(addr *unsafe.Pointer, val unsafe.Pointer) unsafe.Pointer {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.SwapPointer(addr, val)
	vsched.Note(uint64(uintptr(v)))
	return v
}

func CompareAndSwapPointer(addr *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	ok := atomic.CompareAndSwapPointer(addr, o, n)
	vsched.Note(b2u(ok))
	return ok
}

// Bool is atomic.Bool.
type Bool struct{ v Uint32 }

func (x *Bool) Load() bool       { return x.v.Load() != 0 }
func (x *Bool) Store(b bool)     { x.v.Store(uint32(b2u(b))) }
func (x *Bool) Swap(b bool) bool { return x.v.Swap(uint32(b2u(b))) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	return x.v.CompareAndSwap(uint32(b2u(o)), uint32(b2u(n)))
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), false)
	v := x.v.Load()
	vsched.Note(uint64(uintptr(unsafe.Pointer(v))))
	return v
}

func (x *Pointer[T]) Store(val *T) {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), true)
	x.v.Store(val)
}

func (x *Pointer[T]) Swap(val *T) *T {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), true)
	v := x.v.Swap(val)
	vsched.Note(uint64(uintptr(unsafe.Pointer(v))))
	return v
}

func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), true)
	ok := x.v.CompareAndSwap(o, n)
	vsched.Note(b2u(ok))
	return ok
}

// Value is atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() interface{} {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), false)
	return x.v.Load()
}

func (x *Value) Store(val interface{}) {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), true)
	x.v.Store(val)
}

func (x *Value) Swap(val interface{}) interface{} {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), true)
	return x.v.Swap(val)
}

func (x *Value) CompareAndSwap(o, n interface{}) bool {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), true)
	return x.v.CompareAndSwap(o, n)
}
