# generates the sync/atomic shim
out=['''// Code generated by gen.py; DO NOT EDIT.

// Package vatomic has the interface of sync/atomic; every operation is a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verifmc/vsched"
)

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
''']
for N,T in [('Int32','int32'),('Int64','int64'),('Uint32','uint32'),('Uint64','uint64'),('Uintptr','uintptr')]:
    out.append(f'''
func Add{N}(addr *{T}, delta {T}) {T} {{
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.Add{N}(addr, delta)
	vsched.Note(uint64(v))
	vsched.Log("atomic add %d -> %d", delta, v)
	return v
}}

func And{N}(addr *{T}, mask {T}) {T} {{
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.And{N}(addr, mask)
	vsched.Note(uint64(v))
	return v
}}

func Or{N}(addr *{T}, mask {T}) {T} {{
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.Or{N}(addr, mask)
	vsched.Note(uint64(v))
	return v
}}

func Load{N}(addr *{T}) {T} {{
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), false)
	v := atomic.Load{N}(addr)
	vsched.Note(uint64(v))
	vsched.Log("atomic load -> %d", v)
	return v
}}

func Store{N}(addr *{T}, val {T}) {{
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	vsched.Log("atomic store %d", val)
	vsched.Note(2)
	atomic.Store{N}(addr, val)
}}

func Swap{N}(addr *{T}, val {T}) {T} {{
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.Swap{N}(addr, val)
	vsched.Note(uint64(v))
	vsched.Log("atomic swap %d -> %d", val, v)
	return v
}}

func CompareAndSwap{N}(addr *{T}, o, n {T}) bool {{
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	ok := atomic.CompareAndSwap{N}(addr, o, n)
	vsched.Note(b2u(ok) + 10)
	vsched.Log("atomic compare-and-swap %d -> %d: %v", o, n, ok)
	return ok
}}

// {N} is atomic.{N}.
type {N} struct {{
	_ [0]atomic.{N}
	v {T}
}}

func (x *{N}) Load() {T}                 {{ return Load{N}(&x.v) }}
func (x *{N}) Store(val {T})             {{ Store{N}(&x.v, val) }}
func (x *{N}) Swap(val {T}) {T}          {{ return Swap{N}(&x.v, val) }}
func (x *{N}) Add(d {T}) {T}             {{ return Add{N}(&x.v, d) }}
func (x *{N}) And(d {T}) {T}             {{ return And{N}(&x.v, d) }}
func (x *{N}) Or(d {T}) {T}              {{ return Or{N}(&x.v, d) }}
func (x *{N}) CompareAndSwap(o, n {T}) bool {{ return CompareAndSwap{N}(&x.v, o, n) }}
''')
out.append('''
func LoadPointer(addr *unsafe.Pointer) unsafe.Pointer {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), false)
	v := atomic.LoadPointer(addr)
	vsched.Note(uint64(uintptr(v)))
	return v
}

func StorePointer(addr *unsafe.Pointer, val unsafe.Pointer) {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	atomic.StorePointer(addr, val)
}

func SwapPointer(addr *unsafe.Pointer, val unsafe.Pointer) unsafe.Pointer {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	v := atomic.SwapPointer(addr, val)
	vsched.Note(uint64(uintptr(v)))
	return v
}

func CompareAndSwapPointer(addr *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsched.Atomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), true)
	ok := atomic.CompareAndSwapPointer(addr, o, n)
	vsched.Note(b2u(ok))
	return ok
}

// Bool is atomic.Bool.
type Bool struct{ v Uint32 }

func (x *Bool) Load() bool           { return x.v.Load() != 0 }
func (x *Bool) Store(b bool)         { x.v.Store(uint32(b2u(b))) }
func (x *Bool) Swap(b bool) bool     { return x.v.Swap(uint32(b2u(b))) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	return x.v.CompareAndSwap(uint32(b2u(o)), uint32(b2u(n)))
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), false)
	v := x.v.Load()
	vsched.Note(uint64(uintptr(unsafe.Pointer(v))))
	return v
}

func (x *Pointer[T]) Store(val *T) {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), true)
	x.v.Store(val)
}

func (x *Pointer[T]) Swap(val *T) *T {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), true)
	v := x.v.Swap(val)
	vsched.Note(uint64(uintptr(unsafe.Pointer(v))))
	return v
}

func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), true)
	ok := x.v.CompareAndSwap(o, n)
	vsched.Note(b2u(ok))
	return ok
}

// Value is atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() interface{} {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), false)
	return x.v.Load()
}

func (x *Value) Store(val interface{}) {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), true)
	x.v.Store(val)
}

func (x *Value) Swap(val interface{}) interface{} {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), true)
	return x.v.Swap(val)
}

func (x *Value) CompareAndSwap(o, n interface{}) bool {
	vsched.Atomic(unsafe.Pointer(x), unsafe.Sizeof(*x), true)
	return x.v.CompareAndSwap(o, n)
}
''')
open('vatomic.go','w').write(''.join(out))
