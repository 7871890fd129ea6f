// Package vsync has the interface of sync; every operation is a scheduling point and blocking is known
// to the scheduler.
package vsync

import (
	"sync"
	"unsafe"

	"verifmc/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is sync.Mutex. Threads under exploration run one at a time; elsewhere it is not contended.
type Mutex struct{ held int32 }

func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.held++
		return
	}
	vsched.Wait(func() bool { return m.held == 0 })
	m.held++
	vsched.Note(21)
	vsched.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	vsched.Step(22)
	if m.held != 0 {
		vsched.Note(0)
		return false
	}
	m.held = 1
	vsched.Note(1)
	vsched.Acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	vsched.Release(unsafe.Pointer(m))
	vsched.Step(23)
	m.held--
}

// RWMutex is sync.RWMutex.
type RWMutex struct{ w, r int32 }

func (m *RWMutex) Lock() {
	if vsched.Active() {
		vsched.Wait(func() bool { return m.w == 0 && m.r == 0 })
	}
	m.w++
	vsched.Note(24)
	vsched.Acquire(unsafe.Pointer(m))
	vsched.Acquire(unsafe.Pointer(&m.r))
}

func (m *RWMutex) TryLock() bool {
	vsched.Step(25)
	if m.w != 0 || m.r != 0 {
		return false
	}
	m.w = 1
	vsched.Acquire(unsafe.Pointer(m))
	vsched.Acquire(unsafe.Pointer(&m.r))
	return true
}

func (m *RWMutex) Unlock() {
	vsched.Release(unsafe.Pointer(m))
	vsched.Step(26)
	m.w--
}

func (m *RWMutex) RLock() {
	if vsched.Active() {
		vsched.Wait(func() bool { return m.w == 0 })
	}
	m.r++
	vsched.Note(27)
	vsched.Acquire(unsafe.Pointer(m))
}

func (m *RWMutex) TryRLock() bool {
	vsched.Step(28)
	if m.w != 0 {
		return false
	}
	m.r++
	vsched.Acquire(unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RUnlock() {
	vsched.Release(unsafe.Pointer(&m.r))
	vsched.Step(29)
	m.r--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	vsched.Step(30)
	if o.done {
		vsched.Acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			vsched.Release(unsafe.Pointer(o))
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) { vsched.Step(31); w.n += d; vsched.Release(unsafe.Pointer(w)) }
func (w *WaitGroup) Done()     { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vsched.Wait(func() bool { return w.n <= 0 })
	vsched.Acquire(unsafe.Pointer(w))
}

// Pool is sync.Pool; it always hands out the item put last.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	vsched.Step(32)
	vsched.Acquire(unsafe.Pointer(p))
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	vsched.Step(33)
	if x != nil && len(p.items) < 64 {
		p.items = append(p.items, x)
	}
	vsched.Release(unsafe.Pointer(p))
}

// Map is sync.Map.
type Map struct{ m sync.Map }

func (m *Map) enter() { vsched.Step(34); vsched.Acquire(unsafe.Pointer(m)) }
func (m *Map) leave() { vsched.Release(unsafe.Pointer(m)) }

func (m *Map) Load(k interface{}) (interface{}, bool) { m.enter(); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { m.enter(); defer m.leave(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.enter()
	defer m.leave()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.enter()
	defer m.leave()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k interface{}) { m.enter(); defer m.leave(); m.m.Delete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.enter()
	defer m.leave()
	return m.m.Swap(k, v)
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.enter()
	defer m.leave()
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.enter()
	defer m.leave()
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v interface{}) bool) { m.enter(); m.m.Range(f) }
func (m *Map) Clear()                              { m.enter(); defer m.leave(); m.m.Clear() }

// Cond is sync.Cond.
type Cond struct {
	L   Locker
	gen int
	sig int
	w   int
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	g := c.gen
	c.w++
	c.L.Unlock()
	vsched.Wait(func() bool { return c.gen != g || c.sig > 0 })
	if c.gen == g {
		c.sig--
	}
	c.w--
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsched.Step(35)
	if c.w > c.sig {
		c.sig++
	}
}
func (c *Cond) Broadcast() { vsched.Step(36); c.gen++ }
