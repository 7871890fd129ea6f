// Package vsched is a cooperative scheduler: the threads of one execution run one at a time and hand
// over at scheduling points, so that a chooser decides the interleaving. Instrumented library code
// calls P before statements and Ld/Store around shared accesses; the shims vsync and vatomic replace
// sync and sync/atomic.
package vsched

import (
	"fmt"
	"iter"
	"runtime/debug"
	"strings"
	"unsafe"
)

// Chooser decides among n alternatives.
type Chooser interface{ Pick(n int) int }

// Thread is one thread of the program under exploration.
type Thread struct {
	id      int
	name    string
	body    func()
	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	done    bool
	blocked func() bool
	hist    uint64
	vc      []uint32
	streak  int
	panic   string
	est     int  // expected number of scheduling points, with Jump
	points  int  // scheduling points passed
	count   int  // points until the preemption decided on
	skip    int  // points without preemption
	forced  bool // the preemption is due
}

// Run is one execution.
type Run struct {
	C Chooser
	// Bound is the number of preemptions allowed; negative: any number.
	Bound int
	// OnStep runs on the explorer's side after every step of a thread.
	OnStep func()
	// Key identifies the shared state; with Seen, states already explored are not continued.
	Key  func() uint64
	Seen func(uint64) bool
	// Prune is called when Seen says so.
	Prune func()
	// Jump decides the position of the next preemption by one choice instead of one at every point; the
	// schedules covered are the same. It needs a Bound and the threads' expected lengths (see GoEst); at
	// points beyond the expected length every point is a choice again.
	Jump bool
	// Halt and Quantum replace the choices by one fixed schedule each: every thread in turn runs to its
	// point number Halt, then, in the same or (Back) the reverse order, to its end; or the threads take
	// turns of Quantum points.
	Halt, Quantum int
	Back          bool
	// MaxSteps bounds the execution.
	MaxSteps int
	// Trace receives the schedule when not nil.
	Trace func(string)

	threads []*Thread
	cur     *Thread
	aborted bool
	steps   int
	left    int
	races   []string
	cells   map[word]*cell
	sync    map[uintptr][]uint32
	// Overrun tells that MaxSteps was reached.
	Overrun bool
	// Deadlock tells that no thread could continue.
	Deadlock bool
}

var active *Run
var quiet bool

// Active tells whether the caller runs as a thread under exploration.
func Active() bool { return active != nil && active.cur != nil && !quiet && !active.aborted }

// Quiet runs f without scheduling points.
func Quiet(f func()) {
	q := quiet
	quiet = true
	defer func() { quiet = q }()
	f()
}

// Go adds a thread.
func (r *Run) Go(name string, body func()) {
	r.threads = append(r.threads, &Thread{id: len(r.threads), name: name, body: body})
}

// GoEst adds a thread expected to pass n scheduling points.
func (r *Run) GoEst(name string, n int, body func()) {
	r.Go(name, body)
	r.threads[len(r.threads)-1].est = n
}

// Result of an execution.
type Result struct {
	Races    []string
	Panics   []string
	Deadlock bool
	Overrun  bool
	Steps    int
}

const fnvP = 1099511628211

func mix(h, v uint64) uint64 {
	for i := 0; i < 8; i++ {
		h = (h ^ (v & 255)) * fnvP
		v >>= 8
	}
	return h
}

// Do explores one schedule.
func (r *Run) Do() Result {
	n := len(r.threads)
	r.left = r.Bound
	r.cells, r.sync = map[word]*cell{}, map[uintptr][]uint32{}
	if r.MaxSteps == 0 {
		r.MaxSteps = 200000
	}
	for _, t := range r.threads {
		t := t
		t.vc = make([]uint32, n)
		t.vc[t.id] = 1
		t.hist = 14695981039346656037
		t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
			t.yield = yield
			defer func() {
				if e := recover(); e != nil && !r.aborted {
					t.panic = fmt.Sprintf("%s: panic: %v", t.name, e)
					if r.Trace != nil {
						r.Trace(string(debug.Stack()))
					}
				}
			}()
			t.body()
		})
	}
	active = r
	defer func() {
		r.aborted = true
		active = r // remaining code of the threads runs to its end without effect on the outcome
		for _, t := range r.threads {
			if !t.done {
				r.cur = t
				t.stop()
			}
		}
		active = nil
	}()
	r.cur = nil
	var last *Thread
	for {
		var en []*Thread
		if last != nil && !last.done && (last.blocked == nil || !last.blocked()) {
			en = append(en, last)
		}
		fair := len(en) > 0 && last.streak > 4000
		free := len(en) == 0
		forced := !free && last.forced
		if last != nil {
			last.forced = false
		}
		for _, t := range r.threads {
			if t != last && !t.done && (t.blocked == nil || !t.blocked()) {
				en = append(en, t)
			}
		}
		if len(en) == 0 {
			for _, t := range r.threads {
				if !t.done {
					r.Deadlock = true
				}
			}
			break
		}
		pick := 0
		switch {
		case r.Halt > 0 || r.Quantum > 0:
			pick = r.fixed(en, last)
		case fair && len(en) > 1:
			pick = 1
		case forced && len(en) > 1:
			pick = 1 + r.C.Pick(len(en)-1)
		case forced:
		case free || r.left != 0:
			if r.Seen != nil && r.Key != nil && r.Seen(r.stateKey(last)) {
				r.Prune()
			}
			if len(en) > 1 {
				pick = r.C.Pick(len(en))
			}
		}
		if !free && pick > 0 && !fair && r.left > 0 {
			r.left--
		}
		t := en[pick]
		if t != last {
			t.streak = 0
			if r.Trace != nil {
				r.Trace("-> " + t.name)
			}
		}
		last = t
		t.blocked = nil
		t.count, t.skip = 0, 0
		if r.Jump && r.left > 0 && r.others(t) && t.est > t.points {
			n := t.est - t.points
			if t.count = r.C.Pick(n + 1); t.count == 0 {
				t.skip = n
			}
		}
		r.cur = t
		_, alive := t.next()
		r.cur = nil
		if !alive {
			t.done = true
		}
		if r.OnStep != nil {
			Quiet(r.OnStep)
		}
		if r.steps > r.MaxSteps {
			r.Overrun = true
			break
		}
	}
	res := Result{Races: r.races, Deadlock: r.Deadlock, Overrun: r.Overrun, Steps: r.steps}
	for _, t := range r.threads {
		if t.panic != "" {
			res.Panics = append(res.Panics, t.panic)
		}
	}
	return res
}

// fixed is the next thread of a fixed schedule.
func (r *Run) fixed(en []*Thread, last *Thread) int {
	best := -1
	rank := func(t *Thread) int {
		n := len(r.threads)
		switch {
		case r.Quantum > 0 && last != nil: // the next one in the circle
			return (t.id - last.id - 1 + n) % n
		case r.Quantum > 0 || t.points < r.Halt:
			return t.id
		case r.Back:
			return 2*n - t.id
		}
		return n + t.id
	}
	for i, t := range en {
		if best < 0 || rank(t) < rank(en[best]) {
			best = i
		}
	}
	return best
}

// others tells whether another thread is not done.
func (r *Run) others(t *Thread) bool {
	for _, o := range r.threads {
		if o != t && !o.done {
			return true
		}
	}
	return false
}

func (r *Run) stateKey(last *Thread) uint64 {
	h := r.Key()
	for _, t := range r.threads {
		h = mix(h, t.hist)
		if t.done {
			h = mix(h, 77)
		}
	}
	if r.Bound >= 0 {
		h = mix(h, uint64(r.left))
		if last != nil {
			h = mix(h, uint64(last.id+1))
		}
	}
	return h
}

// point hands over to the scheduler; wait, when not nil, tells while the thread cannot continue.
func (r *Run) point(wait func() bool) {
	if r.aborted {
		return
	}
	t := r.cur
	r.steps++
	t.streak++
	if r.Key != nil {
		t.hist = mix(t.hist, 0x70) // the thread's position enters the state
	}
	if wait == nil && r.left == 0 && r.Halt == 0 && r.Quantum == 0 && r.OnStep == nil && t.streak <= 4000 && r.steps <= r.MaxSteps {
		return // nothing to decide
	}
	t.points++
	if (r.Halt > 0 || r.Quantum > 0) && wait == nil && t.streak <= 4000 && r.steps <= r.MaxSteps {
		if r.Halt > 0 && t.points != r.Halt || r.Quantum > 0 && t.points%r.Quantum != 0 {
			return
		}
	}
	if r.Jump && wait == nil && t.streak <= 4000 && r.steps <= r.MaxSteps {
		switch {
		case t.count > 1:
			t.count--
			return
		case t.count == 1:
			t.count, t.forced = 0, true
		case t.skip > 0:
			t.skip--
			return
		case !r.others(t):
			return
		}
	}
	t.blocked = wait
	if !t.yield(struct{}{}) {
		r.aborted = true
	}
}

// Count is the number of scheduling points passed outside of any Run while Limit is set; P panics beyond it.
var Count, Limit uint64

// P is a scheduling point.
func P() {
	if active == nil || quiet || active.cur == nil {
		if active == nil && Limit != 0 {
			if Count++; Count > Limit {
				panic("too many statements")
			}
		}
		return
	}
	active.point(nil)
}

func weigh(n int) {
	if Limit != 0 && active == nil && n > 0 {
		if Count += uint64(n); Count > Limit {
			panic("too many statements")
		}
	}
}

// W counts the bytes of a text that a library call reads.
func W[T ~[]byte | ~string](x T) T {
	weigh(len(x))
	return x
}

// N counts bytes copied.
func N(n int) int {
	weigh(n)
	return n
}

// Seek is f(a, b), which looks for b in a; at tells where it finds it.
func Seek[T ~[]byte | ~string, B, R any](f func(T, B) R, at func(T, B) int, a T, b B) R {
	if Limit != 0 && active == nil {
		n := at(a, b)
		if n < 0 {
			n = len(a)
		}
		weigh(n)
	}
	return f(a, b)
}

// Same is f(a, b), which compares texts of equal length.
func Same[T ~[]byte | ~string](f func(a, b T) bool, a, b T) bool {
	if len(a) == len(b) {
		weigh(len(a))
	}
	return f(a, b)
}

// Step is a scheduling point that also enters the thread's history.
func Step(tag uint64) {
	if !Active() {
		return
	}
	active.point(nil)
	Note(tag)
}

// Note enters a value the thread has seen into its history.
func Note(v uint64) {
	if !Active() || active.Key == nil {
		return
	}
	t := active.cur
	t.hist = mix(t.hist, v)
}

// Wait is a scheduling point at which the thread stays until ok.
func Wait(ok func() bool) {
	if !Active() {
		return
	}
	active.point(func() bool { return !ok() })
}

// Log adds to the trace.
func Log(format string, a ...interface{}) {
	if Active() && active.Trace != nil {
		active.Trace("   " + active.cur.name + ": " + fmt.Sprintf(format, a...))
	}
}

// Tracing tells whether Log has an effect.
func Tracing() bool { return Active() && active.Trace != nil }

// ---- happens-before ----

type word struct {
	addr   uintptr
	atomic bool
}

type cell struct {
	wt, wc uint32 // last write: thread+1, clock
	reads  []uint32
	site   string
}

// Acquire and Release order accesses through a synchronisation variable.
func Acquire(p unsafe.Pointer) {
	if !Active() {
		return
	}
	r := active
	for i, c := range r.sync[uintptr(p)] {
		if r.cur.vc[i] < c {
			r.cur.vc[i] = c
		}
	}
}

// Release publishes what the thread did before.
func Release(p unsafe.Pointer) {
	if !Active() {
		return
	}
	r := active
	v := r.sync[uintptr(p)]
	if v == nil {
		v = make([]uint32, len(r.threads))
		r.sync[uintptr(p)] = v
	}
	for i, c := range r.cur.vc {
		if v[i] < c {
			v[i] = c
		}
	}
	r.cur.vc[r.cur.id]++
}

// access checks a plain (or atomic) access of size bytes for a data race.
func access(p unsafe.Pointer, size uintptr, write, atomic bool) {
	if !Active() {
		return
	}
	r := active
	t := r.cur
	for a := uintptr(p); a < uintptr(p)+size; a++ {
		for _, kind := range []bool{false, true} { // plain and atomic history of the byte
			if atomic && kind {
				continue // atomic accesses never race with each other
			}
			c := r.cells[word{a, kind}]
			if c == nil {
				continue
			}
			if c.wt != 0 && int(c.wt-1) != t.id && t.vc[c.wt-1] < c.wc {
				r.race(a, t, int(c.wt-1), write, true)
			}
			if write {
				for i, x := range c.reads {
					if i != t.id && x != 0 && t.vc[i] < x {
						r.race(a, t, i, write, false)
					}
				}
			}
		}
		k := word{a, atomic}
		c := r.cells[k]
		if c == nil {
			c = &cell{reads: make([]uint32, len(r.threads))}
			r.cells[k] = c
		}
		if write {
			c.wt, c.wc = uint32(t.id+1), t.vc[t.id]
		} else {
			c.reads[t.id] = t.vc[t.id]
		}
	}
}

func (r *Run) race(a uintptr, t *Thread, other int, write, otherWrite bool) {
	k := map[bool]string{true: "write", false: "read"}
	s := fmt.Sprintf("unsynchronised %s by %s and %s by %s of the same word", k[write], t.name, k[otherWrite], r.threads[other].name)
	if len(r.races) < 4 && !strings.Contains(strings.Join(r.races, "|"), s) {
		r.races = append(r.races, s)
	}
}

// Ld is a plain load of shared memory.
func Ld[T any](p *T) T {
	if !Active() {
		return *p
	}
	active.point(nil)
	if !Active() {
		return *p
	}
	access(unsafe.Pointer(p), unsafe.Sizeof(*p), false, false)
	v := *p
	Note(hashOf(unsafe.Pointer(p), unsafe.Sizeof(*p)))
	if Tracing() {
		Log("reads %v", v)
	}
	return v
}

// Store is a plain store to shared memory.
func Store[T any](p *T, v T) {
	if !Active() {
		*p = v
		return
	}
	active.point(nil)
	access(unsafe.Pointer(p), unsafe.Sizeof(*p), true, false)
	*p = v
	Note(1)
	if Tracing() {
		Log("writes %v", v)
	}
}

// Atomic is called by the shim around an atomic operation.
func Atomic(p unsafe.Pointer, size uintptr, write bool) {
	if !Active() {
		return
	}
	active.point(nil)
	access(p, size, write, true)
	Acquire(p)
	if write {
		Release(p)
	}
}

func hashOf(p unsafe.Pointer, n uintptr) uint64 {
	h := uint64(14695981039346656037)
	for _, b := range unsafe.Slice((*byte)(p), n) {
		h = (h ^ uint64(b)) * fnvP
	}
	return h
}

// Hash of the bytes of an object.
func Hash[T any](p *T) uint64 { return hashOf(unsafe.Pointer(p), unsafe.Sizeof(*p)) }
