// Package explore is a stateless model checker: it enumerates every answer vector of a
// nondeterministic scenario within a deviation bound by re-executing the scenario.
package explore

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Scenario is one bounded harness.
type Scenario struct {
	Name string
	// Bound is the number of deviations (Dev choices away from the default) per execution.
	Bound int
	// Run executes once under the chooser.
	Run func(c *Ctx)
	// Serial scenarios run on one worker, alone (process-wide state such as schedules).
	Serial bool
	// Build names the build of the checker that runs it: "" plain, "sched" instrumented library, "order"
	// library whose walks over maps the explorer orders, "race" race detector. Scenarios of all but the first are Serial and sharded over processes.
	Build string
	// Note describes alphabet and bound for the evidence.
	Note string
}

type point struct{ choice, allowed int }

// Ctx is the chooser and the monitor of one execution.
type Ctx struct {
	prefix  []int
	points  []point
	devs    int
	solo    bool
	bound   int
	fail    *Violation
	log     []string
	verbose bool
	w       *worker
	steps   int64
	pruned  bool
	strayed bool
	scen    *Scenario
	lastLog string
}

type abort struct{}

// Prune ends the execution without verdict (the choice vector makes no sense).
func (c *Ctx) Prune() { c.pruned = true; panic(abort{}) }

func (c *Ctx) choose(allowed int) int {
	i := len(c.points)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= allowed {
			if c.w != nil && c.scen.Serial {
				// process-wide state made this run differ from the one before
				c.strayed = true
				c.Prune()
			}
			panic(fmt.Sprintf("replay divergence at choice %d: %d of %d", i, v, allowed))
		}
	}
	c.points = append(c.points, point{v, allowed})
	return v
}

// Seen tells whether the state was reached before in this scenario, beyond the replayed prefix; its
// continuations are explored where it was reached first.
func (c *Ctx) Seen(key uint64) bool {
	if c.w == nil || len(c.points) < len(c.prefix) {
		return false
	}
	if _, ok := c.w.seen[key]; ok {
		return true
	}
	if len(c.w.seen) < seenCap {
		c.w.seen[key] = struct{}{}
		c.StateHash(key)
	}
	return false
}

// Pick enumerates 0..n-1 completely.
func (c *Ctx) Pick(n int) int {
	if n <= 1 {
		return 0
	}
	return c.choose(n)
}

// Bool enumerates false, true.
func (c *Ctx) Bool() bool { return c.Pick(2) == 1 }

// Dev chooses among full alternatives; 0 is the default and free, 1..core-1 cost one deviation,
// core..full-1 are explored only as the sole deviation of an execution.
func (c *Ctx) Dev(core, full int) int {
	if full < core {
		full = core
	}
	if full <= 1 {
		return 0
	}
	allowed := 1
	switch {
	case c.solo:
	case c.devs == 0 && c.bound > 0:
		allowed = full
	case c.devs < c.bound:
		allowed = core
	}
	if allowed == 1 {
		return 0
	}
	v := c.choose(allowed)
	if v > 0 {
		c.devs++
		if v >= core {
			c.solo = true
		}
	}
	return v
}

// DevBool is a two-valued deviation.
func (c *Ctx) DevBool() bool { return c.Dev(2, 2) == 1 }

// Logf records the trace; only evaluated in replays.
func (c *Ctx) Logf(format string, a ...interface{}) {
	if c.verbose {
		c.log = append(c.log, fmt.Sprintf(format, a...))
	}
}

// Verbose tells that a trace is wanted.
func (c *Ctx) Verbose() bool { return c.verbose }

// Op counts n operations executed on the implementation (transitions).
func (c *Ctx) Op(n int) { c.steps += int64(n) }

// State records a visited model state.
func (c *Ctx) State(s string) {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	c.StateHash(h)
}

// StateHash records a visited state by hash.
func (c *Ctx) StateHash(h uint64) {
	if c.w == nil {
		return
	}
	if len(c.w.states) < stateCap {
		c.w.states[h] = struct{}{}
	} else if _, ok := c.w.states[h]; !ok {
		c.w.overflow = true
	}
}

// Bulk accounts for n distinct inputs tried inside one execution (tight loops).
func (c *Ctx) Bulk(n int) {
	if c.w != nil {
		c.w.bulk += int64(n)
	}
	c.steps += int64(n)
	c.Beat()
}

// Beat tells the watchdog that progress is made.
func (c *Ctx) Beat() {
	if c.w != nil {
		atomic.StoreInt64(&c.w.since, time.Now().UnixNano())
	}
}

// Sample offers a rendered case for the evidence file.
func (c *Ctx) Sample(f func() string) {
	if c.w == nil {
		return
	}
	c.w.offered++
	if c.w.offered&(c.w.offered-1) == 0 && len(c.w.samples) < 24 { // powers of two
		c.w.samples = append(c.w.samples, c.scen.Name+": "+f())
	}
}

// Failf reports a violation and ends the execution. A violation that is a recorded finding ends the
// execution without stopping the exploration.
func (c *Ctx) Failf(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if KnownFinding != nil && KnownFinding(msg) {
		c.pruned = true
		panic(abort{})
	}
	c.fail = &Violation{Message: msg}
	panic(abort{})
}

// KnownFinding tells if a message describes a recorded finding.
var KnownFinding func(msg string) bool

// Check reports a violation unless ok.
func (c *Ctx) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		c.Failf(format, a...)
	}
}

// Violation is a found counterexample.
type Violation struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Bound    int      `json:"bound"`
	Choices  []int    `json:"choices"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
	Tier     string   `json:"tier"`
}

const stateCap = 1 << 20
const seenCap = 1 << 24

type worker struct {
	id       int
	since    int64
	states   map[uint64]struct{}
	seen     map[uint64]struct{}
	strayed  int64
	overflow bool
	bulk     int64
	execs    int64
	pruned   int64
	steps    int64
	samples  []string
	offered  int64
	maxDepth int
	cur      []byte // shared with the supervisor
	curScen  atomic.Value
}

// publish writes the current choice vector where the supervisor can read it after a crash.
func (w *worker) publish(scen int, prefix []int) {
	if w.cur == nil {
		return
	}
	n := len(prefix)
	if n > (slotSize-16)/4 {
		n = (slotSize - 16) / 4
	}
	binary.LittleEndian.PutUint32(w.cur[0:], 0)
	binary.LittleEndian.PutUint32(w.cur[4:], uint32(scen))
	binary.LittleEndian.PutUint32(w.cur[8:], uint32(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint32(w.cur[16+4*i:], uint32(prefix[i]))
	}
	binary.LittleEndian.PutUint32(w.cur[0:], 1)
}

const slotSize = 4096

// Stats of one scenario.
type Stats struct {
	Name       string `json:"scenario"`
	Note       string `json:"note,omitempty"`
	Bound      int    `json:"deviation_bound"`
	Executions int64  `json:"executions"`
	Pruned     int64  `json:"pruned_executions,omitempty"`
	Operations int64  `json:"operations"`
	States     int64  `json:"distinct_states"`
	Inputs     int64  `json:"bulk_inputs,omitempty"`
	MaxChoices int    `json:"max_choices"`
	Strayed    int64  `json:"strayed_executions,omitempty"`
	Complete   bool   `json:"complete"`
	WallMS     int64  `json:"wall_ms"`
}

// Engine runs scenarios.
type Engine struct {
	Workers int
	// Shard of Shards: Serial scenarios take only every Shards-th value of their first choice.
	Shard, Shards int
	Deadline      time.Time
	// Share gives every scenario its part of the time; what one leaves, the later ones may use.
	Share     bool
	Scenarios []*Scenario
	SlotFile  string
	// HangAfter bounds one execution.
	HangAfter time.Duration
	OnHang    func(v Violation)

	Stats   []Stats
	Samples []string
	slots   []byte
}

// RunOnce executes one choice vector.
func RunOnce(s *Scenario, choices []int, verbose bool) (v *Violation, c *Ctx) {
	c = &Ctx{prefix: choices, bound: s.Bound, verbose: verbose, scen: s}
	c.exec()
	if c.fail != nil {
		v = c.fail
		v.Scenario, v.Bound = s.Name, s.Bound
		v.Choices = choicesOf(c.points)
		v.Trace = c.log
	}
	return v, c
}

func choicesOf(ps []point) []int {
	out := make([]int, len(ps))
	for i, p := range ps {
		out[i] = p.choice
	}
	return out
}

func (c *Ctx) exec() {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				return
			}
			st := string(debug.Stack())
			c.fail = &Violation{Message: fmt.Sprintf("panic: %v", r), Trace: nil}
			if c.verbose {
				c.log = append(c.log, st)
			}
			if strings.HasPrefix(fmt.Sprint(r), "replay divergence") {
				c.fail = nil
				panic(r)
			}
		}
	}()
	c.scen.Run(c)
}

type task struct{ prefix []int }

type run struct {
	e     *Engine
	s     *Scenario
	idx   int
	mu    sync.Mutex
	cond  *sync.Cond
	queue []task
	busy  int
	idle  int32
	stop  int32
	found *Violation
	incom bool
	until time.Time
}

// Run explores everything and returns the first violation (minimised), or nil.
func (e *Engine) Run() *Violation {
	if e.Workers == 0 {
		e.Workers = runtime.NumCPU()
	}
	if e.SlotFile != "" {
		f, err := os.OpenFile(e.SlotFile, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
		if err == nil {
			if f.Truncate(int64(slotSize*e.Workers)) == nil {
				e.slots, _ = syscall.Mmap(int(f.Fd()), 0, slotSize*e.Workers, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			}
			f.Close()
		}
	}
	for i, s := range e.Scenarios {
		if v := e.runScenario(i, s); v != nil {
			return v
		}
	}
	return nil
}

func (e *Engine) runScenario(idx int, s *Scenario) *Violation {
	t0 := time.Now()
	r := &run{e: e, s: s, idx: idx, queue: []task{{}}, until: e.Deadline}
	if left := time.Until(e.Deadline); e.Share && !e.Deadline.IsZero() && idx < len(e.Scenarios)-1 && left > 0 {
		r.until = t0.Add(2 * left / time.Duration(len(e.Scenarios)-idx+1))
	}
	if s.Serial && e.Shards > 1 {
		r.queue[0].prefix = []int{e.Shard}
	}
	r.cond = sync.NewCond(&r.mu)
	n := e.Workers
	if s.Serial {
		n = 1
	}
	ws := make([]*worker, n)
	var wg sync.WaitGroup
	done := make(chan struct{})
	for i := range ws {
		ws[i] = &worker{id: i, states: map[uint64]struct{}{}, seen: map[uint64]struct{}{}}
		if e.slots != nil {
			ws[i].cur = e.slots[i*slotSize : (i+1)*slotSize]
		}
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			r.work(w)
		}(ws[i])
	}
	if e.HangAfter > 0 {
		go r.watch(ws, done)
	}
	wg.Wait()
	close(done)
	st := Stats{Name: s.Name, Note: s.Note, Bound: s.Bound, Complete: !r.incom && r.found == nil}
	all := map[uint64]struct{}{}
	for _, w := range ws {
		st.Executions += w.execs
		st.Pruned += w.pruned
		st.Strayed += w.strayed
		st.Operations += w.steps
		st.Inputs += w.bulk
		if w.maxDepth > st.MaxChoices {
			st.MaxChoices = w.maxDepth
		}
		for h := range w.states {
			all[h] = struct{}{}
		}
		e.Samples = append(e.Samples, w.samples...)
		if w.cur != nil {
			binary.LittleEndian.PutUint32(w.cur[0:], 0)
		}
	}
	st.States = int64(len(all)) + st.Inputs
	st.Complete = st.Complete && st.Strayed == 0
	st.WallMS = time.Since(t0).Milliseconds()
	e.Stats = append(e.Stats, st)
	if r.found == nil {
		return nil
	}
	return e.minimise(s, r.found)
}

func (r *run) watch(ws []*worker, done chan struct{}) {
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-done:
			return
		case <-tick.C:
			now := time.Now().UnixNano()
			for _, w := range ws {
				s := atomic.LoadInt64(&w.since)
				if s != 0 && time.Duration(now-s) > r.e.HangAfter {
					var pre []int
					if w.cur != nil {
						_, pre = ReadSlot(w.cur)
					}
					r.e.OnHang(Violation{Scenario: r.s.Name, Bound: r.s.Bound, Choices: pre,
						Message: fmt.Sprintf("no result within %v", r.e.HangAfter)})
				}
			}
		}
	}
}

// ReadSlot decodes a published choice vector; scen is -1 when empty.
func ReadSlot(b []byte) (scen int, choices []int) {
	if binary.LittleEndian.Uint32(b) != 1 {
		return -1, nil
	}
	n := int(binary.LittleEndian.Uint32(b[8:]))
	for i := 0; i < n; i++ {
		choices = append(choices, int(binary.LittleEndian.Uint32(b[16+4*i:])))
	}
	return int(binary.LittleEndian.Uint32(b[4:])), choices
}

// ReadSlots reads all slots of a file.
func ReadSlots(file string) (out [][]int, scen []int) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, nil
	}
	for i := 0; i+slotSize <= len(b); i += slotSize {
		if s, c := ReadSlot(b[i : i+slotSize]); s >= 0 {
			out, scen = append(out, c), append(scen, s)
		}
	}
	return out, scen
}

func (r *run) work(w *worker) {
	for {
		r.mu.Lock()
		for len(r.queue) == 0 && r.busy > 0 && atomic.LoadInt32(&r.stop) == 0 {
			atomic.AddInt32(&r.idle, 1)
			r.cond.Wait()
			atomic.AddInt32(&r.idle, -1)
		}
		if atomic.LoadInt32(&r.stop) != 0 || len(r.queue) == 0 {
			r.mu.Unlock()
			r.cond.Broadcast()
			return
		}
		t := r.queue[len(r.queue)-1]
		r.queue = r.queue[:len(r.queue)-1]
		r.busy++
		r.mu.Unlock()

		r.subtree(w, t.prefix)

		r.mu.Lock()
		r.busy--
		r.mu.Unlock()
		r.cond.Broadcast()
	}
}

func (r *run) subtree(w *worker, prefix []int) {
	fixed := len(prefix)
	stride := 1
	if r.s.Serial && r.e.Shards > 1 {
		fixed, stride = 0, r.e.Shards
	}
	cur := append([]int(nil), prefix...)
	c := &Ctx{scen: r.s, w: w, bound: r.s.Bound}
	defer atomic.StoreInt64(&w.since, 0)
	for k := 0; ; k++ {
		if atomic.LoadInt32(&r.stop) != 0 {
			return
		}
		if k&15 == 0 {
			now := time.Now()
			atomic.StoreInt64(&w.since, now.UnixNano())
			if !r.until.IsZero() && now.After(r.until) {
				r.mu.Lock()
				r.incom = true
				r.mu.Unlock()
				atomic.StoreInt32(&r.stop, 1)
				r.cond.Broadcast()
				return
			}
		}
		w.publish(r.idx, cur)
		*c = Ctx{scen: r.s, w: w, bound: r.s.Bound, prefix: cur, points: c.points[:0]}
		c.exec()
		w.execs++
		if c.pruned {
			w.pruned++
		}
		if c.strayed && len(c.points) > 0 {
			w.strayed++
		}
		w.steps += c.steps
		if len(c.points) > w.maxDepth {
			w.maxDepth = len(c.points)
		}
		if c.fail != nil {
			r.mu.Lock()
			if r.found == nil {
				r.found = c.fail
				r.found.Scenario, r.found.Bound, r.found.Choices = r.s.Name, r.s.Bound, choicesOf(c.points)
			}
			r.mu.Unlock()
			atomic.StoreInt32(&r.stop, 1)
			r.cond.Broadcast()
			return
		}
		// donate the shallowest open alternatives to idle workers
		if atomic.LoadInt32(&r.idle) > 0 {
			for i := fixed; i < len(c.points); i++ {
				p := c.points[i]
				if p.choice+1 < p.allowed {
					base := choicesOf(c.points[:i])
					r.mu.Lock()
					for a := p.allowed - 1; a > p.choice; a-- {
						r.queue = append(r.queue, task{append(append([]int(nil), base...), a)})
					}
					r.mu.Unlock()
					r.cond.Broadcast()
					fixed = i + 1
					break
				}
			}
		}
		i := len(c.points) - 1
		step := func() int {
			if i == 0 {
				return stride
			}
			return 1
		}
		for i >= fixed && c.points[i].choice+step() >= c.points[i].allowed {
			i--
		}
		if i < fixed || i < 0 {
			return
		}
		cur = cur[:0]
		for j := 0; j < i; j++ {
			cur = append(cur, c.points[j].choice)
		}
		cur = append(cur, c.points[i].choice+step())
	}
}

// tryRun is RunOnce that treats divergence as "no violation".
func tryRun(s *Scenario, ch []int) (v *Violation) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	v, _ = RunOnce(s, ch, false)
	return v
}

func (e *Engine) minimise(s *Scenario, v *Violation) *Violation {
	best := v
	limit := time.Now().Add(10 * time.Second)
	for changed := true; changed && time.Now().Before(limit); {
		changed = false
		for i := len(best.Choices) - 1; i >= 0 && time.Now().Before(limit); i-- {
			if i >= len(best.Choices) || best.Choices[i] == 0 {
				continue
			}
			for _, alt := range []int{0, best.Choices[i] / 2, best.Choices[i] - 1} {
				if alt == best.Choices[i] {
					continue
				}
				ch := append([]int(nil), best.Choices...)
				ch[i] = alt
				if alt == 0 {
					if w := tryRun(s, ch[:i+1]); w != nil {
						best, changed = w, true
						break
					}
				}
				if w := tryRun(s, ch); w != nil && less(w.Choices, best.Choices) {
					best, changed = w, true
					break
				}
			}
		}
	}
	if w, _ := RunOnce(s, best.Choices, true); w != nil {
		best = w
	}
	return best
}

func less(a, b []int) bool {
	sum := func(x []int) (n int) {
		for _, v := range x {
			n += v
		}
		return
	}
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	return sum(a) < sum(b)
}

// Confirm re-runs a violation n times and tells how often it shows.
func Confirm(s *Scenario, v *Violation, n int) int {
	k := 0
	for i := 0; i < n; i++ {
		if tryRun(s, v.Choices) != nil {
			k++
		}
	}
	return k
}

// WriteReplay stores the counterexample.
func WriteReplay(dir string, v *Violation) (string, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	name := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, v.Scenario)
	f := filepath.Join(dir, fmt.Sprintf("%s-%s.json", v.Property, name))
	b, _ := json.MarshalIndent(v, "", " ")
	return f, os.WriteFile(f, append(b, '\n'), 0o644)
}

// TopSamples returns up to n samples spread over scenarios.
func (e *Engine) TopSamples(n int) []string {
	byScen := map[string][]string{}
	var names []string
	for _, s := range e.Samples {
		k := s[:strings.IndexByte(s, ':')]
		if byScen[k] == nil {
			names = append(names, k)
		}
		byScen[k] = append(byScen[k], s)
	}
	sort.Strings(names)
	var out []string
	for round := 0; len(out) < n; round++ {
		any := false
		for _, k := range names {
			l := byScen[k]
			if round < len(l) && len(out) < n {
				x := l[len(l)-1-round]
				if len(x) > 600 {
					x = x[:600] + "..."
				}
				out = append(out, x)
				any = true
			}
		}
		if !any {
			break
		}
	}
	return out
}
