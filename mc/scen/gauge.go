package scen

import (
	"fmt"
	"strings"

	"github.com/VolantMQ/vlapi/vlmonitoring"

	"verifmc/explore"
	"verifmc/vsched"
	"verifmc/vsched/vatomic"
)

// schedule sets up one execution under the controlled scheduler.
func schedule(c *explore.Ctx, bound int, key func() uint64, onStep func()) *vsched.Run {
	r := &vsched.Run{C: c, Bound: bound, OnStep: onStep}
	if key != nil {
		r.Key, r.Seen, r.Prune = key, c.Seen, c.Prune
	}
	if c.Verbose() {
		r.Trace = func(s string) { c.Logf("%s", s) }
	}
	return r
}

// finish runs the schedule and reports what must never happen.
func finish(c *explore.Ctx, r *vsched.Run, what string) {
	res := r.Do()
	c.Op(res.Steps)
	if len(res.Panics) > 0 {
		c.Failf("%s: %s", what, strings.Join(res.Panics, "; "))
	}
	if res.Deadlock {
		c.Failf("%s: no thread can continue", what)
	}
	if res.Overrun {
		c.Failf("%s: no end within %d steps although every thread gets its turn", what, res.Steps)
	}
	if len(res.Races) > 0 {
		c.Failf("%s: %s", what, strings.Join(res.Races, "; "))
	}
}

// ---- C21 -------------------------------------------------------------------------------------

type gop struct {
	k byte // 'A'dd, 'S'ub, 'L'oad, 'G'et
	n uint64
}

func (o gop) String() string {
	switch o.k {
	case 'A':
		return fmt.Sprintf("+%d", o.n)
	case 'S':
		return fmt.Sprintf("-%d", o.n)
	case 'L':
		return "snapshot"
	}
	return "get"
}

// gaugeProgs are all thread programs of 1..depth operations.
func gaugeProgs(alphabet []gop, depth int) [][]gop {
	var out, last [][]gop
	last = [][]gop{nil}
	for d := 0; d < depth; d++ {
		var next [][]gop
		for _, p := range last {
			for _, o := range alphabet {
				next = append(next, append(append([]gop(nil), p...), o))
			}
		}
		out, last = append(out, next...), next
	}
	return out
}

// gaugeWorld is one gauge with the ghost state of the property.
type gaugeWorld struct {
	c        *explore.Ctx
	g        *vlmonitoring.Max
	peak     uint64   // highest value taken
	cur      uint64   // current value
	sum      uint64   // of all operations completed or not
	windows  []uint64 // per thread: bit set of small values the gauge had during the running read
	in       []bool
	lastPeak []uint64
	what     string
	dips     bool // decreases may run ahead of their increases: the value wraps, its peak is left open
}

func bit(v uint64) uint64 {
	if v > 62 {
		return 1 << 63
	}
	return 1 << v
}

func newGauge(c *explore.Ctx, start []gop, threads int) *gaugeWorld {
	w := &gaugeWorld{c: c, g: &vlmonitoring.Max{}, windows: make([]uint64, threads), in: make([]bool, threads), lastPeak: make([]uint64, threads)}
	for _, o := range start {
		w.apply(o)
		w.sum += o.delta()
		w.look()
	}
	return w
}

func (o gop) delta() uint64 {
	switch o.k {
	case 'A':
		return o.n
	case 'S':
		return -o.n
	}
	return 0
}

func (w *gaugeWorld) apply(o gop) {
	switch o.k {
	case 'A':
		w.g.AddU64(o.n)
	case 'S':
		w.g.SubU64(o.n)
	}
}

// look samples the value after a step.
func (w *gaugeWorld) look() {
	w.cur = w.g.Get()
	if w.cur > w.peak {
		w.peak = w.cur
	}
	for i := range w.in {
		if w.in[i] {
			w.windows[i] |= bit(w.cur)
		}
	}
}

func (w *gaugeWorld) key() uint64 {
	h := vsched.Hash(w.g) ^ w.peak*0x9E3779B97F4A7C15
	for i := range w.in {
		h = h*1099511628211 ^ w.windows[i]
		if w.in[i] {
			h = h*1099511628211 ^ 5
		}
	}
	return h
}

// run executes one operation as thread t.
func (w *gaugeWorld) run(t int, o gop) {
	if vsched.Tracing() {
		vsched.Log("%s", o)
	}
	switch o.k {
	case 'A', 'S':
		w.sum += o.delta()
		w.apply(o)
	case 'G':
		w.in[t], w.windows[t] = true, bit(w.cur)
		v := w.g.Get()
		if !vsched.Active() {
			return // this execution is not continued
		}
		w.in[t] = false
		if w.windows[t]&bit(v) == 0 {
			w.c.Failf("%s: a read gives %d, a value the gauge did not have meanwhile", w.what, v)
		}
		vsched.Note(v)
	case 'L':
		w.in[t], w.windows[t] = true, bit(w.cur)
		s := w.g.Load()
		if !vsched.Active() {
			return
		}
		w.in[t] = false
		v := s.Get()
		if vsched.Tracing() {
			vsched.Log("snapshot: value %d peak %d", v, s.Max)
		}
		if w.windows[t]&bit(v) == 0 {
			w.c.Failf("%s: a snapshot's value is %d, which the gauge did not have meanwhile", w.what, v)
		}
		if w.dips {
			vsched.Note(v<<32 ^ s.Max)
			return
		}
		if s.Max < v {
			w.c.Failf("%s: a snapshot shows peak %d below its value %d", w.what, s.Max, v)
		}
		if s.Max < w.lastPeak[t] {
			w.c.Failf("%s: a reader sees peak %d after it saw %d", w.what, s.Max, w.lastPeak[t])
		}
		if s.Max > w.peak {
			w.c.Failf("%s: a snapshot shows peak %d, the gauge never exceeded %d", w.what, s.Max, w.peak)
		}
		w.lastPeak[t] = s.Max
		vsched.Note(v<<32 ^ s.Max)
	}
}

// end checks the outcome after all threads.
func (w *gaugeWorld) end() {
	s := w.g.Load()
	if v := w.g.Get(); v != w.sum || s.Get() != w.sum {
		w.c.Failf("%s: the gauge ends at %d (snapshot %d), the operations add up to %d", w.what, v, s.Get(), w.sum)
	}
	if s.Max != w.peak && !w.dips {
		w.c.Failf("%s: recorded peak %d, the gauge reached %d", w.what, s.Max, w.peak)
	}
}

// gaugeRun explores one program.
func gaugeRun(c *explore.Ctx, start []gop, progs [][]gop, bound int, cache bool) {
	gaugeDips(c, start, progs, bound, cache, false)
}

func gaugeDips(c *explore.Ctx, start []gop, progs [][]gop, bound int, cache, dips bool) {
	w := newGauge(c, start, len(progs))
	w.dips = dips
	w.what = fmt.Sprintf("start %v, threads %v", start, progs)
	c.Logf("%s", w.what)
	var fail interface{}
	cfg := uint64(14695981039346656037)
	for _, b := range []byte(w.what) {
		cfg = (cfg ^ uint64(b)) * 1099511628211
	}
	var key func() uint64
	if cache {
		key = func() uint64 { return w.key() ^ cfg }
	}
	r := schedule(c, bound, key, w.look)
	for i, p := range progs {
		i, p := i, p
		r.Go(fmt.Sprintf("thread %d %v", i+1, p), func() {
			// a failed check unwinds on the explorer's side
			defer func() {
				if e := recover(); e != nil {
					fail = e
				}
			}()
			for k, o := range p {
				if k > 0 {
					vsched.P()
				}
				if fail != nil {
					return
				}
				w.run(i, o)
				vsched.Note(uint64(k) + 100)
			}
		})
	}
	onStep := r.OnStep
	r.OnStep = func() {
		onStep()
		if fail != nil {
			panic(fail)
		}
	}
	finish(c, r, w.what)
	if fail != nil {
		panic(fail)
	}
	w.look()
	w.end()
	c.Sample(func() string { return w.what })
}

func scenC21(t Tier) []*explore.Scenario {
	alphabet := []gop{{'A', 1}, {'A', 5}, {'S', 1}, {'S', 3}, {'L', 0}, {'G', 0}}
	starts := [][]gop{{{'A', 18}}, {{'A', 24}, {'S', 5}}, {{'A', 19}, {'S', 1}, {'A', 1}}}
	two := gaugeProgs(alphabet, t.pick(2, 3))
	one := gaugeProgs(alphabet, 1)
	ab := []gop{{'A', 1}, {'A', 5}, {'S', 1}, {'L', 0}}
	short := gaugeProgs(ab, 2)
	var out []*explore.Scenario
	add := func(name, note string, run func(c *explore.Ctx)) {
		out = append(out, &explore.Scenario{Name: name, Build: "sched", Serial: true, Note: note, Run: run})
	}
	pairs := func(ps [][]gop) [][2]int {
		var l [][2]int
		for i := range ps {
			for j := 0; j <= i; j++ {
				l = append(l, [2]int{i, j})
			}
		}
		return l
	}
	tp := pairs(two)
	add("C21/two-threads", fmt.Sprintf("two threads x all programs of 1..%d operations over {+1,+5,-1,-3,snapshot,get}, three starting gauges: every interleaving of the accesses to shared memory (unbounded preemptions), states merged on gauge contents, thread histories and ghost state", t.pick(2, 3)), func(c *explore.Ctx) {
		x := c.Pick(len(tp) * len(starts))
		p := tp[x%len(tp)]
		gaugeRun(c, starts[x/len(tp)], [][]gop{two[p[0]], two[p[1]]}, -1, true)
	})
	op := pairs(one)
	add("C21/two-threads-nomerge", "two threads of one operation each, every interleaving, without merging states; happens-before race detection", func(c *explore.Ctx) {
		x := c.Pick(len(op) * len(starts))
		p := op[x%len(op)]
		gaugeRun(c, starts[x/len(op)], [][]gop{one[p[0]], one[p[1]]}, -1, false)
	})
	small := short
	if !t.Thorough {
		small = gaugeProgs(ab, 1)
	}
	sp := pairs(small)
	add("C21/three-threads", fmt.Sprintf("three threads over {+1,+5,-1,snapshot}: two with all programs of 1..%d operations, one with all programs of 1..2 operations, every interleaving", t.pick(1, 2)), func(c *explore.Ctx) {
		x := c.Pick(len(sp) * len(short))
		p := sp[x/len(short)]
		gaugeRun(c, starts[x%len(starts)], [][]gop{small[p[0]], small[p[1]], short[x%len(short)]}, -1, true)
	})
	add("C21/retries", fmt.Sprintf("one thread raising the peak or taking a snapshot while another performs 3..%d increases in a row, every interleaving: a retry loop may be disturbed any number of times", t.pick(6, 9)), func(c *explore.Ctx) {
		x := c.Pick(4 * t.pick(4, 7))
		n := 3 + x/4
		var many []gop
		for i := 0; i < n; i++ {
			many = append(many, gop{'A', 1})
		}
		first := [][]gop{{{'A', 20}, {'S', 20}, {'L', 0}}, {{'L', 0}, {'L', 0}}, {{'A', 1}, {'L', 0}}, {{'S', 2}, {'A', 3}}}[x%4]
		gaugeRun(c, []gop{{'A', 2}}, [][]gop{first, many}, -1, true)
	})
	add("C21/four-threads", "four threads of one operation each over {+1,+5,-1,snapshot}, every interleaving", func(c *explore.Ctx) {
		x := c.Pick(256)
		o := []gop{ab[x%4], ab[x/4%4], ab[x/16%4], ab[x/64]}
		for i := 1; i < 4; i++ { // up to renaming of threads
			if o[i-1].String() > o[i].String() {
				c.Prune()
			}
		}
		gaugeRun(c, starts[1], [][]gop{{o[0]}, {o[1]}, {o[2]}, {o[3]}}, -1, true)
	})
	dp := gaugeProgs([]gop{{'A', 1}, {'A', 4}, {'S', 1}, {'S', 4}, {'G', 0}, {'L', 0}}, 2)
	dpairs := pairs(dp)
	add("C21/overdrawn", "two threads x all programs of 1..2 operations over {+1,+4,-1,-4,get,snapshot} on a gauge at 0 or 2, every interleaving: decreases may come before the increases they belong to; no increase or decrease is lost, every read gives a value the gauge had", func(c *explore.Ctx) {
		x := c.Pick(len(dpairs) * 2)
		p := dpairs[x/2]
		gaugeDips(c, []gop{{'A', uint64(2 * (x % 2))}}, [][]gop{dp[p[0]], dp[p[1]]}, -1, true, true)
	})
	out = append(out, &explore.Scenario{Name: "C21/sequential", Note: "all sequences of up to 5 (6) operations with amounts up to 2^63: value, peak and snapshot after every one", Run: func(c *explore.Ctx) {
		var g vlmonitoring.Max
		var cur, peak uint64
		ops := []gop{{'A', 0}, {'A', 1}, {'A', 5}, {'A', 1 << 33}, {'A', 1 << 62}, {'S', 0}, {'S', 1}, {'S', 5}, {'S', 1 << 33}, {'L', 0}}
		h := ""
		for i := 0; i < t.pick(5, 6); i++ {
			o := ops[c.Pick(len(ops))]
			if o.k == 'S' && o.n > cur {
				c.Prune()
			}
			h += " " + o.String()
			switch o.k {
			case 'A':
				g.AddU64(o.n)
				cur += o.n
			case 'S':
				g.SubU64(o.n)
				cur -= o.n
			}
			if cur > peak {
				peak = cur
			}
			if o.k == 'L' || i == t.pick(4, 5) {
				if s := g.Load(); s.Get() != cur || s.State.Load() != cur || s.Max != peak {
					c.Failf("after%s: snapshot %d peak %d, expected %d and %d", h, s.Get(), s.Max, cur, peak)
				}
			}
			if g.Get() != cur || g.State.Load() != cur {
				c.Failf("after%s: value %d, expected %d", h, g.Get(), cur)
			}
			c.Op(1)
		}
		c.State(h)
	}})
	return out
}

// ---- C22 -------------------------------------------------------------------------------------

// meter abstracts over the counter types: directions 0 and 1.
type meter struct {
	name string
	dirs int
	add  func(d int, n uint64) uint64
	get  func(d int) uint64
	diff func() [2]uint64 // differences against the reporter's snapshot
	prev func(d int) uint64
	hash func() uint64
}

func meters() []func() *meter {
	return []func() *meter{
		func() *meter {
			var c, prev vlmonitoring.Counter
			return &meter{name: "Counter", dirs: 1, add: func(d int, n uint64) uint64 { return c.AddU64(n) }, get: func(int) uint64 { return c.Load() },
				diff: func() [2]uint64 { d := c.Diff(&prev); return [2]uint64{d.Get()} }, prev: func(int) uint64 { return prev.Get() },
				hash: func() uint64 { return vsched.Hash(&c)*31 + vsched.Hash(&prev) }}
		},
		func() *meter {
			var c, prev vlmonitoring.FlowCounter
			return &meter{name: "FlowCounter", dirs: 2, add: func(d int, n uint64) uint64 {
				if d == 0 {
					return c.SentAddU64(n)
				}
				return c.RecvAddU64(n)
			}, get: func(d int) uint64 {
				if d == 0 {
					return c.Sent.Load()
				}
				return c.Recv.Get()
			}, diff: func() [2]uint64 { x := c.Diff(&prev); return [2]uint64{x.Sent.Get(), x.Recv.Get()} },
				prev: func(d int) uint64 {
					if d == 0 {
						return prev.Sent.Get()
					}
					return prev.Recv.Load()
				}, hash: func() uint64 { return vsched.Hash(&c)*31 + vsched.Hash(&prev) }}
		},
		func() *meter {
			st := &vlmonitoring.Stats{}
			prev := &vlmonitoring.Stats{}
			return &meter{name: "Bytes", dirs: 2, add: func(d int, n uint64) uint64 {
				if d == 0 {
					return st.Bytes.SentAddU64(n)
				}
				return st.Bytes.RecvAddU64(n)
			}, get: func(d int) uint64 {
				if d == 0 {
					return st.Bytes.Sent.Get()
				}
				return st.Bytes.Recv.Get()
			}, diff: func() [2]uint64 {
				x := st.Bytes.Diff(&prev.Bytes.FlowCounter)
				return [2]uint64{x.Sent.Get(), x.Recv.Get()}
			},
				prev: func(d int) uint64 {
					if d == 0 {
						return prev.Bytes.Sent.Get()
					}
					return prev.Bytes.Recv.Get()
				}, hash: func() uint64 { return vsched.Hash(&st.Bytes)*31 + vsched.Hash(&prev.Bytes) }}
		},
		func() *meter {
			var c vlmonitoring.FlowCounter
			var prev vlmonitoring.Counter
			return &meter{name: "FlowCounter.Recv", dirs: 1, add: func(d int, n uint64) uint64 { return c.Recv.AddU64(n) }, get: func(int) uint64 { return c.Recv.Get() },
				diff: func() [2]uint64 { x := c.Recv.Diff(&prev); return [2]uint64{x.Get()} }, prev: func(int) uint64 { return prev.Get() },
				hash: func() uint64 { return vsched.Hash(&c)*31 + vsched.Hash(&prev) }}
		},
		func() *meter {
			var c, prev uint64
			return &meter{name: "LoadStore", dirs: 1, add: func(d int, n uint64) uint64 { return vatomic.AddUint64(&c, n) }, get: func(int) uint64 { return vatomic.LoadUint64(&c) },
				diff: func() [2]uint64 { return [2]uint64{vlmonitoring.LoadStore(&c, &prev)} }, prev: func(int) uint64 { return prev },
				hash: func() uint64 { return c*31 + prev*7 }}
		},
	}
}

// cop is an operation on a meter: 'A'dd, 'D'iff, 'G'et.
type cop struct {
	k byte
	d int
	n uint64
}

func (o cop) String() string {
	switch o.k {
	case 'A':
		return fmt.Sprintf("%s+%d", []string{"sent", "recv"}[o.d], o.n)
	case 'D':
		return "diff"
	}
	return []string{"get sent", "get recv"}[o.d]
}

type counterWorld struct {
	c         *explore.Ctx
	m         *meter
	started   [2]uint64
	completed [2]uint64
	topTotal  [2]uint64 // highest total returned so far
	reported  [2]uint64
	totals    [2]map[uint64]bool
	prog      []uint64 // per thread: ghost values sampled when its running operation began
	what      string
}

func (w *counterWorld) key() uint64 {
	h := w.m.hash()
	for d := 0; d < 2; d++ {
		h = h*1099511628211 ^ w.started[d]
		h = h*1099511628211 ^ w.completed[d]
		h = h*1099511628211 ^ w.topTotal[d]
		h = h*1099511628211 ^ w.reported[d]
	}
	for _, p := range w.prog {
		h = h*1099511628211 ^ p
	}
	return h
}

func (w *counterWorld) run(t int, o cop) {
	c := w.c
	d := o.d
	if vsched.Tracing() {
		vsched.Log("%s", o)
	}
	switch o.k {
	case 'A':
		lb := w.topTotal[d]
		w.prog[t] = lb
		w.started[d] += o.n
		tot := w.m.add(d, o.n)
		if !vsched.Active() {
			return
		}
		w.completed[d] += o.n
		if vsched.Tracing() {
			vsched.Log("total %d", tot)
		}
		if tot < lb+o.n {
			c.Failf("%s: an increment of %d gives the total %d, although %d had been returned before it began", w.what, o.n, tot, lb)
		}
		if tot > w.started[d] {
			c.Failf("%s: an increment gives the total %d, only %d were counted so far", w.what, tot, w.started[d])
		}
		if o.n > 0 && w.totals[d][tot] {
			c.Failf("%s: the total %d is returned twice", w.what, tot)
		}
		w.totals[d][tot] = true
		if tot > w.topTotal[d] {
			w.topTotal[d] = tot
		}
		vsched.Note(tot)
	case 'G':
		lb := w.completed[d]
		w.prog[t] = lb
		v := w.m.get(d)
		if !vsched.Active() {
			return
		}
		if v < lb || v > w.started[d] {
			c.Failf("%s: the counter reads %d, increments completed before: %d, begun: %d", w.what, v, lb, w.started[d])
		}
		vsched.Note(v)
	case 'D':
		lb := w.completed
		w.prog[t] = lb[0]<<32 ^ lb[1]
		x := w.m.diff()
		if !vsched.Active() {
			return
		}
		if vsched.Tracing() {
			vsched.Log("reports %d %d", x[0], x[1])
		}
		for d := 0; d < w.m.dirs; d++ {
			w.reported[d] += x[d]
			if w.reported[d] > w.started[d] || w.reported[d] < lb[d] {
				c.Failf("%s: %s reported so far: %d; increments completed before the report: %d, begun: %d", w.what, []string{"sent", "recv"}[d], w.reported[d], lb[d], w.started[d])
			}
		}
		vsched.Note(x[0]<<32 ^ x[1])
	}
	w.prog[t] = 0
}

func (w *counterWorld) end() {
	for d := 0; d < w.m.dirs; d++ {
		name := []string{"sent", "recv"}[d]
		if v := w.m.get(d); v != w.started[d] {
			w.c.Failf("%s: %s ends at %d, the increments add up to %d", w.what, name, v, w.started[d])
		}
		if p := w.m.prev(d); p != w.reported[d] {
			w.c.Failf("%s: %s: the snapshot holds %d, reported were %d", w.what, name, p, w.reported[d])
		}
	}
	// the next report covers the rest
	before := [2]uint64{}
	for d := 0; d < w.m.dirs; d++ {
		before[d] = w.m.get(d)
	}
	x := w.m.diff()
	for d := 0; d < w.m.dirs; d++ {
		if w.reported[d]+x[d] != w.started[d] {
			w.c.Failf("%s: reported %d and then %d of %d", w.what, w.reported[d], x[d], w.started[d])
		}
		if w.m.get(d) != before[d] {
			w.c.Failf("%s: taking the difference changed the counter from %d to %d", w.what, before[d], w.m.get(d))
		}
	}
	if x = w.m.diff(); x != [2]uint64{} {
		w.c.Failf("%s: %v reported although nothing was added", w.what, x)
	}
}

func counterRun(c *explore.Ctx, mk func() *meter, progs [][]cop, bound int, cache bool) {
	m := mk()
	w := &counterWorld{c: c, m: m, prog: make([]uint64, len(progs))}
	w.totals = [2]map[uint64]bool{{}, {}}
	w.what = fmt.Sprintf("%s, threads %v", m.name, progs)
	c.Logf("%s", w.what)
	cfg := uint64(14695981039346656037)
	for _, b := range []byte(w.what) {
		cfg = (cfg ^ uint64(b)) * 1099511628211
	}
	var key func() uint64
	if cache {
		key = func() uint64 { return w.key() ^ cfg }
	}
	var fail interface{}
	r := schedule(c, bound, key, func() {
		if fail != nil {
			panic(fail)
		}
	})
	for i, p := range progs {
		i, p := i, p
		r.Go(fmt.Sprintf("thread %d %v", i+1, p), func() {
			defer func() {
				if e := recover(); e != nil {
					fail = e
				}
			}()
			for k, o := range p {
				if k > 0 {
					vsched.P()
				}
				if fail != nil {
					return
				}
				w.run(i, o)
				vsched.Note(uint64(k) + 100)
			}
		})
	}
	finish(c, r, w.what)
	if fail != nil {
		panic(fail)
	}
	w.end()
	c.Sample(func() string { return w.what })
}

func scenC22(t Tier) []*explore.Scenario {
	ms := meters()
	var out []*explore.Scenario
	add := func(name, note string, run func(c *explore.Ctx)) {
		out = append(out, &explore.Scenario{Name: name, Build: "sched", Serial: true, Note: note, Run: run})
	}
	adders := func(dirs int) [][]cop {
		var l [][]cop
		var one []cop
		for d := 0; d < dirs; d++ {
			one = append(one, cop{'A', d, 1}, cop{'A', d, 4})
		}
		for _, a := range one {
			l = append(l, []cop{a})
			for _, b := range one {
				l = append(l, []cop{a, b})
			}
		}
		return l
	}
	add("C22/report", fmt.Sprintf("every counter type: two threads with all programs of 1..2 increments in either direction, one reporter taking 1..%d differences: every interleaving of the accesses to shared memory, states merged on counter, snapshot, thread histories and ghost sums", t.pick(2, 4)), func(c *explore.Ctx) {
		mi := c.Pick(len(ms) * len(adders(2)))
		m, a := mi%len(ms), mi/len(ms)
		dirs := ms[m]().dirs
		l := adders(dirs)
		if a >= len(l) {
			c.Prune()
		}
		b := c.Pick(a + 1)
		k := 1 + c.Pick(t.pick(2, 4))
		var rep []cop
		for i := 0; i < k; i++ {
			rep = append(rep, cop{k: 'D'})
		}
		counterRun(c, ms[m], [][]cop{rep, l[a], l[b]}, -1, true)
	})
	type cfg struct{ m, a, b, g int }
	var cfgs []cfg
	for m := range ms {
		dirs := ms[m]().dirs
		for a := range adders(dirs) {
			for b := 0; b < 2*dirs; b++ {
				for g := 0; g < dirs; g++ {
					cfgs = append(cfgs, cfg{m, a, b, g})
				}
			}
		}
	}
	add("C22/nomerge", "one reporter and one thread with up to two increments, without merging states; happens-before race detection", func(c *explore.Ctx) {
		x := cfgs[c.Pick(len(cfgs))]
		rep := []cop{{k: 'D'}, {k: 'D'}}[:x.b%2+1]
		if x.b > 1 || x.g > 0 {
			c.Prune()
		}
		counterRun(c, ms[x.m], [][]cop{rep, adders(ms[x.m]().dirs)[x.a]}, -1, false)
	})
	add("C22/readers", fmt.Sprintf("two incrementing threads (one with up to %d increments), a reporter taking two differences and a thread reading the counter (quick: once, thorough: twice): every interleaving", t.pick(1, 2)), func(c *explore.Ctx) {
		x := cfgs[c.Pick(len(cfgs))]
		dirs := ms[x.m]().dirs
		p := adders(dirs)[x.a]
		if len(p) > t.pick(1, 2) {
			c.Prune()
		}
		g := []cop{{k: 'G', d: x.g}, {k: 'G', d: x.g}}[:t.pick(1, 2)]
		counterRun(c, ms[x.m], [][]cop{{{k: 'D'}, {k: 'D'}}, p, {cop{'A', x.b % dirs, uint64(1 + x.b/dirs*2)}}, g}, -1, true)
	})
	add("C22/totals", "three and four threads incrementing the same counter: every interleaving, all totals distinct and in order", func(c *explore.Ctx) {
		x := c.Pick(2 * len(ms))
		m, n := x/2, 3+x%2
		var ps [][]cop
		for i := 0; i < n; i++ {
			p := []cop{{'A', 0, uint64(1 + i%2*3)}}
			if n == 3 || t.Thorough {
				p = append(p, cop{'A', 0, 2})
			}
			ps = append(ps, p)
		}
		counterRun(c, ms[m], ps, -1, true)
	})
	add("C22/busy", "one reporter taking one or two differences while 3..6 increments happen in a row, every interleaving", func(c *explore.Ctx) {
		x := c.Pick(8 * len(ms))
		m, n := x/8, 3+x/2%4
		dirs := ms[m]().dirs
		var p []cop
		for i := 0; i < n; i++ {
			p = append(p, cop{'A', i % dirs, uint64(i + 1)})
		}
		rep := []cop{{k: 'D'}}
		if x%2 > 0 {
			rep = append(rep, cop{k: 'D'})
		}
		counterRun(c, ms[m], [][]cop{rep, p}, -1, true)
	})
	out = append(out, &explore.Scenario{Name: "C22/sequential", Note: "every counter type: all sequences of up to 5 (6) increments (amounts 0, 1, 2^32-1, 2^63, 2^64-1, wrapping) and differences", Run: func(c *explore.Ctx) {
		m := ms[c.Pick(len(ms))]()
		amounts := []uint64{0, 1, 1<<32 - 1, 1 << 63, 1<<64 - 1}
		var want, rep [2]uint64
		h := m.name
		for i := 0; i < t.pick(5, 6); i++ {
			k := c.Pick(len(amounts)*m.dirs + 1)
			if k == len(amounts)*m.dirs {
				h += " diff"
				before := [2]uint64{m.get(0), m.get(m.dirs - 1)}
				x := m.diff()
				for d := 0; d < m.dirs; d++ {
					if x[d] != want[d]-rep[d] {
						c.Failf("%s: direction %d reports %d, not reported so far: %d", h, d, x[d], want[d]-rep[d])
					}
					rep[d] = want[d]
				}
				if before != [2]uint64{m.get(0), m.get(m.dirs - 1)} {
					c.Failf("%s: taking the difference changed the counter", h)
				}
			} else {
				d, n := k/len(amounts), amounts[k%len(amounts)]
				h += fmt.Sprintf(" %d+%d", d, n)
				want[d] += n
				if tot := m.add(d, n); tot != want[d] {
					c.Failf("%s: returned total %d, expected %d", h, tot, want[d])
				}
			}
			for d := 0; d < m.dirs; d++ {
				if m.get(d) != want[d] {
					c.Failf("%s: direction %d reads %d, expected %d", h, d, m.get(d), want[d])
				}
				if m.prev(d) != rep[d] {
					c.Failf("%s: direction %d: snapshot %d, reported %d", h, d, m.prev(d), rep[d])
				}
			}
			c.Op(1)
		}
		c.State(h)
	}})
	return out
}
