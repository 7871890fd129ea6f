// mc runs the bounded exhaustive checks of one property against the library in /repo.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifmc/explore"
	"verifmc/scen"
)

type result struct {
	Violation *explore.Violation `json:"violation,omitempty"`
	Hang      *explore.Violation `json:"hang,omitempty"`
	Stats     []explore.Stats    `json:"stats"`
	Samples   []string           `json:"samples"`
	Known     []string           `json:"known,omitempty"`
	Reproduce string             `json:"reproduce,omitempty"`
	Error     string             `json:"error,omitempty"`
}

var stdout = os.Stdout

// flavour is the build of this binary: "", "order", "sched" or "race"; set by the linker.
var flavour string

// exeFor is the binary of a flavour, next to this one.
func exeFor(fl string) string {
	exe, _ := os.Executable()
	if fl == flavour {
		return exe
	}
	name := "mc"
	if fl != "" {
		name += "-" + fl
	}
	return filepath.Join(filepath.Dir(exe), name)
}

func say(format string, a ...interface{}) { fmt.Fprintf(stdout, format+"\n", a...) }

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func main() {
	// the library prints recovered panics to standard output
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc check ID | mc replay FILE | mc list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "child":
		child(os.Args[2:])
	case "cold":
		scen.Cold(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2]))
	default:
		os.Exit(2)
	}
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func scenarios(id, tr string) []*explore.Scenario {
	f := scen.Registry[id]
	if f == nil {
		return nil
	}
	return f(scen.Tier{Thorough: tr == "thorough"})
}

// ofBuild selects the scenarios of one flavour.
func ofBuild(ss []*explore.Scenario, fl string) (out []*explore.Scenario) {
	for _, s := range ss {
		if s.Build == fl {
			out = append(out, s)
		}
	}
	return
}

// ---------- known findings ----------

// knownFor reads lines "known: property=<id> match=<text>"; a violation message containing the text
// is the recorded finding.
func knownFor(id string) (out []string) {
	b, err := os.ReadFile(filepath.Join(root(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " match="
		if strings.HasPrefix(l, pre) {
			out = append(out, strings.TrimSpace(l[len(pre):]))
		}
	}
	return
}

// ---------- child ----------

func child(args []string) {
	fs := flag.NewFlagSet("child", flag.ExitOnError)
	id := fs.String("id", "", "")
	tr := fs.String("tier", "quick", "")
	slots := fs.String("slots", "", "")
	out := fs.String("out", "", "")
	only := fs.String("only", "", "scenario to replay")
	choices := fs.String("choices", "", "")
	budget := fs.Int("budget", 300, "seconds")
	hang := fs.Int("hang", 60, "seconds")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	_ = fs.Parse(args)
	debug.SetGCPercent(400)
	// deep recursion introduced into the library must fail quickly
	debug.SetMaxStack(64 << 20)
	var res result
	var once sync.Once
	finish := func() {
		once.Do(func() {
			b, _ := json.Marshal(res)
			_ = os.WriteFile(*out+".tmp", b, 0o644)
			_ = os.Rename(*out+".tmp", *out)
		})
	}
	known := knownFor(*id)
	if len(known) > 0 {
		var mu sync.Mutex
		hits := map[string]bool{}
		explore.KnownFinding = func(msg string) bool {
			for _, k := range known {
				if strings.Contains(msg, k) {
					mu.Lock()
					if !hits[k] {
						hits[k] = true
						res.Known = append(res.Known, k)
					}
					mu.Unlock()
					return true
				}
			}
			return false
		}
	}
	ss := ofBuild(scenarios(*id, *tr), flavour)
	if *only != "" {
		for _, s := range ss {
			if s.Name == *only {
				var ch []int
				for _, x := range strings.Split(*choices, ",") {
					if x != "" {
						v, _ := strconv.Atoi(x)
						ch = append(ch, v)
					}
				}
				v, _ := explore.RunOnce(s, ch, true)
				if v != nil {
					v.Property, v.Tier = *id, *tr
				}
				res.Violation = v
			}
		}
		finish()
		return
	}
	e := &explore.Engine{Workers: *workers, Scenarios: ss, SlotFile: *slots, Shard: *shard, Shards: *shards, HangAfter: time.Duration(*hang) * time.Second}
	if *budget > 0 {
		e.Deadline = time.Now().Add(time.Duration(*budget) * time.Second)
		e.Share = *tr == "thorough"
	}
	e.OnHang = func(v explore.Violation) {
		v.Property, v.Tier = *id, *tr
		res.Hang = &v
		finish()
		os.Exit(3)
	}
	v := e.Run()
	if v != nil {
		v.Property, v.Tier = *id, *tr
		var s *explore.Scenario
		for _, x := range ss {
			if x.Name == v.Scenario {
				s = x
			}
		}
		k := explore.Confirm(s, v, 5)
		switch {
		case k == 5:
			res.Reproduce = "5 of 5 replays"
		default:
			if m := explore.Confirm(s, v, 50); k+m > 0 {
				res.Reproduce = fmt.Sprintf("%d of 55 replays", k+m)
			}
		}
		res.Violation = v
	}
	res.Stats, res.Samples = e.Stats, e.TopSamples(12)
	finish()
}

// ---------- parent ----------

type outcome struct {
	res    *result
	exit   string
	stderr string
	timed  bool
}

func spawn(exe, dir string, limit time.Duration, args ...string) outcome {
	out := filepath.Join(dir, "result.json")
	_ = os.Remove(out)
	errFile := filepath.Join(dir, "stderr")
	ef, _ := os.Create(errFile)
	cmd := exec.Command(exe, append([]string{"child", "-out", out}, args...)...)
	cmd.Stderr = ef
	cmd.Env = append(os.Environ(), "GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return outcome{exit: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var o outcome
	select {
	case err := <-done:
		if err != nil {
			o.exit = err.Error()
		}
	case <-time.After(limit):
		o.timed = true
		_ = cmd.Process.Kill()
		<-done
		o.exit = "time limit"
	}
	ef.Close()
	if b, err := os.ReadFile(errFile); err == nil {
		if len(b) > 6000 {
			b = append(append(b[:3000:3000], []byte("\n...\n")...), b[len(b)-2500:]...)
		}
		o.stderr = string(b)
	}
	if b, err := os.ReadFile(out); err == nil {
		var r result
		if json.Unmarshal(b, &r) == nil {
			o.res = &r
		}
	}
	return o
}

func csv(ch []int) string {
	var s []string
	for _, c := range ch {
		s = append(s, strconv.Itoa(c))
	}
	return strings.Join(s, ",")
}

func check(id string) int {
	t0 := time.Now()
	tr := tier()
	ss := scenarios(id, tr)
	if ss == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		return 2
	}
	budget := 400
	if tr == "thorough" {
		budget = 780
	}
	if b, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil && b > 0 {
		budget = b
	}
	base := filepath.Join(root(), ".build")
	_ = os.MkdirAll(base, 0o755)
	dir, err := os.MkdirTemp(base, "run-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	var last result
	var viol *explore.Violation
	var notes []string
	groups := 0
	builds := []string{"order", "", "sched", "race"}
	for _, fl := range builds {
		if len(ofBuild(ss, fl)) > 0 {
			groups++
		}
	}
	whole := budget
	for _, fl := range builds {
		of := ofBuild(ss, fl)
		if len(of) == 0 || viol != nil {
			continue
		}
		if tr == "thorough" { // the builds share the budget
			budget = max((whole-int(time.Since(t0).Seconds()))/groups, 20)
			groups--
		}
		exe := exeFor(fl)
		if _, err := os.Stat(exe); err != nil {
			notes = append(notes, fmt.Sprintf("%d scenarios skipped: the %s build is not available", len(of), fl))
			continue
		}
		if b, err := os.ReadFile(exe + ".note"); err == nil && len(b) > 0 {
			notes = append(notes, strings.TrimSpace(string(b)))
		}
		n := 1
		if fl != "" {
			n = runtime.NumCPU()
		}
		type part struct {
			r    result
			v    *explore.Violation
			note string
		}
		parts := make([]part, n)
		var wg sync.WaitGroup
		for i := range parts {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				d := filepath.Join(dir, fmt.Sprintf("%s%d", fl, i))
				_ = os.MkdirAll(d, 0o755)
				var extra []string
				if fl != "" {
					extra = []string{"-workers", "1", "-shard", strconv.Itoa(i), "-shards", strconv.Itoa(n)}
				}
				p := &parts[i]
				p.r, p.v, p.note = runGroup(exe, d, id, tr, of, budget, extra)
			}(i)
		}
		wg.Wait()
		merged := map[string]*explore.Stats{}
		for i := range parts {
			p := &parts[i]
			if p.v != nil && viol == nil {
				viol = p.v
			}
			if p.note != "" {
				notes = append(notes, p.note)
			}
			last.Known = append(last.Known, p.r.Known...)
			if i < 3 || len(p.r.Samples) > 0 && len(last.Samples) < 12 {
				last.Samples = append(last.Samples, p.r.Samples...)
			}
			for _, st := range p.r.Stats {
				st := st
				m := merged[st.Name]
				if m == nil {
					merged[st.Name] = &st
					continue
				}
				m.Executions += st.Executions
				m.Pruned += st.Pruned
				m.Strayed += st.Strayed
				m.Operations += st.Operations
				m.States += st.States
				m.Inputs += st.Inputs
				m.Complete = m.Complete && st.Complete
				if st.MaxChoices > m.MaxChoices {
					m.MaxChoices = st.MaxChoices
				}
				if st.WallMS > m.WallMS {
					m.WallMS = st.WallMS
				}
			}
		}
		for _, s := range of {
			if m := merged[s.Name]; m != nil {
				last.Stats = append(last.Stats, *m)
			}
		}
	}
	if len(last.Samples) > 16 {
		last.Samples = last.Samples[:16]
	}
	note := strings.Join(notes, "; ")
	for _, k := range last.Known {
		say("KNOWN-FINDING: property=%s %s", id, k)
	}
	code := 0
	if viol != nil {
		viol.Property, viol.Tier = id, tr
		f, err := explore.WriteReplay(filepath.Join(root(), "out"), viol)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		say("%s: %s", viol.Scenario, viol.Message)
		for i, l := range viol.Trace {
			if n := len(viol.Trace); n > 120 && i >= 20 && i < n-90 {
				if i == 20 {
					say("    ... %d lines", n-110)
				}
				continue
			}
			if len(l) > 400 {
				l = l[:400] + "..."
			}
			say("    %s", l)
		}
		say("VIOLATION property=%s replay=%s", id, f)
		code = 1
	}
	if len(last.Stats) == 0 && viol == nil {
		// no attempt produced a result: nothing was decided
		fmt.Fprintf(os.Stderr, "%s: no result: %s\n", id, note)
		return 2
	}
	writeEvidence(id, tr, &last, viol, note, time.Since(t0))
	var ex, st, op int64
	complete := true
	for _, s := range last.Stats {
		ex += s.Executions
		st += s.States
		op += s.Operations
		complete = complete && s.Complete
	}
	say("%s %s: %d scenarios, %d executions, %d states, %d operations, exhaustive=%v, %.1fs", id, tr, len(last.Stats), ex, st, op, complete && len(last.Stats) == len(ss), time.Since(t0).Seconds())
	return code
}

// runGroup runs the scenarios of one build in one process, with retries when it dies or hangs.
func runGroup(exe, dir, id, tr string, ss []*explore.Scenario, budget int, extra []string) (last result, viol *explore.Violation, note string) {
	slots := filepath.Join(dir, "slots")
	common := []string{"-id", id, "-tier", tr}
	common = common[:len(common):len(common)]
	limit := time.Duration(budget+120) * time.Second
	hang := 60
attempts:
	for attempt := 0; attempt < 3; attempt++ {
		o := spawn(exe, dir, limit, append(append(common, "-slots", slots, "-budget", strconv.Itoa(budget), "-hang", strconv.Itoa(hang)), extra...)...)
		switch {
		case o.res != nil && o.res.Hang != nil:
			h := o.res.Hang
			// confirm alone
			o2 := spawn(exe, dir, 90*time.Second, append(common, "-only", h.Scenario, "-choices", csv(h.Choices))...)
			if o2.timed {
				h.Message = "execution does not terminate"
				viol = h
				break attempts
			}
			if o2.res != nil && o2.res.Violation != nil {
				viol = o2.res.Violation
				break attempts
			}
			note = "one slow execution was re-run and terminated"
			hang = 240
			continue
		case o.res == nil && o.timed:
			note = "time limit of the child process"
			last = result{Stats: []explore.Stats{{Name: "time limit"}}}
			break attempts
		case o.res == nil:
			// the process died: find the execution
			vs, scs := explore.ReadSlots(slots)
			var first *explore.Violation
			for i, ch := range vs {
				if scs[i] >= len(ss) {
					continue
				}
				s := ss[scs[i]]
				o2 := spawn(exe, dir, 120*time.Second, append(common, "-only", s.Name, "-choices", csv(ch))...)
				v := &explore.Violation{Property: id, Scenario: s.Name, Bound: s.Bound, Choices: ch, Tier: tr}
				if o2.res == nil {
					v.Message = "the process dies (" + o2.exit + "): " + firstLines(o2.stderr, 3)
					v.Trace = strings.Split(o2.stderr, "\n")
					viol = v
					break attempts
				}
				if o2.res.Violation != nil {
					viol = o2.res.Violation
					break attempts
				}
				if first == nil {
					first = v
				}
			}
			note = "the process died (" + o.exit + ") and no single execution reproduced it"
			if attempt == 2 && first != nil && strings.Contains(o.stderr, "fatal error") {
				first.Message = "the process died in three runs, not reproducible by one execution alone: " + firstLines(o.stderr, 3)
				first.Trace = strings.Split(o.stderr, "\n")
				viol = first
				break attempts
			}
			fmt.Fprintf(os.Stderr, "%s: %s\n%s\n", id, note, o.stderr)
			continue
		default:
			last = *o.res
			if v := last.Violation; v != nil {
				if i := strings.Index(o.stderr, "WARNING: DATA RACE"); i >= 0 {
					r := strings.Split(o.stderr[i:], "\n")
					if len(r) > 40 {
						r = r[:40]
					}
					v.Trace = append(v.Trace, r...)
				}
			}
			if last.Violation != nil && last.Reproduce == "" {
				// found by the exploration but not by its replay alone: shared state; must show again
				if attempt < 2 {
					note = "a violation was found but not by replaying it alone: " + last.Violation.Message
					if viol0 := last.Violation; attempt == 1 {
						viol0.Message = "(needs the preceding executions) " + viol0.Message
						viol = viol0
						break attempts
					}
					continue
				}
			}
			viol = last.Violation
			break attempts
		}
	}
	return last, viol, note
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func writeEvidence(id, tr string, r *result, v *explore.Violation, note string, wall time.Duration) {
	var ex, st, op int64
	complete := true
	for _, s := range r.Stats {
		ex += s.Executions
		st += s.States
		op += s.Operations
		complete = complete && s.Complete
	}
	complete = complete && len(r.Stats) == len(scenarios(id, tr))
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"states":                        st,
		"transitions":                   op,
		"traces_validated_against_impl": ex,
		"samples":                       r.Samples,
		"exhaustive":                    complete,
		"executions":                    ex,
		"scenarios":                     r.Stats,
		"how_validated":                 "every explored execution runs the library compiled from /repo; the reference model (mc/ref) is compared with it at every step, so each execution is itself a validated trace",
	}
	if note != "" {
		cov["note"] = note
	}
	if v != nil {
		cov["violation"] = v.Message
	}
	ev := map[string]interface{}{
		"property": id, "tier": tr, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall.Seconds(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(root(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v explore.Violation
	if err = json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range scenarios(v.Property, v.Tier) {
		if s.Name != v.Scenario {
			continue
		}
		if s.Build != flavour {
			cmd := exec.Command(exeFor(s.Build), "replay", file)
			cmd.Stdout, cmd.Stderr = stdout, os.Stderr
			cmd.Env = append(os.Environ(), "GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 exitcode=0")
			err := cmd.Run()
			if e, ok := err.(*exec.ExitError); ok {
				return e.ExitCode()
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			return 0
		}
		w, c := explore.RunOnce(s, v.Choices, true)
		_ = c
		if w == nil {
			say("%s: no violation with these choices", v.Scenario)
			return 0
		}
		say("%s: %s", w.Scenario, w.Message)
		for _, l := range w.Trace {
			say("    %s", l)
		}
		say("VIOLATION property=%s replay=%s", v.Property, file)
		return 1
	}
	fmt.Fprintln(os.Stderr, "no such scenario:", v.Scenario)
	return 2
}
