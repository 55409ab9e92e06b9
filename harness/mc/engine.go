package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif.local/shim/vsched"
)

// manySteps is the horizon of scenarios with large inputs.
const manySteps = 1 << 30

// Scenario is one bounded space of executions of the code under test.
type Scenario struct {
	Name   string
	Body   func(x *X)
	Pre    int // preemption budget
	Faults int // fault budget
	Order  int // map order deviation budget
	Env    int // environment deviation budget
	Fine   bool
	Coarse bool
	Site   int  // per-site visit cap for statement-level points
	Shard  int  // number of leading non-default choices that decide the shard (default 2)
	Solo   bool // not sharded: only worker 0 runs it
	Cap    int  // maximum executions per worker (0: none); a capped scenario is not exhaustive
	Steps  int  // horizon in statements (0: the default)
}

// Violation of a property, found in one execution.
type Violation struct {
	Prop     string
	Scenario string
	Sig      string
	Msg      string
	Trace    []string
	Picks    []uint16
	Ns       []uint16
	Ks       []vsched.Kind
	Exec     int
	Worker   int
}

// X is the context of one execution.
type X struct {
	sc     *Scenario
	prop   string
	trace  []string
	fails  []Violation
	states map[uint64]struct{}
	outs   map[string]int
	ops    int
	mute   bool
	closer []func()
}

type failNow struct{}

func (failNow) Unwinds() {}

// newX preallocates everything threads append to, so that race builds see no runtime-instrumented growth.
func newX(sc *Scenario, prop string, states map[uint64]struct{}) *X {
	return &X{sc: sc, prop: prop, states: states, outs: map[string]int{},
		trace: make([]string, 0, 400), fails: make([]Violation, 0, 32)}
}

// Failf records a violation and ends the execution. sig identifies the failure independent of
// data that varies between runs.
func (x *X) Failf(sig, format string, a ...any) {
	x.Note(sig, format, a...)
	panic(failNow{})
}

// Note records a violation and carries on.
//
//go:norace
func (x *X) Note(sig, format string, a ...any) {
	for i := range x.fails {
		if x.fails[i].Sig == sig {
			return
		}
	}
	if n := len(x.fails); n < cap(x.fails) {
		x.fails = x.fails[:n+1]
		x.fails[n] = Violation{Sig: sig, Msg: fmt.Sprintf(format, a...)}
	}
}

// Logf adds a line to the trace of the execution.
//
//go:norace
func (x *X) Logf(format string, a ...any) {
	if n := len(x.trace); n < cap(x.trace) {
		x.trace = x.trace[:n+1]
		x.trace[n] = fmt.Sprintf(format, a...)
	}
}

// Op counts one operation executed on the code under test.
//
//go:norace
func (x *X) Op() { x.ops++ }

// State registers a canonical description of a reached state.
func (x *X) State(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, x.sc.Name)
	for _, p := range parts {
		fmt.Fprintf(h, "|%v", p)
	}
	x.states[h.Sum64()] = struct{}{}
}

// Out counts a distinct observed outcome.
func (x *X) Out(format string, a ...any) {
	k := fmt.Sprintf(format, a...)
	if len(x.outs) < 5000 || x.outs[k] > 0 {
		x.outs[k]++
	}
}

// Defer runs f after the execution, even when it is aborted.
func (x *X) Defer(f func()) { x.closer = append(x.closer, f) }

// Pick chooses one of n inputs exhaustively.
func (x *X) Pick(n int) int { return vsched.Choose(n, vsched.Free) }

// Bool chooses exhaustively.
func (x *X) Bool() bool { return vsched.Choose(2, vsched.Free) == 1 }

// Par runs threads under all interleavings within the budget.
func (x *X) Par(fs ...func()) { vsched.Par(fs...) }

// Guard calls f and reports a panic of the code under test as a violation.
func (x *X) Guard(sig string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if passThrough(r) {
				panic(r)
			}
			x.Note("panic:"+sig, "panic in %s: %v\n%s", sig, r, shortStack())
			panic(failNow{})
		}
	}()
	f()
}

// Panics reports whether f panicked (scheduler unwinding excluded).
func Panics(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			if passThrough(r) {
				panic(r)
			}
			p = r
		}
	}()
	f()
	return nil
}

func passThrough(r any) bool {
	switch r.(type) {
	case vsched.Abort, failNow, crashSignal:
		return true
	}
	return false
}

func shortStack() string {
	s := string(debug.Stack())
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "d1-lib") || strings.Contains(l, "/d1/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// Stats of one worker.
type Stats struct {
	Executions  int
	Owned       int // executions counted for this worker only
	Transitions int
	Points      int
	Switches    int
	MaxChoices  int
	States      []uint64
	Outcomes    map[string]int
	PerScenario map[string]*ScStats
	Samples     []string
	Exhaustive  bool
	Notes       []string
	Violations  []Violation
}

type ScStats struct {
	Executions int
	Outcomes   int
	Complete   bool
	MaxPoints  int
}

type runner struct {
	prop     string
	worker   int
	workers  int
	deadline time.Time
	stats    *Stats
	states   map[uint64]struct{}
	outs     map[string]int
	known    map[string]bool
	sigs     map[string]bool
	hb       func()
}

func (r *runner) config(sc *Scenario) vsched.Config {
	var c vsched.Config
	c.Budget[vsched.Preempt] = sc.Pre
	c.Budget[vsched.Fault] = sc.Faults
	c.Budget[vsched.Order] = sc.Order
	c.Budget[vsched.Env] = sc.Env
	c.Fine = sc.Fine
	c.Coarse = sc.Coarse || sc.Fine
	c.SiteCap = sc.Site
	c.Horizon = sc.Steps
	return c
}

func (r *runner) one(sc *Scenario) (*X, vsched.Result) {
	x := newX(sc, r.prop, r.states)
	resetEnv(x)
	races := vsched.RaceErrors()
	res := vsched.RunOnce(func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(failNow); ok {
					return
				}
				panic(e)
			}
		}()
		sc.Body(x)
	})
	for i := len(x.closer) - 1; i >= 0; i-- {
		x.closer[i]()
	}
	switch {
	case res.Diverged:
		// Not a violation by itself: the execution does not replay.
	case res.Deadlock:
		x.Note("deadlock", "%s", res.Why)
	case res.Horizon:
		x.Note("nontermination", "execution exceeded %d steps", res.Steps)
	case res.Panic != nil:
		if _, ok := res.Panic.(failNow); !ok {
			x.Note("panic", "panic: %v", res.Panic)
		}
	case res.Why != "":
		if strings.HasPrefix(res.Why, "io-horizon") {
			x.Note("nontermination", "%s", res.Why)
		} else if !strings.HasPrefix(res.Why, "stop") {
			r.note("aborted execution: " + res.Why)
		}
	}
	if n := vsched.RaceErrors(); n > races {
		x.Note("race", "the race detector reported %d data race(s)", n-races)
	}
	return x, res
}

func (r *runner) note(s string) {
	for _, n := range r.stats.Notes {
		if n == s {
			return
		}
	}
	if len(r.stats.Notes) < 40 {
		r.stats.Notes = append(r.stats.Notes, s)
	}
}

// exploration is a scenario whose exploration is under way.
type exploration struct {
	sc           *Scenario
	st           *ScStats
	outs         map[string]int
	execs, again int
	at           vsched.Position
	spent        time.Duration
}

// How the exploration of a scenario went on.
const (
	explored = iota
	sliceUp
	stop
)

// explore goes on exploring one scenario until the end of its time slice.
func (r *runner) explore(e *exploration, slice time.Duration) int {
	sc := e.sc
	if sc.Solo && r.worker != 0 {
		return explored
	}
	t0 := time.Now()
	defer func() { e.spent += time.Since(t0) }()
	vsched.Configure(r.config(sc))
	if e.st == nil {
		e.st = &ScStats{}
		e.outs = map[string]int{}
		r.stats.PerScenario[sc.Name] = e.st
		vsched.Reset()
	} else {
		vsched.Restore(e.at)
	}
	st, outs := e.st, e.outs
	S := sc.Shard
	if S == 0 {
		S = 2
	}
	workers := r.workers
	if sc.Solo {
		workers = 1
	}
	shardOf := func(pick func(int) int, n int) (int, bool) {
		h := uint64(1469598103934665603)
		c := 0
		for i := 0; i < n && c < S; i++ {
			if p := pick(i); p != 0 {
				h = (h ^ uint64(i+1)) * 1099511628211
				h = (h ^ uint64(p)) * 1099511628211
				c++
			}
		}
		h ^= h >> 29
		return int(h % uint64(workers)), c >= S
	}
	mine := func(pick func(int) int, n int) bool {
		s, decided := shardOf(pick, n)
		return !decided || s == r.worker
	}
	for {
		x, res := r.one(sc)
		e.execs++
		execs := e.execs
		r.hb()
		picks, ns, ks := vsched.Stack()
		s, _ := shardOf(func(i int) int { return int(picks[i]) }, len(picks))
		owned := workers == 1 || s == r.worker
		r.stats.Executions++
		if owned {
			st.Executions++
			r.stats.Owned++
			r.stats.Transitions += x.ops
			r.stats.Points += res.Points
			r.stats.Switches += res.Switches
			if res.Points > st.MaxPoints {
				st.MaxPoints = res.Points
			}
			for k, v := range x.outs {
				outs[k] += v
			}
		}
		if len(picks) > r.stats.MaxChoices {
			r.stats.MaxChoices = len(picks)
		}
		if res.Diverged {
			// Perhaps a matter of chance (an order the explorer does not control): try again, then
			// give up the executions below this point.
			if e.again++; e.again < 8 {
				continue
			}
			r.note(fmt.Sprintf("scenario %s: execution %d did not replay identically: %s", sc.Name, execs, res.Why))
			r.stats.Exhaustive = false
		}
		e.again = 0
		for _, f := range x.fails {
			key := sc.Name + " " + f.Sig
			if r.sigs[key] {
				continue
			}
			r.sigs[key] = true
			f.Prop, f.Scenario, f.Trace = r.prop, sc.Name, x.trace
			f.Picks, f.Ns, f.Ks = picks, ns, ks
			f.Exec, f.Worker = r.stats.Executions, r.worker
			r.stats.Violations = append(r.stats.Violations, f)
		}
		if len(r.stats.Samples) < 6 && (execs == 1 || execs == 7 || execs == 77) {
			r.stats.Samples = append(r.stats.Samples, sc.Name+": "+clip(strings.Join(x.trace, "; "), 900))
		}
		unknown := 0
		for _, v := range r.stats.Violations {
			if !r.known[v.Prop+" "+v.Sig] {
				unknown++
			}
		}
		if unknown > 0 && os.Getenv("MC_ALL") == "" {
			r.stats.Exhaustive = false
			return stop
		}
		if !vsched.Next(mine) {
			break
		}
		if sc.Cap > 0 && execs >= sc.Cap {
			r.stats.Exhaustive = false
			r.note(fmt.Sprintf("scenario %s: stopped at the cap of %d executions per worker", sc.Name, sc.Cap))
			r.done(e)
			return explored
		}
		if execs%64 == 0 || execs < 64 {
			if now := time.Now(); now.After(r.deadline) || now.Sub(t0) > slice {
				e.at = vsched.Save()
				return sliceUp
			}
		}
	}
	st.Complete = true
	r.done(e)
	return explored
}

// done records the outcomes of a scenario.
func (r *runner) done(e *exploration) {
	e.st.Outcomes = len(e.outs)
	for k, v := range e.outs {
		if len(r.outs) < 5000 {
			r.outs[e.sc.Name+": "+k] += v
		}
	}
}

// run explores the scenarios. One that takes long is set aside when its time slice is over and goes on
// after the others, so that none of them is left out when time runs out.
func (r *runner) run(scs []*Scenario) {
	var todo []*exploration
	for _, sc := range scs {
		todo = append(todo, &exploration{sc: sc})
	}
	slice := time.Until(r.deadline) / 8
	for len(todo) > 0 {
		var later []*exploration
		for i, e := range todo {
			if time.Now().After(r.deadline) {
				for _, e := range append(later, todo[i:]...) {
					r.stats.Exhaustive = false
					r.note("scenario " + e.sc.Name + ": internal deadline reached")
					if e.st == nil {
						r.stats.PerScenario[e.sc.Name] = &ScStats{}
					} else {
						r.done(e)
					}
				}
				return
			}
			res := r.explore(e, slice)
			if os.Getenv("MC_TIME") != "" {
				fmt.Fprintf(os.Stderr, "w%d %-40s %8d execs %6.1fs\n", r.worker, e.sc.Name, e.execs, e.spent.Seconds())
			}
			switch res {
			case sliceUp:
				later = append(later, e)
			case stop:
				return
			}
		}
		todo = later
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}
