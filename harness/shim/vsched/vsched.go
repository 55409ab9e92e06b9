// Package vsched is a cooperative scheduler and choice recorder for stateless model checking.
//
// At most one registered thread runs at any time. Every source of nondeterminism (which thread runs
// next, map iteration order, faults, inputs) is a recorded choice; an execution is a function of its
// sequence of choices. Nothing here allocates or touches shared Go maps while threads run, and every
// function is exempt from race instrumentation, so that in a -race build hand-offs between threads
// are invisible to the race detector.
package vsched

import (
	"fmt"
	"runtime/debug"
	"sort"
	"sync"
	"time"
)

// Kind classifies choices; each kind has its own deviation budget.
type Kind uint8

const (
	Free    Kind = iota // unbounded: inputs, operations, who continues after a block
	Preempt             // switching away from a runnable thread
	Fault               // injected failures
	Order               // map iteration order
	Env                 // other deviations of the environment
	NKinds
)

const maxChoices = 1 << 16
const maxThreads = 256
const maxSites = 1 << 14

type choice struct {
	n, pick uint16
	kind    Kind
}

// Abort unwinds threads of an aborted execution.
type Abort struct{ Reason string }

func (a Abort) Error() string { return "aborted: " + a.Reason }

type thread struct {
	id     int
	wake   chan struct{}
	done   bool
	cond   func() bool // blocked until true, when non-nil
	visits []uint8     // per site
	panic  any
	spin   int
	owner  *thread // the Par thread (or the body) on whose behalf it runs
	extra  bool    // started by a go statement of the code under test
	raise  any     // panic value passed on from a thread it started
}

// Unwinder marks panic values of the harness that end the call they happen in. In a thread started by
// the code under test they end the call on whose behalf that thread runs.
type Unwinder interface{ Unwinds() }

var (
	active  bool
	fine    bool // statement-level points enabled
	coarse  bool // sync/IO points enabled
	siteCap uint8
	horizon int

	threads  [maxThreads]*thread
	nthreads int
	cur      *thread

	stack  [maxChoices]choice
	nstack int // recorded choices of this execution
	prefix int // choices to replay
	budget [NKinds]int
	used   [NKinds]int

	aborted    bool
	abortWhy   string
	steps      int
	points     int
	switches   int
	diverged   bool
	orderOn    bool
	calm       bool // outside of Par: threads started by the code under test run in a fixed order
	deadlocked bool

	clockSet bool
	clock    time.Time

	enPoint, enBlock [maxThreads]*thread // scratch

	wg sync.WaitGroup // real: joins threads at the end with a genuine happens-before edge
)

// Config of one exploration.
type Config struct {
	Budget  [NKinds]int
	Fine    bool
	Coarse  bool
	SiteCap int
	Horizon int
}

var cfg Config

// ---- choices -------------------------------------------------------------

//go:norace
func choose(n int, k Kind) int {
	if n <= 1 {
		return 0
	}
	if k != Free && used[k] >= budget[k] {
		return 0
	}
	if n > 65535 {
		panic("vsched: choice too wide")
	}
	if nstack < prefix {
		c := &stack[nstack]
		if int(c.n) != n || c.kind != k {
			diverged = true
			abortAll(fmt.Sprintf("replay divergence at choice %d: recorded %d options of kind %d, now %d of kind %d", nstack, c.n, c.kind, n, k))
			panic(Abort{"divergence"})
		}
		nstack++
		if c.pick != 0 && k != Free {
			used[k]++
		}
		return int(c.pick)
	}
	if nstack >= maxChoices {
		abortAll("choice stack exhausted")
		panic(Abort{"choices"})
	}
	stack[nstack] = choice{n: uint16(n), kind: k}
	nstack++
	return 0
}

// Choose picks one of n alternatives; alternatives other than 0 consume one unit of the kind's budget.
//
//go:norace
func Choose(n int, k Kind) int {
	if !active {
		return 0
	}
	return choose(n, k)
}

// Left tells whether the kind's budget allows another deviation.
//
//go:norace
func Left(k Kind) int { return budget[k] - used[k] }

// Used tells how many deviations of the kind this execution has taken.
//
//go:norace
func Used(k Kind) int { return used[k] }

// ---- scheduling ----------------------------------------------------------

//go:norace
func handoff(from, to *thread) {
	raceDisable()
	cur = to
	switches++
	to.wake <- struct{}{}
	if from != nil {
		<-from.wake
	}
	raceEnable()
	if from != nil {
		if aborted {
			panic(Abort{abortWhy})
		}
		raised(from)
	}
}

//go:norace
func raised(t *thread) {
	if r := t.raise; r != nil {
		t.raise, t.cond = nil, nil
		panic(r)
	}
}

//go:norace
func runnable(t *thread) bool {
	if t.done {
		return false
	}
	return t.cond == nil || t.raise != nil || t.cond()
}

// point offers a switch away from the running (runnable) thread.
//
//go:norace
func point() {
	points++
	t := cur
	en := &enPoint
	en[0] = t
	n := 1
	for i := 0; i < nthreads; i++ {
		if o := threads[i]; o != t && runnable(o) {
			en[n] = o
			n++
		}
	}
	if n == 1 {
		return
	}
	if calm {
		return
	}
	if p := choose(n, Preempt); p != 0 {
		handoff(t, en[p])
	}
}

// P is the statement-level scheduling point.
//
//go:norace
func P(site int) {
	if !active {
		return
	}
	steps++
	if steps > horizon {
		abortAll("horizon")
		panic(Abort{"horizon"})
	}
	if aborted {
		panic(Abort{abortWhy})
	}
	if nthreads == 1 {
		return
	}
	t := cur
	t.spin++
	if t.spin > 200000 {
		t.spin = 0
		forceSwitch()
		return
	}
	if !fine || site >= maxSites {
		return
	}
	if t.visits[site] >= siteCap {
		return
	}
	t.visits[site]++
	point()
}

// Yield is the scheduling point at synchronisation operations and environment calls.
//
//go:norace
func Yield() {
	if !active || !coarse || nthreads == 1 {
		return
	}
	if aborted {
		panic(Abort{abortWhy})
	}
	steps++
	if steps > horizon {
		abortAll("horizon")
		panic(Abort{"horizon"})
	}
	point()
}

// forceSwitch lets another runnable thread run (fairness for spinning code); not a choice.
//
//go:norace
func forceSwitch() {
	t := cur
	for i := 1; i <= nthreads; i++ {
		o := threads[(t.id+i)%nthreads]
		if o != t && runnable(o) {
			handoff(t, o)
			return
		}
	}
}

// Block suspends the calling thread until cond holds. Outside of a controlled execution it returns
// immediately: the caller's real primitive blocks instead.
//
//go:norace
func Block(cond func() bool) {
	if !active {
		return
	}
	if aborted {
		panic(Abort{abortWhy})
	}
	if cond() {
		return
	}
	t := cur
	t.cond = cond
	next := pickNext()
	if next == nil {
		stuck()
		panic(Abort{abortWhy})
	}
	if next != t {
		handoff(t, next)
	}
	raised(t)
	t.cond = nil
}

// stuck ends an execution in which no thread can go on: a deadlock, unless only threads started by the
// code under test are left behind.
//
//go:norace
func stuck() {
	if aborted {
		return
	}
	if threads[0].done {
		abortAll("stop: threads left behind")
		return
	}
	deadlocked = true
	abortAll("deadlock: every unfinished thread is blocked")
}

// pickNext waits a moment for events from outside (timers, say) if threads are blocked on channels.
//
//go:norace
func pickNext() *thread {
	t := pickRunnable()
	for i := 0; t == nil && nwaiters > 0 && !threads[0].done && i < 200; i++ {
		raceDisable()
		time.Sleep(5 * time.Millisecond)
		raceEnable()
		t = pickRunnable()
	}
	return t
}

//go:norace
func pickRunnable() *thread {
	en := &enBlock
	n := 0
	for i := 0; i < nthreads; i++ {
		if runnable(threads[i]) {
			en[n] = threads[i]
			n++
		}
	}
	if n == 0 {
		return nil
	}
	if calm {
		return en[0]
	}
	return en[choose(n, Free)]
}

//go:norace
func abortAll(why string) {
	if !aborted {
		aborted = true
		abortWhy = why
	}
}

// AbortExecution ends the running execution from inside a thread.
//
//go:norace
func AbortExecution(why string) {
	if active {
		abortAll(why)
	}
	panic(Abort{why})
}

//go:norace
func newThread() *thread {
	// Threads the code under test starts by the dozen take the places of those that have ended.
	for i := 1; i < nthreads; i++ {
		if t := threads[i]; t.done && t.extra {
			for i := range t.visits {
				t.visits[i] = 0
			}
			t.done, t.cond, t.panic, t.spin, t.raise, t.extra = false, nil, nil, 0, nil, false
			return t
		}
	}
	if nthreads >= maxThreads {
		abortAll("too many threads")
		panic(Abort{"threads"})
	}
	t := threads[nthreads]
	if t == nil {
		t = &thread{id: nthreads, wake: make(chan struct{}), visits: make([]uint8, maxSites)}
		threads[nthreads] = t
	} else {
		for i := range t.visits {
			t.visits[i] = 0
		}
	}
	t.done, t.cond, t.panic, t.spin, t.raise, t.extra = false, nil, nil, 0, nil, false
	t.owner = t
	nthreads++
	return t
}

// Go starts f as a new thread. Outside of a controlled execution it is a plain go statement.
//
//go:norace
func Go(f func()) {
	if !active {
		go f()
		return
	}
	t := newThread()
	t.owner, t.extra = cur.owner, true
	wg.Add(1)
	go runThread(t, f)
	Yield()
}

//go:norace
func start(f func()) {
	t := newThread()
	t.owner = t
	wg.Add(1)
	go runThread(t, f)
}

//go:norace
func runThread(t *thread, f func()) {
	defer wg.Done()
	// A fault on memory that a result refers to (a file mapping, say) is a panic of the execution,
	// not the end of the process.
	debug.SetPanicOnFault(true)
	raceDisable()
	<-t.wake
	raceEnable()
	defer finish(t)
	if aborted || t.raise != nil {
		return
	}
	f()
}

//go:norace
func finish(t *thread) {
	if r := recover(); r != nil {
		if _, ok := r.(Abort); ok {
		} else if _, ok := r.(Unwinder); ok && t.extra && !t.owner.done {
			t.owner.raise = r
			for i := 0; i < nthreads; i++ {
				if o := threads[i]; o != t && o.extra && !o.done && o.owner == t.owner {
					o.raise = Abort{"stop: the call has ended"}
				}
			}
		} else {
			t.panic = r
			abortAll("panic")
		}
	}
	t.done = true
	if aborted {
		// Unwind every remaining thread, one at a time.
		for i := 0; i < nthreads; i++ {
			if o := threads[i]; !o.done {
				raceDisable()
				cur = o
				o.wake <- struct{}{}
				raceEnable()
				return
			}
		}
		finished()
		return
	}
	left := false
	for i := 0; i < nthreads; i++ {
		if !threads[i].done {
			left = true
		}
	}
	if !left {
		finished()
		return
	}
	var next *thread
	func() {
		defer func() {
			if r := recover(); r != nil {
				next = nil
			}
		}()
		next = pickNext()
	}()
	if next == nil {
		stuck()
		for i := 0; i < nthreads; i++ {
			if o := threads[i]; !o.done {
				next = o
				break
			}
		}
	}
	raceDisable()
	cur = next
	next.wake <- struct{}{}
	raceEnable()
}

var doneCh = make(chan struct{}, 1)

//go:norace
func finished() {
	raceDisable()
	doneCh <- struct{}{}
	raceEnable()
}

// Par runs the functions as concurrent threads and returns when all have finished.
//
//go:norace
func Par(fs ...func()) {
	if !active {
		for _, f := range fs {
			f()
		}
		return
	}
	n := 0
	var ran [maxThreads]bool
	for i, f := range fs {
		i, f := i, f
		start(func() {
			defer setDone(&ran, &n, i)
			f()
		})
	}
	calm = false
	Block(func() bool { return parDone(&n, len(fs)) })
	calm = true
	raceAcquire() // genuine edge: child end -> Par return
}

//go:norace
func setDone(ran *[maxThreads]bool, n *int, i int) {
	raceReleaseMerge()
	ran[i] = true
	*n++
}

//go:norace
func parDone(n *int, want int) bool { return *n == want }

// Result of one execution.
type Result struct {
	Panic    any
	Why      string // non-empty when aborted
	Deadlock bool
	Horizon  bool
	Diverged bool
	Choices  int
	Points   int
	Switches int
	Steps    int
}

// SetPrefix loads the choices to replay.
func SetPrefix(p []uint16, ns []uint16, ks []Kind) {
	for i := range p {
		stack[i] = choice{n: ns[i], pick: p[i], kind: ks[i]}
	}
	prefix = len(p)
}

// Stack returns the recorded choices.
func Stack() (picks, ns []uint16, ks []Kind) {
	for i := 0; i < nstack; i++ {
		picks = append(picks, stack[i].pick)
		ns = append(ns, stack[i].n)
		ks = append(ks, stack[i].kind)
	}
	return
}

// Configure sets the bounds of the following executions.
func Configure(c Config) {
	cfg = c
	if cfg.SiteCap <= 0 {
		cfg.SiteCap = 2
	}
	if cfg.SiteCap > 250 {
		cfg.SiteCap = 250
	}
	if cfg.Horizon <= 0 {
		cfg.Horizon = 20_000_000
	}
}

// RunOnce executes body under the loaded prefix.
func RunOnce(body func()) Result {
	budget = cfg.Budget
	for i := range used {
		used[i] = 0
	}
	nthreads, nstack, steps, points, switches = 0, 0, 0, 0, 0
	nwaiters, nclosed = 0, 0
	aborted, abortWhy, diverged, deadlocked = false, "", false, false
	fine, coarse, siteCap, horizon = cfg.Fine, cfg.Coarse, uint8(cfg.SiteCap), cfg.Horizon
	clockSet, orderOn, calm = false, false, true
	t := newThread()
	cur = t
	active = true
	wg.Add(1)
	go runThread(t, body)
	raceDisable()
	t.wake <- struct{}{}
	<-doneCh
	raceEnable()
	wg.Wait()
	active = false
	r := Result{Why: "", Deadlock: deadlocked, Diverged: diverged, Choices: nstack, Points: points, Switches: switches, Steps: steps}
	if aborted {
		r.Why = abortWhy
		r.Horizon = abortWhy == "horizon"
	}
	for i := 0; i < nthreads; i++ {
		if threads[i].panic != nil {
			r.Panic = threads[i].panic
		}
	}
	return r
}

// Next advances to the next unexplored execution of the depth-first enumeration, honouring the
// predicate that decides whether a prefix belongs to this shard. It reports false when done.
func Next(mine func(picks func(i int) int, n int) bool) bool {
	i := nstack - 1
	for i >= 0 {
		c := &stack[i]
		if int(c.pick)+1 < int(c.n) {
			c.pick++
			if mine == nil || mine(func(j int) int { return int(stack[j].pick) }, i+1) {
				prefix = i + 1
				return true
			}
			continue
		}
		i--
	}
	prefix = 0
	return false
}

// Position is a point of an enumeration at which it can go on.
type Position struct {
	choices []choice
	prefix  int
}

// Save returns where the enumeration is, after Next.
func Save() Position {
	return Position{append([]choice(nil), stack[:nstack]...), prefix}
}

// Restore goes back to a saved position.
func Restore(p Position) { nstack, prefix = copy(stack[:], p.choices), p.prefix }

// Reset forgets all recorded choices.
func Reset() { prefix, nstack = 0, 0 }

// Active reports whether a controlled execution is running.
//
//go:norace
func Active() bool { return active }

// Copy is copy with a point in the middle: other threads can see half of the bytes.
func Copy(site int, dst, src []byte) int {
	n := len(src)
	if len(dst) < n {
		n = len(dst)
	}
	if !active || nthreads == 1 || n < 2 {
		return copy(dst, src)
	}
	h := n / 2
	if &dst[0] != &src[0] && n <= 1<<16 { // overlapping regions are copied at once
		tail := append([]byte(nil), src[h:n]...)
		copy(dst[:h], src[:h])
		P(site)
		copy(dst[h:n], tail)
		return n
	}
	return copy(dst, src)
}

// SetFine switches statement-level points on or off inside an execution (e.g. during set-up).
//
//go:norace
func SetFine(b bool) { fine = b && cfg.Fine }

// SetOrder switches exploration of map order on or off.
//
//go:norace
func SetOrder(b bool) { orderOn = b }

// ThreadID of the running thread; threads started by the code under test count as the one they work for.
//
//go:norace
func ThreadID() int {
	if !active {
		return 0
	}
	return cur.owner.id
}

// Steps executed so far.
//
//go:norace
func Steps() int { return steps }

// ---- time ----------------------------------------------------------------

// SetClock installs a virtual time; the zero time restores the real clock.
//
//go:norace
func SetClock(t time.Time) { clock, clockSet = t, !t.IsZero() }

//go:norace
func Now() time.Time {
	if clockSet {
		return clock
	}
	return time.Now()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// ---- map iteration -------------------------------------------------------

// MapIter iterates over a map.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// MapRange starts an iteration over m; the variables are declared along with it.
func MapRange[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *MapIter[K, V]) {
	return k, v, &MapIter[K, V]{m, entries[K, V](m)}
}

func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		next := it.keys[0]
		it.keys = it.keys[1:]
		if x, ok := it.m[next]; ok {
			*k, *v = next, x
			return true
		}
	}
	return false
}

// entries returns the keys of m in an order chosen by the explorer (sorted by default).
func entries[K comparable, V any](m map[K]V) []K {
	r := make([]K, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	if len(r) < 2 {
		return r
	}
	sort.Slice(r, func(i, j int) bool { return less(r[i], r[j]) })
	if active && orderOn {
		for i := 0; i+1 < len(r); i++ {
			if p := choose(len(r)-i, Order); p != 0 {
				x := r[i+p]
				copy(r[i+1:i+p+1], r[i:i+p])
				r[i] = x
			}
		}
	}
	return r
}

func less(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case int:
		return x < b.(int)
	case uint64:
		return x < b.(uint64)
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}
