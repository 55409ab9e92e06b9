// Package vsync mirrors package sync for code run under vsched: blocking is decided by the scheduler
// and every operation is a scheduling point. Each primitive also performs the corresponding real
// operation, so that the race detector sees the genuine happens-before edges. Outside of a controlled
// execution the primitives behave like the originals.
package vsync

import (
	"fmt"
	"sort"
	gosync "sync"

	"verif.local/shim/vsched"
)

type Locker = gosync.Locker

// ---- Mutex ----

type Mutex struct {
	real gosync.Mutex
	held bool
}

//go:norace
func (m *Mutex) free() bool { return !m.held }

//go:norace
func (m *Mutex) set(b bool) { m.held = b }

func (m *Mutex) Lock() {
	vsched.Yield()
	vsched.Block(m.free)
	m.set(true)
	m.real.Lock()
}

func (m *Mutex) TryLock() bool {
	vsched.Yield()
	if vsched.Active() && !m.free() {
		return false
	}
	if !m.real.TryLock() {
		return false
	}
	m.set(true)
	return true
}

func (m *Mutex) Unlock() {
	m.set(false)
	m.real.Unlock()
	vsched.Yield()
}

// ---- RWMutex ----

type RWMutex struct {
	real    gosync.RWMutex
	w       bool
	r       int
	waiting int
}

//go:norace
func (m *RWMutex) canW() bool { return !m.w && m.r == 0 }

//go:norace
func (m *RWMutex) canR() bool { return !m.w && m.waiting == 0 }

//go:norace
func (m *RWMutex) addWaiting(d int) { m.waiting += d }

//go:norace
func (m *RWMutex) setW(b bool) { m.w = b }

//go:norace
func (m *RWMutex) addR(d int) { m.r += d }

func (m *RWMutex) Lock() {
	vsched.Yield()
	m.addWaiting(1)
	func() {
		defer m.addWaiting(-1)
		vsched.Block(m.canW)
	}()
	m.setW(true)
	m.real.Lock()
}

func (m *RWMutex) TryLock() bool {
	vsched.Yield()
	if vsched.Active() && !m.canW() {
		return false
	}
	if !m.real.TryLock() {
		return false
	}
	m.setW(true)
	return true
}

func (m *RWMutex) Unlock() {
	m.setW(false)
	m.real.Unlock()
	vsched.Yield()
}

func (m *RWMutex) RLock() {
	vsched.Yield()
	vsched.Block(m.canR)
	m.addR(1)
	m.real.RLock()
}

func (m *RWMutex) TryRLock() bool {
	vsched.Yield()
	if vsched.Active() && !m.canR() {
		return false
	}
	if !m.real.TryRLock() {
		return false
	}
	m.addR(1)
	return true
}

func (m *RWMutex) RUnlock() {
	m.addR(-1)
	m.real.RUnlock()
	vsched.Yield()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// ---- Once ----

type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// ---- WaitGroup ----

type WaitGroup struct {
	real gosync.WaitGroup
	n    int
}

//go:norace
func (w *WaitGroup) zero() bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) add(d int) { w.n += d }

func (w *WaitGroup) Add(d int) {
	w.add(d)
	w.real.Add(d)
	vsched.Yield()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vsched.Yield()
	vsched.Block(w.zero)
	w.real.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// ---- Cond ----

type Cond struct {
	L    Locker
	real *gosync.Cond
	next int
	rel  int
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: gosync.NewCond(l)} }

//go:norace
func (c *Cond) ticket() int { c.next++; return c.next }

//go:norace
func (c *Cond) released(t int) bool { return c.rel >= t }

//go:norace
func (c *Cond) signal(all bool) {
	if all {
		c.rel = c.next
	} else if c.rel < c.next {
		c.rel++
	}
}

func (c *Cond) Wait() {
	if !vsched.Active() {
		c.real.Wait()
		return
	}
	t := c.ticket()
	c.L.Unlock()
	vsched.Block(func() bool { return c.released(t) })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if !vsched.Active() {
		c.real.Signal()
		return
	}
	c.signal(false)
	vsched.Yield()
}
func (c *Cond) Broadcast() {
	if !vsched.Active() {
		c.real.Broadcast()
		return
	}
	c.signal(true)
	vsched.Yield()
}

// ---- Pool ----

// Pool is deterministic: last in, first out, nothing is ever dropped.
type Pool struct {
	New   func() any
	mu    gosync.Mutex
	items []any
}

func (p *Pool) Get() any {
	vsched.Yield()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
	vsched.Yield()
}

// ---- Map ----

// Map is sync.Map with a scheduling point before every operation and an ordered Range.
type Map struct{ real gosync.Map }

func (m *Map) Load(k any) (any, bool) { vsched.Yield(); return m.real.Load(k) }
func (m *Map) Store(k, v any)         { vsched.Yield(); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsched.Yield()
	return m.real.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { vsched.Yield(); return m.real.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { vsched.Yield(); m.real.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { vsched.Yield(); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool { vsched.Yield(); return m.real.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool  { vsched.Yield(); return m.real.CompareAndDelete(k, o) }
func (m *Map) Clear()                          { vsched.Yield(); m.real.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	vsched.Yield()
	var ks []any
	m.real.Range(func(k, _ any) bool { ks = append(ks, k); return true })
	sort.SliceStable(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	for _, k := range ks {
		vsched.Yield()
		v, ok := m.real.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
