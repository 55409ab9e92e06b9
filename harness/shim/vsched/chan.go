package vsched

import (
	"reflect"
	"unsafe"
)

// Channel operations of the code under test. Buffered channels and closing use the real channel, which
// never blocks here; on unbuffered channels sender and receiver meet in the table of waiting threads.

// Comm is one channel operation.
type Comm interface {
	key() uintptr
	isSend() bool
	buffered() bool
	canReal() bool // would not block on the real channel
	real()
	match(o Comm) // takes from, or gives to, the waiting counterpart
	reflectCase() reflect.SelectCase
	received(v reflect.Value, ok bool)
}

type selOp struct {
	fired bool
	idx   int
}

// closedChan keeps the channel, so that its address is not used again during the execution.
type closedChan struct {
	key uintptr
	ch  any
}

type waiter struct {
	op  *selOp
	idx int
	c   Comm
}

const maxWaiters = 128

var (
	waiters  [maxWaiters]waiter
	nwaiters int
	closed   [4096]closedChan
	nclosed  int
)

// RComm is a receive operation.
type RComm[T any] struct {
	ch   <-chan T
	v    T
	ok   bool
	have bool
}

func RecvCase[T any](ch <-chan T) *RComm[T] { return &RComm[T]{ch: ch} }

//go:norace
func (c *RComm[T]) key() uintptr { return reflect.ValueOf(c.ch).Pointer() }

//go:norace
func (c *RComm[T]) buffered() bool { return cap(c.ch) > 0 }

//go:norace
func (c *RComm[T]) isSend() bool { return false }

//go:norace
func (c *RComm[T]) canReal() bool {
	if c.have || len(c.ch) > 0 {
		return true
	}
	raceDisable()
	defer raceEnable()
	select {
	case v, ok := <-c.ch:
		if ok { // from a goroutine nobody controls, a timer say
			c.v, c.ok, c.have = v, true, true
		}
		return true
	default:
		return false
	}
}
func (c *RComm[T]) real() {
	if !c.have {
		c.v, c.ok = <-c.ch
	}
}

//go:norace
func (c *RComm[T]) match(o Comm) { c.v, c.ok = o.(*SComm[T]).v, true }
func (c *RComm[T]) reflectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *RComm[T]) received(v reflect.Value, ok bool) {
	c.ok = ok
	reflect.ValueOf(&c.v).Elem().Set(v)
}
func (c *RComm[T]) V() T          { return c.v }
func (c *RComm[T]) V2() (T, bool) { return c.v, c.ok }

// SComm is a send operation.
type SComm[T any] struct {
	ch chan<- T
	v  T
}

func SendCase[T any](ch chan<- T) func(T) *SComm[T] {
	return func(v T) *SComm[T] { return &SComm[T]{ch, v} }
}

//go:norace
func (c *SComm[T]) key() uintptr { return reflect.ValueOf(c.ch).Pointer() }

//go:norace
func (c *SComm[T]) buffered() bool { return cap(c.ch) > 0 }

//go:norace
func (c *SComm[T]) isSend() bool { return true }

//go:norace
func (c *SComm[T]) canReal() bool {
	if len(c.ch) < cap(c.ch) {
		return true
	}
	for i := 0; i < nclosed; i++ {
		if closed[i].key == c.key() {
			return true
		}
	}
	return false
}
func (c *SComm[T]) real() { c.ch <- c.v }

//go:norace
func (c *SComm[T]) match(o Comm) {
	r := o.(*RComm[T])
	r.v, r.ok = c.v, true
}
func (c *SComm[T]) reflectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}
func (c *SComm[T]) received(reflect.Value, bool) {}

//go:norace
func counterpart(c Comm) int {
	if c.buffered() {
		return -1
	}
	for i := 0; i < nwaiters; i++ {
		w := &waiters[i]
		if !w.op.fired && w.c.isSend() != c.isSend() && w.c.key() == c.key() {
			return i
		}
	}
	return -1
}

//go:norace
func commReady(c Comm) bool {
	return c.key() != 0 && (counterpart(c) >= 0 || c.canReal())
}

//go:norace
func anyReady(cs []Comm) bool {
	for _, c := range cs {
		if commReady(c) {
			return true
		}
	}
	return false
}

// Select performs one of the operations; without a default (def) it waits until one is possible.
// It returns the index of the operation, or -1 for the default.
//
//go:norace
func Select(def bool, cs ...Comm) int {
	if !active {
		return realSelect(def, cs)
	}
	Yield()
	for {
		var en [32]int
		n := 0
		for i, c := range cs {
			if n < len(en) && commReady(c) {
				en[n] = i
				n++
			}
		}
		if n > 0 {
			k := en[0]
			if n > 1 && !calm {
				k = en[choose(n, Preempt)]
			}
			c := cs[k]
			if w := counterpart(c); w >= 0 && !c.canReal() {
				o := waiters[w].op
				raceAcquireAt(unsafe.Pointer(o))
				c.match(waiters[w].c)
				o.fired, o.idx = true, waiters[w].idx
				raceReleaseAt(unsafe.Pointer(o))
			} else {
				c.real()
			}
			return k
		}
		if def {
			return -1
		}
		op := &selOp{}
		for i, c := range cs {
			if nwaiters == maxWaiters {
				abortAll("too many waiting channel operations")
				panic(Abort{"channels"})
			}
			waiters[nwaiters] = waiter{op, i, c}
			nwaiters++
		}
		raceReleaseAt(unsafe.Pointer(op))
		func() {
			defer unregister(op)
			Block(func() bool { return opReady(op, cs) })
		}()
		if op.fired {
			raceAcquireAt(unsafe.Pointer(op))
			return op.idx
		}
	}
}

//go:norace
func opReady(op *selOp, cs []Comm) bool {
	if op.fired {
		return true
	}
	// Its own registrations do not count as counterparts.
	op.fired = true
	r := anyReady(cs)
	op.fired = false
	return r
}

//go:norace
func unregister(op *selOp) {
	n := 0
	for i := 0; i < nwaiters; i++ {
		if waiters[i].op != op {
			waiters[n] = waiters[i]
			n++
		}
	}
	nwaiters = n
}

func realSelect(def bool, cs []Comm) int {
	var rc []reflect.SelectCase
	for _, c := range cs {
		rc = append(rc, c.reflectCase())
	}
	if def {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cs) {
		return -1
	}
	if !cs[i].isSend() {
		cs[i].received(v, ok)
	}
	return i
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	c := RecvCase(ch)
	Select(false, c)
	return c.v
}

// Recv2 is the two-valued <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := RecvCase(ch)
	Select(false, c)
	return c.v, c.ok
}

// Send is ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, SendCase(ch)(v)) }
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if active {
		Yield()
		note(reflect.ValueOf(ch).Pointer(), ch)
	}
	close(ch)
}

//go:norace
func note(k uintptr, ch any) {
	if nclosed < len(closed) {
		closed[nclosed] = closedChan{k, ch}
		nclosed++
	}
}

// GoCall is go f(args...): function and arguments are evaluated by the caller.
func GoCall(f any, args ...any) { goCall(f, args, false) }

// GoCallSlice is go f(args[0], ..., last...).
func GoCallSlice(f any, args ...any) { goCall(f, args, true) }

func goCall(f any, args []any, spread bool) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var t reflect.Type
		switch {
		case ft.IsVariadic() && i >= ft.NumIn()-1 && !spread:
			t = ft.In(ft.NumIn() - 1).Elem()
		default:
			t = ft.In(i)
		}
		v := reflect.ValueOf(a)
		switch {
		case !v.IsValid():
			v = reflect.Zero(t)
		case v.Type() != t && v.Type().ConvertibleTo(t):
			v = v.Convert(t)
		}
		in[i] = v
	}
	Go(func() {
		if spread {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	})
}

// ChanIter walks over what is received from a channel.
type ChanIter[T any] struct{ ch <-chan T }

// ChanRange starts a loop over ch; its variable is declared along with it.
func ChanRange[T any](ch <-chan T) (v T, it *ChanIter[T]) { return v, &ChanIter[T]{ch} }

func (it *ChanIter[T]) Next(v *T) bool {
	x, ok := Recv2(it.ch)
	if ok {
		*v = x
	}
	return ok
}
