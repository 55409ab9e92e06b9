package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/cybercryptio/d1-lib/v2/io"
	"verif.local/shim/vsched"
)

// Store is the harness's own storage provider: a plain map with copies in and out, a call log, fault
// injection decided by the explorer, and a scheduling point at every call.
type Store struct {
	x     *X
	m     map[rkey][]byte
	Calls []Call
	Quiet bool // do not log calls

	Inject    bool // explore failures
	FaultOps  map[string]bool
	Crashes   bool // failures include process crashes
	Wrap      bool // documented errors are returned wrapped
	YieldOn   bool
	Limit     int // more calls than this in one execution: non-termination
	n         int
	crashed   bool
	OnApplied func(op string, k rkey) // after each effect
	Extra     int                     // spare capacity of returned slices
	Faulted   []string
}

type rkey struct {
	kind io.DataType
	id   string
}

func (k rkey) String() string { return fmt.Sprintf("%d/%x", k.kind, clipKey(k.id)) }

func clipKey(s string) string {
	if len(s) > 6 {
		return s[len(s)-4:]
	}
	return s
}

// Call is one recorded provider call.
type Call struct {
	Op   string
	ID   string
	Kind io.DataType
	Data []byte
	Ctx  context.Context
	Err  error
}

var errInjected = errors.New("injected storage failure")

type crashSignal struct{}

func (crashSignal) Unwinds() {}

func NewStore(x *X) *Store {
	return &Store{x: x, m: map[rkey][]byte{}, Limit: 200000}
}

func (s *Store) Clone() *Store {
	c := NewStore(s.x)
	for k, v := range s.m {
		c.m[k] = v // values are never modified in place
	}
	return c
}

// Snapshot returns a canonical description of the whole content.
func (s *Store) Snapshot() string {
	ks := make([]rkey, 0, len(s.m))
	for k := range s.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i].kind < ks[j].kind || ks[i].kind == ks[j].kind && ks[i].id < ks[j].id
	})
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%d/%x=%x;", k.kind, k.id, s.m[k])
	}
	return b.String()
}

// Shape describes which records exist, not what they contain.
func (s *Store) Shape() string {
	var r []string
	for k := range s.m {
		r = append(r, k.String())
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func (s *Store) enter(ctx context.Context, op string, id []byte, kind io.DataType, data []byte) (rkey, int) {
	if s.YieldOn {
		vsched.Yield()
	}
	s.n++
	if s.n > s.Limit {
		vsched.AbortExecution(fmt.Sprintf("io-horizon: more than %d storage calls", s.Limit))
	}
	k := rkey{kind, string(id)}
	if s.crashed {
		panic(crashSignal{})
	}
	f := 0
	if s.Inject && (s.FaultOps == nil || s.FaultOps[op]) {
		n := 2 // ok, fail before
		if op != "get" {
			n = 3 // fail after the effect
		}
		if s.Crashes {
			n++ // crash before
			if op != "get" {
				n++ // crash after
			}
		}
		f = vsched.Choose(n, vsched.Fault)
		if f != 0 {
			if op == "get" && f == 2 {
				f = 3
			}
			name := [...]string{"", "fails", "fails after taking effect", "crash before", "crash after"}[f]
			s.Faulted = append(s.Faulted, op+" "+k.String()+" "+name)
			s.x.Logf("  storage %s %v: %s", op, k, name)
		}
	}
	if f == 3 {
		s.crashed = true
		panic(crashSignal{})
	}
	return k, f
}

func (s *Store) leave(ctx context.Context, op string, k rkey, data []byte, f int, err error) error {
	if err == nil && f == 4 {
		s.crashed = true
		panic(crashSignal{})
	}
	if f == 1 || f == 2 {
		err = fmt.Errorf("storage: %w", errInjected)
	} else if err != nil && s.Wrap {
		err = fmt.Errorf("storage: %w", err)
	}
	if !s.Quiet {
		s.Calls = append(s.Calls, Call{op, k.id, k.kind, bytes.Clone(data), ctx, err})
	}
	return err
}

func (s *Store) applied(op string, k rkey) {
	if s.OnApplied != nil {
		s.OnApplied(op, k)
	}
}

func (s *Store) Put(ctx context.Context, id []byte, kind io.DataType, data []byte) error {
	k, f := s.enter(ctx, "put", id, kind, data)
	if f == 1 {
		return s.leave(ctx, "put", k, data, f, nil)
	}
	if _, ok := s.m[k]; ok {
		return s.leave(ctx, "put", k, data, 0, io.ErrAlreadyExists)
	}
	s.m[k] = append([]byte{}, data...)
	s.applied("put", k)
	return s.leave(ctx, "put", k, data, f, nil)
}

func (s *Store) Get(ctx context.Context, id []byte, kind io.DataType) ([]byte, error) {
	k, f := s.enter(ctx, "get", id, kind, nil)
	if f == 1 {
		return nil, s.leave(ctx, "get", k, nil, f, nil)
	}
	v, ok := s.m[k]
	if !ok {
		return nil, s.leave(ctx, "get", k, nil, 0, io.ErrNotFound)
	}
	out := make([]byte, len(v), len(v)+s.Extra)
	copy(out, v)
	return out, s.leave(ctx, "get", k, v, f, nil)
}

func (s *Store) Update(ctx context.Context, id []byte, kind io.DataType, data []byte) error {
	k, f := s.enter(ctx, "update", id, kind, data)
	if f == 1 {
		return s.leave(ctx, "update", k, data, f, nil)
	}
	if _, ok := s.m[k]; !ok {
		return s.leave(ctx, "update", k, data, 0, io.ErrNotFound)
	}
	s.m[k] = append([]byte{}, data...)
	s.applied("update", k)
	return s.leave(ctx, "update", k, data, f, nil)
}

func (s *Store) Delete(ctx context.Context, id []byte, kind io.DataType) error {
	k, f := s.enter(ctx, "delete", id, kind, nil)
	if f == 1 {
		return s.leave(ctx, "delete", k, nil, f, nil)
	}
	delete(s.m, k)
	s.applied("delete", k)
	return s.leave(ctx, "delete", k, nil, f, nil)
}

// Restart ends a crash: storage answers again.
func (s *Store) Restart() { s.crashed = false }

// Crashable runs f and reports whether the process "crashed" in a storage call.
func Crashable(f func()) (crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(crashSignal); ok {
				crashed = true
				return
			}
			panic(r)
		}
	}()
	f()
	return false
}

// Writes counts the logged calls that are not reads, from index i on.
func (s *Store) Writes(i int) int {
	n := 0
	for _, c := range s.Calls[i:] {
		if c.Op != "get" {
			n++
		}
	}
	return n
}
