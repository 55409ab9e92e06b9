package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

var zone0 = time.Local

func restoreZone() { time.Local = zone0 }

func seq(n int, start byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = start + byte(i)*7
	}
	return b
}

func testKeys() key.Keys {
	return key.Keys{KEK: seq(32, 1), AEK: seq(32, 2), TEK: seq(32, 3), IEK: seq(32, 4)}
}

// StubID is an identity provider with a fixed table of tokens.
type StubID struct {
	m     map[string]id.Identity
	err   error
	Calls []IDCall
}

type IDCall struct {
	Token string
	Ctx   context.Context
}

var errStub = errors.New("stub: unknown token")

func NewStubID() *StubID { return &StubID{m: map[string]id.Identity{}} }

func (s *StubID) GetIdentity(ctx context.Context, token string) (id.Identity, error) {
	s.record(ctx, token)
	ident, ok := s.m[token]
	if !ok {
		return id.Identity{}, errStub
	}
	if s.err != nil {
		return ident, s.err
	}
	return ident, nil // the provider's own map, which callers must not change
}

//go:norace
func (s *StubID) record(ctx context.Context, token string) {
	if n := len(s.Calls); n < cap(s.Calls) {
		s.Calls = s.Calls[:n+1]
		s.Calls[n] = IDCall{token, ctx}
	}
}

// User adds a caller whose token is "t:"+name.
func (s *StubID) User(name string, scopes id.Scope, groups ...id.AccessGroup) string {
	m := map[string]id.AccessGroup{}
	for _, g := range groups {
		m[g.ID] = g
	}
	s.m["t:"+name] = id.Identity{ID: name, Scopes: scopes, Groups: m}
	return "t:" + name
}

type ctxKey struct{}

func baseCtx() context.Context { return context.WithValue(context.Background(), ctxKey{}, "caller") }

// World is a D1 instance on a reference store with a stub identity provider.
type World struct {
	x   *X
	st  *Store
	idp *StubID
	d   *d1.D1
	ctx context.Context
}

func NewWorld(x *X) *World {
	w := &World{x: x, st: NewStore(x), idp: NewStubID(), ctx: baseCtx()}
	w.d = w.Instance(w.st)
	return w
}

// Instance creates a D1 with the standard keys on the given storage.
func (w *World) Instance(p io.Provider) *d1.D1 {
	kp := key.NewStatic(testKeys())
	d, err := d1.New(w.ctx, &kp, p, w.idp)
	if err != nil {
		w.x.Failf("new", "d1.New with valid keys failed: %v", err)
	}
	return &d
}

func obj(pt, ad string) *data.Object {
	return &data.Object{Plaintext: []byte(pt), AssociatedData: []byte(ad)}
}

func errName(err error) string {
	if err == nil {
		return "ok"
	}
	for _, e := range []struct {
		e error
		n string
	}{
		{d1.ErrNotAuthenticated, "not-authenticated"}, {d1.ErrNotAuthorized, "not-authorized"},
		{d1.ErrObjectNotFound, "object-not-found"}, {d1.ErrAccessNotFound, "access-not-found"},
		{d1.ErrObjectAlreadyExists, "object-exists"}, {d1.ErrAccessAlreadyExists, "access-exists"},
		{errInjected, "injected"},
	} {
		if errors.Is(err, e.e) {
			return e.n
		}
	}
	return "other"
}

func setOf(m map[string]struct{}) string {
	var r []string
	for k := range m {
		r = append(r, fmt.Sprintf("%q", k))
	}
	sort.Strings(r)
	return "{" + strings.Join(r, ",") + "}"
}

func setFrom(ids ...string) map[string]struct{} {
	m := map[string]struct{}{}
	for _, i := range ids {
		m[i] = struct{}{}
	}
	return m
}

func copySet(m map[string]struct{}) map[string]struct{} {
	r := make(map[string]struct{}, len(m))
	for k := range m {
		r[k] = struct{}{}
	}
	return r
}

func oidKey(kind io.DataType, oid uuid.UUID) rkey { return rkey{kind, string(oid.Bytes())} }
