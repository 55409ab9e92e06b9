package main

import (
	"context"
	"fmt"
	"time"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

func init() {
	register(&Prop{
		ID: "P01", Level: "model_checking",
		Rule: "All histories up to the depth of object, index and identity operations, successful and refused, with every provider call recorded and compared with the footprint the operation may have: kinds, storage keys, writes, context and arguments. States are distinct (operation, outcome, calls) tuples.",
		Scenarios: func(th bool) []*Scenario {
			d := 3
			if th {
				d = 4
			}
			return []*Scenario{
				{Name: "objects", Body: func(x *X) { p01Objects(x, d, false) }, Shard: 2},
				{Name: "index", Body: func(x *X) { p01Index(x, d+1, false) }, Shard: 2},
				{Name: "identity", Body: func(x *X) { p01Identity(x, d, false) }, Shard: 2},
				{Name: "objects-faults", Body: func(x *X) { p01Objects(x, d-1, true) }, Shard: 2, Faults: d - 2},
				{Name: "index-faults", Body: func(x *X) { p01Index(x, d, true) }, Shard: 2, Faults: d - 2},
				{Name: "identity-faults", Body: func(x *X) { p01Identity(x, d-1, true) }, Shard: 2, Faults: d - 2},
				{Name: "tokens-contexts", Body: p01Callers},
				{Name: "chains", Body: func(x *X) { p01Chains(x, th) }},
				{Name: "sizes", Body: func(x *X) { p01Sizes(x) }, Steps: manySteps},
				{Name: "construct", Body: p01Construct},
				{Name: "cancelled", Body: p01Cancelled},
				{Name: "tokens", Body: p01Tokens},
				{Name: "odd-ids", Body: p01OddIDs},
			}
		},
	})
}

func saConfig() id.StandaloneConfig {
	return id.StandaloneConfig{UEK: seq(32, 10), GEK: seq(32, 11), TEK: seq(32, 12)}
}

// Standalone creates an identity provider with the standard keys on the given storage.
func (w *World) Standalone(p io.Provider) *id.Standalone {
	s, err := id.NewStandalone(saConfig(), p)
	if err != nil {
		w.x.Failf("standalone", "NewStandalone with valid keys failed: %v", err)
	}
	return &s
}

// Index creates an index with the standard keys on the given storage.
func (w *World) Index(p io.Provider) *index.SecureIndex {
	kp := key.NewStatic(testKeys())
	s, err := index.NewSecureIndex(w.ctx, &kp, p, w.idp)
	if err != nil {
		w.x.Failf("index", "NewSecureIndex with valid keys failed: %v", err)
	}
	return &s
}

// fromCaller reports whether c is derived from the context the caller passed.
func fromCaller(c, caller context.Context) bool {
	if c == nil || c.Value(ctxKey{}) != caller.Value(ctxKey{}) || c.Value(ctxKey{}) == nil {
		return false
	}
	d1, ok1 := c.Deadline()
	d2, ok2 := caller.Deadline()
	if ok2 && (!ok1 || d1.After(d2)) {
		return false
	}
	if caller.Done() != nil && c.Done() == nil {
		return false
	}
	return (caller.Err() == nil) == (c.Err() == nil)
}

// footprint checks the calls made since n.
func (w *World) footprint(what string, ctx context.Context, n, idn int, tok string, readonly bool, kinds map[io.DataType]bool, keys map[string]bool) {
	x := w.x
	for _, c := range w.st.Calls[n:] {
		if !fromCaller(c.Ctx, ctx) {
			x.Failf("ctx:"+what, "%s called %s of the storage provider with a context that is not derived from the caller's", what, c.Op)
		}
		if !kinds[c.Kind] {
			x.Failf("kind:"+what, "%s made a %s of kind %d", what, c.Op, c.Kind)
		}
		if keys != nil && !keys[c.ID] {
			x.Failf("key:"+what, "%s made a %s of kind %d under the storage key %x, which is not its own", what, c.Op, c.Kind, c.ID)
		}
		if readonly && c.Op != "get" {
			x.Failf("readonly:"+what, "%s is read-only but made a %s of kind %d", what, c.Op, c.Kind)
		}
	}
	for _, c := range w.idp.Calls[idn:] {
		if c.Token != tok {
			x.Failf("token:"+what, "%s passed the token %q to the identity provider, the caller passed %q", what, c.Token, tok)
		}
		if !fromCaller(c.Ctx, ctx) {
			x.Failf("idctx:"+what, "%s called the identity provider with a context that is not derived from the caller's", what)
		}
	}
}

func callNames(cs []Call) (r []string) {
	for _, c := range cs {
		r = append(r, fmt.Sprintf("%s%d", c.Op, c.Kind))
	}
	return
}

var objKinds = map[io.DataType]bool{io.DataTypeSealedObject: true, io.DataTypeSealedAccess: true}

func p01Objects(x *X, depth int, faults bool) {
	w := NewWorld(x)
	w.idp.Calls = make([]IDCall, 0, 1000)
	w.st.Wrap = true
	toks := []string{
		w.idp.User("owner", id.ScopeAll),
		w.idp.User("member", id.ScopeAll, id.AccessGroup{ID: "g0", Scopes: id.ScopeAll}),
		w.idp.User("stranger", id.ScopeAll),
		"invalid token \xff\x00 é",
	}
	var oids []uuid.UUID
	for i := 0; i < 2; i++ {
		o, err := w.d.Encrypt(w.ctx, toks[0], obj(fmt.Sprint("p", i), "a"), "g0", "removable")
		if err != nil {
			x.Failf("setup", "%v", err)
		}
		oids = append(oids, o)
	}
	w.st.Inject = faults
	for i := 0; i < depth; i++ {
		c := x.Pick(1 + len(dOps)*len(toks))
		if c == 0 {
			break
		}
		op := dOps[(c-1)%len(dOps)]
		tok := toks[(c-1)/len(dOps)]
		target := oids[0]
		if i%2 == 1 && x.Bool() {
			target = oids[1]
		}
		ctx := context.WithValue(context.Background(), ctxKey{}, fmt.Sprint("call ", i))
		if i%2 == 1 {
			var cancel func()
			ctx, cancel = context.WithDeadline(ctx, time.Now().Add(time.Hour))
			x.Defer(cancel)
		}
		n, idn := len(w.st.Calls), len(w.idp.Calls)
		var r opResult
		x.Guard(op.name, func() { r = op.run(w.d, ctx, tok, target) })
		x.Op()
		keys := map[string]bool{string(target.Bytes()): true}
		if op.name == "Encrypt" {
			keys = nil
			seen := map[string]bool{}
			for _, c := range w.st.Calls[n:] {
				seen[c.ID] = true
				for _, o := range oids {
					if c.ID == string(o.Bytes()) {
						x.Failf("key:Encrypt", "Encrypt touched another object's record")
					}
				}
			}
			if len(seen) > 1 || r.err == nil && !seen[string(r.oid.Bytes())] {
				x.Failf("key:Encrypt", "Encrypt touched %d storage keys", len(seen))
			}
		}
		w.footprint(op.name, ctx, n, idn, tok, op.readonly, objKinds, keys)
		if len(w.idp.Calls) == idn {
			x.Failf("noauth:"+op.name, "%s did not ask the identity provider", op.name)
		}
		// one key and kind per record
		counts := map[string]int{}
		for k := range w.st.m {
			counts[k.id]++
			if counts[k.id] > 2 {
				x.Failf("records", "an object is stored in more than two records")
			}
		}
		x.State(op.name, tok, errName(r.err), callNames(w.st.Calls[n:]))
		x.Out("%s %s %v", op.name, errName(r.err), callNames(w.st.Calls[n:]))
	}
}

// labels returns the storage keys a keyword's entries can have.
func labels(keyword string, n int) map[string]bool {
	lk, _ := refIndexKeys(testKeys().IEK, keyword)
	r := map[string]bool{}
	for i := 0; i < n; i++ {
		r[string(refLabel(lk, uint64(i)))] = true
	}
	return r
}

func p01Index(x *X, depth int, faults bool) {
	w := NewWorld(x)
	w.idp.Calls = make([]IDCall, 0, 1000)
	w.st.Wrap = true
	toks := []string{w.idp.User("u", id.ScopeIndex), w.idp.User("noscope", id.ScopeAll&^id.ScopeIndex), "bad"}
	idx := w.Index(w.st)
	kinds := map[io.DataType]bool{io.DataTypeSealedNode: true}
	kw := []string{"kw", "kw2"}
	lab := []map[string]bool{labels(kw[0], 12), labels(kw[1], 12)}
	if faults {
		for _, id := range []string{"a", "b", "a", "c"} {
			if err := idx.Add(w.ctx, toks[0], kw[0], id); err != nil {
				x.Failf("setup", "%v", err)
			}
		}
		w.st.Inject = true
	}
	for i := 0; i < depth; i++ {
		c := x.Pick(1 + 8 + 2)
		if c == 0 {
			break
		}
		tok := toks[0]
		k := 0
		op := 0
		if c <= 8 {
			k, op = (c-1)/4, (c-1)%4
		} else {
			tok = toks[c-8]
			op = x.Pick(4)
		}
		ctx := context.WithValue(context.Background(), ctxKey{}, fmt.Sprint("call ", i))
		n, idn := len(w.st.Calls), len(w.idp.Calls)
		var err error
		name := [...]string{"Add a", "Add b", "Search", "Delete a"}[op]
		x.Guard(name, func() {
			switch op {
			case 0:
				err = idx.Add(ctx, tok, kw[k], "a")
			case 1:
				err = idx.Add(ctx, tok, kw[k], "b")
			case 2:
				_, err = idx.Search(ctx, tok, kw[k])
			case 3:
				err = idx.Delete(ctx, tok, kw[k], "a")
			}
		})
		x.Op()
		if (err == nil) != (tok == toks[0]) && !(faults && err != nil) {
			x.Failf("decision", "%s by %s: %v", name, tok, err)
		}
		w.footprint("index "+name, ctx, n, idn, tok, op == 2, kinds, lab[k])
		if tok != toks[0] && len(w.st.Calls) != n && w.st.Writes(n) > 0 {
			x.Failf("refused-write", "a refused %s wrote to storage", name)
		}
		x.State(name, tok, k, callNames(w.st.Calls[n:]))
		x.Out("%s %v", name, callNames(w.st.Calls[n:]))
	}
}

func p01Identity(x *X, depth int, faults bool) {
	w := NewWorld(x)
	w.st.Wrap = true
	sa := w.Standalone(w.st)
	ctx := w.ctx
	kinds := map[io.DataType]bool{id.DataTypeSealedUser: true, id.DataTypeSealedGroup: true}
	must := func(err error) {
		if err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	u1, p1, err := sa.NewUser(ctx, id.ScopeAll)
	must(err)
	u2, p2, err := sa.NewUser(ctx, id.ScopeEncrypt)
	must(err)
	t1, _, err := sa.LoginUser(ctx, u1, p1)
	must(err)
	g1, err := sa.NewGroup(ctx, t1, id.ScopeDecrypt)
	must(err)
	mine := map[string]bool{u1: true, g1: true}
	w.st.Inject = faults
	for i := 0; i < depth; i++ {
		op := x.Pick(12)
		if op == 0 {
			break
		}
		c := context.WithValue(context.Background(), ctxKey{}, fmt.Sprint("call ", i))
		n := len(w.st.Calls)
		name := ""
		keys := map[string]bool{}
		ro := false
		ku := func(ks ...string) {
			for _, k := range ks {
				keys[k] = true
			}
		}
		var e error
		x.Op()
		switch op {
		case 1:
			name, ro = "LoginUser", true
			ku(u1)
			_, _, e = sa.LoginUser(c, u1, p1)
		case 2:
			name, ro = "LoginUser wrong", true
			ku(u1)
			_, _, e = sa.LoginUser(c, u1, p2)
		case 3:
			name, ro = "GetIdentity", true
			for k := range mine {
				ku(k)
			}
			_, e = sa.GetIdentity(c, t1)
		case 4:
			name, ro = "GetIdentity bad", true
			_, e = sa.GetIdentity(c, t1+"x")
		case 5:
			name = "ChangeUserPassword"
			ku(u1)
			var np string
			np, e = sa.ChangeUserPassword(c, u1, p1)
			if e == nil {
				p1 = np
			}
		case 6:
			name = "ChangeUserPassword wrong"
			ro = true
			ku(u1)
			_, e = sa.ChangeUserPassword(c, u1, p2)
		case 7:
			name = "AddUserToGroups"
			for k := range mine {
				ku(k)
			}
			ku(u2)
			e = sa.AddUserToGroups(c, t1, u2, g1)
		case 8:
			name = "RemoveUserFromGroups"
			for k := range mine {
				ku(k)
			}
			ku(u2)
			e = sa.RemoveUserFromGroups(c, t1, u2, g1)
		case 9:
			name = "AddUserToGroups refused"
			for k := range mine {
				ku(k)
			}
			ku(u2)
			ro = true
			e = sa.AddUserToGroups(c, t1, u2, u2)
		case 10:
			name = "NewGroup"
			var g string
			g, e = sa.NewGroup(c, t1, id.ScopeUpdate)
			for _, cl := range w.st.Calls[n:] { // it may have failed after storing the group
				if cl.Op == "put" && cl.Kind == id.DataTypeSealedGroup && (e != nil || cl.ID == g) {
					mine[cl.ID] = true
				}
			}
			for k := range mine {
				ku(k)
			}
		case 11:
			name = "DeleteUser"
			for k := range mine {
				ku(k)
			}
			ku(u2)
			e = sa.DeleteUser(c, t1, u2)
		}
		w.footprint(name, c, n, 0, "", ro, kinds, keys)
		for _, cl := range w.st.Calls[n:] {
			if isUser := cl.ID == u1 || cl.ID == u2; isUser != (cl.Kind == id.DataTypeSealedUser) {
				x.Failf("kind:"+name, "%s made a %s of kind %d under %q", name, cl.Op, cl.Kind, cl.ID)
			}
			if op == 11 && cl.Op != "get" && (cl.ID != u2 || cl.Op != "delete") {
				x.Failf("delete", "DeleteUser made a %s of %q", cl.Op, cl.ID)
			}
			if (op == 7 || op == 8) && cl.Op != "get" && cl.ID != u2 {
				x.Failf("membership", "%s wrote to a record other than the affected user's", name)
			}
		}
		x.State(name, errName(e), callNames(w.st.Calls[n:]))
		x.Out("%s %v", name, callNames(w.st.Calls[n:]))
	}
}

// A key provider that records how it is called.
type recKeys struct {
	keys  key.Keys
	err   error
	calls []context.Context
}

func (r *recKeys) GetKeys(ctx context.Context) (key.Keys, error) {
	r.calls = append(r.calls, ctx)
	return r.keys, r.err
}

func p01Construct(x *X) {
	w := NewWorld(x)
	fail := x.Bool()
	which := x.Pick(2)
	kp := &recKeys{keys: testKeys()}
	if fail {
		kp.err = errInjected
	}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, "constructor"))
	defer cancel()
	var err error
	if which == 0 {
		_, err = d1.New(ctx, kp, w.st, w.idp)
	} else {
		_, err = index.NewSecureIndex(ctx, kp, w.st, w.idp)
	}
	x.Op()
	if fail != (err != nil) {
		x.Failf("keys", "constructor with a key provider failing=%v returned %v", fail, err)
	}
	if len(kp.calls) != 1 {
		x.Failf("calls", "the key provider was called %d times", len(kp.calls))
	}
	for _, c := range kp.calls {
		if !fromCaller(c, ctx) {
			x.Failf("ctx", "the key provider got a context that is not derived from the caller's")
		}
	}
	if len(w.st.Calls) != 0 {
		x.Failf("storage", "a constructor touched storage")
	}
	x.State(which, fail)
}

// A cancelled context is passed on as cancelled.
func p01Cancelled(x *X) {
	w := NewWorld(x)
	w.idp.Calls = make([]IDCall, 0, 100)
	op := dOps[x.Pick(len(dOps))]
	owner := w.idp.User("owner", id.ScopeAll)
	oid, err := w.d.Encrypt(w.ctx, owner, obj("p", "a"), "removable")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	ctx, cancel := context.WithCancel(w.ctx)
	cancel()
	n, idn := len(w.st.Calls), len(w.idp.Calls)
	op.run(w.d, ctx, owner, oid)
	x.Op()
	keys := map[string]bool{string(oid.Bytes()): true}
	if op.name == "Encrypt" {
		keys = nil
	}
	w.footprint(op.name+" cancelled", ctx, n, idn, owner, op.readonly, objKinds, keys)
	x.State(op.name)
}

// Token operations use no storage and no identity provider.
func p01Tokens(x *X) {
	w := NewWorld(x)
	w.idp.Calls = make([]IDCall, 0, 10)
	t, err := w.d.CreateToken(w.ctx, pattern(0, x.Pick(40)))
	x.Op()
	if err != nil {
		x.Failf("create", "%v", err)
	}
	s, err := t.String()
	if err != nil {
		x.Failf("string", "%v", err)
	}
	p, err := data.TokenFromString(s)
	if err == nil {
		_, err = w.d.GetTokenContents(w.ctx, &p)
	}
	x.Op()
	if err != nil {
		x.Failf("get", "%v", err)
	}
	if len(w.st.Calls) != 0 || len(w.idp.Calls) != 0 {
		x.Failf("providers", "a token operation called a storage or identity provider")
	}
	x.State(s[:3])
}

// oddTokens are tokens an identity provider may hand out; none is any other.
var oddTokens = []string{"a", "", " ", "a ", " a", "a\n", "\ta", "a\x00", "\x00", "A", "Bearer a", "bearer a", "Basic a", "Token a", "token=a", "\"a\"", "'a'", "a%20", "%61", "a+", "a/", "a=", "a==", "YQ", "YQ==",
	"\xff", "a\xff", "\ufffd", "\u00e9", "e\u0301", "\ufeffa", "a.b.c", "a,b", "a;b", "{}", "null", "nil", "undefined", "owner", "Owner", "t:Owner", "0", "00"}

func longTokens() []string {
	return append(append([]string{}, oddTokens...), string(bytesOf('a', 4096)), string(bytesOf('a', 4097)), string(bytesOf('a', 70000)))
}

func bytesOf(c byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = c
	}
	return b
}

// ownCtx is a context type of the caller's own.
type ownCtx struct {
	context.Context
	done chan struct{}
	err  error
}

func (c *ownCtx) Done() <-chan struct{} { return c.done }
func (c *ownCtx) Err() error            { return c.err }

// callerCtx returns contexts as callers may pass them.
func callerCtx(x *X, k int) context.Context {
	ctx := context.WithValue(context.Background(), ctxKey{}, fmt.Sprint("kind ", k))
	var cancel func()
	switch k {
	case 1:
		ctx, cancel = context.WithCancel(ctx)
	case 2:
		ctx, cancel = context.WithDeadline(ctx, time.Now().Add(time.Hour))
	case 3:
		ctx, cancel = context.WithDeadline(ctx, time.Now().Add(-time.Hour))
	case 4:
		ctx, cancel = context.WithCancel(ctx)
		cancel()
	case 5:
		ctx = &ownCtx{ctx, make(chan struct{}), nil}
	case 6:
		c := &ownCtx{ctx, make(chan struct{}), context.Canceled}
		close(c.done)
		ctx = c
	case 7:
		ctx = context.WithValue(context.WithoutCancel(ctx), ctxKey{}, "outer")
	}
	if cancel != nil {
		x.Defer(cancel)
	}
	return ctx
}

// Every operation with every kind of token and context.
func p01Callers(x *X) {
	w := NewWorld(x)
	w.idp.Calls = make([]IDCall, 0, 1000)
	toks := longTokens()
	tok := toks[x.Pick(len(toks))]
	known := x.Bool()
	k := x.Pick(8)
	ctx := callerCtx(x, k)
	owner := w.idp.User("owner", id.ScopeAll)
	oid, err := w.d.Encrypt(w.ctx, owner, obj("p", "a"), "who", "removable")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	idx := w.Index(w.st)
	if err := idx.Add(w.ctx, owner, "kw", "a"); err != nil {
		x.Failf("setup", "%v", err)
	}
	if known {
		w.idp.m[tok] = id.Identity{ID: "who", Scopes: id.ScopeAll}
	}
	for _, i := range []int{0, 1, 2, 4, 5, 6, 7, 3} { // Delete last
		op := dOps[i]
		n, idn := len(w.st.Calls), len(w.idp.Calls)
		var r opResult
		x.Guard(op.name, func() { r = op.run(w.d, ctx, tok, oid) })
		x.Op()
		if known != (r.err == nil) {
			x.Failf("decision", "%s with token %q (known: %v): %v", op.name, clip(tok, 40), known, r.err)
		}
		keys := map[string]bool{string(oid.Bytes()): true}
		if op.name == "Encrypt" {
			keys = nil
		}
		w.footprint(op.name, ctx, n, idn, tok, op.readonly, objKinds, keys)
		if len(w.idp.Calls) == idn {
			x.Failf("noauth", "%s did not ask the identity provider", op.name)
		}
	}
	lab := labels("kw", 12)
	for i, name := range []string{"Search", "Add", "Delete"} {
		n, idn := len(w.st.Calls), len(w.idp.Calls)
		var err error
		switch i {
		case 0:
			_, err = idx.Search(ctx, tok, "kw")
		case 1:
			err = idx.Add(ctx, tok, "kw", "b")
		case 2:
			err = idx.Delete(ctx, tok, "kw", "a")
		}
		x.Op()
		if known != (err == nil) {
			x.Failf("decision", "index %s with token %q (known: %v): %v", name, clip(tok, 40), known, err)
		}
		w.footprint("index "+name, ctx, n, idn, tok, i == 0, map[io.DataType]bool{io.DataTypeSealedNode: true}, lab)
		if len(w.idp.Calls) == idn {
			x.Failf("noauth", "index %s did not ask the identity provider", name)
		}
	}
	// the bundled identity provider
	sa := w.Standalone(w.st)
	u, p, err := sa.NewUser(w.ctx, id.ScopeAll)
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	t, _, err := sa.LoginUser(w.ctx, u, p)
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	g, err := sa.NewGroup(w.ctx, t, id.ScopeAll)
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	kinds := map[io.DataType]bool{id.DataTypeSealedUser: true, id.DataTypeSealedGroup: true}
	mine := map[string]bool{u: true, g: true}
	for i, name := range []string{"LoginUser", "GetIdentity", "AddUserToGroups", "RemoveUserFromGroups", "ChangeUserPassword", "DeleteUser"} {
		n := len(w.st.Calls)
		switch i {
		case 0:
			_, _, err = sa.LoginUser(ctx, u, p)
		case 1:
			_, err = sa.GetIdentity(ctx, t)
		case 2:
			err = sa.AddUserToGroups(ctx, t, u, g)
		case 3:
			err = sa.RemoveUserFromGroups(ctx, t, u, g)
		case 4:
			p, err = sa.ChangeUserPassword(ctx, u, p)
		case 5:
			err = sa.DeleteUser(ctx, t, u)
		}
		x.Op()
		if err != nil {
			x.Failf("identity", "%s: %v", name, err)
		}
		w.footprint(name, ctx, n, len(w.idp.Calls), "", i < 2, kinds, mine)
	}
	x.State(len(tok), tok[:min(len(tok), 12)], known, k)
}

// Operations on keywords with long chains touch only that keyword's records.
func p01Chains(x *X, th bool) {
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33, 65}
	if th {
		sizes = append(sizes, 100, 129, 257, 513)
	}
	size := sizes[x.Pick(len(sizes))]
	kws := []string{"kw", "", "\x00", "\xff", "kw\x00", string(bytesOf('k', 300))}
	kw := kws[x.Pick(len(kws))]
	w := NewWorld(x)
	w.st.Wrap = true
	u := w.idp.User("u", id.ScopeIndex)
	w.idp.Calls = make([]IDCall, 0, 1000)
	idx := w.Index(w.st)
	kinds := map[io.DataType]bool{io.DataTypeSealedNode: true}
	lab := labels(kw, size+12)
	call := func(name string, ro bool, f func(ctx context.Context) error) {
		n, idn := len(w.st.Calls), len(w.idp.Calls)
		ctx := context.WithValue(context.Background(), ctxKey{}, name)
		if err := f(ctx); err != nil {
			x.Failf("call", "%s: %v", name, err)
		}
		x.Op()
		w.footprint("index "+name, ctx, n, idn, u, ro, kinds, lab)
		w.idp.Calls = w.idp.Calls[:0]
		x.State(name, size, kw[:min(len(kw), 5)], len(w.st.Calls)-n)
	}
	for i := 0; i < size; i++ {
		call("Add", false, func(ctx context.Context) error { return idx.Add(ctx, u, kw, fmt.Sprint("id", i%7)) })
	}
	call("Search", true, func(ctx context.Context) error { _, err := idx.Search(ctx, u, kw); return err })
	for _, i := range []int{3, 0, 9, 6} {
		call("Delete", false, func(ctx context.Context) error { return idx.Delete(ctx, u, kw, fmt.Sprint("id", i)) })
		call("Search", true, func(ctx context.Context) error { _, err := idx.Search(ctx, u, kw); return err })
	}
	call("Add again", false, func(ctx context.Context) error { return idx.Add(ctx, u, kw, "id3") })
	call("Search", true, func(ctx context.Context) error { _, err := idx.Search(ctx, u, kw); return err })
}

// Large contents and lists are stored in the same two records as small ones.
func p01Sizes(x *X) {
	n := []int{0, 1, 100, 1000, 4096, 4097, 65536, 70000, 1 << 20}[x.Pick(9)]
	g := []int{0, 1, 9, 65, 300}[x.Pick(5)]
	w := NewWorld(x)
	w.idp.Calls = make([]IDCall, 0, 100)
	owner := w.idp.User("owner", id.ScopeAll)
	var names []string
	for i := 0; i < g; i++ {
		names = append(names, fmt.Sprint("group", i))
	}
	ctx := callerCtx(x, 1)
	oid, err := w.d.Encrypt(ctx, owner, &data.Object{Plaintext: pattern(0, n), AssociatedData: pattern(1, n/2)}, names...)
	if err != nil {
		x.Failf("encrypt", "%v", err)
	}
	keys := map[string]bool{string(oid.Bytes()): true}
	w.footprint("Encrypt", ctx, 0, 0, owner, false, objKinds, keys)
	for i := 1; i < len(dOps); i++ {
		op := dOps[1+i%(len(dOps)-1)]
		if op.name == "Delete" {
			continue
		}
		c, idn := len(w.st.Calls), len(w.idp.Calls)
		if r := op.run(w.d, ctx, owner, oid); r.err != nil {
			x.Failf("call", "%s: %v", op.name, r.err)
		}
		x.Op()
		w.footprint(op.name, ctx, c, idn, owner, op.readonly, objKinds, keys)
	}
	if len(w.st.m) != 2 {
		x.Failf("records", "an object is stored in %d records", len(w.st.m))
	}
	if err := w.d.AddGroupsToAccess(ctx, owner, oid, names...); err != nil {
		x.Failf("call", "%v", err)
	}
	c := len(w.st.Calls)
	if err := w.d.Delete(ctx, owner, oid); err != nil {
		x.Failf("call", "%v", err)
	}
	w.footprint("Delete", ctx, c, 0, owner, false, objKinds, keys)
	x.State(n, g)
}

// IDs reach storage exactly as given, whatever they look like.
func p01OddIDs(x *X) {
	w := newU(x)
	w.st.Quiet = false
	w.newUser(id.ScopeAll)
	w.newUser(id.ScopeAll)
	w.login(0, w.users[0].pw, true)
	w.newGroup(w.toks[0], id.ScopeIndex)
	vs := append(idVariants("1abcdefa-1b2c-4d3e-8f4a-5b6c7d8e9fab"), oddNames...)
	v := vs[x.Pick(len(vs))]
	op := x.Pick(5)
	n := len(w.st.Calls)
	before := w.st.Snapshot()
	name := [...]string{"LoginUser", "ChangeUserPassword", "AddUserToGroups", "RemoveUserFromGroups", "DeleteUser"}[op]
	x.Guard(name, func() {
		switch op {
		case 0:
			w.sa[0].LoginUser(w.ctx, v, w.users[1].pw)
		case 1:
			w.sa[0].ChangeUserPassword(w.ctx, v, w.users[1].pw)
		case 2:
			w.sa[0].AddUserToGroups(w.ctx, w.toks[0].s, v, w.gids[0])
		case 3:
			w.sa[0].RemoveUserFromGroups(w.ctx, w.toks[0].s, v, w.gids[0])
		case 4:
			w.sa[0].DeleteUser(w.ctx, w.toks[0].s, v)
		}
	})
	x.Op()
	seen := false
	for _, cl := range w.st.Calls[n:] {
		switch {
		case cl.ID == v && cl.Kind == id.DataTypeSealedUser:
			seen = true
		case op >= 2 && cl.Op == "get" && (cl.ID == w.users[0].uid && cl.Kind == id.DataTypeSealedUser || cl.ID == w.gids[0] && cl.Kind == id.DataTypeSealedGroup):
		default:
			x.Failf("odd-id:"+name, "%s of %q made a %s of kind %d under %q", name, clip(v, 40), cl.Op, cl.Kind, clip(cl.ID, 40))
		}
	}
	if op == 4 && !seen {
		x.Failf("odd-id:"+name, "DeleteUser of %q did not reach that record", clip(v, 40))
	}
	if w.st.Snapshot() != before {
		x.Failf("odd-id:"+name, "%s of %q, which nothing is called, changed storage", name, clip(v, 40))
	}
	x.State(v, op)
}
