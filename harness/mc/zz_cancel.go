package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
)

// A context that ends while an operation is under way changes nothing about what success and failure mean:
// success is reported only for a completed operation, and a failed one can be repeated.

func init() {
	rule := " Also every operation with a context that ends before or after each of its storage calls, on storage that ignores contexts and on storage that refuses to work for ended ones."
	for id, ops := range map[string][]string{
		"D04": {"Delete"},
		"D06": {"Encrypt", "Update", "AddGroups", "RemoveGroups", "Delete", "Decrypt", "GetAccessGroups"},
		"X02": {"IndexAdd", "IndexDelete", "IndexSearch"},
		"U04": {"NewUser", "LoginUser", "ChangePassword", "NewGroup", "AddUserToGroups", "RemoveUserFromGroups", "DeleteUser", "GetIdentity"},
	} {
		ops := ops
		extend(id, rule, func(bool) []*Scenario {
			return []*Scenario{{Name: "canceled", Body: func(x *X) { canceled(x, ops) }, Shard: 1}}
		})
	}
}

// canceling ends the context at one of its calls.
type canceling struct {
	io.Provider
	at      int // call, from 0; even: before it, odd: after it
	honours bool
	cancel  func()
	n       int
	on      bool
}

func (p *canceling) call(ctx context.Context, f func() error) error {
	if !p.on {
		return f()
	}
	n := p.n
	p.n++
	if p.at == 2*n {
		p.cancel()
	}
	if p.honours && ctx.Err() != nil {
		return fmt.Errorf("storage: %w", ctx.Err())
	}
	err := f()
	if p.at == 2*n+1 {
		p.cancel()
	}
	return err
}

func (p *canceling) Put(ctx context.Context, id []byte, t io.DataType, b []byte) error {
	return p.call(ctx, func() error { return p.Provider.Put(ctx, id, t, b) })
}

func (p *canceling) Update(ctx context.Context, id []byte, t io.DataType, b []byte) error {
	return p.call(ctx, func() error { return p.Provider.Update(ctx, id, t, b) })
}

func (p *canceling) Delete(ctx context.Context, id []byte, t io.DataType) error {
	return p.call(ctx, func() error { return p.Provider.Delete(ctx, id, t) })
}

func (p *canceling) Get(ctx context.Context, id []byte, t io.DataType) (b []byte, err error) {
	err = p.call(ctx, func() error { b, err = p.Provider.Get(ctx, id, t); return err })
	return
}

// cancelWorld is a small world with every kind of record.
type cancelWorld struct {
	x    *X
	w    *World
	p    *canceling
	d    *d1.D1
	ix   *index.SecureIndex
	sa   *id.Standalone
	oids []uuid.UUID
	uids []string
	pws  []string
	toks []string
	gids []string
}

func (c *cancelWorld) must(what string, err error) {
	if err != nil {
		c.x.Failf("canceled-other", "%s: %v", what, err)
	}
}

func (c *cancelWorld) object(n int) string {
	o, err := c.d.Decrypt(c.w.ctx, "t:owner", c.oids[n])
	if errors.Is(err, d1.ErrObjectNotFound) || errors.Is(err, d1.ErrAccessNotFound) {
		return "gone"
	}
	if err != nil {
		return "unreadable: " + err.Error()
	}
	return string(o.Plaintext) + "/" + string(o.AssociatedData)
}

func (c *cancelWorld) list(n int) string {
	g, err := c.d.GetAccessGroups(c.w.ctx, "t:owner", c.oids[n])
	if errors.Is(err, d1.ErrAccessNotFound) {
		return "gone"
	}
	c.must("GetAccessGroups afterwards", err)
	return setOf(g)
}

func (c *cancelWorld) entries(kw string) string {
	r, err := c.ix.Search(c.w.ctx, "t:owner", kw)
	c.must("Search afterwards", err)
	return sortedText(r)
}

func (c *cancelWorld) user(n int) string {
	i, err := c.sa.GetIdentity(c.w.ctx, c.toks[n])
	_, _, lerr := c.sa.LoginUser(c.w.ctx, c.uids[n], c.pws[n])
	return fmt.Sprintf("%s %v %v", sortedText(keysOf(i.GetIDs())), err, lerr)
}

func (c *cancelWorld) left(oid uuid.UUID) (n int) {
	for k := range c.w.st.m {
		if k.id == string(oid.Bytes()) {
			n++
		}
	}
	return
}

// state describes everything.
func (c *cancelWorld) state() string {
	s := ""
	for n := range c.oids {
		s += c.object(n) + " " + c.list(n) + "; "
	}
	s += c.entries("kw") + "; " + c.entries("kx") + "; "
	for n := range c.uids {
		s += c.user(n) + "; "
	}
	return s
}

// cancelOp is an operation and the check that it has been carried out.
type cancelOp struct {
	name  string
	run   func(c *cancelWorld, ctx context.Context) (any, error)
	done  func(c *cancelWorld, r any) string // "" if it has
	reads bool
	again func(c *cancelWorld, err error) bool // errors a repetition may report when the first call had an effect
}

func expect(got, want string) string {
	if got == want {
		return ""
	}
	return fmt.Sprintf("%q instead of %q", got, want)
}

var cancelOps = []cancelOp{
	{name: "Encrypt", run: func(c *cancelWorld, ctx context.Context) (any, error) {
		return c.d.Encrypt(ctx, "t:owner", obj("new", "meta"), "grp")
	}, done: func(c *cancelWorld, r any) string {
		o, err := c.d.Decrypt(c.w.ctx, "t:member", r.(uuid.UUID))
		return expect(fmt.Sprint(string(o.Plaintext), string(o.AssociatedData), err), "newmeta<nil>")
	}},
	{name: "Update", run: func(c *cancelWorld, ctx context.Context) (any, error) {
		return nil, c.d.Update(ctx, "t:owner", c.oids[0], obj("changed", "also"))
	}, done: func(c *cancelWorld, _ any) string { return expect(c.object(0), "changed/also") }},
	{name: "AddGroups", run: func(c *cancelWorld, ctx context.Context) (any, error) {
		return nil, c.d.AddGroupsToAccess(ctx, "t:owner", c.oids[0], "g1", "g2")
	}, done: func(c *cancelWorld, _ any) string {
		return expect(c.list(0), setOf(map[string]struct{}{c.w.idp.m["t:owner"].ID: {}, "grp": {}, "g1": {}, "g2": {}}))
	}},
	{name: "RemoveGroups", run: func(c *cancelWorld, ctx context.Context) (any, error) {
		return nil, c.d.RemoveGroupsFromAccess(ctx, "t:owner", c.oids[0], "grp")
	}, done: func(c *cancelWorld, _ any) string {
		return expect(c.list(0), setOf(map[string]struct{}{c.w.idp.m["t:owner"].ID: {}}))
	}},
	{name: "Delete", run: func(c *cancelWorld, ctx context.Context) (any, error) {
		return nil, c.d.Delete(ctx, "t:owner", c.oids[0])
	}, done: func(c *cancelWorld, _ any) string {
		return expect(fmt.Sprint(c.object(0), c.list(0), c.left(c.oids[0])), "gonegone0")
	}},
	{name: "Decrypt", reads: true, run: func(c *cancelWorld, ctx context.Context) (any, error) {
		o, err := c.d.Decrypt(ctx, "t:owner", c.oids[0])
		return string(o.Plaintext) + string(o.AssociatedData), err
	}, done: func(c *cancelWorld, r any) string { return expect(r.(string), "secret 0meta 0") }},
	{name: "GetAccessGroups", reads: true, run: func(c *cancelWorld, ctx context.Context) (any, error) {
		g, err := c.d.GetAccessGroups(ctx, "t:owner", c.oids[0])
		return len(g), err
	}, done: func(c *cancelWorld, r any) string { return expect(fmt.Sprint(r), "2") }},
	{name: "IndexAdd", run: func(c *cancelWorld, ctx context.Context) (any, error) {
		return nil, c.ix.Add(ctx, "t:owner", "kw", "added")
	}, done: func(c *cancelWorld, _ any) string {
		return expect(c.entries("kw"), sortedText([]string{"a", "b", "a", "c", "added"}))
	}},
	{name: "IndexDelete", run: func(c *cancelWorld, ctx context.Context) (any, error) {
		return nil, c.ix.Delete(ctx, "t:owner", "kw", "a")
	}, done: func(c *cancelWorld, _ any) string {
		return expect(c.entries("kw"), sortedText([]string{"b", "c"}))
	}},
	{name: "IndexSearch", reads: true, run: func(c *cancelWorld, ctx context.Context) (any, error) {
		r, err := c.ix.Search(ctx, "t:owner", "kw")
		return sortedText(r), err
	}, done: func(c *cancelWorld, r any) string {
		return expect(r.(string), sortedText([]string{"a", "b", "a", "c"}))
	}},
	{name: "NewUser", run: func(c *cancelWorld, ctx context.Context) (any, error) {
		u, p, err := c.sa.NewUser(ctx, id.ScopeIndex)
		return [2]string{u, p}, err
	}, done: func(c *cancelWorld, r any) string {
		_, _, err := c.sa.LoginUser(c.w.ctx, r.([2]string)[0], r.([2]string)[1])
		return expect(fmt.Sprint(err), "<nil>")
	}},
	{name: "LoginUser", reads: true, run: func(c *cancelWorld, ctx context.Context) (any, error) {
		t, _, err := c.sa.LoginUser(ctx, c.uids[0], c.pws[0])
		return t, err
	}, done: func(c *cancelWorld, r any) string {
		i, err := c.sa.GetIdentity(c.w.ctx, r.(string))
		return expect(fmt.Sprint(i.ID, err), c.uids[0]+"<nil>")
	}},
	{name: "ChangePassword", run: func(c *cancelWorld, ctx context.Context) (any, error) {
		return c.sa.ChangeUserPassword(ctx, c.uids[0], c.pws[0])
	}, done: func(c *cancelWorld, r any) string {
		_, _, err := c.sa.LoginUser(c.w.ctx, c.uids[0], r.(string))
		_, _, old := c.sa.LoginUser(c.w.ctx, c.uids[0], c.pws[0])
		return expect(fmt.Sprint(err, old != nil), "<nil> true")
	}, again: func(c *cancelWorld, err error) bool { return errors.Is(err, id.ErrNotAuthenticated) }},
	{name: "NewGroup", run: func(c *cancelWorld, ctx context.Context) (any, error) {
		return c.sa.NewGroup(ctx, c.toks[0], id.ScopeDecrypt)
	}, done: func(c *cancelWorld, r any) string {
		i, err := c.sa.GetIdentity(c.w.ctx, c.toks[0])
		return expect(fmt.Sprint(i.Groups[r.(string)].Scopes, err), fmt.Sprint(id.ScopeDecrypt, error(nil)))
	}},
	{name: "AddUserToGroups", run: func(c *cancelWorld, ctx context.Context) (any, error) {
		return nil, c.sa.AddUserToGroups(ctx, c.toks[0], c.uids[1], c.gids...)
	}, done: func(c *cancelWorld, _ any) string {
		i, err := c.sa.GetIdentity(c.w.ctx, c.toks[1])
		return expect(fmt.Sprint(len(i.Groups), err), "2 <nil>")
	}},
	{name: "RemoveUserFromGroups", run: func(c *cancelWorld, ctx context.Context) (any, error) {
		return nil, c.sa.RemoveUserFromGroups(ctx, c.toks[0], c.uids[0], c.gids...)
	}, done: func(c *cancelWorld, _ any) string {
		i, err := c.sa.GetIdentity(c.w.ctx, c.toks[0])
		return expect(fmt.Sprint(len(i.Groups), err), "0 <nil>")
	}, again: func(c *cancelWorld, err error) bool { return errors.Is(err, id.ErrNotAuthorized) }},
	{name: "DeleteUser", run: func(c *cancelWorld, ctx context.Context) (any, error) {
		return nil, c.sa.DeleteUser(ctx, c.toks[0], c.uids[1])
	}, done: func(c *cancelWorld, _ any) string {
		_, err := c.sa.GetIdentity(c.w.ctx, c.toks[1])
		_, _, lerr := c.sa.LoginUser(c.w.ctx, c.uids[1], c.pws[1])
		left := 0
		for k := range c.w.st.m {
			if k.id == c.uids[1] {
				left++
			}
		}
		return expect(fmt.Sprint(err != nil, lerr != nil, left), "true true 0")
	}},
	{name: "GetIdentity", reads: true, run: func(c *cancelWorld, ctx context.Context) (any, error) {
		i, err := c.sa.GetIdentity(ctx, c.toks[0])
		return fmt.Sprint(i.ID, i.Scopes, len(i.Groups)), err
	}, done: func(c *cancelWorld, r any) string {
		return expect(r.(string), fmt.Sprint(c.uids[0], id.ScopeAll, 2))
	}},
}

func newCanceled(x *X) *cancelWorld {
	c := &cancelWorld{x: x, w: NewWorld(x)}
	c.p = &canceling{Provider: c.w.st}
	c.d, c.ix, c.sa = c.w.Instance(c.p), c.w.Index(c.p), c.w.Standalone(c.p)
	c.w.idp.User("owner", id.ScopeAll)
	c.w.idp.User("member", id.ScopeAll, id.AccessGroup{ID: "grp", Scopes: id.ScopeAll})
	for i := 0; i < 2; i++ {
		o, err := c.d.Encrypt(c.w.ctx, "t:owner", obj(fmt.Sprint("secret ", i), fmt.Sprint("meta ", i)), "grp")
		c.must("setup", err)
		c.oids = append(c.oids, o)
		u, p, err := c.sa.NewUser(c.w.ctx, id.ScopeAll)
		c.must("setup", err)
		t, _, err := c.sa.LoginUser(c.w.ctx, u, p)
		c.must("setup", err)
		c.uids, c.pws, c.toks = append(c.uids, u), append(c.pws, p), append(c.toks, t)
	}
	for i := 0; i < 2; i++ {
		g, err := c.sa.NewGroup(c.w.ctx, c.toks[0], id.ScopeDecrypt)
		c.must("setup", err)
		c.gids = append(c.gids, g)
	}
	for _, v := range []string{"a", "b", "a", "c"} {
		c.must("setup", c.ix.Add(c.w.ctx, "t:owner", "kw", v))
	}
	c.must("setup", c.ix.Add(c.w.ctx, "t:owner", "kx", "other"))
	return c
}

// endable is a context of the caller's own that ends on command, with the chosen cause.
func endable(ctx context.Context, kind int) (context.Context, func()) {
	switch kind {
	case 0:
		return context.WithCancel(ctx)
	default:
		o := &ownCtx{ctx, make(chan struct{}), nil}
		return o, func() {
			if o.err == nil {
				o.err = context.DeadlineExceeded
				close(o.done)
			}
		}
	}
}

func canceled(x *X, names []string) {
	var op *cancelOp
	name := names[x.Pick(len(names))]
	for i := range cancelOps {
		if cancelOps[i].name == name {
			op = &cancelOps[i]
		}
	}
	c := newCanceled(x)
	kind, honours := x.Pick(2), x.Pick(2) == 1
	at := x.Pick(40) // -1: before the operation
	ctx, end := endable(c.w.ctx, kind)
	x.Defer(end)
	before := c.state()
	records := c.w.st.Snapshot()
	c.p.at, c.p.honours, c.p.cancel, c.p.on = at-1, honours, end, true
	if at == 0 {
		end()
	}
	r, err := op.run(c, ctx)
	c.p.on = false
	x.Op()
	what := fmt.Sprintf("%s, context ended at point %d, storage refuses then: %v", op.name, at, honours)
	x.Logf("%s: %v", what, err)
	x.State(op.name, kind, honours, at, err == nil)
	x.Out("%s %v", op.name, err == nil)
	if err == nil {
		if m := op.done(c, r); m != "" {
			x.Failf("canceled-success", "%s: success reported, but %s", what, m)
		}
		return
	}
	// A failure: nothing handed out, nothing else touched, repeatable.
	switch v := r.(type) {
	case uuid.UUID:
		if v != uuid.Nil {
			x.Failf("canceled-result", "%s failed and returned the ID %s", what, v)
		}
	case string:
		if v != "" && !op.reads {
			x.Failf("canceled-result", "%s failed and returned %q", what, v)
		}
	case [2]string:
		if v != ([2]string{}) {
			x.Failf("canceled-result", "%s failed and returned %q", what, v)
		}
	}
	if op.reads {
		if after := c.w.st.Snapshot(); after != records {
			x.Failf("canceled-read", "%s changed the storage", what)
		}
	}
	untouched := c.object(1) + c.list(1) + c.entries("kx")
	if want := "secret 1/meta 1" + setOf(map[string]struct{}{c.w.idp.m["t:owner"].ID: {}, "grp": {}}) + sortedText([]string{"other"}); untouched != want {
		x.Failf("canceled-others", "%s: other records: %q instead of %q", what, untouched, want)
	}
	changed := c.state() != before
	r, err = op.run(c, c.w.ctx)
	x.Op()
	if err != nil {
		if changed && op.again != nil && op.again(c, err) {
			return
		}
		x.Failf("canceled-retry", "%s, which failed, cannot be repeated: %v", what, err)
	}
	if op.name == "IndexAdd" && changed { // carried out twice
		return
	}
	if m := op.done(c, r); m != "" {
		x.Failf("canceled-retry", "%s, repeated: %s", what, m)
	}
}
