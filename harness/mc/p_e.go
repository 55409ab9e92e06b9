package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
	"verif.local/shim/vfile"
)

func init() {
	register(&Prop{
		ID: "E01", Level: "model_checking",
		Rule: "Executions are all histories up to the depth over operations of the three parts (membership changes, removal of users, password changes, new logins, groups and users put on and taken off access lists, writes, deletions, index changes, the passing of time, new instances over the same storage), " +
			"on each storage provider; after every operation each token is tried on each object and keyword and compared with a reference model of the whole. Cross-part pairs are interleaved at storage calls. Distinct = distinct model states.",
		Scenarios: func(th bool) []*Scenario {
			d := 4
			if th {
				d = 5
			}
			return []*Scenario{
				{Name: "history", Body: func(x *X) { e01History(x, d, "ref") }, Shard: 2},
				{Name: "history-mem", Body: func(x *X) { e01History(x, d-1, "mem") }, Shard: 2},
				{Name: "history-bolt", Body: func(x *X) { e01History(x, d-2, "bolt") }, Shard: 2},
				{Name: "pairs", Body: e01Pairs, Pre: 3, Coarse: true, Shard: 2},
			}
		},
	})
}

type eUser struct {
	uid, pw string
	scopes  id.Scope
	gone    bool
	groups  map[string]struct{}
}

type eTok struct {
	s     string
	owner int
	until time.Time
}

type eObj struct {
	oid    uuid.UUID
	pt, ad string
	list   map[string]struct{}
	gone   bool
}

type eWorld struct {
	x     *X
	keys  key.Keys
	cfg   id.StandaloneConfig
	tag   string // distinguishes what this world writes
	w     *World
	kind  string
	path  string
	p     io.Provider
	sa    *id.Standalone
	d     *d1.D1
	ix    *index.SecureIndex
	now   time.Time
	clock bool

	users []*eUser
	toks  []eTok
	gids  []string
	gsc   map[string]id.Scope
	objs  []*eObj
	kw    []string // identifiers under the keyword

	kwName     string
	token      data.SealedToken
	tokenUntil time.Time
	n          int
}

func (e *eWorld) open() {
	w := e.w
	if e.kind == "bolt" {
		if e.p != nil {
			vfile.CloseAll(e.path)
		}
		b, err := io.NewBolt(e.path)
		if err != nil {
			e.x.Failf("bolt-open", "NewBolt: %v", err)
		}
		e.p = &b
	}
	sa, err := id.NewStandalone(e.cfg, e.p)
	if err != nil {
		e.x.Failf("new", "NewStandalone: %v", err)
	}
	kp := key.NewStatic(e.keys)
	d, err := d1.New(w.ctx, &kp, e.p, &sa)
	if err != nil {
		e.x.Failf("new", "d1.New: %v", err)
	}
	ix, err := index.NewSecureIndex(w.ctx, &kp, e.p, &sa)
	if err != nil {
		e.x.Failf("new", "NewSecureIndex: %v", err)
	}
	e.sa, e.d, e.ix = &sa, &d, &ix
}

func (e *eWorld) keyword() string {
	if e.kwName != "" {
		return e.kwName
	}
	return "kw"
}

func (e *eWorld) must(what string, err error) {
	if err != nil {
		e.x.Failf("setup", "%s: %v", what, err)
	}
}

func newE(x *X, kind string) *eWorld {
	e := &eWorld{x: x, w: NewWorld(x), keys: testKeys(), cfg: saConfig()}
	e.begin(kind, nil)
	e.populate(id.ScopeDecrypt | id.ScopeUpdate | id.ScopeGetAccessGroups | id.ScopeIndex | id.ScopeEncrypt | id.ScopeDelete)
	return e
}

// begin sets up the clock and the instances, on a storage of the given kind or on p.
func (e *eWorld) begin(kind string, p io.Provider) {
	x := e.x
	e.kind, e.p, e.gsc, e.now = kind, p, map[string]id.Scope{}, time.Date(2030, 1, 2, 3, 4, 5, 0, time.UTC)
	e.w.st.Quiet = true
	e.clock = virtualTime(x)
	if e.clock {
		setClock(x, e.now)
	} else {
		e.now = time.Now()
	}
	switch kind {
	case "ref":
		e.p = e.w.st
	case "mem":
		m := io.NewMem()
		e.p = &m
	case "bolt":
		e.path = scratchFile(".db")
		x.Defer(func() { vfile.CloseAll(e.path); removeFile(e.path) })
	}
	e.open()
}

// populate creates alice, with all scopes, and bob, two groups, two objects and an index entry.
func (e *eWorld) populate(bob id.Scope) {
	e.newUser(id.ScopeAll)
	e.newUser(bob)
	e.login(0)
	e.login(1)
	e.newGroup(0, id.ScopeAll)
	e.newGroup(0, id.ScopeDecrypt)
	e.encrypt(0, e.gids[0])
	e.encrypt(0, e.users[1].uid)
	e.add(0, e.tag+"first")
}

func (e *eWorld) newUser(s id.Scope) {
	u, p, err := e.sa.NewUser(e.w.ctx, s)
	e.must("NewUser", err)
	e.users = append(e.users, &eUser{uid: u, pw: p, scopes: s, groups: map[string]struct{}{}})
}

// login logs user u in; the token is kept.
func (e *eWorld) login(u int) {
	t, exp, err := e.sa.LoginUser(e.w.ctx, e.users[u].uid, e.users[u].pw)
	e.x.Op()
	if (err == nil) != !e.users[u].gone {
		e.x.Failf("login", "login of user %d (removed %v): %v", u, e.users[u].gone, err)
	}
	if err == nil {
		if want := e.now.Add(time.Hour); e.clock && exp != want.Unix() {
			e.x.Failf("login-expiry", "a login at %v advertises the expiry %d, want %d", e.now, exp, want.Unix())
		}
		e.toks = append(e.toks, eTok{t, u, e.now.Add(time.Hour)})
	}
}

// valid tells whether the token is of an existing user and has not expired.
func (e *eWorld) valid(t eTok) bool { return !e.users[t.owner].gone && e.now.Before(t.until) }

func (e *eWorld) newGroup(t int, s id.Scope) {
	g, err := e.sa.NewGroup(e.w.ctx, e.toks[t].s, s)
	e.must("NewGroup", err)
	e.gids = append(e.gids, g)
	e.gsc[g] = s
	e.users[e.toks[t].owner].groups[g] = struct{}{}
}

// may is the documented rule over the current state of all parts.
func (e *eWorld) may(t eTok, s id.Scope, o *eObj) error {
	u := e.users[t.owner]
	switch {
	case !e.valid(t):
		return d1.ErrNotAuthenticated
	case u.scopes&s != s:
		return d1.ErrNotAuthorized
	case o == nil:
		return nil
	case o.gone:
		return d1.ErrAccessNotFound
	}
	if _, ok := o.list[u.uid]; ok {
		return nil
	}
	for g := range u.groups {
		if _, ok := o.list[g]; ok && e.gsc[g]&s == s {
			return nil
		}
	}
	return d1.ErrNotAuthorized
}

// judge compares the error of an operation with the expected one and tells whether it succeeded.
func (e *eWorld) judge(what string, err, want error) bool {
	e.x.Op()
	if want == nil && err != nil {
		e.x.Failf("denied", "%s failed: %v", what, err)
	}
	if want != nil && !errors.Is(err, want) {
		e.x.Failf("granted", "%s returned %v, want %v", what, err, want)
	}
	return err == nil
}

func (e *eWorld) encrypt(t int, groups ...string) {
	tok := e.toks[t]
	e.n++
	o := &eObj{pt: fmt.Sprint(e.tag, "plain", e.n), ad: fmt.Sprint(e.tag, "meta", e.n), list: setFrom(append(groups, e.users[tok.owner].uid)...)}
	oid, err := e.d.Encrypt(e.w.ctx, tok.s, obj(o.pt, o.ad), groups...)
	if e.judge("Encrypt", err, e.may(tok, id.ScopeEncrypt, nil)) {
		o.oid = oid
		e.objs = append(e.objs, o)
	}
}

func (e *eWorld) update(t, i int) {
	o := e.objs[i]
	e.n++
	pt, ad := fmt.Sprint(e.tag, "plain", e.n), fmt.Sprint(e.tag, "meta", e.n)
	if e.judge("Update", e.d.Update(e.w.ctx, e.toks[t].s, o.oid, obj(pt, ad)), e.may(e.toks[t], id.ScopeUpdate, o)) {
		o.pt, o.ad = pt, ad
	}
}

func (e *eWorld) delete(t, i int) {
	o := e.objs[i]
	want := e.may(e.toks[t], id.ScopeDelete, o)
	if want == d1.ErrAccessNotFound {
		want = nil
	}
	if e.judge("Delete", e.d.Delete(e.w.ctx, e.toks[t].s, o.oid), want) {
		o.gone = true
	}
}

func (e *eWorld) list(t, i int, add bool, g string) {
	o := e.objs[i]
	want := e.may(e.toks[t], id.ScopeModifyAccessGroups, o)
	if add {
		if e.judge("AddGroupsToAccess", e.d.AddGroupsToAccess(e.w.ctx, e.toks[t].s, o.oid, g), want) {
			o.list[g] = struct{}{}
		}
	} else if e.judge("RemoveGroupsFromAccess", e.d.RemoveGroupsFromAccess(e.w.ctx, e.toks[t].s, o.oid, g), want) {
		delete(o.list, g)
	}
}

// member changes a membership; the caller must be in the group.
func (e *eWorld) member(t, u int, add bool, g string) {
	tok := e.toks[t]
	_, in := e.users[tok.owner].groups[g]
	want := e.valid(tok) && in && !e.users[u].gone
	f, name := e.sa.RemoveUserFromGroups, "RemoveUserFromGroups"
	if add {
		f, name = e.sa.AddUserToGroups, "AddUserToGroups"
	}
	err := f(e.w.ctx, tok.s, e.users[u].uid, g)
	e.x.Op()
	if (err == nil) != want {
		e.x.Failf("membership", "%s returned %v, want success %v", name, err, want)
	}
	if err == nil && add {
		e.users[u].groups[g] = struct{}{}
	} else if err == nil {
		delete(e.users[u].groups, g)
	}
}

func (e *eWorld) add(t int, v string) {
	want := error(nil)
	if !e.valid(e.toks[t]) {
		want = index.ErrNotAuthenticated
	} else if e.users[e.toks[t].owner].scopes&id.ScopeIndex == 0 {
		want = index.ErrNotAuthorized
	}
	if e.judge("Add", e.ix.Add(e.w.ctx, e.toks[t].s, e.keyword(), v), want) {
		e.kw = append(e.kw, v)
	}
}

func (e *eWorld) remove(t int, v string) {
	want := error(nil)
	if !e.valid(e.toks[t]) {
		want = index.ErrNotAuthenticated
	} else if e.users[e.toks[t].owner].scopes&id.ScopeIndex == 0 {
		want = index.ErrNotAuthorized
	}
	if e.judge("Delete from the index", e.ix.Delete(e.w.ctx, e.toks[t].s, e.keyword(), v), want) {
		var r []string
		for _, k := range e.kw {
			if k != v {
				r = append(r, k)
			}
		}
		e.kw = r
	}
}

// verify tries every token on everything.
func (e *eWorld) verify(after string) {
	for ti, t := range e.toks {
		who := fmt.Sprintf("%s: token %d of user %d", after, ti, t.owner)
		for oi, o := range e.objs {
			got, err := e.d.Decrypt(e.w.ctx, t.s, o.oid)
			if e.judge(who+fmt.Sprintf(": Decrypt of object %d", oi), err, e.may(t, id.ScopeDecrypt, o)) {
				if string(got.Plaintext) != o.pt || string(got.AssociatedData) != o.ad {
					e.x.Failf("contents", "%s: object %d contains %q, %q; want %q, %q", who, oi, got.Plaintext, got.AssociatedData, o.pt, o.ad)
				}
			} else if len(got.Plaintext)+len(got.AssociatedData) != 0 {
				e.x.Failf("leak", "%s: a refused Decrypt returned data", who)
			}
			l, err := e.d.GetAccessGroups(e.w.ctx, t.s, o.oid)
			if e.judge(who+fmt.Sprintf(": GetAccessGroups of object %d", oi), err, e.may(t, id.ScopeGetAccessGroups, o)) && setOf(l) != setOf(o.list) {
				e.x.Failf("list", "%s: object %d has the list %s, want %s", who, oi, setOf(l), setOf(o.list))
			}
			e.judge(who+fmt.Sprintf(": AuthorizeIdentity on object %d", oi), e.d.AuthorizeIdentity(e.w.ctx, t.s, o.oid), e.may(t, id.ScopeGetAccessGroups, o))
		}
		r, err := e.ix.Search(e.w.ctx, t.s, e.keyword())
		want := error(nil)
		if !e.valid(t) {
			want = index.ErrNotAuthenticated
		} else if e.users[t.owner].scopes&id.ScopeIndex == 0 {
			want = index.ErrNotAuthorized
		}
		if e.judge(who+": Search", err, want) && sortedText(r) != sortedText(e.kw) {
			e.x.Failf("search", "%s: found %q, want %q", who, r, e.kw)
		}
	}
}

func (e *eWorld) state() string {
	var b strings.Builder
	for _, u := range e.users {
		var g []int
		for i, n := range e.gids {
			if _, ok := u.groups[n]; ok {
				g = append(g, i)
			}
		}
		fmt.Fprint(&b, u.gone, g, ";")
	}
	for _, o := range e.objs {
		var l []string
		for n := range o.list {
			for i, g := range e.gids {
				if g == n {
					l = append(l, fmt.Sprint("g", i))
				}
			}
			for i, u := range e.users {
				if u.uid == n {
					l = append(l, fmt.Sprint("u", i))
				}
			}
		}
		sort.Strings(l)
		fmt.Fprint(&b, o.gone, o.pt, l, ";")
	}
	for _, t := range e.toks {
		fmt.Fprint(&b, t.owner, e.valid(t))
	}
	return b.String() + strings.Join(e.kw, ",")
}

// The alphabet. Alice (0) administers, Bob (1) is the one whose rights change.
var eOps = []struct {
	name string
	run  func(e *eWorld)
}{
	{"alice adds bob to the group with all scopes", func(e *eWorld) { e.member(0, 1, true, e.gids[0]) }},
	{"alice removes bob from the group with all scopes", func(e *eWorld) { e.member(0, 1, false, e.gids[0]) }},
	{"alice adds bob to the decrypting group", func(e *eWorld) { e.member(0, 1, true, e.gids[1]) }},
	{"bob removes alice from the group with all scopes", func(e *eWorld) { e.member(1, 0, false, e.gids[0]) }},
	{"alice removes the user bob", func(e *eWorld) {
		want := e.valid(e.toks[0])
		err := e.sa.DeleteUser(e.w.ctx, e.toks[0].s, e.users[1].uid)
		e.x.Op()
		if (err == nil) != want {
			e.x.Failf("delete-user", "DeleteUser returned %v, want success %v", err, want)
		}
		if err == nil {
			e.users[1].gone = true
		}
	}},
	{"bob changes his password and logs in again", func(e *eWorld) {
		u := e.users[1]
		p, err := e.sa.ChangeUserPassword(e.w.ctx, u.uid, u.pw)
		e.x.Op()
		if (err == nil) != !u.gone {
			e.x.Failf("change", "ChangeUserPassword returned %v (removed %v)", err, u.gone)
		}
		if err == nil {
			u.pw = p
		}
		e.login(1)
	}},
	{"alice lists the decrypting group on object 0", func(e *eWorld) { e.list(0, 0, true, e.gids[1]) }},
	{"alice takes the group with all scopes off object 0", func(e *eWorld) { e.list(0, 0, false, e.gids[0]) }},
	{"alice takes bob off object 1", func(e *eWorld) { e.list(0, 1, false, e.users[1].uid) }},
	{"bob updates object 0", func(e *eWorld) { e.update(1, 0) }},
	{"bob deletes object 1", func(e *eWorld) { e.delete(1, 1) }},
	{"bob creates an object for the group with all scopes", func(e *eWorld) { e.encrypt(1, e.gids[0]) }},
	{"bob adds to the index", func(e *eWorld) { e.add(1, e.tag+"bob's") }},
	{"alice deletes from the index", func(e *eWorld) { e.remove(0, e.tag+"first") }},
	{"new instances", func(e *eWorld) { e.open() }},
	{"61 minutes pass and alice logs in again", func(e *eWorld) {
		if !e.clock {
			return
		}
		e.now = e.now.Add(61 * time.Minute)
		setClock(e.x, e.now)
		e.login(0)
		if n := len(e.toks) - 1; !e.users[0].gone { // alice goes on with the new token
			e.toks[0], e.toks[n] = e.toks[n], e.toks[0]
		}
	}},
}

func e01History(x *X, depth int, kind string) {
	// Verifying uses every token, which could hide what an instance remembers of its last caller.
	often := x.Pick(2) == 0
	e := newE(x, kind)
	if often {
		e.verify("at first")
	}
	var last string
	for i := 0; i < depth; i++ {
		o := eOps[x.Pick(len(eOps))]
		x.Logf("%s", o.name)
		o.run(e)
		if last = o.name; often {
			e.verify(last)
			x.State(e.state())
		}
	}
	if !often {
		for i, j := 0, len(e.toks)-1; i < j; i, j = i+1, j-1 {
			e.toks[i], e.toks[j] = e.toks[j], e.toks[i]
		}
		e.verify(last)
		x.State(e.state())
	}
	x.Out("%s", e.state())
}

// Two operations of different parts run at the same time: neither disturbs the other, the outcome is that
// of one of the two orders, and what follows obeys both.
func e01Pairs(x *X) {
	type op struct {
		name  string
		run   func(e *eWorld) error
		model func(e *eWorld) error // the expected error; applies the effect
	}
	ident := []op{
		{"alice removes bob from the group", func(e *eWorld) error {
			return e.sa.RemoveUserFromGroups(e.w.ctx, e.toks[0].s, e.users[1].uid, e.gids[0])
		},
			func(e *eWorld) error { delete(e.users[1].groups, e.gids[0]); return nil }},
		{"alice adds bob to the decrypting group", func(e *eWorld) error { return e.sa.AddUserToGroups(e.w.ctx, e.toks[0].s, e.users[1].uid, e.gids[1]) },
			func(e *eWorld) error { e.users[1].groups[e.gids[1]] = struct{}{}; return nil }},
		{"alice removes the user bob", func(e *eWorld) error { return e.sa.DeleteUser(e.w.ctx, e.toks[0].s, e.users[1].uid) },
			func(e *eWorld) error { e.users[1].gone = true; return nil }},
		{"bob changes his password", func(e *eWorld) error {
			p, err := e.sa.ChangeUserPassword(e.w.ctx, e.users[1].uid, e.users[1].pw)
			if err == nil {
				e.users[1].pw = p
			}
			return err
		}, func(e *eWorld) error { return nil }},
	}
	use := []op{
		{"bob decrypts", func(e *eWorld) error { _, err := e.d.Decrypt(e.w.ctx, e.toks[1].s, e.objs[0].oid); return err },
			func(e *eWorld) error { return e.may(e.toks[1], id.ScopeDecrypt, e.objs[0]) }},
		{"bob updates", func(e *eWorld) error { return e.d.Update(e.w.ctx, e.toks[1].s, e.objs[0].oid, obj("new", "newmeta")) },
			func(e *eWorld) error {
				err := e.may(e.toks[1], id.ScopeUpdate, e.objs[0])
				if err == nil {
					e.objs[0].pt, e.objs[0].ad = "new", "newmeta"
				}
				return err
			}},
		{"bob deletes", func(e *eWorld) error { return e.d.Delete(e.w.ctx, e.toks[1].s, e.objs[0].oid) },
			func(e *eWorld) error {
				err := e.may(e.toks[1], id.ScopeDelete, e.objs[0])
				if err == nil {
					e.objs[0].gone = true
				}
				return err
			}},
		{"bob adds to the index", func(e *eWorld) error { return e.ix.Add(e.w.ctx, e.toks[1].s, "kw", "bob's") },
			func(e *eWorld) error {
				if !e.valid(e.toks[1]) {
					return index.ErrNotAuthenticated
				}
				e.kw = append(e.kw, "bob's")
				return nil
			}},
		{"bob searches", func(e *eWorld) error { _, err := e.ix.Search(e.w.ctx, e.toks[1].s, "kw"); return err },
			func(e *eWorld) error {
				if !e.valid(e.toks[1]) {
					return index.ErrNotAuthenticated
				}
				return nil
			}},
	}
	a, b := ident[x.Pick(len(ident))], use[x.Pick(len(use))]
	e := newE(x, "ref")
	e.member(0, 1, true, e.gids[0])
	u1 := *e.users[1]
	u1.groups = copySet(u1.groups)
	o0, kw := *e.objs[0], append([]string{}, e.kw...)
	e.w.st.YieldOn = true
	var ea, eb error
	x.Par(func() { ea = a.run(e) }, func() { eb = b.run(e) })
	e.w.st.YieldOn = false
	x.Op()
	pw := e.users[1].pw
	ok := func(got, want error) bool { return got == nil && want == nil || want != nil && errors.Is(got, want) }
	var matched []string
	for _, first := range []int{0, 1} {
		// the order a, b or b, a
		c := u1
		c.groups = copySet(u1.groups)
		c.pw = pw
		*e.users[1] = c
		*e.objs[0] = o0
		e.kw = append([]string{}, kw...)
		var wa, wb error
		if first == 0 {
			wa, wb = a.model(e), b.model(e)
		} else {
			wb, wa = b.model(e), a.model(e)
		}
		if ok(ea, wa) && ok(eb, wb) {
			matched = append(matched, []string{"before", "after"}[first])
			if len(matched) == 1 {
				e.verify("after " + a.name + " while " + b.name)
			}
		}
	}
	if len(matched) == 0 {
		x.Failf("order", "%s (%v) while %s (%v): no sequential order gives these results", a.name, ea, b.name, eb)
	}
	x.State(a.name, b.name, matched, e.state())
	x.Out("%s %s %v", a.name, b.name, matched)
}
