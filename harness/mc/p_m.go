package main

import (
	"errors"
	"fmt"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

// M01: deployments (keys, storage, identity provider) in one process do not influence each other.

func init() {
	register(&Prop{
		ID: "M01", Level: "model_checking",
		Rule: "Executions are all histories up to the depth over the operations of two deployments in one process, which differ in keys, in storage, in both, or in the keys of the identity provider only, and whose users, groups and objects have equal IDs where the storage differs; " +
			"after every operation both are verified against reference models of their own, and everything of one is tried on the other. Pairs of keys that differ in one bit at every position; up to 300 deployments; one operation of each at the same time, at statement level. Distinct = distinct pairs of model states.",
		Scenarios: func(th bool) []*Scenario {
			d := 2
			if th {
				d = 3
			}
			return []*Scenario{
				{Name: "history", Body: func(x *X) { m01History(x, d) }, Shard: 2},
				{Name: "similar-keys", Body: func(x *X) { m01Similar(x, th) }, Shard: 2},
				{Name: "many", Body: func(x *X) { m01Many(x, th) }, Shard: 1},
				{Name: "concurrent", Body: m01Concurrent, Pre: 1, Fine: true, Site: 1, Shard: 3},
			}
		},
	})
}

var mIDs = []string{
	"10000000-0000-4000-8000-000000000001", "10000000-0000-4000-8000-000000000002", "10000000-0000-4000-8000-000000000003",
	"10000000-0000-4000-8000-000000000004", "10000000-0000-4000-8000-000000000005", "10000000-0000-4000-8000-000000000006",
}

func otherKeys() key.Keys {
	return key.Keys{KEK: seq(32, 101), AEK: seq(32, 102), TEK: seq(32, 103), IEK: seq(32, 104)}
}

func otherConfig() id.StandaloneConfig {
	return id.StandaloneConfig{UEK: seq(32, 111), GEK: seq(32, 112), TEK: seq(32, 113)}
}

var mConfigs = []string{"keys and storage differ", "keys differ", "storage differs", "keys of the identity provider differ"}

// newM makes the two deployments.
func newM(x *X, config int, kind string) (es [2]*eWorld) {
	for i := range es {
		e := &eWorld{x: x, w: NewWorld(x), keys: testKeys(), cfg: saConfig(), tag: []string{"A-", "B-"}[i]}
		bob := id.ScopeDecrypt | id.ScopeUpdate | id.ScopeGetAccessGroups | id.ScopeIndex | id.ScopeDelete
		var p io.Provider
		k := kind
		if i == 1 {
			bob = id.ScopeUpdate | id.ScopeGetAccessGroups | id.ScopeEncrypt
			if config != 2 {
				e.cfg = otherConfig()
			}
			if config < 2 {
				e.keys = otherKeys()
			}
			if config == 1 || config == 3 {
				p, k = es[0].p, ""
			}
		}
		if config == 0 || config == 2 {
			for _, u := range mIDs {
				forceUUID(u)
			}
		}
		e.begin(k, p)
		if config == 3 {
			e.kwName = []string{"kw", "kw of B"}[i] // one index, two keywords
		}
		e.populate(bob)
		uuids.forced = nil
		es[i] = e
	}
	return es
}

// cross tries what belongs to a on b.
func cross(x *X, config int, a, b *eWorld, after string) {
	what := after + ": " + a.tag + " on " + b.tag
	refused := func(op string, err error) {
		x.Op()
		if err == nil {
			x.Failf("cross-"+op, "%s: %s succeeded", what, op)
		}
	}
	for _, t := range a.toks {
		ident, err := b.sa.GetIdentity(b.w.ctx, t.s)
		if config != 2 {
			if err == nil {
				x.Failf("cross-token", "%s: a token is accepted as %s", what, identStr(ident))
			}
			for _, o := range append(append([]*eObj{}, a.objs...), b.objs...) {
				got, err := b.d.Decrypt(b.w.ctx, t.s, o.oid)
				refused("Decrypt", err)
				if len(got.Plaintext)+len(got.AssociatedData) != 0 {
					x.Failf("cross-leak", "%s: a refused Decrypt returned data", what)
				}
				if !errors.Is(err, d1.ErrNotAuthenticated) {
					x.Failf("cross-error", "%s: Decrypt with a foreign token: %v", what, err)
				}
			}
			_, err := b.ix.Search(b.w.ctx, t.s, a.keyword())
			if !errors.Is(err, index.ErrNotAuthenticated) {
				x.Failf("cross-search", "%s: Search with a foreign token: %v", what, err)
			}
			continue
		}
		// Equal keys and user IDs: the token is valid there too, for the user with that ID there.
		u := b.users[t.owner]
		if bt := (eTok{t.s, t.owner, t.until}); b.valid(bt) != (err == nil) {
			x.Failf("cross-token", "%s: a token for an ID that exists here (removed %v): %v", what, u.gone, err)
		} else if err == nil && (ident.ID != u.uid || ident.Scopes != u.scopes || len(ident.Groups) != len(u.groups)) {
			x.Failf("cross-identity", "%s: the token resolves to %s", what, identStr(ident))
		}
	}
	for i, u := range a.users {
		_, _, err := b.sa.LoginUser(b.w.ctx, u.uid, u.pw)
		refused("login", err)
		if i < len(b.users) {
			_, _, err = b.sa.LoginUser(b.w.ctx, b.users[i].uid, u.pw)
			refused("login", err)
			_, err = b.sa.ChangeUserPassword(b.w.ctx, b.users[i].uid, u.pw)
			refused("change of password", err)
		}
	}
	if config == 1 { // the same storage: b's own callers on a's objects
		for _, t := range b.toks {
			for _, o := range a.objs {
				got, err := b.d.Decrypt(b.w.ctx, t.s, o.oid)
				refused("Decrypt", err)
				if len(got.Plaintext)+len(got.AssociatedData) != 0 {
					x.Failf("cross-leak", "%s: a refused Decrypt returned data", what)
				}
				_, err = b.d.GetAccessGroups(b.w.ctx, t.s, o.oid)
				refused("GetAccessGroups", err)
			}
		}
	}
	tok := a.token
	_, err := b.d.GetTokenContents(b.w.ctx, &tok)
	if open := config >= 2 && b.now.Before(a.tokenUntil); (err == nil) != open {
		x.Failf("cross-data-token", "%s: opening a data token: %v", what, err)
	}
}

// Operations both deployments run in histories.
var mOps = []int{0, 1, 4, 5, 6, 8, 9, 10, 12, 13, 14, 15}

func m01History(x *X, depth int) {
	config := x.Pick(len(mConfigs))
	kind := []string{"ref", "mem", "bolt"}[x.Pick(3)]
	if kind == "bolt" && depth > 2 {
		depth = 2
	}
	x.Logf("%s, storage %s", mConfigs[config], kind)
	es := newM(x, config, kind)
	for _, e := range es {
		t, err := e.d.CreateToken(e.w.ctx, []byte(e.tag+"token"))
		e.must("CreateToken", err)
		e.token, e.tokenUntil = t, t.ExpiryTime
	}
	check := func(what string) {
		for i, e := range es {
			e.verify(what + ", in " + e.tag)
			cross(x, config, e, es[1-i], what)
		}
		for _, e := range es { // and again, after all that
			e.verify(what + ", again in " + e.tag)
		}
		x.State(config, es[0].state(), es[1].state())
	}
	often := x.Pick(2) == 0
	if often {
		check("at first")
	}
	for i := 0; i < depth; i++ {
		n := x.Pick(2 * len(mOps))
		e, o := es[n%2], eOps[mOps[n/2]]
		if o.name == "new instances" && e.kind != "bolt" && e.path == "" || o.name != "new instances" || config == 0 || config == 2 {
			x.Logf("%s%s", e.tag, o.name)
			before := e.now
			o.run(e)
			if e.now != before { // time passes for everyone
				es[1-n%2].now = e.now
			}
		}
		if often || i == depth-1 {
			check(e.tag + o.name)
		}
	}
	x.Out("%s | %s", es[0].state(), es[1].state())
}

// Two deployments on one storage whose keys differ in one bit of one key.
func m01Similar(x *X, th bool) {
	which, at, order := x.Pick(7), x.Pick(32), x.Pick(2)
	bit := at % 8
	if th {
		bit = x.Pick(8)
	}
	a := &eWorld{x: x, w: NewWorld(x), keys: testKeys(), cfg: saConfig(), tag: "A-"}
	b := &eWorld{x: x, w: a.w, keys: testKeys(), cfg: saConfig(), tag: "B-"}
	ks := []*[]byte{&b.keys.KEK, &b.keys.AEK, &b.keys.TEK, &b.keys.IEK, &b.cfg.UEK, &b.cfg.GEK, &b.cfg.TEK}
	names := []string{"KEK", "AEK", "TEK", "IEK", "UEK", "GEK", "TEK of the identity provider"}
	(*ks[which])[at] ^= 1 << bit
	x.Logf("%s differs in byte %d", names[which], at)
	a.begin("ref", nil)
	a.populate(id.ScopeAll)
	dt, err := a.d.CreateToken(a.w.ctx, []byte("token"))
	a.must("CreateToken", err)
	b.begin("ref", nil)
	uses := func(e *eWorld, own bool) {
		t, o := a.toks[0], a.objs[0]
		check := func(k int, what string, err error) {
			x.Op()
			affected := !own && which == k
			if (err == nil) == affected {
				x.Failf("similar-"+what, "%s differs in byte %d: %s with own keys %v: %v", names[which], at, what, own, err)
			}
		}
		var err error
		if own || which < 4 {
			_, err = e.d.Decrypt(e.w.ctx, t.s, o.oid)
			if which == 1 && !own {
				check(1, "Decrypt", err)
			} else {
				check(0, "Decrypt", err)
			}
			_, err = e.d.GetAccessGroups(e.w.ctx, t.s, o.oid)
			check(1, "GetAccessGroups", err)
			c := dt
			_, err = e.d.GetTokenContents(e.w.ctx, &c)
			check(2, "GetTokenContents", err)
			r, err := e.ix.Search(e.w.ctx, t.s, "kw")
			if err != nil || (len(r) == 1) == (!own && which == 3) {
				x.Failf("similar-search", "%s differs in byte %d: Search with own keys %v finds %q, %v", names[which], at, own, r, err)
			}
			return
		}
		_, err = e.sa.GetIdentity(e.w.ctx, t.s)
		check(which, "GetIdentity", err)
		_, _, err = e.sa.LoginUser(e.w.ctx, a.users[0].uid, a.users[0].pw)
		check(4, "LoginUser", err)
	}
	for i := 0; i < 2; i++ {
		if order == 0 {
			uses(a, true)
			uses(b, false)
		} else {
			uses(b, false)
			uses(a, true)
		}
	}
	a.verify("afterwards")
	x.State(which, at, order)
}

// Many deployments, used in turn.
func m01Many(x *X, th bool) {
	n := []int{2, 3, 5, 9, 17, 33, 65, 101, 129, 257, 300}[x.Pick(11)]
	type dep struct {
		sa  *id.Standalone
		d   *d1.D1
		ix  *index.SecureIndex
		tok string
		uid string
		pw  string
		dt  data.SealedToken
	}
	var ds []dep
	w := NewWorld(x)
	w.st.Quiet = true
	fail := func(what string, i int, err error) {
		if err != nil {
			x.Failf("many", "%s in deployment %d of %d: %v", what, i, n, err)
		}
	}
	for i := 0; i < n; i++ {
		k := func(b byte) []byte { r := seq(32, b); r[30], r[31] = byte(i>>8), byte(i); return r }
		sa, err := id.NewStandalone(id.StandaloneConfig{UEK: k(1), GEK: k(2), TEK: k(3)}, w.st)
		fail("NewStandalone", i, err)
		kp := key.NewStatic(key.Keys{KEK: k(4), AEK: k(5), TEK: k(6), IEK: k(7)})
		d, err := d1.New(w.ctx, &kp, w.st, &sa)
		fail("New", i, err)
		ix, err := index.NewSecureIndex(w.ctx, &kp, w.st, &sa)
		fail("NewSecureIndex", i, err)
		uid, pw, err := sa.NewUser(w.ctx, id.ScopeAll)
		fail("NewUser", i, err)
		tok, _, err := sa.LoginUser(w.ctx, uid, pw)
		fail("LoginUser", i, err)
		dt, err := d.CreateToken(w.ctx, []byte(fmt.Sprint("token", i)))
		fail("CreateToken", i, err)
		ds = append(ds, dep{sa: &sa, d: &d, ix: &ix, tok: tok, uid: uid, pw: pw, dt: dt})
		fail("Add", i, ix.Add(w.ctx, tok, "kw", fmt.Sprint("identifier", i)))
		x.Op()
	}
	for i, d := range ds {
		oid, err := d.d.Encrypt(w.ctx, d.tok, obj(fmt.Sprint("text", i), ""))
		fail("Encrypt", i, err)
		r, err := d.ix.Search(w.ctx, d.tok, "kw")
		fail("Search", i, err)
		if len(r) != 1 || r[0] != fmt.Sprint("identifier", i) {
			x.Failf("many-search", "deployment %d of %d finds %q", i, n, r)
		}
		got, err := d.d.Decrypt(w.ctx, d.tok, oid)
		fail("Decrypt", i, err)
		if string(got.Plaintext) != fmt.Sprint("text", i) {
			x.Failf("many-contents", "deployment %d of %d reads %q", i, n, got.Plaintext)
		}
		t := d.dt
		c, err := d.d.GetTokenContents(w.ctx, &t)
		fail("GetTokenContents", i, err)
		if string(c) != fmt.Sprint("token", i) {
			x.Failf("many-token", "deployment %d of %d reads the token %q", i, n, c)
		}
		for _, j := range []int{(i + 1) % n, n - 1, 0} {
			o := ds[j]
			if j == i {
				continue
			}
			if _, err := o.d.Decrypt(w.ctx, o.tok, oid); err == nil {
				x.Failf("many-cross", "deployment %d reads an object of deployment %d", j, i)
			}
			if _, err := o.sa.GetIdentity(w.ctx, d.tok); err == nil {
				x.Failf("many-cross", "deployment %d accepts a token of deployment %d", j, i)
			}
			if _, _, err := o.sa.LoginUser(w.ctx, d.uid, d.pw); err == nil {
				x.Failf("many-cross", "deployment %d logs in a user of deployment %d", j, i)
			}
			t := d.dt
			if _, err := o.d.GetTokenContents(w.ctx, &t); err == nil {
				x.Failf("many-cross", "deployment %d opens a data token of deployment %d", j, i)
			}
		}
		x.Op()
	}
	x.State(n)
}

// One operation of each deployment at the same time.
func m01Concurrent(x *X) {
	type op struct {
		name string
		run  func(e *eWorld)
	}
	ops := []op{
		{"decrypt", func(e *eWorld) {
			got, err := e.d.Decrypt(e.w.ctx, e.toks[0].s, e.objs[0].oid)
			if err != nil || string(got.Plaintext) != e.objs[0].pt {
				e.x.Failf("concurrent-decrypt", "%sDecrypt: %q, %v", e.tag, got.Plaintext, err)
			}
		}},
		{"update", func(e *eWorld) { e.update(0, 0) }},
		{"search", func(e *eWorld) {
			r, err := e.ix.Search(e.w.ctx, e.toks[0].s, e.keyword())
			if err != nil || sortedText(r) != sortedText(e.kw) {
				e.x.Failf("concurrent-search", "%sSearch: %q, %v", e.tag, r, err)
			}
		}},
		{"identity", func(e *eWorld) {
			i, err := e.sa.GetIdentity(e.w.ctx, e.toks[1].s)
			if err != nil || i.ID != e.users[1].uid || i.Scopes != e.users[1].scopes {
				e.x.Failf("concurrent-identity", "%sGetIdentity: %s, %v", e.tag, identStr(i), err)
			}
		}},
		{"login", func(e *eWorld) { e.login(1) }},
	}
	a, b := ops[x.Pick(len(ops))], ops[x.Pick(len(ops))]
	config := []int{0, 2}[x.Pick(2)]
	es := newM(x, config, "ref")
	x.Logf("%s: %s while %s", mConfigs[config], a.name, b.name)
	x.Par(func() { a.run(es[0]) }, func() { b.run(es[1]) })
	for _, e := range es {
		e.verify("afterwards in " + e.tag)
	}
	x.State(config, a.name, b.name)
}
