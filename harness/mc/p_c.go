package main

import (
	"bytes"
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/gofrs/uuid"
	"github.com/rs/zerolog"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

func init() {
	register(&Prop{
		ID: "C01", Level: "model_checking", QuickS: 400,
		Rule: "All pairs (and triples, at storage-call granularity) of operations, each on an object, user, keyword or token of its own, through shared instances, with shared argument values and contexts, by different callers and by the same caller, on the reference store and both bundled providers, under all interleavings of their statements and storage calls within the preemption bound; " +
			"every result and everything stored is compared with the sequential executions. Distinct = distinct outcomes.",
		Scenarios: func(th bool) []*Scenario {
			pre, two, tri := 1, cOther, cChange
			if th {
				pre, two, tri = 2, cBoth, cOther
			}
			return []*Scenario{
				{Name: "pairs", Body: func(x *X) { c01Run(x, "ref", 2, cBoth) }, Pre: pre, Fine: true, Site: 2, Shard: 2},
				{Name: "pairs-calls", Body: func(x *X) { c01Run(x, "ref", 2, cBoth) }, Pre: 3 * pre, Coarse: true, Shard: 2},
				{Name: "triples", Body: func(x *X) { c01Run(x, "ref", 3, tri) }, Pre: pre, Coarse: true, Shard: 3},
				{Name: "mem", Body: func(x *X) { c01Run(x, "mem", 2, two) }, Pre: pre, Fine: true, Site: 1, Shard: 2},
				{Name: "bolt", Body: func(x *X) { c01Run(x, "bolt", 2, cBoth) }, Pre: pre, Coarse: true, Shard: 2},
				{Name: "provider", Body: func(x *X) { cProvider(x, true) }, Pre: pre + 1, Fine: true, Site: 2, Shard: 2},
				{Name: "primitives", Body: c01Primitives, Pre: pre + 1, Fine: true, Site: 3, Shard: 2},
			}
		},
	})
	register(&Prop{
		ID: "C03", Level: "model_checking", QuickS: 400,
		Rule:   "All pairs of operations on shared instances, on different and on the same objects, users and keywords, with shared arguments, contexts and loggers, on both bundled providers, in all interleavings within the preemption bound; in every execution a happens-before race detector sees only the synchronisation the code itself does, not the explorer's. Deadlocks are reported by the scheduler. Distinct = distinct (pair, outcome) states.",
		Assume: []string{"Go's race detector is trusted for the accesses it instruments; its shadow memory keeps the last four accesses of each word."},
		Scenarios: func(th bool) []*Scenario {
			pre := 1
			if th {
				pre = 2
			}
			ss := []*Scenario{
				{Name: "primitives", Body: c03Primitives, Pre: pre, Fine: true, Site: 2, Shard: 2},
				{Name: "provider", Body: func(x *X) { cProvider(x, false) }, Pre: pre, Fine: true, Site: 1, Shard: 2},
				{Name: "mem", Body: func(x *X) { c03Run(x, "mem", true) }, Pre: pre, Coarse: true, Shard: 2},
				{Name: "bolt", Body: func(x *X) { c03Run(x, "bolt", th) }, Pre: pre, Coarse: true, Shard: 2},
				{Name: "construction", Body: c03Construct, Pre: 1, Fine: true, Site: 1, Shard: 2},
			}
			if th {
				ss = append(ss, &Scenario{Name: "fine", Body: func(x *X) { c03Run(x, "mem", false) }, Pre: 1, Fine: true, Site: 1, Shard: 2})
			}
			return ss
		},
	})
}

// cWorld has for every slot an object, users, keywords and tokens of its own. Nothing in it is modified
// while operations run concurrently.
type cWorld struct {
	x    *X
	w    *World
	ctx  context.Context
	p    io.Provider
	st   *Store
	keys map[rkey]bool
	d    *d1.D1
	ix   *index.SecureIndex
	sa   *id.Standalone
	same bool
	ctxs [3]context.Context // contexts of the slots, if they have their own

	oids []uuid.UUID
	seal []data.SealedToken
	uids []string // user of the slot, member of gids and gids2
	pws  []string
	toks []string
	tuid []string // target of the slot, member of gids
	tpw  []string
	gids []string
	gid2 []string

	obj    *data.Object // shared arguments
	groups []string
	scopes []id.Scope
	text   []byte
}

type cRes struct {
	err, val string
	oid      uuid.UUID
	isObj    bool
	uid, pw  string
	gid, tok string
	seal     data.SealedToken
	isTok    bool
}

func newC(x *X, prov string, n int, same, spy bool) *cWorld {
	c := &cWorld{x: x, w: NewWorld(x), same: same}
	c.ctx = c.w.ctx
	c.w.idp.Calls = make([]IDCall, 0, 512)
	c.p = makeProvider(x, prov)
	if st, ok := c.p.(*Store); ok {
		c.st = st
		st.Quiet = true
	} else if spy {
		s := &spyProvider{Provider: c.p, keys: map[rkey]bool{}}
		c.p, c.keys = s, s.keys
	}
	c.d, c.ix, c.sa = c.w.Instance(c.p), c.w.Index(c.p), c.w.Standalone(c.p)
	must := func(err error) {
		if err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	c.w.idp.User("boss", id.ScopeAll, id.AccessGroup{ID: "grp", Scopes: id.ScopeAll})
	for k := 0; k < n; k++ {
		c.w.idp.User(fmt.Sprint("owner", k), id.ScopeAll, id.AccessGroup{ID: fmt.Sprint("own", k), Scopes: id.ScopeAll})
		o, err := c.d.Encrypt(c.ctx, c.tok(k), obj(fmt.Sprint("contents ", k), fmt.Sprint("meta ", k)), "grp", "shared1", fmt.Sprint("owner", k))
		must(err)
		t, err := c.d.CreateToken(c.ctx, []byte(fmt.Sprint("token ", k)))
		must(err)
		u, pw, err := c.sa.NewUser(c.ctx, id.Scope(1<<k))
		must(err)
		ut, _, err := c.sa.LoginUser(c.ctx, u, pw)
		must(err)
		g, err := c.sa.NewGroup(c.ctx, ut, id.Scope(8<<k))
		must(err)
		g2, err := c.sa.NewGroup(c.ctx, ut, id.ScopeIndex)
		must(err)
		tu, tp, err := c.sa.NewUser(c.ctx)
		must(err)
		must(c.sa.AddUserToGroups(c.ctx, ut, tu, g))
		kw := fmt.Sprint("kw", k)
		must(c.ix.Add(c.ctx, c.tok(k), kw, fmt.Sprint("one ", k)))
		must(c.ix.Add(c.ctx, c.tok(k), kw, "two"))
		c.oids, c.seal, c.uids, c.pws, c.toks = append(c.oids, o), append(c.seal, t), append(c.uids, u), append(c.pws, pw), append(c.toks, ut)
		c.tuid, c.tpw, c.gids, c.gid2 = append(c.tuid, tu), append(c.tpw, tp), append(c.gids, g), append(c.gid2, g2)
	}
	spare := func(s string) []byte { return append(make([]byte, 0, 200), s...) }
	c.obj = &data.Object{Plaintext: spare("shared contents"), AssociatedData: spare("shared meta")}
	c.groups = append(make([]string, 0, 8), "shared1", "shared2")
	c.scopes = append(make([]id.Scope, 0, 8), id.ScopeUpdate, id.ScopeDelete)
	c.text = spare("shared token text")
	return c
}

// cx is the context of the slot's caller.
func (c *cWorld) cx(k int) context.Context {
	if c.ctxs[k] != nil {
		return c.ctxs[k]
	}
	return c.ctx
}

// tok is the token of the slot's caller.
func (c *cWorld) tok(k int) string {
	if c.same {
		return "t:boss"
	}
	return []string{"t:owner0", "t:owner1", "t:owner2"}[k]
}

type cOp struct {
	name string
	run  func(c *cWorld, k int, r *cRes)
}

var cKws = []string{"kw0", "kw1", "kw2"}
var cNewKws = []string{"new0", "new1", "new2"}

var cOps = []cOp{
	{"Encrypt", func(c *cWorld, k int, r *cRes) {
		o, err := c.d.Encrypt(c.cx(k), c.tok(k), c.obj, c.groups...)
		r.oid, r.isObj, r.err = o, err == nil, errName(err)
	}},
	{"EncryptOwn", func(c *cWorld, k int, r *cRes) {
		o, err := c.d.Encrypt(c.cx(k), c.tok(k), &data.Object{Plaintext: []byte{byte(k)}}, c.groups[:1]...)
		r.oid, r.isObj, r.err = o, err == nil, errName(err)
	}},
	{"Update", func(c *cWorld, k int, r *cRes) { r.err = errName(c.d.Update(c.cx(k), c.tok(k), c.oids[k], c.obj)) }},
	{"Decrypt", func(c *cWorld, k int, r *cRes) {
		o, err := c.d.Decrypt(c.cx(k), c.tok(k), c.oids[k])
		r.err, r.val = errName(err), fmt.Sprintf("%q %q", o.Plaintext, o.AssociatedData)
	}},
	{"Delete", func(c *cWorld, k int, r *cRes) { r.err = errName(c.d.Delete(c.cx(k), c.tok(k), c.oids[k])) }},
	{"GetAccessGroups", func(c *cWorld, k int, r *cRes) {
		m, err := c.d.GetAccessGroups(c.cx(k), c.tok(k), c.oids[k])
		r.err, r.val = errName(err), setOf(m)
	}},
	{"AddGroups", func(c *cWorld, k int, r *cRes) {
		r.err = errName(c.d.AddGroupsToAccess(c.cx(k), c.tok(k), c.oids[k], c.groups...))
	}},
	{"RemoveGroups", func(c *cWorld, k int, r *cRes) {
		r.err = errName(c.d.RemoveGroupsFromAccess(c.cx(k), c.tok(k), c.oids[k], c.groups...))
	}},
	{"AuthorizeIdentity", func(c *cWorld, k int, r *cRes) { r.err = errName(c.d.AuthorizeIdentity(c.cx(k), c.tok(k), c.oids[k])) }},
	{"Denied", func(c *cWorld, k int, r *cRes) {
		o, err := c.d.Decrypt(c.cx(k), "t:nobody", c.oids[k])
		r.err, r.val = errName(err), fmt.Sprintf("%q %q", o.Plaintext, o.AssociatedData)
	}},
	{"CreateToken", func(c *cWorld, k int, r *cRes) {
		t, err := c.d.CreateToken(c.cx(k), c.text)
		r.seal, r.isTok, r.err = t, err == nil, errName(err)
	}},
	{"GetTokenContents", func(c *cWorld, k int, r *cRes) {
		b, err := c.d.GetTokenContents(c.cx(k), &c.seal[k])
		r.err, r.val = errName(err), fmt.Sprintf("%q", b)
	}},
	{"SharedToken", func(c *cWorld, k int, r *cRes) {
		b, err := c.d.GetTokenContents(c.cx(k), &c.seal[0])
		s, err2 := c.seal[0].String()
		r.err, r.val = errName(err)+errName(err2), fmt.Sprintf("%q", b)
		t, err := data.TokenFromString(s)
		r.seal, r.isTok = t, err == nil
	}},
	{"IndexAdd", func(c *cWorld, k int, r *cRes) { r.err = idxErr(c.ix.Add(c.cx(k), c.tok(k), cKws[k], "three")) }},
	{"IndexAddNew", func(c *cWorld, k int, r *cRes) { r.err = idxErr(c.ix.Add(c.cx(k), c.tok(k), cNewKws[k], "first")) }},
	{"IndexSearch", func(c *cWorld, k int, r *cRes) {
		l, err := c.ix.Search(c.cx(k), c.tok(k), cKws[k])
		r.err, r.val = idxErr(err), fmt.Sprintf("%q", l)
	}},
	{"IndexDenied", func(c *cWorld, k int, r *cRes) {
		l, err := c.ix.Search(c.cx(k), "t:nobody", cKws[k])
		r.err, r.val = idxErr(err), fmt.Sprintf("%q", l)
	}},
	{"IndexDelete", func(c *cWorld, k int, r *cRes) { r.err = idxErr(c.ix.Delete(c.cx(k), c.tok(k), cKws[k], "two")) }},
	{"IndexDeleteFirst", func(c *cWorld, k int, r *cRes) {
		r.err = idxErr(c.ix.Delete(c.cx(k), c.tok(k), cKws[k], []string{"one 0", "one 1", "one 2"}[k]))
	}},
	{"NewUser", func(c *cWorld, k int, r *cRes) {
		u, p, err := c.sa.NewUser(c.cx(k), c.scopes...)
		r.uid, r.pw, r.err = u, p, idErr(err)
	}},
	{"LoginUser", func(c *cWorld, k int, r *cRes) {
		t, _, err := c.sa.LoginUser(c.cx(k), c.uids[k], c.pws[k])
		r.tok, r.err = t, idErr(err)
	}},
	{"LoginWrong", func(c *cWorld, k int, r *cRes) {
		t, _, err := c.sa.LoginUser(c.cx(k), c.uids[k], c.pws[(k+1)%len(c.pws)])
		r.tok, r.err = t, idErr(err)
	}},
	{"ChangePassword", func(c *cWorld, k int, r *cRes) {
		p, err := c.sa.ChangeUserPassword(c.cx(k), c.tuid[k], c.tpw[k])
		r.pw, r.err = p, idErr(err)
	}},
	{"NewGroup", func(c *cWorld, k int, r *cRes) {
		g, err := c.sa.NewGroup(c.cx(k), c.toks[k], c.scopes...)
		r.gid, r.err = g, idErr(err)
	}},
	{"AddUserToGroups", func(c *cWorld, k int, r *cRes) {
		r.err = idErr(c.sa.AddUserToGroups(c.cx(k), c.toks[k], c.tuid[k], c.gid2[k]))
	}},
	{"RemoveUserFromGroups", func(c *cWorld, k int, r *cRes) {
		r.err = idErr(c.sa.RemoveUserFromGroups(c.cx(k), c.toks[k], c.tuid[k], c.gids[k]))
	}},
	{"GetIdentity", func(c *cWorld, k int, r *cRes) {
		i, err := c.sa.GetIdentity(c.cx(k), c.toks[k])
		r.err, r.val = idErr(err), identStr(i)
	}},
	{"DeleteUser", func(c *cWorld, k int, r *cRes) { r.err = idErr(c.sa.DeleteUser(c.cx(k), c.toks[k], c.tuid[k])) }},
}

// stored copies storage into a reference store.
func (c *cWorld) stored() *Store {
	if c.st != nil {
		return c.st
	}
	s := NewStore(c.x)
	sp := c.p.(*spyProvider)
	for k := range c.keys {
		if v, err := sp.Provider.Get(c.ctx, []byte(k.id), k.kind); err == nil {
			s.m[k] = v
		}
	}
	return s
}

// outcome describes results and storage with random values replaced by their origin.
func (c *cWorld) outcome(rs []cRes) string {
	if c.st != nil {
		c.st.YieldOn = false
	}
	x := c.x
	var names []string
	add := func(v, n string) {
		if v != "" {
			names = append(names, v, n)
		}
	}
	for k := range c.uids {
		add(c.uids[k], fmt.Sprint("user", k))
		add(c.tuid[k], fmt.Sprint("target", k))
		add(c.gids[k], fmt.Sprint("group", k))
		add(c.gid2[k], fmt.Sprint("second", k))
	}
	for k, r := range rs {
		add(r.uid, fmt.Sprint("newuser", k))
		add(r.gid, fmt.Sprint("newgroup", k))
	}
	rep := strings.NewReplacer(names...)
	norm := func(s string) string {
		f := strings.FieldsFunc(rep.Replace(s), func(r rune) bool { return strings.ContainsRune(` [],{}`, r) })
		sort.Strings(f)
		return strings.Join(f, " ")
	}
	st := c.stored()
	var b strings.Builder
	object := func(oid uuid.UUID) string {
		pt, ad, g, err := refStored(st, oid)
		if err != nil {
			return fmt.Sprintf("(%v; %s)", err, setOf(g))
		}
		return fmt.Sprintf("(%q %q %s)", pt, ad, setOf(g))
	}
	user := func(uid string, pws ...string) string {
		u := readUser(x, st, uid)
		s := fmt.Sprintf("(%v %d %s", u.ok, u.scopes, norm(strings.ReplaceAll(u.groups, `"`, "")))
		for i, p := range pws {
			if _, _, err := c.sa.LoginUser(c.ctx, uid, p); err == nil {
				s += fmt.Sprint(" opens with ", i)
			}
		}
		return s + ")"
	}
	for k, r := range rs {
		fmt.Fprintf(&b, "%d: %s", k, r.err)
		if r.val != "" {
			b.WriteString(" " + norm(r.val))
		}
		if r.isObj {
			b.WriteString(" " + object(r.oid))
		}
		if r.isTok {
			p, err := c.d.GetTokenContents(c.ctx, &r.seal)
			fmt.Fprintf(&b, " token %q %v", p, err)
		}
		if r.tok != "" {
			i, err := c.sa.GetIdentity(c.ctx, r.tok)
			fmt.Fprintf(&b, " token of %s %s", norm(identStr(i)), idErr(err))
		}
		if r.uid != "" {
			b.WriteString(" " + user(r.uid, r.pw))
		}
		b.WriteString("; ")
	}
	for k := range c.oids {
		var np string
		if k < len(rs) && rs[k].uid == "" {
			np = rs[k].pw
		}
		l, err := c.ix.Search(c.ctx, c.tok(k), cKws[k])
		l2, err2 := c.ix.Search(c.ctx, c.tok(k), cNewKws[k])
		fmt.Fprintf(&b, "slot %d: object %s user %s target %s index %q %s %q %s; ", k, object(c.oids[k]), user(c.uids[k], c.pws[k]), user(c.tuid[k], c.tpw[k], np), l, idxErr(err), l2, idxErr(err2))
	}
	fmt.Fprintf(&b, "%d records", len(st.m))
	return b.String()
}

// what a scenario of C01 ranges over
const (
	cBoth   = iota // different callers, and the same caller
	cOther         // different callers
	cChange        // different callers, operations that change storage
)

// cChanging are the operations that change storage, one for each way of doing so.
var cChanging = []string{"Encrypt", "Update", "Delete", "AddGroups", "RemoveGroups", "CreateToken", "IndexAdd", "IndexAddNew", "IndexDelete", "IndexDeleteFirst", "NewUser", "ChangePassword", "NewGroup", "AddUserToGroups", "RemoveUserFromGroups", "DeleteUser"}

func cNamed(names []string) (is []int) {
	for _, n := range names {
		for i := range cOps {
			if cOps[i].name == n {
				is = append(is, i)
			}
		}
	}
	return is
}

var c01cache = map[string]map[string]bool{}

func c01Run(x *X, prov string, n, over int) {
	all := make([]int, len(cOps))
	for i := range all {
		all[i] = i
	}
	if over == cChange {
		all = cNamed(cChanging)
	}
	c01Among(x, prov, n, all, over == cBoth)
}

// c01Among runs n operations out of all, each in a slot of its own.
func c01Among(x *X, prov string, n int, all []int, both bool) {
	var ops []int
	for l := 0; len(ops) < n; {
		l += x.Pick(len(all) - l)
		ops = append(ops, all[l])
	}
	same := both && x.Bool()
	k := fmt.Sprint(ops, same)
	want := c01cache[k]
	if want == nil {
		want = map[string]bool{}
		for _, p := range permutations(n) {
			c := newC(x, "ref", n, same, false)
			rs := make([]cRes, n)
			for _, i := range p {
				cOps[ops[i]].run(c, i, &rs[i])
			}
			want[c.outcome(rs)] = true
		}
		c01cache[k] = want
	}
	c := newC(x, prov, n, same, true)
	if c.st != nil {
		c.st.YieldOn = true
	}
	rs := make([]cRes, n)
	var fs []func()
	var names []string
	for i := range ops {
		i := i
		names = append(names, cOps[ops[i]].name)
		fs = append(fs, func() {
			cOps[ops[i]].run(c, i, &rs[i])
			x.Op()
		})
	}
	x.Par(fs...)
	got := c.outcome(rs)
	x.Logf("%s", strings.Join(names, " || "))
	x.State(ops, same, got)
	x.Out("%s", strings.Join(names, "||"))
	if !want[got] {
		x.Failf("influence:"+strings.Join(names, "+"), "%s on different objects (same caller: %v) gave\n%s\nsequentially they give\n%s", strings.Join(names, " || "), same, got, strings.Join(sortedKeys(want), "\n"))
	}
	if string(c.obj.Plaintext) != "shared contents" || string(c.obj.AssociatedData) != "shared meta" || strings.Join(c.groups, ",") != "shared1,shared2" || string(c.text) != "shared token text" {
		x.Failf("arguments", "%s changed the shared arguments", strings.Join(names, " || "))
	}
}

// ---- cryptographic instances --------------------------------------------------------------

type cPrim struct {
	name string
	run  func(e *cPrims, k int) string // "" if right
}

type cPrims struct {
	c   crypto.Cryptor
	kwp *crypto.KWP
	tag crypto.Tagger
	ph  *crypto.PasswordHasher
	wr  [2][]byte
	wk  [2][]byte
	ct  [2][]byte
	tg  [2][]byte
	aad []byte
	pw  [2]string
	sh  [2][]byte
	idn id.Identity
	st  key.Static
	acc data.SealedAccess
	rnd crypto.NativeRandom
}

func newPrims(x *X) *cPrims {
	e := &cPrims{aad: []byte("aad"), ph: crypto.NewPasswordHasher(), st: key.NewStatic(testKeys())}
	must := func(err error) {
		if err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	var err error
	e.c, err = crypto.NewAESCryptor(seq(32, 1))
	must(err)
	e.kwp, err = crypto.NewKWP(seq(32, 2))
	must(err)
	e.tag, err = crypto.NewKMAC256Tagger(seq(32, 3))
	must(err)
	for k := 0; k < 2; k++ {
		e.wr[k], err = e.kwp.Wrap(seq(32, byte(k)))
		must(err)
		e.wk[k], e.ct[k], err = e.c.Encrypt(fmt.Sprint("text ", k), e.aad)
		must(err)
		e.tg[k], err = e.tag.Tag(fmt.Sprint("data ", k))
		must(err)
		e.pw[k], e.sh[k], err = e.ph.GeneratePassword()
		must(err)
	}
	e.idn = id.Identity{ID: "me", Scopes: 1, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: 2}}}
	a := data.NewAccess([]byte("dek"))
	a.AddGroups("a", "b")
	e.acc, err = a.Seal(uuid.UUID{1}, &e.c)
	must(err)
	return e
}

var cPrimOps = []cPrim{
	{"Cryptor.Encrypt", func(e *cPrims, k int) string {
		wk, ct, err := e.c.Encrypt([]string{"mine", "yours"}[k], e.aad)
		if err != nil {
			return err.Error()
		}
		var s string
		if err := e.c.Decrypt(&s, e.aad, wk, ct); err != nil || s != []string{"mine", "yours"}[k] {
			return fmt.Sprintf("decrypts to %q, %v", s, err)
		}
		return ""
	}},
	{"Cryptor.Decrypt", func(e *cPrims, k int) string {
		var s string
		if err := e.c.Decrypt(&s, e.aad, e.wk[k], e.ct[k]); err != nil || s != []string{"text 0", "text 1"}[k] {
			return fmt.Sprintf("decrypts to %q, %v", s, err)
		}
		return ""
	}},
	{"Cryptor.Decrypt shared", func(e *cPrims, k int) string {
		var s string
		if err := e.c.Decrypt(&s, e.aad, e.wk[0], e.ct[0]); err != nil || s != "text 0" {
			return fmt.Sprintf("decrypts to %q, %v", s, err)
		}
		return ""
	}},
	{"Cryptor.Decrypt wrong", func(e *cPrims, k int) string {
		var s string
		if err := e.c.Decrypt(&s, e.aad, e.wk[k], e.ct[1-k]); err == nil || s != "" {
			return fmt.Sprintf("decrypts to %q", s)
		}
		return ""
	}},
	{"KWP.Wrap", func(e *cPrims, k int) string {
		w, err := e.kwp.Wrap(seq(32, byte(k)))
		if err != nil || !bytes.Equal(w, e.wr[k]) {
			return fmt.Sprintf("%x %v", w, err)
		}
		return ""
	}},
	{"KWP.Unwrap", func(e *cPrims, k int) string {
		w, err := e.kwp.Unwrap(e.wr[k])
		if err != nil || !bytes.Equal(w, seq(32, byte(k))) {
			return fmt.Sprintf("%x %v", w, err)
		}
		return ""
	}},
	{"Tagger.Tag", func(e *cPrims, k int) string {
		t, err := e.tag.Tag([]string{"data 0", "data 1"}[k])
		if err != nil || !bytes.Equal(t, e.tg[k]) {
			return fmt.Sprintf("%x %v", t, err)
		}
		return ""
	}},
	{"PasswordHasher", func(e *cPrims, k int) string {
		p, h, err := e.ph.GeneratePassword()
		if err != nil || !e.ph.Compare(p, h) {
			return fmt.Sprintf("generated password does not match, %v", err)
		}
		return ""
	}},
	{"Compare", func(e *cPrims, k int) string {
		if !e.ph.Compare(e.pw[k], e.sh[k]) || e.ph.Compare(e.pw[k], e.sh[1-k]) {
			return "comparison is wrong"
		}
		return ""
	}},
	{"Identity", func(e *cPrims, k int) string {
		if setOf(e.idn.GetIDs()) != `{"g","me"}` || e.idn.GetIDScope("g") != 2 || e.idn.GetIDScope("me") != 1 {
			return "identity is wrong"
		}
		return ""
	}},
	{"Static.GetKeys", func(e *cPrims, k int) string {
		g, err := e.st.GetKeys(context.Background())
		if err != nil || !bytes.Equal(g.KEK, testKeys().KEK) || !bytes.Equal(g.IEK, testKeys().IEK) {
			return "keys are wrong"
		}
		return ""
	}},
	{"SealedAccess.Unseal", func(e *cPrims, k int) string {
		a, err := e.acc.Unseal(&e.c)
		if err != nil || setOf(a.Groups) != `{"a","b"}` {
			return fmt.Sprint("unsealed ", a, err)
		}
		a.AddGroups("c")
		return ""
	}},
	{"KMAC", func(e *cPrims, k int) string {
		h := crypto.NewKMAC256(seq(32, byte(k)), 32, e.aad)
		h.Write([]byte("x"))
		a := h.Sum(nil)
		h.Reset()
		h.Write([]byte("x"))
		if !bytes.Equal(a, h.Sum(nil)) {
			return "not repeatable"
		}
		return ""
	}},
	{"KMACKDF", func(e *cPrims, k int) string {
		if !bytes.Equal(crypto.KMACKDF(32, e.wr[0], e.aad, e.aad), crypto.KMACKDF(32, e.wr[0], e.aad, e.aad)) {
			return "not repeatable"
		}
		return ""
	}},
	{"GetBytes", func(e *cPrims, k int) string {
		b, err := e.rnd.GetBytes(32)
		c, err2 := e.rnd.GetBytes(32)
		if err != nil || err2 != nil || len(b) != 32 || bytes.Equal(b, c) {
			return "random bytes are wrong"
		}
		return ""
	}},
}

func c01Primitives(x *X) {
	i := x.Pick(len(cPrimOps))
	j := i + x.Pick(len(cPrimOps)-i)
	cPrimPair(x, i, j)
}

func cPrimPair(x *X, i, j int) {
	e := newPrims(x)
	var bad [2]string
	ops := [2]*cPrim{&cPrimOps[i], &cPrimOps[j]}
	x.Par(func() { bad[0] = ops[0].run(e, 0); x.Op() }, func() { bad[1] = ops[1].run(e, 1); x.Op() })
	x.State(i, j)
	x.Out("%s||%s", ops[0].name, ops[1].name)
	for k := range bad {
		if bad[k] != "" {
			x.Failf("influence:"+ops[k].name, "%s while %s ran: %s", ops[k].name, ops[1-k].name, bad[k])
		}
	}
}

// ---- storage providers -------------------------------------------------------------------

// cProvider runs pairs of calls of a bundled provider on records of their own. The identifiers and the
// contents lie next to each other in arrays that the caller goes on using.
func cProvider(x *X, judge bool) {
	prov := []string{"mem", "bolt"}[x.Pick(2)]
	i := x.Pick(5)
	j := i + x.Pick(5-i)
	layout := x.Pick(3) // apart, first before second, second before first
	same := !judge && x.Bool()
	p := makeProvider(x, prov)
	ctx := context.Background()
	kind := [2]io.DataType{io.DataTypeSealedObject, io.DataTypeSealedAccess}
	if x.Bool() {
		kind[1] = kind[0]
	}
	ids, vals := [2][]byte{[]byte("record A"), []byte("record B")}, [2][]byte{[]byte("content A"), []byte("content B")}
	if layout > 0 {
		a, b := layout-1, 2-layout
		bi, bv := make([]byte, 64), make([]byte, 64)
		copy(bi[copy(bi, ids[a]):], ids[b])
		copy(bv[copy(bv, vals[a]):], vals[b])
		ids[a], ids[b] = bi[:8], bi[8:16]
		vals[a], vals[b] = bv[:9], bv[9:18]
	}
	if same {
		ids[1], vals[1], kind[1] = ids[0], vals[0], kind[0]
	}
	for k, o := range [2]int{i, j} {
		if o > 0 && (k == 0 || !same) {
			if err := p.Put(ctx, []byte([]string{"record A", "record B"}[k]), kind[k], []byte{'o', 'l', 'd', byte('A' + k)}); err != nil {
				x.Failf("setup", "%v", err)
			}
		}
	}
	var errs [2]error
	var got [2][]byte
	run := func(k, o int) {
		switch o {
		case 0:
			errs[k] = p.Put(ctx, ids[k], kind[k], vals[k])
		case 1:
			got[k], errs[k] = p.Get(ctx, ids[k], kind[k])
		case 2:
			errs[k] = p.Update(ctx, ids[k], kind[k], vals[k])
		case 3:
			errs[k] = p.Delete(ctx, ids[k], kind[k])
		case 4: // reads and changes what it was given
			var b []byte
			if b, errs[k] = p.Get(ctx, ids[k], kind[k]); errs[k] == nil && len(b) > 0 {
				got[k] = append([]byte(nil), b...)
				for n := range b {
					b[n] = 'X'
				}
			}
		}
		x.Op()
	}
	x.Par(func() { run(0, i) }, func() { run(1, j) })
	names := []string{"Put", "Get", "Update", "Delete", "Get and change"}
	x.Logf("%s: %s || %s (layout %d, same type %v)", prov, names[i], names[j], layout, kind[0] == kind[1])
	x.State(prov, i, j, layout, kind[0] == kind[1])
	x.Out("%s %s||%s", prov, names[i], names[j])
	if !judge {
		return
	}
	for k, o := range [2]int{i, j} {
		if errs[k] != nil {
			x.Failf("provider:"+prov, "%s: %s of record %c while %s ran: %v", prov, names[o], 'A'+k, names[[2]int{j, i}[k]], errs[k])
		}
		old := string([]byte{'o', 'l', 'd', byte('A' + k)})
		if (o == 1 || o == 4) && string(got[k]) != old {
			x.Failf("provider:"+prov, "%s: %s of record %c gave %q", prov, names[o], 'A'+k, got[k])
		}
		b, err := p.Get(ctx, []byte([]string{"record A", "record B"}[k]), kind[k])
		want := old
		if o == 0 || o == 2 {
			want = []string{"content A", "content B"}[k]
		}
		if o == 3 {
			if err == nil {
				x.Failf("provider:"+prov, "%s: record %c is still there after Delete || %s", prov, 'A'+k, names[[2]int{j, i}[k]])
			}
		} else if err != nil || string(b) != want {
			x.Failf("provider:"+prov, "%s: after %s || %s record %c is %q, %v, not %q", prov, names[i], names[j], 'A'+k, b, err, want)
		}
	}
	if string(ids[0]) != "record A" || string(ids[1]) != "record B" || string(vals[0]) != "content A" || string(vals[1]) != "content B" {
		x.Failf("arguments", "%s: %s || %s changed the arguments: %q %q", prov, names[i], names[j], ids, vals)
	}
}

// ---- C03 -------------------------------------------------------------------------------

func c03Run(x *X, prov string, full bool) {
	i := x.Pick(len(cOps))
	j := i + x.Pick(len(cOps)-i)
	slot := x.Pick(2) // the same object, user and keyword, or different ones
	lg, same := 0, false
	if full {
		lg, same = x.Pick(3), x.Bool()
	}
	c := newC(x, prov, 2, same, false)
	s := newSink()
	switch lg {
	case 1:
		l := plainLogger(s, lOne)
		c.ctx = l.WithContext(c.ctx)
	case 2:
		l := plainLogger(s, lOne).Level(zerolog.Disabled)
		zerolog.DefaultContextLogger = &l
		x.Defer(func() { zerolog.DefaultContextLogger = nil })
	}
	rs := make([]cRes, 2)
	x.Par(func() { cOps[i].run(c, 0, &rs[0]); x.Op() }, func() { cOps[j].run(c, slot, &rs[1]); x.Op() })
	x.Logf("%s || %s (slots 0 and %d, logger %d)", cOps[i].name, cOps[j].name, slot, lg)
	x.State(i, j, slot, lg, rs[0].err, rs[1].err)
	x.Out("%s||%s", cOps[i].name, cOps[j].name)
}

func c03Primitives(x *X) {
	i := x.Pick(len(cPrimOps))
	j := i + x.Pick(len(cPrimOps)-i)
	cPrimPair(x, i, j)
}

// c03Construct creates instances while others are in use, from the same keys and providers.
func c03Construct(x *X) {
	i := x.Pick(4)
	j := x.Pick(4 + len(cOps))
	c := newC(x, "mem", 2, false, false)
	kp := key.NewStatic(testKeys())
	shared := &sharingKeys{testKeys()}
	cfg := saConfig()
	var kpr key.Provider = &kp
	if x.Bool() {
		kpr = shared
	}
	var errs [2]error
	build := func(k, what int) {
		switch what {
		case 0:
			_, errs[k] = d1.New(c.ctx, kpr, c.p, c.w.idp)
		case 1:
			_, errs[k] = index.NewSecureIndex(c.ctx, kpr, c.p, c.w.idp)
		case 2:
			_, errs[k] = id.NewStandalone(cfg, c.p)
		case 3:
			d, err := d1.New(c.ctx, kpr, c.p, c.w.idp)
			errs[k] = err
			if err == nil {
				_, errs[k] = d.Decrypt(c.ctx, c.tok(k), c.oids[k])
			}
		}
	}
	var r cRes
	x.Par(func() { build(0, i); x.Op() }, func() {
		if j < 4 {
			build(1, j)
		} else {
			cOps[j-4].run(c, 1, &r)
		}
		x.Op()
	})
	x.State(i, j)
	for k := range errs {
		if errs[k] != nil {
			x.Failf("construct", "construction %d: %v", k, errs[k])
		}
	}
}
