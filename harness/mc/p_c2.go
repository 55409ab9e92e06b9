package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
)

func init() {
	register(&Prop{
		ID: "C02", Level: "model_checking", QuickS: 400,
		Rule: "All pairs, all two-operation programs against one operation, and all triples of operations by three users on one object, through one instance and through two, under all interleavings of their storage calls (pairs; up to the preemption bound for programs and triples), on the reference store and both bundled providers, and pairs also at statement granularity; " +
			"results, contents and access list are compared with all sequential orders. Distinct = distinct (programs, outcome) states.",
		Scenarios: func(th bool) []*Scenario {
			t := func(q, h int) int {
				if th {
					return h
				}
				return q
			}
			ss := []*Scenario{
				{Name: "sequential", Body: func(x *X) { c02Run(x, "ref", []int{3}) }, Shard: 2},
				{Name: "pairs", Body: func(x *X) { c02Run(x, "ref", []int{1, 1}) }, Pre: 20, Coarse: true, Shard: 2},
				{Name: "pairs-fine", Body: func(x *X) { c02Run(x, "ref", []int{1, 1}) }, Pre: t(1, 2), Fine: true, Site: 1, Shard: 2},
				{Name: "mem", Body: func(x *X) { c02Run(x, "mem", []int{1, 1}) }, Pre: t(3, 4), Coarse: true, Shard: 2},
				{Name: "bolt", Body: func(x *X) { c02Run(x, "bolt", []int{1, 1}) }, Pre: t(2, 3), Coarse: true, Shard: 2},
				{Name: "programs", Body: func(x *X) { c02Run(x, "ref", []int{2, 1}) }, Pre: 20, Coarse: true, Shard: 3},
				{Name: "triples", Body: func(x *X) { c02Run(x, "ref", []int{1, 1, 1}) }, Pre: t(4, 20), Coarse: true, Shard: 3},
			}
			ss = append(ss, &Scenario{Name: "programs2", Body: func(x *X) { c02Run(x, "ref", []int{2, 2}) }, Pre: t(1, 4), Coarse: true, Shard: 4})
			if th {
				ss = append(ss, &Scenario{Name: "programs3", Body: func(x *X) { c02Run(x, "ref", []int{2, 1, 1}) }, Pre: 2, Coarse: true, Shard: 4})
			}
			return ss
		},
	})
}

// The abstract object: what one storage call of an operation reads or writes. It decides which outcomes
// operations that do not overlap have, and which outcomes come from the storage calls of operations that
// do (listed as known findings when no order of the operations explains them).
type c2rec struct {
	acc, obj   bool
	list       string // sorted, comma separated
	akey, okey int
	text       string
}

type c2op struct {
	name  string
	kind  string // update, decrypt, delete, list, add, remove, authorize
	user  string // owner, member (in grp), other
	arg   string // group added or removed, contents written
	write bool
}

var c2ops = []c2op{
	{"Update(owner)", "update", "owner", "by owner", true},
	{"Update(member)", "update", "member", "by member", true},
	{"Decrypt(owner)", "decrypt", "owner", "", false},
	{"Decrypt(member)", "decrypt", "member", "", false},
	{"Delete(owner)", "delete", "owner", "", true},
	{"Delete(other)", "delete", "other", "", true},
	{"List(owner)", "list", "owner", "", false},
	{"Add x(owner)", "add", "owner", "x", true},
	{"Add y(member)", "add", "member", "y", true},
	{"Remove grp(owner)", "remove", "owner", "grp", true},
	{"Remove other(member)", "remove", "member", "other", true},
	{"Remove owner(other)", "remove", "other", "owner", true},
	{"Authorize(member)", "authorize", "member", "", false},
	{"Authorize(other)", "authorize", "other", "", false},
}

func c2member(list, user string) bool {
	for _, g := range strings.Split(list, ",") {
		if g == user || user == "member" && g == "grp" {
			return true
		}
	}
	return false
}

func c2list(list, kind, g string) string {
	m := map[string]bool{}
	for _, e := range strings.Split(list, ",") {
		m[e] = true
	}
	if kind == "add" {
		m[g] = true
	} else {
		delete(m, g)
	}
	return strings.Join(sortedKeys(m), ",")
}

type c2thread struct {
	op, pc int
	list   string
	akey   int
}

// c2step performs the next storage call of operation o. done: the operation has ended with result res.
func c2step(s *c2rec, o *c2op, num int, t *c2thread) (res string, done bool) {
	if t.pc == 0 {
		if !s.acc {
			if o.kind == "delete" {
				return "ok", true
			}
			return "not-found", true
		}
		if !c2member(s.list, o.user) {
			return "denied", true
		}
		t.list, t.akey, t.pc = s.list, s.akey, 1
		switch o.kind {
		case "authorize":
			return "ok", true
		case "list":
			return "ok " + s.list, true
		}
		return "", false
	}
	t.pc++
	switch o.kind {
	case "decrypt":
		if !s.obj {
			return "not-found", true
		}
		if s.okey != t.akey {
			return "fails", true
		}
		return "ok " + s.text, true
	case "delete":
		if t.pc == 2 {
			s.obj, s.text, s.okey = false, "", 0
			return "", false
		}
		s.acc, s.list, s.akey = false, "", 0
		return "ok", true
	case "update":
		if t.pc == 2 {
			if !s.obj {
				return "not-found", true
			}
			s.text, s.okey = o.arg, num
			return "", false
		}
		if !s.acc {
			return "not-found", true
		}
		s.list, s.akey = t.list, num
		return "ok", true
	}
	if !s.acc {
		return "not-found", true
	}
	s.list, s.akey = c2list(t.list, o.kind, o.arg), t.akey
	return "ok", true
}

func (s *c2rec) final() string {
	switch {
	case !s.acc && !s.obj:
		return "absent"
	case s.acc && s.obj && s.akey == s.okey:
		return fmt.Sprintf("%q {%s}", s.text, s.list)
	case s.acc && s.obj:
		return fmt.Sprintf("cannot be decrypted {%s}", s.list)
	}
	return fmt.Sprintf("incomplete (access record %v, object record %v)", s.acc, s.obj)
}

type c2outs struct{ serial, all map[string]bool }

var c2cache = map[string]*c2outs{}

// c2model gives the outcomes of the programs under all orders of their operations and of their storage calls.
func c2model(progs [][]int) *c2outs {
	k := fmt.Sprint(progs)
	if o := c2cache[k]; o != nil {
		return o
	}
	o := &c2outs{map[string]bool{}, map[string]bool{}}
	seen := map[string]bool{}
	var walk func(s c2rec, ts []c2thread, res []string, atomic bool)
	walk = func(s c2rec, ts []c2thread, res []string, atomic bool) {
		sk := fmt.Sprint(s, ts, res, atomic)
		if seen[sk] {
			return
		}
		seen[sk] = true
		end := true
		for i := range ts {
			if ts[i].op >= len(progs[i]) {
				continue
			}
			end = false
			s2, ts2, res2 := s, append([]c2thread(nil), ts...), append([]string(nil), res...)
			for {
				r, done := c2step(&s2, &c2ops[progs[i][ts2[i].op]], 1+i*10+ts2[i].op, &ts2[i])
				if done {
					res2[i] += r + "; "
					ts2[i] = c2thread{op: ts2[i].op + 1}
				}
				if done || !atomic {
					break
				}
			}
			walk(s2, ts2, res2, atomic)
		}
		if end {
			out := strings.Join(res, "| ") + "=> " + s.final()
			if atomic {
				o.serial[out] = true
			} else {
				o.all[out] = true
			}
		}
	}
	for _, a := range []bool{true, false} {
		walk(c2rec{acc: true, obj: true, list: "grp,other,owner", text: "first"}, make([]c2thread, len(progs)), make([]string, len(progs)), a)
	}
	c2cache[k] = o
	return o
}

func c02Run(x *X, prov string, shape []int) {
	two := len(shape) > 1 && x.Bool()
	var progs [][]int
	var names, writers []string
	nw, last := 0, 0
	for i, n := range shape {
		var p []int
		for j := 0; j < n; j++ {
			var o int
			if n == 1 && i > 0 && shape[i-1] == 1 { // order of equal threads does not matter
				o = last + x.Pick(len(c2ops)-last)
			} else {
				o = x.Pick(len(c2ops))
			}
			last = o
			p = append(p, o)
			names = append(names, c2ops[o].name)
			if c2ops[o].write {
				nw++
				writers = append(writers, c2ops[o].kind)
			}
		}
		progs = append(progs, p)
	}
	if len(shape) > 1 && nw == 0 {
		return
	}
	w := NewWorld(x)
	w.idp.Calls = make([]IDCall, 0, 256)
	w.idp.User("owner", id.ScopeAll)
	w.idp.User("member", id.ScopeAll, id.AccessGroup{ID: "grp", Scopes: id.ScopeAll})
	w.idp.User("other", id.ScopeAll)
	p := makeProvider(x, prov)
	st, _ := p.(*Store)
	ds := []*d1.D1{w.Instance(p)}
	ds = append(ds, ds[0], ds[0])
	if two {
		ds[1] = w.Instance(p)
	}
	ctx := context.Background()
	oid, err := ds[0].Encrypt(ctx, "t:owner", obj("first", "meta"), "grp", "other")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	if st != nil {
		st.Quiet, st.YieldOn = true, true
	}
	res := make([]string, len(shape))
	var fs []func()
	for i := range shape {
		i := i
		fs = append(fs, func() {
			for _, o := range progs[i] {
				res[i] += c2real(ctx, ds[i], oid, &c2ops[o]) + "; "
				x.Op()
			}
		})
	}
	if len(fs) == 1 {
		fs[0]()
	} else {
		x.Par(fs...)
	}
	if st == nil {
		st = NewStore(x)
		for _, k := range []io.DataType{io.DataTypeSealedObject, io.DataTypeSealedAccess} {
			if b, err := p.Get(ctx, oid.Bytes(), k); err == nil {
				st.m[oidKey(k, oid)] = b
			}
		}
	}
	st.YieldOn = false
	got := strings.Join(res, "| ") + "=> " + c2stored(st, oid)
	x.State(progs, two, got)
	x.Out("%s", strings.Join(names, ","))
	x.Logf("%s on one object (two instances: %v): %s", c2names(progs), two, got)
	for i, p := range progs {
		for j, o := range p {
			if c2ops[o].kind == "delete" && strings.Split(res[i], "; ")[j] == "ok" && !strings.HasSuffix(got, "=> absent") {
				x.Failf("resurrected", "%s: Delete succeeded and afterwards the object is %s", c2names(progs), c2stored(st, oid))
			}
		}
	}
	m := c2model(progs)
	if m.serial[got] {
		return
	}
	class := "overlap"
	switch {
	case strings.Contains(got, "=> incomplete"):
		class = "incomplete"
	case strings.Contains(got, "=> cannot be decrypted"):
		class = "torn"
	case strings.Contains(got, "fails"):
		class = "decrypt-fails"
	case strings.Contains(got, "=> absent"):
		class = "half-deleted"
	}
	if !m.all[got] || class == "incomplete" {
		class = "nonserial-" + class
	}
	sort.Strings(writers)
	sig := class + ":" + strings.Join(uniq(writers), "+")
	if len(names) > 2 {
		sig = class + ":programs"
	}
	x.Failf(sig, "%s on one object gave\n%s\none after another they give\n%s", c2names(progs), got, strings.Join(sortedKeys(m.serial), "\n"))
}

func uniq(s []string) (r []string) {
	for i := range s {
		if i == 0 || s[i] != s[i-1] {
			r = append(r, s[i])
		}
	}
	return r
}

func c2names(progs [][]int) string {
	var r []string
	for _, p := range progs {
		var n []string
		for _, o := range p {
			n = append(n, c2ops[o].name)
		}
		r = append(r, strings.Join(n, "; "))
	}
	return strings.Join(r, " || ")
}

func c2real(ctx context.Context, d *d1.D1, oid uuid.UUID, o *c2op) string {
	tok := "t:" + o.user
	name := func(err error) string {
		switch e := errName(err); e {
		case "object-not-found", "access-not-found":
			return "not-found"
		case "not-authorized":
			return "denied"
		case "other":
			return "fails"
		default:
			return e
		}
	}
	switch o.kind {
	case "update":
		return name(d.Update(ctx, tok, oid, &data.Object{Plaintext: []byte(o.arg), AssociatedData: []byte("meta")}))
	case "decrypt":
		r, err := d.Decrypt(ctx, tok, oid)
		if err == nil {
			return "ok " + string(r.Plaintext)
		}
		return name(err)
	case "delete":
		return name(d.Delete(ctx, tok, oid))
	case "list":
		m, err := d.GetAccessGroups(ctx, tok, oid)
		if err == nil {
			return "ok " + c2groups(m)
		}
		return name(err)
	case "add":
		return name(d.AddGroupsToAccess(ctx, tok, oid, o.arg))
	case "remove":
		return name(d.RemoveGroupsFromAccess(ctx, tok, oid, o.arg))
	}
	return name(d.AuthorizeIdentity(ctx, tok, oid))
}

func c2groups(m map[string]struct{}) string {
	var l []string
	for g := range m {
		l = append(l, g)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func c2stored(st *Store, oid uuid.UUID) string {
	_, acc := st.m[oidKey(io.DataTypeSealedAccess, oid)]
	_, obj := st.m[oidKey(io.DataTypeSealedObject, oid)]
	if !acc && !obj {
		return "absent"
	}
	if !acc || !obj {
		return fmt.Sprintf("incomplete (access record %v, object record %v)", acc, obj)
	}
	pt, _, g, err := refStored(st, oid)
	if err != nil && g == nil {
		return "access record: " + err.Error()
	}
	if err != nil {
		return fmt.Sprintf("cannot be decrypted {%s}", c2groups(g))
	}
	return fmt.Sprintf("%q {%s}", pt, c2groups(g))
}
