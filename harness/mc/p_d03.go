package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
)

func init() {
	register(&Prop{
		ID: "D03", Level: "model_checking",
		Rule: "All histories over an alphabet of list changes by owner, direct member, group member, unlisted and unscoped callers on two objects, with reads, updates and failing calls in between, up to the depth; " +
			"all argument lists of up to three IDs from a set of awkward strings at creation, addition and removal; large lists. After each step the stored list, opened with the master key, and the reported list are compared with a set model. States are distinct pairs of lists.",
		Scenarios: func(th bool) []*Scenario {
			depth := 4
			if th {
				depth = 5
			}
			return []*Scenario{
				{Name: "args", Body: d03Args},
				{Name: "history", Body: func(x *X) { d03History(x, depth, "ref") }, Shard: 3},
				{Name: "history-mem", Body: func(x *X) { d03History(x, depth-1, "mem") }, Shard: 3},
				{Name: "history-bolt", Body: func(x *X) { d03History(x, depth-2, "bolt") }, Shard: 2},
				{Name: "failures", Body: func(x *X) { d03Failures(x, depth-1) }, Faults: 1, Shard: 3},
				{Name: "large", Body: d03Large},
				{Name: "utf8", Body: d03UTF8},
			}
		},
	})
}

// listOf reads the access list of an object from storage with the master key.
func listOf(x *X, p io.Provider, oid uuid.UUID) map[string]struct{} {
	b, err := p.Get(baseCtx(), oid.Bytes(), io.DataTypeSealedAccess)
	if err != nil {
		x.Failf("list-gone", "the stored access list cannot be fetched: %v", err)
	}
	a, err := readAccess(b, testKeys().AEK, oid)
	if err != nil {
		x.Failf("list-sealed", "the stored access list cannot be opened with the master key: %v", err)
	}
	return a.Groups
}

func wantList(x *X, sig string, p io.Provider, oid uuid.UUID, want map[string]struct{}) {
	if got := listOf(x, p, oid); setOf(got) != setOf(want) {
		x.Failf(sig, "%s: the stored access list is %s, want %s", sig, setOf(got), setOf(want))
	}
}

// Arguments of every shape at each of the three entry points.
func d03Args(x *X) {
	names := append([]string{"owner", "x", strings.Repeat("long", 500)}, oddNames...)
	n := x.Pick(3)
	var args []string
	for i := 0; i < n; i++ {
		args = append(args, names[x.Pick(len(names))])
	}
	if n == 2 && x.Bool() {
		args = append(args, args[0]) // repeated
	}
	if n == 0 && x.Bool() {
		args = nil
	}
	where := x.Pick(3)
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	admin := w.idp.User("administrator", id.ScopeAll)
	list := setFrom("owner", "administrator", "keep", "a")
	var oid uuid.UUID
	var err error
	if where == 0 {
		list = setFrom(append(args, "owner")...)
		oid, err = w.d.Encrypt(w.ctx, owner, obj("p", "a"), args...)
	} else {
		oid, err = w.d.Encrypt(w.ctx, owner, obj("p", "a"), "administrator", "keep", "a")
	}
	x.Op()
	if err != nil {
		x.Failf("encrypt", "Encrypt with groups %q failed: %v", args, err)
	}
	other, _ := w.d.Encrypt(w.ctx, owner, obj("p2", "a2"), "administrator")
	switch where {
	case 1:
		for _, a := range args {
			list[a] = struct{}{}
		}
		err = w.d.AddGroupsToAccess(w.ctx, admin, oid, args...)
	case 2:
		for _, a := range args {
			delete(list, a)
		}
		err = w.d.RemoveGroupsFromAccess(w.ctx, admin, oid, args...)
	}
	x.Op()
	if err != nil {
		x.Failf("change", "changing the list by %q failed: %v", args, err)
	}
	x.Logf("entry point %d args %q", where, args)
	wantList(x, "args", w.st, oid, list)
	wantList(x, "other-object", w.st, other, setFrom("owner", "administrator"))
	reader := admin
	if where == 0 {
		reader = owner
	}
	got, err := w.d.GetAccessGroups(w.ctx, reader, oid)
	if err != nil || setOf(got) != setOf(list) {
		x.Failf("reported", "GetAccessGroups returned %s %v, want %s", setOf(got), err, setOf(list))
	}
	x.State(where, args)
	x.Out("%d %d", where, len(list))
}

type listObj struct {
	oid    uuid.UUID
	list   map[string]struct{}
	pt, ad string
}

func d03History(x *X, depth int, prov string) {
	w := NewWorld(x)
	p := makeProvider(x, prov)
	d := w.Instance(p)
	d2 := w.Instance(p)
	all := id.ScopeAll
	noModify := all &^ id.ScopeModifyAccessGroups
	toks := map[string]string{
		"owner":    w.idp.User("owner", all),
		"direct":   w.idp.User("direct", all),
		"viagroup": w.idp.User("viagroup", all, id.AccessGroup{ID: "grp", Scopes: all}),
		"weak":     w.idp.User("weak", noModify, id.AccessGroup{ID: "grp", Scopes: all}),
		"weakgrp":  w.idp.User("weakgrp", all, id.AccessGroup{ID: "grp", Scopes: noModify}),
		"stranger": w.idp.User("stranger", all),
	}
	var objs []*listObj
	for i := 0; i < 2; i++ {
		o := &listObj{list: setFrom("owner", "direct", "grp"), pt: fmt.Sprint("p", i), ad: fmt.Sprint("a", i)}
		var err error
		o.oid, err = d.Encrypt(w.ctx, toks["owner"], obj(o.pt, o.ad), "direct", "grp")
		if err != nil {
			x.Failf("encrypt", "%v", err)
		}
		objs = append(objs, o)
	}
	type act struct {
		name string
		run  func(d *d1.D1) error
		do   func(o *listObj)
		o    int
		who  string
		op   int // index into dOps, for the rule
	}
	change := func(add bool, who string, o int, ids ...string) act {
		name := "remove"
		if add {
			name = "add"
		}
		return act{name: fmt.Sprintf("%s %s o%d %q", who, name, o, ids), o: o, who: who, op: 5,
			run: func(d *d1.D1) error {
				if add {
					return d.AddGroupsToAccess(w.ctx, toks[who], objs[o].oid, ids...)
				}
				return d.RemoveGroupsFromAccess(w.ctx, toks[who], objs[o].oid, ids...)
			},
			do: func(o *listObj) {
				for _, i := range ids {
					if add {
						o.list[i] = struct{}{}
					} else {
						delete(o.list, i)
					}
				}
			}}
	}
	version := 0
	acts := []act{
		change(true, "owner", 0, "x"),
		change(true, "owner", 0, "stranger", "y"),
		change(true, "direct", 1, "x"),
		change(true, "viagroup", 0, "owner", "direct"),
		change(false, "owner", 0, "grp"),
		change(false, "owner", 0, "owner"),  // the creator removes itself
		change(false, "direct", 0, "owner"), // somebody removes the creator
		change(false, "direct", 0, "direct", "x", "absent"),
		change(false, "viagroup", 0, "grp"),
		change(false, "owner", 1, "direct"),
		change(false, "stranger", 0, "x", "y"),
		change(true, "stranger", 0, "stranger"),
		change(true, "weak", 0, "weak"),
		change(true, "weakgrp", 0, "weakgrp"),
		change(false, "owner", 0, "owner", "direct", "grp", "x", "y", "stranger"), // everybody
		change(true, "owner", 0),
		{name: "owner update o0", o: 0, who: "owner", op: 2, run: func(d *d1.D1) error {
			version++
			objs[0].pt += fmt.Sprint(version)
			err := d.Update(w.ctx, toks["owner"], objs[0].oid, obj(objs[0].pt, objs[0].ad))
			if err != nil {
				objs[0].pt = strings.TrimSuffix(objs[0].pt, fmt.Sprint(version))
			}
			return err
		}},
		{name: "viagroup update o0", o: 0, who: "viagroup", op: 2, run: func(d *d1.D1) error {
			err := d.Update(w.ctx, toks["viagroup"], objs[0].oid, obj("by group", "g"))
			if err == nil {
				objs[0].pt, objs[0].ad = "by group", "g"
			}
			return err
		}},
		{name: "stranger decrypt o0", o: 0, who: "stranger", op: 1, run: func(d *d1.D1) error { _, e := d.Decrypt(w.ctx, toks["stranger"], objs[0].oid); return e }},
		{name: "viagroup decrypt o0", o: 0, who: "viagroup", op: 1, run: func(d *d1.D1) error { _, e := d.Decrypt(w.ctx, toks["viagroup"], objs[0].oid); return e }},
		{name: "direct authorize o0", o: 0, who: "direct", op: 7, run: func(d *d1.D1) error { return d.AuthorizeIdentity(w.ctx, toks["direct"], objs[0].oid) }},
	}
	for i := 0; i < depth; i++ {
		c := x.Pick(len(acts) + 1)
		if c == 0 {
			break
		}
		a := acts[c-1]
		dd := d
		if i%2 == 1 {
			dd = d2
		}
		want := mayDo(w.idp.m[toks[a.who]], objs[a.o].list, dOps[a.op])
		var err error
		x.Guard("history", func() { err = a.run(dd) })
		x.Op()
		x.Logf("%s: %v", a.name, err)
		if (err == nil) != want {
			x.Failf("decision", "%s returned %v on list %s, expected success=%v", a.name, err, setOf(objs[a.o].list), want)
		}
		if err == nil && a.do != nil {
			a.do(objs[a.o])
		}
		for j, o := range objs {
			wantList(x, fmt.Sprintf("list-o%d", j), p, o.oid, o.list)
		}
	}
	// what the lists say is in force right away, for everyone, and is what is reported
	for j, o := range objs {
		for _, who := range sortedKeys(toks) {
			ident := w.idp.m[toks[who]]
			got, err := d2.GetAccessGroups(w.ctx, toks[who], o.oid)
			if want := mayDo(ident, o.list, dOps[4]); (err == nil) != want {
				x.Failf("final-get", "GetAccessGroups of o%d by %s on %s: %v", j, who, setOf(o.list), err)
			}
			if err == nil && setOf(got) != setOf(o.list) {
				x.Failf("final-list", "reported list of o%d is %s, want %s", j, setOf(got), setOf(o.list))
			}
			r, err := d.Decrypt(w.ctx, toks[who], o.oid)
			if want := mayDo(ident, o.list, dOps[1]); (err == nil) != want {
				x.Failf("final-decrypt", "Decrypt of o%d by %s on %s: %v", j, who, setOf(o.list), err)
			}
			if err == nil {
				checkObj(x, "content", r, nil, []byte(o.pt), []byte(o.ad))
			}
		}
		wantList(x, fmt.Sprintf("final-o%d", j), p, o.oid, o.list)
	}
	x.State(prov, setOf(objs[0].list), setOf(objs[1].list), objs[0].pt)
	x.Out("%s", setOf(objs[0].list))
}

// Histories in which one storage call may fail: whatever the lists are in storage then, both instances, the
// one that saw the failure and the other, report and apply exactly them.
func d03Failures(x *X, depth int) {
	w := NewWorld(x)
	ds := []*d1.D1{w.d, w.Instance(w.st)}
	all := id.ScopeAll
	toks := map[string]string{
		"owner":    w.idp.User("owner", all),
		"direct":   w.idp.User("direct", all),
		"viagroup": w.idp.User("viagroup", all, id.AccessGroup{ID: "grp", Scopes: all}),
		"stranger": w.idp.User("stranger", all),
	}
	var oids []uuid.UUID
	lists := []map[string]struct{}{setFrom("owner", "direct"), setFrom("owner", "grp")}
	for i := 0; i < 2; i++ {
		o, err := ds[i].Encrypt(w.ctx, toks["owner"], obj("p", "a"), []string{"direct", "grp"}[i])
		if err != nil {
			x.Failf("encrypt", "%v", err)
		}
		oids = append(oids, o)
	}
	agree := func(when string) {
		for j, oid := range oids {
			stored := listOf(x, w.st, oid)
			if setOf(stored) != setOf(lists[j]) {
				x.Failf("failure-list", "%s: the stored list of o%d is %s, want %s", when, j, setOf(stored), setOf(lists[j]))
			}
			for i, d := range ds {
				for _, who := range sortedKeys(toks) {
					want := mayDo(w.idp.m[toks[who]], stored, dOps[4])
					got, err := d.GetAccessGroups(w.ctx, toks[who], oid)
					x.Op()
					if (err == nil) != want || err == nil && setOf(got) != setOf(stored) {
						x.Failf("failure-report", "%s: instance %d reports list %s (%v) to %s, stored is %s", when, i, setOf(got), err, who, setOf(stored))
					}
					if err := d.AuthorizeIdentity(w.ctx, toks[who], oid); (err == nil) != want {
						x.Failf("failure-decision", "%s: instance %d answers %v to %s on the stored list %s", when, i, err, who, setOf(stored))
					}
				}
			}
		}
	}
	if x.Bool() {
		agree("at first")
	}
	for i := 0; i < depth; i++ {
		k := x.Pick(8)
		if k == 0 {
			break
		}
		inst, o, who := x.Pick(2), 0, "owner"
		next := copySet(lists[0])
		var run func(d *d1.D1) error
		op := 5
		switch k {
		case 1:
			next["grp"], next["stranger"] = struct{}{}, struct{}{}
			run = func(d *d1.D1) error { return d.AddGroupsToAccess(w.ctx, toks[who], oids[o], "grp", "stranger") }
		case 2:
			delete(next, "direct")
			op = 6
			run = func(d *d1.D1) error { return d.RemoveGroupsFromAccess(w.ctx, toks[who], oids[o], "direct") }
		case 3:
			who = "direct"
			delete(next, "owner")
			op = 6
			run = func(d *d1.D1) error { return d.RemoveGroupsFromAccess(w.ctx, toks[who], oids[o], "owner") }
		case 4:
			op = 2
			run = func(d *d1.D1) error { return d.Update(w.ctx, toks[who], oids[o], obj("q", "b")) }
		case 5:
			op = 1
			run = func(d *d1.D1) error { _, err := d.Decrypt(w.ctx, toks[who], oids[o]); return err }
		case 6:
			o, who = 1, "viagroup"
			next = copySet(lists[1])
			next["direct"] = struct{}{}
			run = func(d *d1.D1) error { return d.AddGroupsToAccess(w.ctx, toks[who], oids[o], "direct") }
		case 7:
			who = "stranger"
			next["stranger"] = struct{}{}
			run = func(d *d1.D1) error { return d.AddGroupsToAccess(w.ctx, toks[who], oids[o], "stranger") }
		}
		may := mayDo(w.idp.m[toks[who]], lists[o], dOps[op])
		failed := len(w.st.Faulted)
		w.st.Inject = true
		var err error
		x.Guard("failures", func() { err = run(ds[inst]) })
		w.st.Inject = false
		x.Op()
		x.Logf("call %d by %s through instance %d: %v", k, who, inst, err)
		failed = len(w.st.Faulted) - failed
		refused := errors.Is(err, d1.ErrNotAuthorized)
		if err == nil && !may || err != nil && may && failed == 0 && (refused || k != 5) { // reading after an interrupted Update: see D06
			x.Failf("failure-answer", "call %d by %s on list %s: %v", k, who, setOf(lists[o]), err)
		}
		stored := listOf(x, w.st, oids[o])
		if err == nil || failed > 0 && may && setOf(stored) == setOf(next) {
			lists[o] = next // a failing call may still have had its whole effect
		}
		agree(fmt.Sprintf("after call %d (%v, storage failures %v)", k, err, w.st.Faulted))
	}
	x.State(setOf(lists[0]), setOf(lists[1]), strings.Join(faultNames(w.st.Faulted), ","))
	x.Out("%s", setOf(lists[0]))
}

func d03Large(x *X) {
	n := []int{50, 255, 256, 257, 1000, 3000}[x.Pick(6)]
	where := x.Pick(2)
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	var ids []string
	list := setFrom("owner")
	for i := 0; i < n; i++ {
		ids = append(ids, fmt.Sprintf("member-%d", i))
		list[ids[i]] = struct{}{}
	}
	var oid uuid.UUID
	var err error
	if where == 0 {
		oid, err = w.d.Encrypt(w.ctx, owner, obj("p", "a"), ids...)
	} else {
		oid, err = w.d.Encrypt(w.ctx, owner, obj("p", "a"))
		if err == nil {
			err = w.d.AddGroupsToAccess(w.ctx, owner, oid, ids...)
		}
	}
	if err != nil {
		x.Failf("large", "%v", err)
	}
	wantList(x, "large", w.st, oid, list)
	for i := 0; i < n; i += 1 + n/40 {
		delete(list, ids[i])
		if err := w.d.RemoveGroupsFromAccess(w.ctx, owner, oid, ids[i]); err != nil {
			x.Failf("large", "%v", err)
		}
		x.Op()
		wantList(x, "large-removed", w.st, oid, list)
		x.State(n, where, i)
	}
	if err := w.d.Update(w.ctx, owner, oid, obj("p2", "a2")); err != nil {
		x.Failf("large", "%v", err)
	}
	wantList(x, "large-updated", w.st, oid, list)
}

// IDs that are not valid UTF-8.
func d03UTF8(x *X) {
	bad := []string{"\xff", "a\xc3", "\xed\xa0\x80", "ok\xfe"}
	i := x.Pick(len(bad))
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	oid, err := w.d.Encrypt(w.ctx, owner, obj("p", "a"), bad[i])
	if err != nil {
		return // refusing is not a change of the list
	}
	x.State(i)
	if got := listOf(x, w.st, oid); setOf(got) != setOf(setFrom("owner", bad[i])) {
		x.Failf("invalid-utf8-id", "a group ID that is not valid UTF-8 is stored as a different ID: %s", setOf(got))
	}
}

var _ = data.Object{}
