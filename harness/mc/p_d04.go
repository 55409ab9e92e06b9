package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
)

func init() {
	register(&Prop{
		ID: "D04", Level: "fault_enumeration",
		Rule: "All histories of a deletion with up to two storage failures or stops at any of its calls, operations of other callers between the attempts, retries until success, and operations on the deleted ID afterwards, " +
			"from whole, half-created and half-deleted objects. States are distinct storage shapes at the checks.",
		Scenarios: func(th bool) []*Scenario {
			f := 2
			if th {
				f = 3
			}
			return []*Scenario{
				{Name: "faults", Body: func(x *X) { d04Faults(x, false) }, Faults: f, Shard: 3},
				{Name: "crashes", Body: func(x *X) { d04Faults(x, true) }, Faults: f - 1, Shard: 3},
				{Name: "kinds", Body: d04Kinds},
				{Name: "history", Body: func(x *X) { d04History(x, th, "ref") }, Shard: 3},
				{Name: "mem", Body: func(x *X) { d04History(x, th, "mem") }, Shard: 3},
				{Name: "bolt", Body: func(x *X) { d04History(x, false, "bolt") }, Shard: 3, Cap: 0},
			}
		},
	})
}

func notFound(err error) bool {
	return errors.Is(err, d1.ErrAccessNotFound) || errors.Is(err, d1.ErrObjectNotFound)
}

// gone checks that every operation reports the object as not found and changes nothing.
func gone(x *X, sig string, w *World, d *d1.D1, p io.Provider, oid uuid.UUID, toks ...string) {
	snap := func() string {
		if s, ok := p.(*Store); ok {
			return s.Snapshot()
		}
		return ""
	}
	before := snap()
	for _, tok := range toks {
		for _, op := range dOps {
			if !op.existing {
				continue
			}
			var r opResult
			x.Guard(sig+op.name, func() { r = op.run(d, w.ctx, tok, oid) })
			x.Op()
			if op.name == "Delete" {
				if r.err != nil {
					x.Failf(sig+"-delete", "%s: Delete of an object that is gone returned %v", sig, r.err)
				}
			} else if !notFound(r.err) || !r.zero {
				x.Failf(sig+"-"+op.name, "%s: %s on a deleted object returned %v (data returned: %v)", sig, op.name, r.err, !r.zero)
			}
		}
	}
	if snap() != before {
		x.Failf(sig+"-write", "%s: an operation on a deleted object changed storage", sig)
	}
	for _, k := range []io.DataType{io.DataTypeSealedObject, io.DataTypeSealedAccess} {
		if _, err := p.Get(w.ctx, oid.Bytes(), k); !errors.Is(err, io.ErrNotFound) {
			x.Failf(sig+"-remains", "%s: a record of kind %d of the deleted object remains (%v)", sig, k, err)
		}
	}
}

func d04Faults(x *X, crash bool) {
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	member := w.idp.User("member", id.ScopeAll, id.AccessGroup{ID: "grp", Scopes: id.ScopeAll})
	outsider := w.idp.User("outsider", id.ScopeAll)
	oid, err := w.d.Encrypt(w.ctx, owner, obj("secret", "meta"), "grp")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	other, err := w.d.Encrypt(w.ctx, owner, obj("other", "othermeta"), "grp")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	otherRecs := func() string {
		return fmt.Sprintf("%x %x", w.st.m[oidKey(0, other)], w.st.m[oidKey(1, other)])
	}
	otherBefore := otherRecs()
	switch x.Pick(3) {
	case 1:
		delete(w.st.m, oidKey(0, oid))
	case 2:
		if err := w.d.Update(w.ctx, member, oid, obj("v2", "meta2")); err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	x.Logf("start with %s", w.st.Shape())
	deleting := false
	w.st.OnApplied = func(op string, k rkey) {
		if !deleting {
			return
		}
		_, o := w.st.m[oidKey(0, oid)]
		_, a := w.st.m[oidKey(1, oid)]
		if o && !a {
			x.Failf("orphan", "Delete left the object stored without the access list needed to delete it")
		}
	}
	w.st.Crashes = crash
	d := w.d
	toks := []string{owner, member}
	for attempt := 0; ; attempt++ {
		if attempt > 5 {
			x.Failf("never", "Delete does not succeed on working storage")
		}
		tok := toks[0]
		if attempt < 2 {
			tok = toks[x.Pick(2)]
		}
		w.st.Inject, deleting = true, true
		n := len(w.st.Faulted)
		i := len(w.st.Calls)
		before := w.st.Snapshot()
		var err error
		var ended bool
		crashed := Crashable(func() { err = d.Delete(w.ctx, tok, oid); ended = true })
		_ = ended
		x.Op()
		w.st.Inject, deleting = false, false
		faulted := len(w.st.Faulted) > n
		x.Logf("delete attempt %d: %v crashed=%v", attempt, err, crashed)
		_ = i
		if crashed {
			w.st.Restart()
			d = w.Instance(w.st)
		} else if faulted && err == nil {
			x.Failf("swallowed", "Delete reported success although storage failed: %v", w.st.Faulted)
		} else if faulted && !errors.Is(err, errInjected) {
			x.Failf("masked", "Delete's error %v does not carry the storage failure", err)
		} else if !faulted && err != nil {
			x.Failf("retry", "repeating a failed Delete on working storage failed: %v (was: %s, %v)", err, before, w.st.Faulted)
		}
		x.State(w.st.Shape(), attempt, crashed, faulted)
		if otherRecs() != otherBefore {
			x.Failf("other", "Delete touched another object")
		}
		if err == nil && !crashed {
			break
		}
		// between the attempts others look at the object
		switch x.Pick(5) {
		case 1:
			r := dOps[1].run(d, w.ctx, owner, oid)
			_, o := w.st.m[oidKey(0, oid)]
			if o && r.err != nil || !o && !notFound(r.err) {
				x.Failf("between-decrypt", "Decrypt between attempts returned %v, object stored: %v", r.err, o)
			}
		case 2:
			_, o := w.st.m[oidKey(0, oid)]
			err := d.Update(w.ctx, owner, oid, obj("between", "b"))
			if o && err != nil || !o && !notFound(err) {
				x.Failf("between-update", "Update between attempts returned %v, object stored: %v", err, o)
			}
			if _, now := w.st.m[oidKey(0, oid)]; now && !o {
				x.Failf("between-revive", "Update brought a deleted object back")
			}
		case 3:
			if err := d.AddGroupsToAccess(w.ctx, owner, oid, "more"); err != nil && !notFound(err) {
				x.Failf("between-add", "AddGroupsToAccess between attempts returned %v", err)
			}
		case 4:
			if err := d.Delete(w.ctx, outsider, oid); err != nil && !errors.Is(err, d1.ErrNotAuthorized) {
				x.Failf("between-outsider", "Delete by an outsider returned %v", err)
			}
		}
		otherBefore = otherRecs()
	}
	gone(x, "gone", w, w.Instance(w.st), w.st, oid, owner, member, outsider)
	gone(x, "gone-again", w, d, w.st, oid, owner)
	got, err := w.d.Decrypt(w.ctx, owner, other)
	checkObj(x, "other-readable", got, err, []byte("other"), []byte("othermeta"))
	if len(w.st.m) != 2 {
		x.Failf("remains", "storage holds %s after the deletion", w.st.Shape())
	}
	x.Out("%s", fmt.Sprint(len(w.st.Faulted)))
}

// Failures of every kind at every call of a deletion, one or two in a row, with the caller's context
// ending at the failure or not: reported, repeatable, and nothing left in the end.
func d04Kinds(x *X) {
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	member := w.idp.User("member", id.ScopeAll, id.AccessGroup{ID: "grp", Scopes: id.ScopeAll})
	tok := []string{owner, member}[x.Pick(2)]
	oid, err := w.d.Encrypt(w.ctx, owner, obj("secret", "meta"), "grp")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	half := x.Bool()
	if half {
		delete(w.st.m, oidKey(0, oid))
	}
	kinds := failureKinds()
	d := w.d
	for i := 0; i < 2; i++ {
		e := kinds[x.Pick(len(kinds))]
		ctx, cancel := context.WithCancel(w.ctx)
		at := 1 + x.Pick(3)
		f := &failingProvider{Store: w.st, at: at, err: e, ok: x.Bool()}
		if x.Bool() {
			f.on = cancel
		}
		d = w.Instance(f)
		err := d.Delete(ctx, tok, oid)
		cancel()
		hit := f.n >= f.at
		f.at = 0
		x.Op()
		x.Logf("delete with one call failing with %v (takes effect: %v): %v", e, f.ok, err)
		x.State(tok, half, i, at, e, f.ok, f.on != nil)
		_, o := w.st.m[oidKey(0, oid)]
		_, a := w.st.m[oidKey(1, oid)]
		if o && !a {
			x.Failf("orphan", "Delete left the object stored without the access list needed to delete it")
		}
		if !hit {
			if err != nil {
				x.Failf("clean", "Delete failed without a failing call: %v", err)
			}
			break
		}
		if err == nil {
			x.Failf("swallowed", "Delete reported success although its storage call %d failed with %v", at, e)
		}
		if !errors.Is(err, e) {
			x.Failf("masked", "Delete's error %v does not carry the storage failure %v", err, e)
		}
		d.Delete(context.Background(), tok+"-unknown", oid)
		if x.Bool() {
			break
		}
	}
	if err := w.d.Delete(w.ctx, tok, oid); err != nil {
		x.Failf("retry", "repeating a failed Delete on working storage failed: %v", err)
	}
	gone(x, "gone", w, d, w.st, oid, owner, member)
	if len(w.st.m) != 0 {
		x.Failf("remains", "storage holds %s after the deletion", w.st.Shape())
	}
}

// Deletions within histories, without faults, on all providers.
func d04History(x *X, th bool, prov string) {
	depth := 4
	if th {
		depth = 5
	}
	if prov != "ref" {
		depth--
	}
	if prov == "bolt" {
		depth--
	}
	w := NewWorld(x)
	p := makeProvider(x, prov)
	ds := []*d1.D1{w.Instance(p), w.Instance(p)}
	owner := w.idp.User("owner", id.ScopeAll)
	member := w.idp.User("member", id.ScopeAll, id.AccessGroup{ID: "grp", Scopes: id.ScopeAll})
	limited := w.idp.User("limited", id.ScopeAll&^id.ScopeDelete, id.AccessGroup{ID: "grp", Scopes: id.ScopeAll})
	outsider := w.idp.User("outsider", id.ScopeAll)
	type o struct {
		oid  uuid.UUID
		list map[string]struct{}
		pt   string
		gone bool
	}
	var objs []*o
	create := func() {
		n := &o{list: setFrom("owner", "grp"), pt: fmt.Sprint("content", len(objs))}
		var err error
		if n.oid, err = ds[0].Encrypt(w.ctx, owner, obj(n.pt, "m"), "grp"); err != nil {
			x.Failf("encrypt", "%v", err)
		}
		objs = append(objs, n)
	}
	create()
	create()
	unknown := uuid.Must(uuid.FromString("5bd3b8b6-98a6-4ba7-9f8b-6f1f2a7b1f00"))
	toks := []string{owner, member, limited, outsider}
	for i := 0; i < depth; i++ {
		c := x.Pick(13)
		if c == 0 {
			break
		}
		d := ds[i%2]
		x.Op()
		switch {
		case c <= 8: // delete o0/o1 by anybody
			t, ob := toks[(c-1)%4], objs[(c-1)/4]
			err := d.Delete(w.ctx, t, ob.oid)
			x.Logf("delete o%d by %s: %v", (c-1)/4, t, err)
			want := mayDo(w.idp.m[t], ob.list, dOps[3])
			if ob.gone {
				if t == limited {
					if !errors.Is(err, d1.ErrNotAuthorized) {
						x.Failf("limited", "Delete without the scope returned %v", err)
					}
				} else if err != nil {
					x.Failf("again", "Delete of a deleted object returned %v", err)
				}
			} else if (err == nil) != want {
				x.Failf("decision", "Delete by %s on %s returned %v", t, setOf(ob.list), err)
			} else if err == nil {
				ob.gone = true
			}
		case c == 9:
			err := d.Delete(w.ctx, outsider, unknown)
			if err != nil {
				x.Failf("unknown", "Delete of an object that never existed returned %v", err)
			}
			if err = d.Delete(w.ctx, owner, uuid.Nil); err != nil {
				x.Failf("nil", "Delete of the nil ID returned %v", err)
			}
		case c == 10:
			err := d.Update(w.ctx, member, objs[0].oid, obj("updated", "m"))
			want := !objs[0].gone && mayDo(w.idp.m[member], objs[0].list, dOps[2])
			if (err == nil) != want {
				x.Failf("update", "Update returned %v, want success=%v", err, want)
			}
			if err == nil {
				objs[0].pt = "updated"
			}
		case c == 11:
			err := d.RemoveGroupsFromAccess(w.ctx, owner, objs[0].oid, "grp")
			if (err == nil) == objs[0].gone {
				x.Failf("remove", "RemoveGroupsFromAccess returned %v, deleted: %v", err, objs[0].gone)
			}
			delete(objs[0].list, "grp")
		case c == 12:
			create()
		}
	}
	st := ""
	for i, ob := range objs {
		st += fmt.Sprint(ob.gone, setOf(ob.list), ob.pt)
		if ob.gone {
			gone(x, "gone", w, ds[1], p, ob.oid, owner, outsider)
			continue
		}
		got, err := ds[1].Decrypt(w.ctx, owner, ob.oid)
		checkObj(x, fmt.Sprint("survivor", i), got, err, []byte(ob.pt), []byte("m"))
	}
	x.State(prov, st)
	x.Out("%s", st)
}
