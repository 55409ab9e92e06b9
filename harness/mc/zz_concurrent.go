package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
)

// Properties about the results of single calls hold while other calls run, too. This file adds to their
// checks the interleavings of pairs of the operations they are about.

const besides = " Also all pairs of the operations concerned, each on records of its own, through shared instances under all interleavings of their statements within the preemption bound."

func extend(id, rule string, more func(th bool) []*Scenario) {
	p := props[id]
	old := p.Scenarios
	p.Rule += rule
	p.Scenarios = func(th bool) []*Scenario { return append(old(th), more(th)...) }
}

func init() {
	for id, names := range map[string][]string{
		"D01": {"Encrypt", "EncryptOwn", "Update", "Decrypt", "Denied", "Delete", "RemoveGroups"},
		"D02": {"Encrypt", "Update", "Decrypt", "Denied", "AuthorizeIdentity", "GetAccessGroups", "AddGroups", "Delete"},
		"D03": {"Encrypt", "EncryptOwn", "AddGroups", "RemoveGroups", "GetAccessGroups", "Update", "AuthorizeIdentity"},
		"T01": {"CreateToken", "GetTokenContents", "SharedToken", "LoginUser", "GetIdentity"},
		"U01": {"NewUser", "LoginUser", "LoginWrong", "ChangePassword", "NewGroup", "AddUserToGroups", "RemoveUserFromGroups", "GetIdentity", "DeleteUser"},
		"U02": {"NewGroup", "AddUserToGroups", "RemoveUserFromGroups", "GetIdentity", "NewUser"},
		"X01": {"IndexAdd", "IndexAddNew", "IndexSearch", "IndexDelete", "IndexDeleteFirst"},
		"X03": {"IndexAdd", "IndexSearch", "IndexDelete", "IndexDenied", "Denied", "Decrypt"},
	} {
		names := names
		extend(id, besides, func(th bool) []*Scenario {
			pre := 1
			if th {
				pre = 2
			}
			return []*Scenario{
				{Name: "concurrent", Body: func(x *X) { c01Among(x, "ref", 2, cNamed(names), true) }, Pre: pre, Fine: true, Site: 2, Shard: 2},
				{Name: "concurrent-mem", Body: func(x *X) { c01Among(x, "mem", 2, cNamed(names), true) }, Pre: 2 * pre, Coarse: true, Shard: 2},
			}
		})
	}
	for id, names := range map[string][]string{
		"K01": {"Cryptor.Encrypt", "Cryptor.Decrypt", "Cryptor.Decrypt shared", "Cryptor.Decrypt wrong"},
		"K02": {"KWP.Wrap", "KWP.Unwrap", "Cryptor.Encrypt"},
		"K03": {"Tagger.Tag", "KMAC", "KMACKDF"},
		"K04": {"Cryptor.Encrypt", "Cryptor.Decrypt", "Cryptor.Decrypt shared", "Cryptor.Decrypt wrong", "SealedAccess.Unseal"},
		"A01": {"Identity"},
	} {
		names := names
		extend(id, " Also all pairs of calls of shared instances under all interleavings of their statements within the preemption bound.", func(th bool) []*Scenario {
			pre := 2
			if th {
				pre = 3
			}
			return []*Scenario{{Name: "concurrent", Body: func(x *X) { cPrimNamed(x, names) }, Pre: pre, Fine: true, Site: 3, Shard: 2}}
		})
	}
	extend("P01", besides+" There, each caller's context and token must reach the providers, and only in calls for that caller's records.", func(th bool) []*Scenario {
		pre := 1
		if th {
			pre = 2
		}
		return []*Scenario{
			{Name: "concurrent", Body: p01Concurrent, Pre: pre, Fine: true, Site: 1, Shard: 2},
			{Name: "concurrent-calls", Body: p01Concurrent, Pre: 2 * pre, Coarse: true, Shard: 2},
		}
	})
	extend("D04", " Also Delete together with one or two other operations on the object under all interleavings of their storage calls.", func(th bool) []*Scenario {
		pre := 3
		if th {
			pre = 6
		}
		return []*Scenario{
			{Name: "concurrent", Body: func(x *X) { d04Concurrent(x, "ref", 1) }, Pre: 2 * pre, Coarse: true, Shard: 2},
			{Name: "concurrent-three", Body: func(x *X) { d04Concurrent(x, "ref", 2) }, Pre: pre, Coarse: true, Shard: 3},
			{Name: "concurrent-mem", Body: func(x *X) { d04Concurrent(x, "mem", 1) }, Pre: 1, Fine: true, Site: 1, Shard: 2},
			{Name: "concurrent-bolt", Body: func(x *X) { d04Concurrent(x, "bolt", 1) }, Pre: 2, Coarse: true, Shard: 2},
		}
	})
	extend("D07", " Also two creations that pick the same ID, and a creation that picks the ID of an object being worked on, under all interleavings of their storage calls.", func(th bool) []*Scenario {
		pre := 10
		if th {
			pre = 8
		}
		return []*Scenario{
			{Name: "concurrent", Body: func(x *X) { d07Concurrent(x, "ref") }, Pre: pre, Coarse: true, Shard: 2},
			{Name: "concurrent-mem", Body: func(x *X) { d07Concurrent(x, "mem") }, Pre: 1, Fine: true, Site: 1, Shard: 2},
			{Name: "concurrent-bolt", Body: func(x *X) { d07Concurrent(x, "bolt") }, Pre: 2, Coarse: true, Shard: 2},
		}
	})
}

func cPrimNamed(x *X, names []string) {
	var is []int
	for i := range cPrimOps {
		for _, n := range names {
			if cPrimOps[i].name == n {
				is = append(is, i)
			}
		}
	}
	i := x.Pick(len(is))
	j := i + x.Pick(len(is)-i)
	cPrimPair(x, is[i], is[j])
}

func p01Concurrent(x *X) {
	i := x.Pick(len(cOps))
	j := i + x.Pick(len(cOps)-i)
	c := newC(x, "ref", 2, false, false)
	ops := [2]*cOp{&cOps[i], &cOps[j]}
	what := ops[0].name + " || " + ops[1].name
	owner := map[rkey]int{}
	for k := 0; k < 2; k++ {
		c.ctxs[k] = context.WithValue(context.Background(), ctxKey{}, fmt.Sprint("caller ", k))
		for _, kind := range []io.DataType{0, 1} {
			owner[oidKey(kind, c.oids[k])] = k + 1
		}
		for _, u := range []string{c.uids[k], c.tuid[k]} {
			owner[rkey{id.DataTypeSealedUser, u}] = k + 1
		}
		for _, g := range []string{c.gids[k], c.gid2[k]} {
			owner[rkey{id.DataTypeSealedGroup, g}] = k + 1
		}
		for _, kw := range []string{cKws[k], cNewKws[k]} {
			for l := range labels(kw, 6) {
				owner[rkey{io.DataTypeSealedNode, l}] = k + 1
			}
		}
	}
	c.st.Quiet = false
	c.st.Calls = make([]Call, 0, 256)
	c.st.YieldOn = true
	idn := len(c.w.idp.Calls)
	rs := make([]cRes, 2)
	x.Par(func() { ops[0].run(c, 0, &rs[0]); x.Op() }, func() { ops[1].run(c, 1, &rs[1]); x.Op() })
	for k, r := range rs {
		if r.isObj {
			owner[oidKey(0, r.oid)], owner[oidKey(1, r.oid)] = k+1, k+1
		}
		if r.uid != "" {
			owner[rkey{id.DataTypeSealedUser, r.uid}] = k + 1
		}
		if r.gid != "" {
			owner[rkey{id.DataTypeSealedGroup, r.gid}] = k + 1
		}
	}
	slot := func(ctx context.Context) int {
		switch ctx.Value(ctxKey{}) {
		case "caller 0":
			return 1
		case "caller 1":
			return 2
		}
		return 0
	}
	for _, cl := range c.st.Calls {
		k := slot(cl.Ctx)
		if k == 0 {
			x.Failf("concurrent-ctx", "%s: a %s of kind %d has neither caller's context", what, cl.Op, cl.Kind)
		}
		if own := owner[rkey{cl.Kind, cl.ID}]; own != k {
			x.Failf("concurrent-key", "%s: a %s of kind %d with the context of caller %d is for a record of caller %d (0: unknown)", what, cl.Op, cl.Kind, k, own)
		}
	}
	for _, cl := range c.w.idp.Calls[idn:] {
		k := slot(cl.Ctx)
		if k == 0 {
			x.Failf("concurrent-idctx", "%s: the identity provider was called with neither caller's context", what)
		}
		want := c.tok(k - 1)
		if strings.HasSuffix(ops[k-1].name, "Denied") {
			want = "t:nobody"
		}
		if cl.Token != want {
			x.Failf("concurrent-token", "%s: the identity provider was given the token %q in the context of the caller who passed %q", what, cl.Token, want)
		}
	}
	x.State(i, j, callNames(c.st.Calls))
	x.Out("%d %d", i, j)
}

func d04Concurrent(x *X, prov string, n int) {
	w := NewWorld(x)
	p := makeProvider(x, prov)
	d := w.Instance(p)
	owner := w.idp.User("owner", id.ScopeAll)
	member := w.idp.User("member", id.ScopeAll, id.AccessGroup{ID: "grp", Scopes: id.ScopeAll})
	toks := []string{owner, member}
	oid, err := d.Encrypt(w.ctx, owner, obj("secret", "meta"), "grp", "removable")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	by := x.Pick(2)
	var others []int
	for i, l := 0, 1; i < n; i++ {
		l += x.Pick(len(dOps) - l)
		others = append(others, l)
	}
	d.Decrypt(w.ctx, owner, oid)
	if st, ok := p.(*Store); ok {
		st.YieldOn = true
	}
	what := ""
	var derr error
	var remains error
	fs := []func(){func() {
		derr = d.Delete(w.ctx, toks[by], oid)
		x.Op()
		if derr == nil {
			for _, k := range []io.DataType{0, 1} {
				if _, err := p.Get(w.ctx, oid.Bytes(), k); !errors.Is(err, io.ErrNotFound) {
					remains = fmt.Errorf("record of kind %d: %v", k, err)
				}
			}
		}
	}}
	for i := range others {
		o := dOps[others[i]]
		what += " || " + o.name
		fs = append(fs, func() { o.run(d, w.ctx, toks[1-by], oid); x.Op() })
	}
	x.Par(fs...)
	if st, ok := p.(*Store); ok {
		st.YieldOn = false
	}
	if derr != nil {
		x.Failf("concurrent-fails", "Delete%s failed: %v", what, derr)
	}
	if remains != nil {
		x.Failf("concurrent-remains", "Delete%s reported success with something left: %v", what, remains)
	}
	gone(x, "concurrent", w, d, p, oid, owner, member)
	x.State(prov, by, others)
	x.Out("%s", what)
}

func d07Concurrent(x *X, prov string) {
	w := NewWorld(x)
	p := makeProvider(x, prov)
	d := w.Instance(p)
	alice := w.idp.User("alice", id.ScopeAll)
	mallory := w.idp.User("mallory", id.ScopeAll)
	other := x.Pick(5)
	oid := uuid.Must(uuid.FromString("6f0b5c3e-52b2-4d2c-8f5d-0f6a3f1f9f10"))
	if other > 0 {
		uuids.forced = []uuid.UUID{oid}
		if _, err := d.Encrypt(w.ctx, alice, obj("secret", "meta"), "grp", "removable"); err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	uuids.forced = []uuid.UUID{oid, oid}
	if other > 0 {
		uuids.forced = uuids.forced[:1]
	}
	if st, ok := p.(*Store); ok {
		st.YieldOn = true
	}
	var oids [2]uuid.UUID
	var errs [2]error
	list, pt, meta := setFrom("alice", "grp", "removable"), "secret", "meta"
	x.Par(func() {
		oids[1], errs[1] = d.Encrypt(w.ctx, mallory, obj("mine", "m"), "evil")
		x.Op()
	}, func() {
		switch other {
		case 0:
			oids[0], errs[0] = d.Encrypt(w.ctx, alice, obj(pt, meta), "grp", "removable")
		case 1:
			errs[0] = d.Update(w.ctx, alice, oid, obj("updated", "newmeta"))
		case 2:
			errs[0] = d.AddGroupsToAccess(w.ctx, alice, oid, "added")
		case 3:
			errs[0] = d.RemoveGroupsFromAccess(w.ctx, alice, oid, "removable")
		case 4:
			_, errs[0] = d.Decrypt(w.ctx, alice, oid)
		}
		x.Op()
	})
	uuids.forced = nil
	if st, ok := p.(*Store); ok {
		st.YieldOn = false
	}
	switch other {
	case 1:
		pt, meta = "updated", "newmeta"
	case 2:
		list["added"] = struct{}{}
	case 3:
		delete(list, "removable")
	}
	x.State(prov, other, errName(errs[0]), errName(errs[1]))
	x.Out("%d %s %s", other, errName(errs[0]), errName(errs[1]))
	exists := func(err error) bool {
		return errors.Is(err, d1.ErrObjectAlreadyExists) || errors.Is(err, d1.ErrAccessAlreadyExists)
	}
	winner := alice
	switch {
	case other == 0 && errs[1] == nil && oids[1] == oid:
		winner, list, pt, meta = mallory, setFrom("mallory", "evil"), "mine", "m"
		if errs[0] == nil && oids[0] == oid {
			x.Failf("concurrent-both", "two creations succeeded with one ID")
		}
		if errs[0] != nil && (!exists(errs[0]) || oids[0] != uuid.Nil) {
			x.Failf("concurrent-error", "the losing creation returned %v, %v", oids[0], errs[0])
		}
	case errs[0] != nil:
		x.Failf("concurrent-owner", "while another creation picked the same ID, the owner's operation failed: %v (the other: %v)", errs[0], errs[1])
	case errs[1] == nil && oids[1] == oid:
		x.Failf("concurrent-overwritten", "a creation succeeded under an ID in use")
	case errs[1] != nil && (!exists(errs[1]) || oids[1] != uuid.Nil):
		x.Failf("concurrent-error", "the losing creation returned %v, %v", oids[1], errs[1])
	}
	got, err := d.Decrypt(w.ctx, winner, oid)
	checkObj(x, "concurrent-kept", got, err, []byte(pt), []byte(meta))
	wantList(x, "concurrent-list", p, oid, list)
	loser := mallory
	if winner == mallory {
		loser = alice
	}
	if _, err := d.Decrypt(w.ctx, loser, oid); !errors.Is(err, d1.ErrNotAuthorized) {
		x.Failf("concurrent-foreign", "the losing creator can reach the object: %v", err)
	}
}
