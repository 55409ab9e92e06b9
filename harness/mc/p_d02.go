package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"verif.local/shim/vsched"
)

func init() {
	register(&Prop{
		ID: "D02", Level: "model_checking",
		Rule: "Every operation, for every combination of own scopes, listing of the caller and of up to three groups with their scopes, and every map iteration order within the bound; " +
			"all pairs of similar caller and list IDs; all histories of calls by four callers whose scopes, groups and listing change in between, up to the depth. " +
			"States are distinct configurations.",
		Scenarios: func(th bool) []*Scenario {
			depth := 3
			if th {
				depth = 4
			}
			return []*Scenario{
				{Name: "matrix", Body: func(x *X) { d02Matrix(x, 2, th) }, Order: 3, Shard: 3},
				{Name: "matrix3", Body: func(x *X) { d02Matrix(x, 3, th) }, Order: 2, Shard: 3},
				{Name: "auth", Body: d02Auth},
				{Name: "scopes", Body: d02Scopes},
				{Name: "names", Body: d02Names},
				{Name: "many", Body: d02Many, Order: 1, Steps: manySteps},
				{Name: "crowd", Body: d02Crowd, Shard: 2},
				{Name: "tokens", Body: d02Tokens, Shard: 2},
				{Name: "history", Body: func(x *X) { d02History(x, depth) }, Shard: 3},
			}
		},
	})
}

type opResult struct {
	err  error
	zero bool // nothing was returned besides the error
	desc string
	obj  data.Object
	set  map[string]struct{}
	oid  uuid.UUID
}

// dOp is one object operation.
type dOp struct {
	name     string
	scope    id.Scope
	existing bool // needs an existing object
	readonly bool
	run      func(d *d1.D1, ctx context.Context, tok string, oid uuid.UUID) opResult
}

func errOnly(e error) opResult { return opResult{err: e, zero: true} }

var dOps = []dOp{
	{"Encrypt", id.ScopeEncrypt, false, false, func(d *d1.D1, ctx context.Context, tok string, oid uuid.UUID) opResult {
		o, err := d.Encrypt(ctx, tok, obj("new", "newmeta"), "g0")
		return opResult{err: err, zero: o == uuid.Nil, oid: o}
	}},
	{"Decrypt", id.ScopeDecrypt, true, true, func(d *d1.D1, ctx context.Context, tok string, oid uuid.UUID) opResult {
		o, err := d.Decrypt(ctx, tok, oid)
		return opResult{err: err, zero: o.Plaintext == nil && o.AssociatedData == nil, obj: o}
	}},
	{"Update", id.ScopeUpdate, true, false, func(d *d1.D1, ctx context.Context, tok string, oid uuid.UUID) opResult {
		return errOnly(d.Update(ctx, tok, oid, obj("updated", "updatedmeta")))
	}},
	{"Delete", id.ScopeDelete, true, false, func(d *d1.D1, ctx context.Context, tok string, oid uuid.UUID) opResult {
		return errOnly(d.Delete(ctx, tok, oid))
	}},
	{"GetAccessGroups", id.ScopeGetAccessGroups, true, true, func(d *d1.D1, ctx context.Context, tok string, oid uuid.UUID) opResult {
		m, err := d.GetAccessGroups(ctx, tok, oid)
		return opResult{err: err, zero: m == nil, set: m}
	}},
	{"AddGroupsToAccess", id.ScopeModifyAccessGroups, true, false, func(d *d1.D1, ctx context.Context, tok string, oid uuid.UUID) opResult {
		return errOnly(d.AddGroupsToAccess(ctx, tok, oid, "added"))
	}},
	{"RemoveGroupsFromAccess", id.ScopeModifyAccessGroups, true, false, func(d *d1.D1, ctx context.Context, tok string, oid uuid.UUID) opResult {
		return errOnly(d.RemoveGroupsFromAccess(ctx, tok, oid, "removable"))
	}},
	{"AuthorizeIdentity", id.ScopeGetAccessGroups, true, true, func(d *d1.D1, ctx context.Context, tok string, oid uuid.UUID) opResult {
		return errOnly(d.AuthorizeIdentity(ctx, tok, oid))
	}},
}

// mayDo is the documented access rule.
func mayDo(ident id.Identity, list map[string]struct{}, op dOp) bool {
	s := uint64(op.scope)
	if uint64(ident.Scopes)&s != s {
		return false
	}
	if !op.existing {
		return true
	}
	if _, ok := list[ident.ID]; ok {
		return true
	}
	for gid, g := range ident.Groups {
		if _, ok := list[gid]; ok && uint64(g.Scopes)&s == s {
			return true
		}
	}
	return false
}

// decide runs op and compares the decision with the documented rule.
func (w *World) decide(d *d1.D1, op dOp, tok string, oid uuid.UUID, list map[string]struct{}, ctx string) opResult {
	x := w.x
	ident, authed := w.idp.m[tok]
	if w.idp.err != nil {
		authed = false
	}
	want := authed && mayDo(ident, list, op)
	before := w.st.Snapshot()
	var r opResult
	x.Guard(op.name, func() { r = op.run(d, w.ctx, tok, oid) })
	x.Op()
	switch {
	case want:
		if r.err != nil {
			x.Failf("denied:"+op.name, "%s by an entitled caller %+v on a list %s failed: %v (%s)", op.name, ident, setOf(list), r.err, ctx)
		}
	case !authed:
		if !errors.Is(r.err, d1.ErrNotAuthenticated) {
			x.Failf("unauthenticated:"+op.name, "%s without a valid token returned %v (%s)", op.name, r.err, ctx)
		}
	default:
		if !errors.Is(r.err, d1.ErrNotAuthorized) {
			x.Failf("unauthorized:"+op.name, "%s by %+v on a list %s returned %v, want not authorized (%s)", op.name, ident, setOf(list), r.err, ctx)
		}
	}
	if !want {
		if !r.zero {
			x.Failf("leak:"+op.name, "%s was denied but returned data %+v", op.name, r)
		}
		if w.st.Snapshot() != before {
			x.Failf("denied-write:"+op.name, "%s was denied but changed storage (%s)", op.name, ctx)
		}
	}
	return r
}

func d02Matrix(x *X, ng int, th bool) {
	op := dOps[x.Pick(len(dOps))]
	s := op.scope
	owns := []id.Scope{s, 0, id.ScopeAll &^ s, id.ScopeAll}
	own := owns[x.Pick(len(owns))]
	selfListed := x.Bool()
	gscopes := []id.Scope{s, id.ScopeAll &^ s, 0, id.ScopeAll}
	var groups []id.AccessGroup
	list := setFrom("owner", "removable")
	var names []string
	if selfListed {
		names = append(names, "caller")
		list["caller"] = struct{}{}
	}
	n := x.Pick(ng + 1)
	if ng == 3 && n != 3 {
		return
	}
	prev := 0
	for i := 0; i < n; i++ {
		// combinations with repetition: the groups are interchangeable, the iteration order is explored
		c := prev + x.Pick(8-prev)
		prev = c
		if ng == 3 && !th && c >= 6 {
			return // quick: three groups without the full scope
		}
		g := id.AccessGroup{ID: fmt.Sprintf("g%d", i), Scopes: gscopes[c/2]}
		groups = append(groups, g)
		if c%2 == 1 {
			names = append(names, g.ID)
			list[g.ID] = struct{}{}
		}
	}
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	tok := w.idp.User("caller", own, groups...)
	oid, err := w.d.Encrypt(w.ctx, owner, obj("secret", "meta"), append(names, "removable")...)
	if err != nil {
		x.Failf("setup", "Encrypt failed: %v", err)
	}
	x.Logf("%s own=%b listed=%v groups=%v list=%s", op.name, own, selfListed, groups, setOf(list))
	vsched.SetOrder(true)
	r := w.decide(w.d, op, tok, oid, list, fmt.Sprintf("own scopes %b, groups %v", own, groups))
	vsched.SetOrder(false)
	x.State(op.name, own, selfListed, groups, setOf(list))
	x.Out("%s %s", op.name, errName(r.err))
	if op.name == "Decrypt" && r.err == nil {
		checkObj(x, "granted", r.obj, nil, []byte("secret"), []byte("meta"))
	}
	if op.name == "GetAccessGroups" && r.err == nil && setOf(r.set) != setOf(list) {
		x.Failf("list", "GetAccessGroups returned %s, want %s", setOf(r.set), setOf(list))
	}
}

// Tokens the identity provider does not accept, also when it returns an identity with its error, and
// on objects that exist, are missing or are half there.
func d02Auth(x *X) {
	op := dOps[x.Pick(len(dOps))]
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	oid, err := w.d.Encrypt(w.ctx, owner, obj("secret", "meta"))
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	other, _ := w.d.Encrypt(w.ctx, owner, obj("secret2", "meta2"))
	state := x.Pick(4)
	switch state {
	case 1:
		delete(w.st.m, oidKey(0, oid))
	case 2:
		delete(w.st.m, oidKey(1, oid))
	case 3:
		delete(w.st.m, oidKey(0, oid))
		delete(w.st.m, oidKey(1, oid))
	}
	kind := x.Pick(6)
	tok := owner
	switch kind {
	case 0:
		tok = ""
	case 1:
		tok = "t:owner "
	case 2:
		tok = "owner"
	case 3: // the provider returns a full identity together with an error
		w.idp.err = errors.New("token expired")
	case 4:
		tok = "t:nobody"
		w.idp.m[tok] = id.Identity{}
	case 5:
		tok = w.idp.User("limited", id.ScopeAll&^op.scope)
	}
	x.Logf("%s token kind %d object state %d", op.name, kind, state)
	first := w.decide(w.d, op, tok, oid, setFrom("owner"), "auth")
	x.Out("%s %d %s", op.name, kind, errName(first.err))
	x.State(op.name, kind, state)
	// the refusal is repeated, and a good token still works afterwards
	w.decide(w.d, op, tok, oid, setFrom("owner"), "auth, again")
	w.idp.err = nil
	w.decide(w.d, op, owner, other, setFrom("owner"), "good token after refusals")
	if kind == 4 {
		return
	}
	// an accepted, scoped caller learns that a missing object is missing
	if state >= 2 {
		r := op.run(w.d, w.ctx, owner, oid)
		switch op.name {
		case "Encrypt", "Delete":
			if r.err != nil {
				x.Failf("missing:"+op.name, "%s failed: %v", op.name, r.err)
			}
		default:
			if !errors.Is(r.err, d1.ErrAccessNotFound) && !errors.Is(r.err, d1.ErrObjectNotFound) {
				x.Failf("missing:"+op.name, "%s on a missing object returned %v", op.name, r.err)
			}
		}
	}
}

// All 512 scope values of the caller, and of the only listed group.
func d02Scopes(x *X) {
	op := dOps[x.Pick(len(dOps))]
	v := id.Scope(x.Pick(512))
	via := x.Pick(3)
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	var tok string
	switch via {
	case 0:
		tok = w.idp.User("caller", v)
	case 1:
		tok = w.idp.User("caller", id.ScopeAll, id.AccessGroup{ID: "grp", Scopes: v})
	case 2:
		tok = w.idp.User("caller", v|id.Scope(1<<40), id.AccessGroup{ID: "grp", Scopes: id.ScopeAll})
	}
	list := setFrom("owner", "removable")
	names := []string{"removable"}
	if via == 0 {
		names = append(names, "caller")
		list["caller"] = struct{}{}
	} else {
		names = append(names, "grp")
		list["grp"] = struct{}{}
	}
	oid, err := w.d.Encrypt(w.ctx, owner, obj("secret", "meta"), names...)
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	r := w.decide(w.d, op, tok, oid, list, fmt.Sprintf("scopes %b via %d", v, via))
	x.State(op.name, v, via)
	x.Out("%s %s", op.name, errName(r.err))
}

var oddNames = []string{"", "a", "A", "a ", " a", "aa", "ab", "a\x00", "a\n", "\"", "\\", "a\"", "é", "e\u0301", "{}", "null", "a,b", "<a>", "\u2028", "\U0001F600", "caller", "Caller", "caller\x00",
	"*", "a*", ".*", "%", "?", "all", "any", "public", "everyone", "admin", "root", "a:b", "a/b", "a.b", "a|b", "a-b", "0", "00000000-0000-0000-0000-000000000000"}

// The list holds one ID, the caller (or a group of the caller) has another.
func d02Names(x *X) {
	on := oddNames[x.Pick(len(oddNames))]
	who := oddNames[x.Pick(len(oddNames))]
	asGroup := x.Bool()
	op := dOps[1+x.Pick(2)]
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	var tok string
	if asGroup {
		tok = w.idp.User("someone", id.ScopeAll, id.AccessGroup{ID: who, Scopes: id.ScopeAll})
	} else {
		tok = w.idp.User(who, id.ScopeAll)
	}
	oid, err := w.d.Encrypt(w.ctx, owner, obj("secret", "meta"), on)
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	r := w.decide(w.d, op, tok, oid, setFrom("owner", on), fmt.Sprintf("listed %q caller %q", on, who))
	x.State(on, who, asGroup, op.name)
	x.Out("%v %s", on == who, errName(r.err))
	// a group called like the caller's own ID neither adds to nor takes from the caller
	if !asGroup && on == who {
		tok = w.idp.User(who, id.ScopeAll&^op.scope, id.AccessGroup{ID: who, Scopes: id.ScopeAll})
		w.decide(w.d, op, tok, oid, setFrom("owner", on), "same-named group")
		tok = w.idp.User(who, id.ScopeAll, id.AccessGroup{ID: who, Scopes: 0})
		w.decide(w.d, op, tok, oid, setFrom("owner", on), "same-named group without scopes")
	}
}

// A caller in many groups, exactly one of which entitles.
func d02Many(x *X) {
	op := dOps[1+x.Pick(7)]
	n := 12
	good := x.Pick(n + 1)
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	list := setFrom("owner", "removable")
	names := []string{"removable"}
	var gs []id.AccessGroup
	for i := 0; i < n; i++ {
		g := id.AccessGroup{ID: fmt.Sprintf("g%02d", i), Scopes: id.ScopeAll}
		if i%2 == 0 { // listed
			g.Scopes &^= op.scope
			if i == good {
				g.Scopes = op.scope
			}
			names = append(names, g.ID)
			list[g.ID] = struct{}{}
		} else if i == good {
			names = append(names, g.ID)
			list[g.ID] = struct{}{}
		}
		gs = append(gs, g)
	}
	tok := w.idp.User("caller", id.ScopeAll, gs...)
	oid, err := w.d.Encrypt(w.ctx, owner, obj("secret", "meta"), names...)
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	vsched.SetOrder(true)
	r := w.decide(w.d, op, tok, oid, list, fmt.Sprintf("12 groups, good one %d", good))
	vsched.SetOrder(false)
	x.State(op.name, good)
	x.Out("%s %s", op.name, errName(r.err))
}

// A caller in any number of groups, a list of any length: one group entitles, or none does.
func d02Crowd(x *X) {
	op := dOps[1+x.Pick(7)]
	sizes := []int{1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 512, 1000}
	n := sizes[x.Pick(len(sizes))]
	m := []int{0, 20, 300}[x.Pick(3)]
	kind := x.Pick(5) // which group is on the list with its scope; 4: none is
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	gname := func(i int) string { return fmt.Sprintf("g%04d", i) }
	good := []int{0, n - 1, n / 2, n / 3, -1}[kind]
	list := setFrom("owner", "removable")
	for i := 0; i < m; i++ {
		list[fmt.Sprintf("l%04d", i)] = struct{}{}
	}
	var gs []id.AccessGroup
	for i := 0; i < n; i++ {
		g := id.AccessGroup{ID: gname(i), Scopes: id.ScopeAll}
		switch {
		case i == good:
			list[g.ID] = struct{}{}
		case i%2 == 0: // listed without the scope
			g.Scopes &^= op.scope
			list[g.ID] = struct{}{}
		}
		gs = append(gs, g)
	}
	tok := w.idp.User("caller", id.ScopeAll, gs...)
	delete(list, "owner")
	oid, err := w.d.Encrypt(w.ctx, owner, obj("secret", "meta"), keysOf(list)...)
	list["owner"] = struct{}{}
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	r := w.decide(w.d, op, tok, oid, list, fmt.Sprintf("%d groups, good one %d", n, good))
	x.State(op.name, n, m, kind)
	x.Out("%s %s", op.name, errName(r.err))
}

// Two tokens, however similar, stand for two callers.
func d02Tokens(x *X) {
	toks := longTokens()
	a, b := toks[x.Pick(len(toks))], toks[x.Pick(len(toks))]
	kind := x.Pick(3)
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	w.idp.m[a] = id.Identity{ID: "listed", Scopes: id.ScopeAll}
	if a != b {
		switch kind {
		case 0:
			w.idp.m[b] = id.Identity{ID: "stranger", Scopes: id.ScopeAll}
		case 1:
			w.idp.m[b] = id.Identity{ID: "listed", Scopes: id.ScopeNone}
		}
	}
	oid, err := w.d.Encrypt(w.ctx, owner, obj("secret", "meta"), "listed", "removable")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	list := setFrom("owner", "listed", "removable")
	w.decide(w.d, dOps[1], a, oid, list, "first token")
	for _, i := range []int{0, 1, 2, 4, 5, 7, 3} {
		w.decide(w.d, dOps[i], b, oid, list, fmt.Sprintf("token %q after %q", clip(b, 30), clip(a, 30)))
		if a == b && i == 5 {
			list["added"] = struct{}{}
		}
	}
	if a != b {
		w.decide(w.d, dOps[1], a, oid, list, "first token again")
	}
	x.State(clip(a, 12), clip(b, 12), len(a), len(b), kind)
}

// Histories: the decision depends on nothing but the caller's present entitlement.
func d02History(x *X, depth int) {
	w := NewWorld(x)
	d2 := w.Instance(w.st)
	list := setFrom("owner", "team")
	owner := w.idp.User("owner", id.ScopeAll)
	member := w.idp.User("member", id.ScopeAll, id.AccessGroup{ID: "team", Scopes: id.ScopeAll}, id.AccessGroup{ID: "club", Scopes: id.ScopeAll})
	weak := w.idp.User("weak", id.ScopeAll, id.AccessGroup{ID: "team", Scopes: id.ScopeDecrypt})
	stranger := w.idp.User("stranger", id.ScopeAll, id.AccessGroup{ID: "club", Scopes: id.ScopeAll})
	toks := []string{owner, member, weak, stranger}
	oid, err := w.d.Encrypt(w.ctx, owner, obj("secret", "meta"), "team")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	foreign, err := w.d.Encrypt(w.ctx, stranger, obj("foreign", "meta"))
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	flist := setFrom("stranger")
	alive := true
	step := func(d *d1.D1, op dOp, tok string) {
		x.Logf("%s by %s", op.name, tok)
		if !alive && op.existing {
			r := op.run(d, w.ctx, tok, oid)
			_, authed := w.idp.m[tok]
			scoped := authed && uint64(w.idp.m[tok].Scopes)&uint64(op.scope) == uint64(op.scope)
			switch {
			case !authed:
				if !errors.Is(r.err, d1.ErrNotAuthenticated) {
					x.Failf("gone-unauthenticated", "%s returned %v", op.name, r.err)
				}
			case !scoped:
				if !errors.Is(r.err, d1.ErrNotAuthorized) {
					x.Failf("gone-unauthorized", "%s returned %v", op.name, r.err)
				}
			case op.name == "Delete":
				if r.err != nil {
					x.Failf("gone-delete", "Delete of a deleted object returned %v", r.err)
				}
			case !errors.Is(r.err, d1.ErrAccessNotFound) && !errors.Is(r.err, d1.ErrObjectNotFound):
				x.Failf("gone", "%s on a deleted object returned %v", op.name, r.err)
			}
			return
		}
		r := w.decide(d, op, tok, oid, list, "history")
		if r.err == nil {
			switch op.name {
			case "AddGroupsToAccess":
				list["added"] = struct{}{}
			case "RemoveGroupsFromAccess":
				delete(list, "removable")
			case "Delete":
				alive = false
			}
		}
	}
	for i := 0; i < depth; i++ {
		c := x.Pick(1 + 32 + 9)
		if c == 0 {
			break
		}
		c--
		if c < 32 {
			step(w.d, dOps[c%8], toks[c/8])
			continue
		}
		switch c - 32 {
		case 0: // the caller loses scopes
			w.idp.User("owner", id.ScopeIndex)
			x.Logf("owner loses scopes")
		case 1:
			w.idp.User("member", id.ScopeAll, id.AccessGroup{ID: "club", Scopes: id.ScopeAll})
			x.Logf("member leaves the team")
		case 2:
			w.idp.User("weak", id.ScopeAll, id.AccessGroup{ID: "team", Scopes: id.ScopeAll})
			x.Logf("team regains scopes for weak")
		case 3:
			w.idp.User("stranger", id.ScopeAll, id.AccessGroup{ID: "team", Scopes: id.ScopeAll})
			x.Logf("stranger joins the team")
		case 4:
			delete(w.idp.m, owner)
			x.Logf("owner's token expires")
		case 5:
			if alive {
				if _, ok := w.idp.m[owner]; ok && w.idp.m[owner].Scopes == id.ScopeAll {
					if err := w.d.RemoveGroupsFromAccess(w.ctx, owner, oid, "team"); err != nil {
						x.Failf("remove", "%v", err)
					}
					delete(list, "team")
					x.Logf("team is removed from the list")
				}
			}
		case 6:
			if alive {
				if _, ok := w.idp.m[owner]; ok && w.idp.m[owner].Scopes == id.ScopeAll {
					if err := d2.AddGroupsToAccess(w.ctx, owner, oid, "club"); err != nil {
						x.Failf("add", "%v", err)
					}
					list["club"] = struct{}{}
					x.Logf("club is added to the list")
				}
			}
		case 7: // a foreign object is read
			for _, t := range toks {
				w.decide(w.d, dOps[1], t, foreign, flist, "foreign object")
			}
		case 8:
			if err := w.d.AddGroupsToAccess(w.ctx, stranger, foreign, "owner", "team"); err != nil {
				x.Failf("add-foreign", "%v", err)
			}
			flist["owner"], flist["team"] = struct{}{}, struct{}{}
			x.Logf("the foreign object is shared")
		}
	}
	d := w.d
	if x.Bool() {
		d = d2
	}
	for _, op := range []int{7, 1, 4} {
		for _, t := range toks {
			step(d, dOps[op], t)
		}
	}
	for _, t := range toks {
		w.decide(d, dOps[1], t, foreign, flist, "foreign object at the end")
	}
	x.State(setOf(list), setOf(flist), alive, len(w.idp.m))
	x.Out("%s %v", setOf(list), alive)
}

var _ io.Provider = (*Store)(nil)
