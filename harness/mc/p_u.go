package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"verif.local/shim/vsched"
)

func init() {
	register(&Prop{
		ID: "U01", Level: "model_checking",
		Rule: "All histories up to the depth of creating users, logging in (with current, outdated, foreign and malformed passwords), changing passwords, creating groups, adding, removing and deleting, by every existing token, through two instances; " +
			"after each history every user is tried with every password ever issued and every token resolved, and compared with a reference model. Distinct = distinct model states.",
		Scenarios: func(th bool) []*Scenario {
			d := 6
			if th {
				d = 7
			}
			return []*Scenario{
				{Name: "history", Body: func(x *X) { u01History(x, d, 0) }, Shard: 2},
				{Name: "history-two-users", Body: func(x *X) { u01History(x, d-2, 1) }, Shard: 2},
				{Name: "history-groups", Body: func(x *X) { u01History(x, d-2, 2) }, Shard: 2},
				{Name: "passwords", Body: u01Passwords},
				{Name: "scopes", Body: u01Scopes},
				{Name: "many-groups", Body: u01Many, Order: 1},
				{Name: "providers", Body: u01Providers},
				{Name: "ids", Body: u01IDs},
				{Name: "id-variants", Body: u01Variants},
				{Name: "group-scopes", Body: u01GroupScopes, Shard: 1},
				{Name: "login-errors", Body: u01LoginErrors, Shard: 1},
			}
		},
	})
	register(&Prop{
		ID: "U02", Level: "model_checking",
		Rule: "All combinations of caller token (valid, expired, of a foreign instance, of a deleted user, malformed), caller memberships, target user, target memberships, named groups (none, one, several, repeated, unknown, user IDs, empty, near-copies of known IDs) for adding and removing, in every order of looking at maps, and all histories of membership calls up to the depth; " +
			"effects and the ability of every user to authenticate are compared with a reference model. Distinct = distinct cases and model states.",
		Scenarios: func(th bool) []*Scenario {
			d := 3
			if th {
				d = 4
			}
			return []*Scenario{
				{Name: "decisions", Body: u02Decisions, Shard: 3, Order: 1},
				{Name: "history", Body: func(x *X) { u02History(x, d) }, Shard: 2},
				{Name: "creation", Body: u02Creation},
				{Name: "id-variants", Body: u01Variants},
				{Name: "group-scopes", Body: u01GroupScopes, Shard: 1},
				{Name: "lists", Body: func(x *X) { u02Lists(x, th) }, Shard: 2},
			}
		},
	})
}

// ---- reference model ---------------------------------------------------------------

type mUser struct {
	uid     string
	pw      string
	old     []string
	scopes  id.Scope
	groups  map[string]struct{}
	deleted bool
}

type mToken struct {
	s     string
	owner int
}

type uWorld struct {
	*World
	sa     []*id.Standalone
	users  []*mUser
	gids   []string
	gscope map[string]id.Scope
	toks   []mToken
	step   int
}

func newU(x *X) *uWorld {
	w := &uWorld{World: NewWorld(x), gscope: map[string]id.Scope{}}
	w.st.Quiet = true
	w.sa = []*id.Standalone{w.Standalone(w.st), w.Standalone(w.st)}
	return w
}

func (w *uWorld) in() *id.Standalone { w.step++; return w.sa[w.step%len(w.sa)] }

func (w *uWorld) newUser(scopes ...id.Scope) *mUser {
	u, p, err := w.in().NewUser(w.ctx, scopes...)
	w.x.Op()
	if err != nil {
		w.x.Failf("new-user", "creating a user on working storage failed: %v", err)
	}
	for _, o := range w.users {
		if o.uid == u {
			w.x.Failf("uid-reused", "two users have the ID %s", u)
		}
		if o.pw == p {
			w.x.Failf("password-reused", "two users have the same password")
		}
	}
	m := &mUser{uid: u, pw: p, scopes: unionOf(scopes), groups: map[string]struct{}{}}
	w.users = append(w.users, m)
	w.x.Logf("new user %d", len(w.users)-1)
	return m
}

func unionOf(s []id.Scope) (r id.Scope) {
	for _, v := range s {
		r |= v
	}
	return
}

// login logs user i in and checks the result against the model.
func (w *uWorld) login(i int, pw string, keep bool) bool {
	u := w.users[i]
	t, exp, err := w.in().LoginUser(w.ctx, u.uid, pw)
	w.x.Op()
	want := !u.deleted && pw == u.pw
	if (err == nil) != want {
		w.x.Failf("login", "login of user %d (deleted %v) with %s: %v", i, u.deleted, w.pwName(i, pw), err)
	}
	if err != nil {
		if !errors.Is(err, id.ErrNotAuthenticated) {
			w.x.Failf("login-error", "a failed login returned %v", err)
		}
		if t != "" || exp != 0 {
			w.x.Failf("login-leak", "a failed login returned %q, %d", t, exp)
		}
		return false
	}
	if keep {
		w.toks = append(w.toks, mToken{t, i})
	} else {
		w.identity(mToken{t, i})
	}
	return true
}

func (w *uWorld) pwName(i int, pw string) string {
	for j, u := range w.users {
		if u.pw == pw {
			return fmt.Sprintf("the current password of user %d", j)
		}
		for _, o := range u.old {
			if o == pw {
				return fmt.Sprintf("a former password of user %d", j)
			}
		}
	}
	return "some other password"
}

// identity resolves a token and compares with the model.
func (w *uWorld) identity(t mToken) {
	u := w.users[t.owner]
	ident, err := w.in().GetIdentity(w.ctx, t.s)
	w.x.Op()
	if (err == nil) != !u.deleted {
		w.x.Failf("identity", "token of user %d (deleted %v) resolves with error %v", t.owner, u.deleted, err)
	}
	if err != nil {
		if ident.ID != "" || ident.Scopes != 0 || len(ident.Groups) != 0 {
			w.x.Failf("identity-leak", "an invalid token yields %+v", ident)
		}
		return
	}
	if got, want := identStr(ident), w.wantIdent(u); got != want {
		w.x.Failf("identity-value", "token of user %d resolves to %s, want %s", t.owner, got, want)
	}
}

func identStr(i id.Identity) string {
	var gs []string
	for k, g := range i.Groups {
		gs = append(gs, fmt.Sprintf("%s=%s:%d", k, g.ID, g.Scopes))
	}
	sort.Strings(gs)
	return fmt.Sprintf("%s/%d/%v", i.ID, i.Scopes, gs)
}

func (w *uWorld) wantIdent(u *mUser) string {
	i := id.Identity{ID: u.uid, Scopes: u.scopes, Groups: map[string]id.AccessGroup{}}
	for g := range u.groups {
		i.Groups[g] = id.AccessGroup{ID: g, Scopes: w.gscope[g]}
	}
	return identStr(i)
}

func (w *uWorld) change(i int, pw string) {
	u := w.users[i]
	np, err := w.in().ChangeUserPassword(w.ctx, u.uid, pw)
	w.x.Op()
	want := !u.deleted && pw == u.pw
	if (err == nil) != want {
		w.x.Failf("change", "changing the password of user %d (deleted %v) with %s: %v", i, u.deleted, w.pwName(i, pw), err)
	}
	if err != nil {
		if !errors.Is(err, id.ErrNotAuthenticated) || np != "" {
			w.x.Failf("change-error", "a refused password change returned %q, %v", np, err)
		}
		return
	}
	for _, o := range w.users {
		for _, p := range append([]string{o.pw}, o.old...) {
			if p == np {
				w.x.Failf("password-reused", "a changed password was issued before")
			}
		}
	}
	u.old = append(u.old, u.pw)
	u.pw = np
}

func (w *uWorld) newGroup(t mToken, scopes ...id.Scope) string {
	u := w.users[t.owner]
	g, err := w.in().NewGroup(w.ctx, t.s, scopes...)
	w.x.Op()
	if (err == nil) != !u.deleted {
		w.x.Failf("new-group", "creating a group with the token of user %d (deleted %v): %v", t.owner, u.deleted, err)
	}
	if err != nil {
		if g != "" {
			w.x.Failf("new-group-leak", "a failed creation returned the group %q", g)
		}
		return ""
	}
	for _, o := range w.gids {
		if o == g {
			w.x.Failf("gid-reused", "two groups have the ID %s", g)
		}
	}
	w.gids = append(w.gids, g)
	w.gscope[g] = unionOf(scopes)
	u.groups[g] = struct{}{}
	w.x.Logf("user %d creates group %d", t.owner, len(w.gids)-1)
	return g
}

// member adds or removes and checks the decision.
func (w *uWorld) member(add bool, t mToken, target int, gids ...string) {
	caller, u := w.users[t.owner], w.users[target]
	var err error
	if add {
		err = w.in().AddUserToGroups(w.ctx, t.s, u.uid, gids...)
	} else {
		err = w.in().RemoveUserFromGroups(w.ctx, t.s, u.uid, gids...)
	}
	w.x.Op()
	want := !caller.deleted && !u.deleted
	for _, g := range gids {
		if _, ok := caller.groups[g]; !ok {
			want = false
		}
	}
	if (err == nil) != want {
		w.x.Failf("membership", "add=%v by user %d (deleted %v, in %d groups) of user %d (deleted %v), %d groups named: %v", add, t.owner, caller.deleted, len(caller.groups), target, u.deleted, len(gids), err)
	}
	if err != nil {
		return
	}
	for _, g := range gids {
		if add {
			u.groups[g] = struct{}{}
		} else {
			delete(u.groups, g)
		}
	}
}

func (w *uWorld) deleteUser(t mToken, target int) {
	caller := w.users[t.owner]
	err := w.in().DeleteUser(w.ctx, t.s, w.users[target].uid)
	w.x.Op()
	if (err == nil) != !caller.deleted {
		w.x.Failf("delete", "deleting user %d with the token of user %d (deleted %v): %v", target, t.owner, caller.deleted, err)
	}
	if err == nil {
		w.users[target].deleted = true
		w.x.Logf("user %d deletes user %d", t.owner, target)
	}
}

// verify compares everything observable with the model.
func (w *uWorld) verify() {
	for _, t := range w.toks {
		w.identity(t)
	}
	var all []string
	for _, u := range w.users {
		all = append(all, u.pw)
		all = append(all, u.old...)
	}
	all = append(all, "", "wrong")
	for i := range w.users {
		for _, p := range all {
			w.login(i, p, false)
		}
	}
	if _, _, err := w.in().LoginUser(w.ctx, "no such user", w.users[0].pw); !errors.Is(err, id.ErrNotAuthenticated) {
		w.x.Failf("login-unknown", "login of an unknown user: %v", err)
	}
}

func (w *uWorld) state() string {
	var b strings.Builder
	gi := map[string]int{}
	for i, g := range w.gids {
		gi[g] = i
	}
	for _, u := range w.users {
		var gs []int
		for g := range u.groups {
			gs = append(gs, gi[g])
		}
		sort.Ints(gs)
		fmt.Fprintf(&b, "%v,%d,%d,%v;", u.deleted, u.scopes, len(u.old), gs)
	}
	for _, t := range w.toks {
		fmt.Fprintf(&b, "t%d", t.owner)
	}
	return b.String()
}

func (w *uWorld) check(err error, what string) {
	if err != nil {
		w.x.Failf("setup", "%s: %v", what, err)
	}
}

// ---- U01 -----------------------------------------------------------------------------

func u01History(x *X, depth, start int) {
	w := newU(x)
	if start >= 1 {
		w.newUser(id.ScopeDecrypt)
		w.newUser(id.ScopeAll)
		w.login(0, w.users[0].pw, true)
		w.login(1, w.users[1].pw, true)
	}
	if start >= 2 {
		w.newGroup(w.toks[0], id.ScopeEncrypt)
		w.newGroup(w.toks[1], id.ScopeDecrypt, id.ScopeIndex)
		w.member(true, w.toks[0], 1, w.gids[0])
	}
	type step struct {
		name string
		f    func()
	}
	for i := 0; i < depth; i++ {
		var steps []step
		add := func(name string, f func()) { steps = append(steps, step{name, f}) }
		if len(w.users) < 3 {
			add("new user", func() { w.newUser([]id.Scope{id.ScopeDecrypt, id.ScopeAll, 0}[len(w.users)]) })
		}
		for u := range w.users {
			u := u
			m := w.users[u]
			add(fmt.Sprintf("login %d", u), func() { w.login(u, m.pw, true) })
			add(fmt.Sprintf("change password %d", u), func() { w.change(u, m.pw) })
			if len(m.old) > 0 {
				add(fmt.Sprintf("former password %d", u), func() {
					w.login(u, m.old[0], false)
					w.change(u, m.old[len(m.old)-1])
				})
			}
			o := w.users[(u+1)%len(w.users)]
			if o != m {
				add(fmt.Sprintf("foreign password %d", u), func() { w.change(u, o.pw) })
			}
		}
		seen := map[int]bool{}
		for _, t := range w.toks {
			t := t
			if seen[t.owner] {
				continue // tokens of one user behave alike; verify looks at all of them
			}
			seen[t.owner] = true
			if len(w.gids) < 2 {
				add(fmt.Sprintf("new group by %d", t.owner), func() { w.newGroup(t, id.ScopeUpdate, id.ScopeIndex) })
			}
			for u := range w.users {
				u := u
				add(fmt.Sprintf("%d deletes %d", t.owner, u), func() { w.deleteUser(t, u) })
				if len(w.gids) > 0 {
					g := w.gids[len(w.gids)-1]
					add(fmt.Sprintf("%d adds %d", t.owner, u), func() { w.member(true, t, u, g) })
					add(fmt.Sprintf("%d removes %d", t.owner, u), func() { w.member(false, t, u, g) })
				}
			}
		}
		c := x.Pick(len(steps) + 1)
		if c == 0 {
			break
		}
		x.Logf("%s", steps[c-1].name)
		steps[c-1].f()
	}
	x.State(w.state())
	x.Out("%s", w.state())
	if len(w.users) > 0 {
		w.verify()
	}
}

func u01Passwords(x *X) {
	w := newU(x)
	w.newUser(id.ScopeAll)
	w.newUser(id.ScopeAll)
	rounds := x.Pick(5)
	for i := 0; i < rounds; i++ {
		w.change(0, w.users[0].pw)
	}
	w.login(0, w.users[0].pw, true)
	pw := w.users[0].pw
	bad := []string{"", " ", pw + " ", " " + pw, pw + "\n", pw[:len(pw)-1], pw[1:], strings.ToLower(pw), strings.ToUpper(pw), pw + pw, pw + "A", "\x00", pw[:0] + "\x00" + pw, strings.Repeat("a", 1000), w.users[0].uid, w.users[1].pw, "\xff\xfe"}
	for i := range pw {
		for _, c := range []byte("A0_-") {
			if pw[i] != c {
				bad = append(bad, pw[:i]+string(rune(c))+pw[i+1:])
			}
		}
	}
	before := w.st.Snapshot()
	for _, b := range bad {
		if b == pw {
			continue
		}
		w.login(0, b, false)
		w.change(0, b)
		x.State(rounds, b)
	}
	if w.st.Snapshot() != before {
		x.Failf("failed-login-writes", "refused logins changed storage")
	}
	w.verify()
	// unknown and malformed user IDs
	for _, u := range []string{"", "x", w.users[0].uid[1:], w.users[0].uid + " ", strings.ToUpper(w.users[0].uid) + "!", "\x00", strings.Repeat("u", 5000)} {
		t, e, err := w.in().LoginUser(w.ctx, u, pw)
		if !errors.Is(err, id.ErrNotAuthenticated) || t != "" || e != 0 {
			x.Failf("login-unknown", "login of %q: %v", clip(u, 20), err)
		}
		p, err := w.in().ChangeUserPassword(w.ctx, u, pw)
		if !errors.Is(err, id.ErrNotAuthenticated) || p != "" {
			x.Failf("change-unknown", "password change of %q: %v", clip(u, 20), err)
		}
		x.Op()
	}
	x.Out("%d", rounds)
}

// Scopes given in any splitting arrive as their union, at creation of users and groups.
func u01Scopes(x *X) {
	w := newU(x)
	var ss []id.Scope
	bits := []id.Scope{id.ScopeEncrypt, id.ScopeDecrypt, id.ScopeUpdate, id.ScopeDelete, id.ScopeCreateToken, id.ScopeGetTokenContents, id.ScopeGetAccessGroups, id.ScopeModifyAccessGroups, id.ScopeIndex, id.ScopeEnd, 1 << 63, id.ScopeAll, 0}
	for i := 0; i < 3; i++ {
		c := x.Pick(len(bits) + 1)
		if c == 0 {
			break
		}
		ss = append(ss, bits[c-1])
	}
	w.newUser(ss...)
	w.login(0, w.users[0].pw, true)
	w.newGroup(w.toks[0], ss...)
	w.newGroup(w.toks[0])
	w.verify()
	w.change(0, w.users[0].pw)
	w.member(true, w.toks[0], 0, w.gids[1])
	w.verify()
	x.State(ss)
}

func u01Many(x *X) {
	w := newU(x)
	w.newUser(id.ScopeIndex)
	w.newUser(id.ScopeAll)
	w.login(0, w.users[0].pw, true)
	ns := []int{1, 2, 3, 12, 17, 33, 65, 100, 257}
	n := ns[x.Pick(len(ns))]
	for i := 0; i < n; i++ {
		w.newGroup(w.toks[0], id.Scope(i))
	}
	w.login(1, w.users[1].pw, true)
	w.member(true, w.toks[0], 1, w.gids...)
	if n <= 3 {
		vsched.SetOrder(true)
	}
	w.identity(w.toks[1])
	if x.Bool() {
		w.member(false, w.toks[1], 1, w.gids[:(n+1)/2]...)
		w.identity(w.toks[1])
		w.identity(w.toks[0])
	}
	vsched.SetOrder(false)
	w.verify()
	x.State(n, w.state())
}

// The same short history on every bundled provider.
func u01Providers(x *X) {
	kind := []string{"mem", "bolt"}[x.Pick(2)]
	w := newU(x)
	p := makeProvider(x, kind)
	w.sa = []*id.Standalone{w.Standalone(p), w.Standalone(p)}
	w.newUser(id.ScopeAll)
	w.newUser(id.ScopeDecrypt)
	w.login(0, w.users[0].pw, true)
	w.login(1, w.users[1].pw, true)
	w.newGroup(w.toks[0], id.ScopeDelete)
	order := x.Pick(4)
	w.member(true, w.toks[0], 1, w.gids[0])
	w.verify()
	w.change(1, w.users[1].pw)
	if order&1 != 0 {
		w.member(false, w.toks[1], 0, w.gids[0])
	}
	w.verify()
	if order&2 != 0 {
		w.deleteUser(w.toks[1], 0)
	} else {
		w.deleteUser(w.toks[1], 1)
	}
	w.deleteUser(w.toks[0], 1)
	w.verify()
	x.State(kind, order)
}

// Users and groups are never confused with each other, with objects or with index entries.
func u01IDs(x *X) {
	w := newU(x)
	w.newUser(id.ScopeAll)
	w.login(0, w.users[0].pw, true)
	u := w.users[0].uid
	// a new user or group picking an ID that is in use is refused and changes nothing
	which := x.Pick(3)
	before := w.st.Snapshot()
	switch which {
	case 0:
		forceUUID(u)
		n, p, err := w.in().NewUser(w.ctx, id.ScopeAll)
		if len(uuids.forced) > 0 {
			return // identifiers come from elsewhere
		}
		if !errors.Is(err, id.ErrUserAlreadyExists) || n != "" || p != "" {
			x.Failf("collision", "a user picking an ID in use: %q %v", n, err)
		}
	case 1:
		g := w.newGroup(w.toks[0], id.ScopeIndex)
		before = w.st.Snapshot()
		forceUUID(g)
		n, err := w.in().NewGroup(w.ctx, w.toks[0].s, id.ScopeAll)
		if len(uuids.forced) > 0 {
			return
		}
		if !errors.Is(err, id.ErrGroupAlreadyExists) || n != "" {
			x.Failf("collision", "a group picking an ID in use: %q %v", n, err)
		}
	case 2:
		forceUUID(u) // a group with the ID of a user is another record
		g := w.newGroup(w.toks[0], id.ScopeIndex)
		if g != u && len(uuids.forced) == 0 {
			x.Failf("gid", "NewGroup returned %q instead of the ID it drew", g)
		}
		before = w.st.Snapshot()
	}
	x.Op()
	if w.st.Snapshot() != before {
		x.Failf("collision-writes", "a refused creation changed storage")
	}
	w.verify()
	x.State(which)
}

// ---- U02 -----------------------------------------------------------------------------

func u02Decisions(x *X) {
	w := newU(x)
	for i := 0; i < 3; i++ {
		w.newUser(id.ScopeAll)
		w.login(i, w.users[i].pw, true)
	}
	for i := 0; i < 2; i++ {
		w.newGroup(w.toks[2], id.ScopeAll)
	}
	caller, target := 0, []int{0, 1}[x.Pick(2)]
	memb := func(u, mask int) {
		for i := 0; i < 2; i++ {
			if mask&(1<<i) != 0 {
				w.member(true, w.toks[2], u, w.gids[i])
			}
		}
	}
	memb(caller, x.Pick(4))
	if target != caller {
		memb(target, x.Pick(4))
	}
	g0, g1 := w.gids[0], w.gids[1]
	uid, vid := w.users[0].uid, w.users[1].uid
	lists := [][]string{nil, {g0}, {g1}, {g0, g1}, {g1, g0}, {g0, g0}, {g0, "unknown"}, {"unknown", g0}, {"unknown"}, {""}, {uid}, {vid}, {g0, uid}, {vid, g0}, {g0 + " "}, {strings.ToUpper(g0)}, {g0, ""}, {g0 + "," + g1}}
	list := lists[x.Pick(len(lists))]
	add := x.Bool()
	tok := x.Pick(8)
	t := w.toks[caller].s
	valid := tok == 0
	switch tok {
	case 1:
		t = ""
	case 2:
		t = "junk"
	case 3: // another token key
		c := saConfig()
		c.TEK = seq(32, 201)
		f, err := id.NewStandalone(c, w.st)
		w.check(err, "new")
		t, _, err = f.LoginUser(w.ctx, uid, w.users[0].pw)
		w.check(err, "login")
	case 4: // expired
		if !virtualTime(x) {
			return
		}
		e, err := data.TokenFromString(t)
		w.check(err, "token")
		vsched.SetClock(e.ExpiryTime.Add(time.Second))
	case 5: // altered
		t = alterToken(x, t)
	case 6: // an unsealed claim
		t = uid
	case 7: // the caller was deleted
		w.check(w.sa[0].DeleteUser(w.ctx, w.toks[2].s, uid), "delete")
		w.users[0].deleted = true
	}
	vsched.SetOrder(true)
	before := w.st.Snapshot()
	if valid {
		w.member(add, mToken{t, caller}, target, list...)
		if len(list) == 0 {
			before = w.st.Snapshot()
		}
	} else {
		var err error
		if add {
			err = w.in().AddUserToGroups(w.ctx, t, w.users[target].uid, list...)
		} else {
			err = w.in().RemoveUserFromGroups(w.ctx, t, w.users[target].uid, list...)
		}
		x.Op()
		if err == nil {
			x.Failf("invalid-token", "a membership change with an invalid token (%d) succeeded", tok)
		}
		if w.st.Snapshot() != before {
			x.Failf("invalid-token-writes", "a refused membership change wrote to storage")
		}
	}
	vsched.SetOrder(false)
	vsched.SetClock(time.Time{})
	w.verify()
	x.State(target, list, add, tok, w.state())
	x.Out("%d %v", tok, add)
}

func u02History(x *X, depth int) {
	w := newU(x)
	for i := 0; i < 3; i++ {
		w.newUser(id.ScopeAll)
		w.login(i, w.users[i].pw, true)
	}
	w.newGroup(w.toks[0], id.ScopeEncrypt)
	w.newGroup(w.toks[1], id.ScopeDecrypt)
	lists := [][]int{{0}, {1}, {0, 1}}
	n := 2 * 3 * 3 * len(lists)
	for i := 0; i < depth; i++ {
		c := x.Pick(n + 4)
		if c == 0 {
			break
		}
		c--
		if c >= n {
			switch c - n {
			case 0:
				w.deleteUser(w.toks[2], 0)
			case 1:
				w.newGroup(w.toks[2], id.ScopeAll)
			case 2:
				w.change(1, w.users[1].pw)
			}
			continue
		}
		add, t, u, l := c%2 == 0, c/2%3, c/6%3, c/18
		var gs []string
		for _, g := range lists[l] {
			gs = append(gs, w.gids[g])
		}
		w.member(add, w.toks[t], u, gs...)
		x.Logf("add=%v user %d changes user %d groups %v", add, t, u, lists[l])
	}
	x.State(w.state())
	x.Out("%s", w.state())
	w.verify()
}

func u02Creation(x *X) {
	w := newU(x)
	for i := 0; i < 2; i++ {
		w.newUser(id.ScopeAll)
		w.login(i, w.users[i].pw, true)
	}
	before := w.st.Snapshot()
	bad := []string{"", "junk", w.users[0].uid, alterToken(x, w.toks[0].s), w.toks[0].s[1:]}
	t := x.Pick(len(bad) + 1)
	if t > 0 {
		for i := 0; i < 3; i++ {
			var err error
			switch i {
			case 0:
				var g string
				g, err = w.in().NewGroup(w.ctx, bad[t-1], id.ScopeAll)
				if g != "" {
					x.Failf("creation-leak", "a refused creation returned %q", g)
				}
			case 1:
				err = w.in().DeleteUser(w.ctx, bad[t-1], w.users[1].uid)
			case 2:
				err = w.in().DeleteUser(w.ctx, bad[t-1], w.users[0].uid)
			}
			x.Op()
			if err == nil {
				x.Failf("invalid-token", "a call with an invalid token succeeded")
			}
		}
		if w.st.Snapshot() != before {
			x.Failf("invalid-token-writes", "a refused call wrote to storage")
		}
	} else {
		w.newGroup(w.toks[0], id.ScopeDelete, id.ScopeIndex)
		w.newGroup(w.toks[1])
		if !bytes.Contains([]byte(w.wantIdent(w.users[0])), []byte(w.gids[0])) {
			x.Failf("harness", "model")
		}
	}
	w.verify()
	x.State(t)
	_ = io.DataTypeSealedObject
}

// alterToken flips a bit of the token's ciphertext.
func alterToken(x *X, s string) string {
	t, err := data.TokenFromString(s)
	if err != nil || len(t.Ciphertext) == 0 {
		x.Failf("setup", "a fresh token cannot be parsed: %v", err)
	}
	t.Ciphertext[len(t.Ciphertext)/2] ^= 1
	if s, err = t.String(); err != nil {
		x.Failf("setup", "%v", err)
	}
	return s
}
