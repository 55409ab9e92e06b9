package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"

	"github.com/cybercryptio/d1-lib/v2/id"
)

func init() {
	register(&Prop{
		ID: "U04", Level: "fault_enumeration",
		Rule: "Every user and group operation from several states, with every subset of up to the bound of its storage calls (and those of its repetitions) failing before or after taking effect or the process stopping there, with plain and wrapped provider errors; " +
			"afterwards users, groups, tokens and records of others are compared with their old and intended states, directly in storage and through a fresh instance, and the call is repeated. Distinct = distinct (operation, fault set, outcome).",
		Scenarios: func(th bool) []*Scenario {
			f := 3
			if th {
				f = 5
			}
			return []*Scenario{
				{Name: "faults", Body: func(x *X) { u04Faults(x, false) }, Faults: f, Shard: 3},
				{Name: "crashes", Body: func(x *X) { u04Faults(x, true) }, Faults: f, Shard: 3},
				{Name: "history", Body: func(x *X) { u04History(x) }, Faults: f, Shard: 3},
				{Name: "errors", Body: u04Errors, Shard: 2},
				{Name: "collisions", Body: u04Collisions},
			}
		},
	})
}

// storedUser is a user's record as the master key sees it.
type storedUser struct {
	ok     bool
	hash   string
	scopes uint64
	groups string
}

func readUser(x *X, st *Store, uid string) storedUser {
	b, ok := st.m[rkey{id.DataTypeSealedUser, uid}]
	if !ok {
		return storedUser{}
	}
	s, err := tryParseSealed(b)
	var pj []byte
	if err == nil {
		pj, _, err = refOpen(saConfig().UEK, s.WrappedKey, s.Ciphertext, mustJSON(uid))
	}
	var ru refUser
	if err == nil {
		err = json.Unmarshal(pj, &ru)
	}
	if err != nil {
		x.Failf("unreadable", "the stored user %s cannot be read: %v", uid, err)
	}
	return storedUser{true, string(ru.SaltAndHash), ru.Scopes, setOf(ru.Groups)}
}

type u04op struct {
	name   string
	run    func(w *uWorld) (string, error) // returns what was handed out
	target int                             // user it may change, -1: none
	apply  func(w *uWorld, s storedUser) storedUser
	grants bool // hands out a value on success
}

var u04ops = []u04op{
	{"NewUser", func(w *uWorld) (string, error) {
		u, p, err := w.in().NewUser(w.ctx, id.ScopeIndex)
		return u + p, err
	}, -1, nil, true},
	{"LoginUser", func(w *uWorld) (string, error) {
		t, e, err := w.in().LoginUser(w.ctx, w.users[1].uid, w.users[1].pw)
		if err != nil && e != 0 {
			t += "expiry"
		}
		return t, err
	}, -1, nil, true},
	{"ChangeUserPassword", func(w *uWorld) (string, error) {
		return w.in().ChangeUserPassword(w.ctx, w.users[1].uid, w.users[1].pw)
	}, 1, func(w *uWorld, s storedUser) storedUser { s.hash = "changed"; return s }, true},
	{"AddUserToGroups", func(w *uWorld) (string, error) {
		return "", w.in().AddUserToGroups(w.ctx, w.toks[0].s, w.users[1].uid, w.gids[0], w.gids[2])
	}, 1, func(w *uWorld, s storedUser) storedUser {
		s.groups = setOf(setFrom(append(keysOf(w.users[1].groups), w.gids[0], w.gids[2])...))
		return s
	}, false},
	{"RemoveUserFromGroups", func(w *uWorld) (string, error) {
		return "", w.in().RemoveUserFromGroups(w.ctx, w.toks[0].s, w.users[1].uid, w.gids[1])
	}, 1, func(w *uWorld, s storedUser) storedUser {
		m := copySet(w.users[1].groups)
		delete(m, w.gids[1])
		s.groups = setOf(m)
		return s
	}, false},
	{"AddSelf", func(w *uWorld) (string, error) {
		return "", w.in().AddUserToGroups(w.ctx, w.toks[0].s, w.users[0].uid, w.gids[0])
	}, 0, func(w *uWorld, s storedUser) storedUser { return s }, false},
	{"RemoveSelf", func(w *uWorld) (string, error) {
		return "", w.in().RemoveUserFromGroups(w.ctx, w.toks[0].s, w.users[0].uid, w.gids[0])
	}, 0, func(w *uWorld, s storedUser) storedUser {
		m := copySet(w.users[0].groups)
		delete(m, w.gids[0])
		s.groups = setOf(m)
		return s
	}, false},
	{"DeleteUser", func(w *uWorld) (string, error) {
		return "", w.in().DeleteUser(w.ctx, w.toks[0].s, w.users[1].uid)
	}, 1, func(w *uWorld, s storedUser) storedUser { return storedUser{} }, false},
	{"DeleteSelf", func(w *uWorld) (string, error) {
		return "", w.in().DeleteUser(w.ctx, w.toks[0].s, w.users[0].uid)
	}, 0, func(w *uWorld, s storedUser) storedUser { return storedUser{} }, false},
	{"NewGroup", func(w *uWorld) (string, error) {
		return w.in().NewGroup(w.ctx, w.toks[0].s, id.ScopeUpdate)
	}, 0, func(w *uWorld, s storedUser) storedUser { s.groups = "grown"; return s }, true},
	{"GetIdentity", func(w *uWorld) (string, error) {
		i, err := w.in().GetIdentity(w.ctx, w.toks[0].s)
		if err == nil {
			if got, want := identStr(i), w.wantIdent(w.users[0]); got != want {
				w.x.Failf("identity-value", "GetIdentity yields %s, want %s", got, want)
			}
		}
		s := i.ID
		if i.Scopes != 0 || len(i.Groups) != 0 {
			s += "+"
		}
		return s, err
	}, -1, nil, true},
}

func keysOf(m map[string]struct{}) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// u04World: user 0 in groups 0,1,2; user 1 in group 1; user 2 a bystander.
func u04World(x *X) *uWorld {
	w := newU(x)
	w.newUser(id.ScopeAll)
	w.newUser(id.ScopeDecrypt)
	w.newUser(id.ScopeIndex)
	for i := range w.users {
		w.login(i, w.users[i].pw, true)
	}
	for i := 0; i < 3; i++ {
		w.newGroup(w.toks[0], id.Scope(1<<i))
	}
	w.member(true, w.toks[0], 1, w.gids[1])
	if x.Bool() {
		w.change(1, w.users[1].pw)
		w.member(true, w.toks[0], 2, w.gids[2])
	}
	return w
}

// same compares with "changed" and "grown" as wildcards.
func (s storedUser) matches(o, old storedUser) bool {
	if o.hash == "changed" {
		if s.hash == old.hash || !s.ok {
			return false
		}
		o.hash = s.hash
	}
	if o.groups == "grown" {
		if len(s.groups) <= len(old.groups) || !s.ok {
			return false
		}
		o.groups = s.groups
	}
	return s == o
}

func u04Faults(x *X, crash bool) {
	w := u04World(x)
	op := u04ops[x.Pick(len(u04ops))]
	w.st.Wrap = x.Bool()
	attempts := 3
	for a := 0; a < attempts; a++ {
		before := w.st.Clone()
		w.st.Faulted = nil
		w.st.Inject, w.st.Crashes = true, crash
		var out string
		var err error
		crashed := Crashable(func() {
			x.Guard(op.name, func() { out, err = op.run(w) })
		})
		w.st.Inject = false
		w.st.Restart()
		x.Op()
		x.Logf("%s attempt %d: crashed=%v %v", op.name, a, crashed, err)
		failed := len(w.st.Faulted) > 0
		desc := fmt.Sprintf("%s with %v", op.name, w.st.Faulted)
		if !crashed {
			if failed && err == nil {
				x.Failf("fault-hidden", "%s reported success", desc)
			}
			if !failed && err != nil {
				x.Failf("no-fault", "%s failed on working storage: %v", desc, err)
			}
			if err != nil && out != "" {
				x.Failf("fault-grant", "%s failed and handed out %q", desc, clip(out, 60))
			}
			if err == nil && op.grants && out == "" {
				x.Failf("no-grant", "%s succeeded and handed out nothing", desc)
			}
		}
		changed := u04Records(x, w, op, before, err, crashed, desc)
		x.State(op.name, w.st.Faulted, crashed, err != nil, changed)
		x.Out("%s %v crashed=%v", op.name, err == nil, crashed)
		if err == nil && !crashed {
			return
		}
		if changed {
			return // the model of the remaining attempts would differ
		}
	}
	// nothing had an effect: without faults the call now succeeds
	out, err := op.run(w)
	if err != nil || op.grants && out == "" {
		x.Failf("repeat", "repeating %s on working storage: %q %v", op.name, out, err)
	}
}

// u04Records compares what is stored, and what tokens and passwords yield, with the state before the
// call and the intended one, and reports whether the intended one holds.
func u04Records(x *X, w *uWorld, op u04op, before *Store, err error, crashed bool, desc string) (changed bool) {
	// the records
	old := readUser(x, before, w.users[max(op.target, 0)].uid)
	for k, v := range w.st.m {
		if b, ok := before.m[k]; ok && string(b) == string(v) {
			continue
		}
		_, existed := before.m[k]
		switch {
		case op.target >= 0 && k == rkey{id.DataTypeSealedUser, w.users[op.target].uid}:
		case !existed && op.name == "NewUser" && k.kind == id.DataTypeSealedUser:
		case !existed && op.name == "NewGroup" && k.kind == id.DataTypeSealedGroup:
		default:
			x.Failf("bystander", "%s changed the record %v", desc, k)
		}
	}
	for k := range before.m {
		if _, ok := w.st.m[k]; !ok && !(op.target >= 0 && k == rkey{id.DataTypeSealedUser, w.users[op.target].uid}) {
			x.Failf("bystander", "%s removed the record %v", desc, k)
		}
	}
	if op.target >= 0 {
		now := readUser(x, w.st, w.users[op.target].uid)
		want := op.apply(w, old)
		switch {
		case now == old && (err != nil || crashed || now.matches(want, old)):
		case now.matches(want, old):
			changed = true
		default:
			x.Failf("torn", "%s left user %d as %+v; before %+v, intended %+v", desc, op.target, now, old, want)
		}
		// existing tokens still resolve to exactly what is stored
		for i, u := range w.users {
			su := readUser(x, w.st, u.uid)
			ident, err := w.in().GetIdentity(w.ctx, w.toks[i].s)
			if (err == nil) != su.ok {
				x.Failf("token", "after %s the token of user %d (stored: %v) resolves with %v", desc, i, su.ok, err)
			}
			if err == nil {
				g := map[string]struct{}{}
				for k := range ident.Groups {
					g[k] = struct{}{}
				}
				if ident.ID != u.uid || uint64(ident.Scopes) != su.scopes || setOf(g) != su.groups {
					x.Failf("token", "after %s the token of user %d yields %s", desc, i, identStr(ident))
				}
			}
			_, _, err = w.in().LoginUser(w.ctx, u.uid, u.pw)
			should := su.ok && su.hash == readUser(x, before, u.uid).hash
			if (err == nil) != should {
				x.Failf("login", "after %s login of user %d with the password from before: %v", desc, i, err)
			}
			if err != nil && !errors.Is(err, id.ErrNotAuthenticated) {
				x.Failf("login-error", "%v", err)
			}
		}
	}
	return changed
}

// Short histories in which calls fail without effect: the model never changes.
func u04History(x *X) {
	w := newU(x)
	for i := 0; i < 2; i++ {
		w.newUser(id.ScopeAll)
		w.login(i, w.users[i].pw, true)
	}
	w.newGroup(w.toks[0], id.ScopeIndex)
	w.st.FaultOps = map[string]bool{"get": true}
	for i := 0; i < 3; i++ {
		c := x.Pick(6)
		var f func() error
		var succeed func()
		switch c {
		case 0:
			f = func() error {
				return w.in().AddUserToGroups(w.ctx, w.toks[0].s, w.users[1].uid, w.gids[0])
			}
			succeed = func() { w.users[1].groups[w.gids[0]] = struct{}{} }
		case 1:
			f = func() error {
				return w.in().RemoveUserFromGroups(w.ctx, w.toks[0].s, w.users[1].uid, w.gids[0])
			}
			succeed = func() { delete(w.users[1].groups, w.gids[0]) }
		case 2:
			f = func() error {
				np, err := w.in().ChangeUserPassword(w.ctx, w.users[1].uid, w.users[1].pw)
				if err == nil {
					w.users[1].old = append(w.users[1].old, w.users[1].pw)
					w.users[1].pw = np
				}
				return err
			}
		case 3:
			f = func() error { return w.in().DeleteUser(w.ctx, w.toks[0].s, w.users[1].uid) }
			succeed = func() { w.users[1].deleted = true }
		case 4:
			f = func() error {
				g, err := w.in().NewGroup(w.ctx, w.toks[1].s, id.ScopeDelete)
				if err == nil {
					w.gids = append(w.gids, g)
					w.gscope[g] = id.ScopeDelete
					w.users[1].groups[g] = struct{}{}
				}
				return err
			}
		case 5:
			f = func() error {
				_, _, err := w.in().LoginUser(w.ctx, w.users[1].uid, w.users[1].pw)
				return err
			}
		}
		gone := w.users[1].deleted
		w.st.Faulted = nil
		w.st.Inject = true
		before := w.st.Shape()
		err := f()
		w.st.Inject = false
		x.Op()
		if len(w.st.Faulted) > 0 {
			if err == nil {
				x.Failf("fault-hidden", "a call whose read failed reported success")
			}
			if c != 4 && w.st.Shape() != before {
				x.Failf("fault-effect", "a call whose read failed changed the records")
			}
		} else if (err == nil) != (!gone || c == 3) {
			x.Failf("no-fault", "step %d on working storage: %v", c, err)
		}
		if err == nil && succeed != nil {
			succeed()
		}
	}
	w.verify()
	x.State(w.state())
}
