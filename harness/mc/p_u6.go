package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
)

// ---- U01 -----------------------------------------------------------------------------

// idVariants are strings that resemble an ID without being it.
func idVariants(u string) []string {
	plain := strings.ReplaceAll(u, "-", "")
	v := []string{" " + u, u + " ", "\t" + u, u + "\t", u + "\n", "\n" + u, u + "\r\n", u + "\x00", "\x00" + u, strings.ToUpper(u), "{" + u + "}", "urn:uuid:" + u, plain,
		strings.ToUpper(plain), u + "-", "-" + u, u[:len(u)-1], u[1:], u + u, u + u[len(u)-1:], "/" + u, u + "/", "./" + u, "\"" + u + "\"", u + ",", "%" + u, "\ufeff" + u, u + "\u00a0", strings.Replace(u, "-", "_", 1),
		strings.Replace(u, "-", "\u2010", 1), strings.Title(u)}
	var r []string
	for _, s := range v {
		if s != u {
			r = append(r, s)
		}
	}
	return r
}

// Only the very ID of a user or group names it.
func u01Variants(x *X) {
	w := newU(x)
	for i := 0; i < 2; i++ {
		forceUUID([]string{"0aBcdefa-1b2c-4d3e-8f4a-5b6c7d8e9fab", "1abcdefa-1b2c-4d3e-8f4a-5b6c7d8e9fab"}[i])
		w.newUser(id.ScopeAll)
		uuids.forced = nil
		w.login(i, w.users[i].pw, true)
	}
	forceUUID("2abcdefa-1b2c-4d3e-8f4a-5b6c7d8e9fab")
	w.newGroup(w.toks[0], id.ScopeIndex)
	uuids.forced = nil
	before := w.st.Snapshot()
	for _, v := range idVariants(w.users[1].uid) {
		t, e, err := w.in().LoginUser(w.ctx, v, w.users[1].pw)
		if !errors.Is(err, id.ErrNotAuthenticated) || t != "" || e != 0 {
			x.Failf("login-variant", "login of %q, which no user is called, with the password of %q: %v", v, w.users[1].uid, err)
		}
		p, err := w.in().ChangeUserPassword(w.ctx, v, w.users[1].pw)
		if !errors.Is(err, id.ErrNotAuthenticated) || p != "" {
			x.Failf("change-variant", "password change of %q, which no user is called: %v", v, err)
		}
		if err := w.in().AddUserToGroups(w.ctx, w.toks[0].s, v, w.gids[0]); err == nil {
			x.Failf("add-variant", "adding %q, which no user is called, to a group succeeded", v)
		}
		if err := w.in().RemoveUserFromGroups(w.ctx, w.toks[0].s, v, w.gids[0]); err == nil {
			x.Failf("remove-variant", "removing %q, which no user is called, from a group succeeded", v)
		}
		w.in().DeleteUser(w.ctx, w.toks[0].s, v)
		x.State(v)
	}
	for _, v := range idVariants(w.gids[0]) {
		for i := 0; i < 2; i++ {
			if err := w.in().AddUserToGroups(w.ctx, w.toks[0].s, w.users[i].uid, v); err == nil {
				x.Failf("gid-variant", "adding a user to %q, which no group is called, succeeded", v)
			}
			if err := w.in().RemoveUserFromGroups(w.ctx, w.toks[0].s, w.users[i].uid, v); err == nil {
				x.Failf("gid-variant", "removing a user from %q, which no group is called, succeeded", v)
			}
		}
		x.Op()
		x.State(v)
	}
	for _, v := range idVariants(w.toks[1].s) {
		if strings.TrimRight(v, "\r\n") == w.toks[1].s { // base64 decoders skip line ends
			continue
		}
		if i, err := w.in().GetIdentity(w.ctx, v); err == nil && identStr(i) != w.wantIdent(w.users[1]) {
			x.Failf("token-variant", "the token %q resolves to %s", v, identStr(i))
		}
	}
	if w.st.Snapshot() != before {
		x.Failf("variant-writes", "calls naming no user or group changed storage")
	}
	w.verify()
}

// The scopes of a user and of its groups are independent of each other.
func u01GroupScopes(x *X) {
	w := newU(x)
	bits := []id.Scope{0, id.ScopeEncrypt, id.ScopeIndex, id.ScopeModifyAccessGroups, id.ScopeAll, id.ScopeEnd, 1 << 40, 1 << 63, ^id.Scope(0)}
	a, b, c := bits[x.Pick(len(bits))], bits[x.Pick(len(bits))], bits[x.Pick(len(bits))]
	w.newUser(a)
	w.newUser(b)
	for i := range w.users {
		w.login(i, w.users[i].pw, true)
	}
	w.newGroup(w.toks[0], b)
	w.newGroup(w.toks[0], c, a)
	w.newGroup(w.toks[1], c)
	w.member(true, w.toks[0], 1, w.gids[0])
	w.identity(w.toks[0])
	w.identity(w.toks[1])
	w.change(0, w.users[0].pw)
	w.member(false, w.toks[0], 0, w.gids[0])
	w.identity(w.toks[0])
	w.identity(w.toks[1])
	w.login(0, w.users[0].pw, false)
	x.State(a, b, c)
}

// Every failed login gives one and the same error, whatever made it fail.
func u01LoginErrors(x *X) {
	w := newU(x)
	w.newUser(id.ScopeAll)
	w.newUser(id.ScopeIndex)
	for i := range w.users {
		w.login(i, w.users[i].pw, true)
	}
	w.newGroup(w.toks[0], id.ScopeDelete)
	u := w.users[0]
	k := rkey{id.DataTypeSealedUser, u.uid}
	text := id.ErrNotAuthenticated.Error()
	_, _, ref := w.in().LoginUser(w.ctx, u.uid, "wrong")
	if ref != nil {
		text = ref.Error()
	}
	try := func(sa *id.Standalone, ctx context.Context, uid, pw, what string) {
		var t string
		var e int64
		var err error
		x.Guard("login", func() { t, e, err = sa.LoginUser(ctx, uid, pw) })
		x.Op()
		x.State(what)
		if !errors.Is(err, id.ErrNotAuthenticated) || err.Error() != text {
			x.Failf("login-error", "login with %s fails with %q, with a wrong password with %q", what, fmt.Sprint(err), text)
		}
		if t != "" || e != 0 {
			x.Failf("login-leak", "a failed login with %s returned %q, %d", what, t, e)
		}
		if strings.HasSuffix(what, " user") || strings.HasSuffix(what, " password") { // a password change does not tell one from the other
			var p string
			x.Guard("change", func() { p, err = sa.ChangeUserPassword(ctx, uid, pw) })
			if !errors.Is(err, id.ErrNotAuthenticated) || err.Error() != text || p != "" {
				x.Failf("change-error", "password change with %s returns %q and fails with %q, a wrong login with %q", what, p, fmt.Sprint(err), text)
			}
		}
	}
	kinds := append(failureKinds(), io.ErrNotFound, io.ErrAlreadyExists, fmt.Errorf("layer: %w", io.ErrNotFound), id.ErrUserNotFound, id.ErrNotAuthorized)
	switch c := x.Pick(4); c {
	case 0: // storage fails
		f := &failingProvider{Store: w.st, at: 1, err: kinds[x.Pick(len(kinds))], ok: x.Bool()}
		ctx, cancel := context.WithCancel(w.ctx)
		defer cancel()
		if x.Bool() {
			f.on = cancel
		}
		pw := []string{u.pw, "wrong", ""}[x.Pick(3)]
		try(w.Standalone(f), ctx, u.uid, pw, fmt.Sprintf("storage failing with %v", f.err))
	case 1: // storage holds something else
		o := w.st.m[k]
		junk := [][]byte{nil, {}, []byte("null"), []byte("{}"), []byte("[]"), []byte("x"), o[:len(o)/2], o[:len(o)-1], append([]byte("x"), o...), w.st.m[rkey{id.DataTypeSealedUser, w.users[1].uid}], w.st.m[rkey{id.DataTypeSealedGroup, w.gids[0]}],
			[]byte(`{"UID":"` + u.uid + `","Ciphertext":"","WrappedKey":""}`)}
		w.st.m[k] = junk[x.Pick(len(junk))]
		for _, p := range []string{u.pw, w.users[1].pw, "", "wrong"} {
			try(w.in(), w.ctx, u.uid, p, "a damaged record")
		}
	case 2: // no such user, an empty one, a deleted one
		for _, n := range []string{"", "x", w.gids[0], w.toks[0].s, strings.Repeat("y", 1000), u.uid + "x"} {
			try(w.in(), w.ctx, n, u.pw, "an unknown user")
		}
		w.check(w.in().DeleteUser(w.ctx, w.toks[1].s, u.uid), "delete")
		try(w.in(), w.ctx, u.uid, u.pw, "a deleted user")
	case 3: // wrong passwords
		for _, p := range []string{"", "x", w.users[1].pw, u.pw[1:], u.pw + "=", u.pw + u.pw, u.uid} {
			try(w.in(), w.ctx, u.uid, p, "a wrong password")
		}
		old := u.pw
		w.change(0, old)
		try(w.in(), w.ctx, u.uid, old, "a former password")
	}
}

// ---- U02 -----------------------------------------------------------------------------

// Long lists of groups with the foreign one at any place.
func u02Lists(x *X, th bool) {
	w := newU(x)
	for i := 0; i < 3; i++ {
		w.newUser(id.ScopeAll)
		w.login(i, w.users[i].pw, true)
	}
	n := []int{1, 2, 3, 4, 5, 8, 17, 65}[x.Pick(8)]
	for i := 0; i < n; i++ {
		w.newGroup(w.toks[0], id.Scope(i))
	}
	w.newGroup(w.toks[1], id.ScopeAll) // the caller is no member
	foreign := []string{w.gids[n], "unknown", w.users[0].uid, w.users[2].uid, "", w.gids[0] + " "}[x.Pick(6)]
	add := x.Bool()
	places := seqInts(n + 2)
	if n > 20 && !th {
		places = []int{0, 1, 15, 16, 31, 32, 33, 63, n - 1, n, n + 1}
	}
	place := places[x.Pick(len(places))]
	list := append([]string(nil), w.gids[:n]...)
	if x.Bool() { // the same group twice
		list = append(list, list[0])
	}
	if place <= n {
		list = append(list[:place:place], append([]string{foreign}, list[place:]...)...)
	}
	target := x.Pick(3)
	before := w.st.Snapshot()
	w.member(add, w.toks[0], target, list...)
	if place <= n && w.st.Snapshot() != before {
		x.Failf("refused-writes", "a refused membership change of %d groups wrote to storage", len(list))
	}
	for i := range w.toks {
		w.identity(w.toks[i])
	}
	if place > n && n > 2 { // and back again, in part
		w.member(true, w.toks[0], target, list[1:]...)
		w.member(false, w.toks[target], target, list[n/2:n]...)
		for i := range w.toks {
			w.identity(w.toks[i])
		}
	}
	for i, u := range w.users {
		w.login(i, u.pw, false)
	}
	x.State(n, foreign == "", add, place, len(list), target)
}

// ---- U04 -----------------------------------------------------------------------------

// Each call fails with every kind of error, with and without effect or data, in a context that may end
// at that moment.
func u04Errors(x *X) {
	w := newU(x)
	w.newUser(id.ScopeAll)
	w.newUser(id.ScopeDecrypt)
	w.newUser(id.ScopeIndex)
	for i := range w.users {
		w.login(i, w.users[i].pw, true)
	}
	for i := 0; i < 3; i++ {
		w.newGroup(w.toks[0], id.Scope(1<<i))
	}
	w.member(true, w.toks[0], 1, w.gids[1])
	op := u04ops[x.Pick(len(u04ops))]
	kinds := failureKinds()
	e := x.Pick(len(kinds) + 5)
	at := 1 + x.Pick(9)
	ctx, cancel := context.WithCancel(w.ctx)
	defer cancel()
	plainCtx, clean := w.ctx, w.sa
	w.ctx = ctx
	var calls func() int
	var cause error
	if e < len(kinds) {
		f := &failingProvider{Store: w.st, at: at, err: kinds[e], ok: x.Bool()}
		if x.Bool() {
			f.on = cancel
		}
		cause, calls = f.err, func() int { return f.n }
		w.sa = []*id.Standalone{w.Standalone(f)}
	} else {
		f := &truncating{Store: w.st, at: at, cut: e - len(kinds)}
		cause, calls = errInjected, func() int { return f.n }
		w.sa = []*id.Standalone{w.Standalone(f)}
	}
	before := w.st.Clone()
	var out string
	var err error
	x.Guard(op.name, func() { out, err = op.run(w) })
	x.Op()
	w.ctx, w.sa = plainCtx, clean
	desc := fmt.Sprintf("%s with call %d failing with %v (%d)", op.name, at, cause, e)
	x.Logf("%s: %v", desc, err)
	failed := calls() >= at
	x.State(op.name, e, at, failed)
	if failed && err == nil {
		x.Failf("fault-hidden", "%s reported success", desc)
	}
	if !failed && err != nil {
		x.Failf("no-fault", "%s, which never happened, failed: %v", desc, err)
	}
	if err != nil && out != "" {
		x.Failf("fault-grant", "%s failed and handed out %q", desc, clip(out, 60))
	}
	changed := u04Records(x, w, op, before, err, false, desc)
	if failed && !changed {
		if out, err := op.run(w); err != nil || op.grants && out == "" {
			x.Failf("repeat", "repeating %s on working storage: %q %v", op.name, out, err)
		}
	}
	x.Out("%s %v", op.name, failed)
}

// A creation whose ID is taken - at once, or because its own first attempt got through - overwrites nothing.
func u04Collisions(x *X) {
	w := u04World(x)
	group := x.Bool()
	taken := w.users[1].uid
	if group {
		taken = w.gids[1]
	}
	forceUUID(taken)
	if x.Bool() {
		uuids.forced = append(uuids.forced, uuids.forced[0])
	}
	before := w.st.Snapshot()
	var out string
	var err error
	if group {
		out, err = w.in().NewGroup(w.ctx, w.toks[0].s, id.ScopeAll)
	} else {
		var p string
		out, p, err = w.in().NewUser(w.ctx, id.ScopeAll)
		if err != nil {
			out += p
		}
	}
	x.Op()
	uuids.forced = nil
	if err != nil {
		if out != "" {
			x.Failf("fault-grant", "a refused creation handed out %q", out)
		}
		if w.st.Snapshot() != before {
			x.Failf("bystander", "a refused creation changed storage")
		}
	} else if out == taken {
		x.Failf("bystander", "a creation took over the ID %s", taken)
	}
	for i, u := range w.users {
		if i > 0 || !group || err != nil {
			w.identity(w.toks[i])
		}
		w.login2(i, u.pw)
	}
	x.State(group, err == nil)
}

// login2 checks that a password still logs in.
func (w *uWorld) login2(i int, pw string) {
	if _, _, err := w.in().LoginUser(w.ctx, w.users[i].uid, pw); err != nil {
		w.x.Failf("bystander", "user %d can no longer log in: %v", i, err)
	}
}

func seqInts(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return r
}
