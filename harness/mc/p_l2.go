package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/gofrs/uuid"
	"github.com/rs/zerolog"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
)

// lsWorld runs operations on distinctive values with a logger that is shown everything.
type lsWorld struct {
	*World
	s     *sink
	ix    *index.SecureIndex
	sa    *id.Standalone
	sec   map[string]string // marked values that must stay out of the log, by name
	own   string
	other string
	icall string
	oid   uuid.UUID
	tok   *data.SealedToken
	uid   string
	pw    string
	admin string
	gid   string
	n     int
}

// mark returns a distinctive value and remembers it as secret.
func (w *lsWorld) mark(name string) string {
	if v, ok := w.sec[name]; ok {
		return v
	}
	v := name + hex.EncodeToString(refSHA3_256([]byte("l01" + name)))[:24]
	w.sec[name] = v
	return v
}

// keep remembers a value the library or the caller made as secret.
func (w *lsWorld) keep(name, v string) string {
	if v != "" {
		w.n++
		w.sec[fmt.Sprintf("%s %d", name, w.n)] = v
	}
	return v
}

// keepHash remembers the user's stored password hash as secret.
func (w *lsWorld) keepHash(uid string) {
	if u := readUser(w.x, w.st, uid); len(u.hash) > 8 {
		w.keep("password hash", u.hash[8:])
	}
}

func newLS(x *X) *lsWorld {
	w := &lsWorld{World: NewWorld(x), sec: map[string]string{}, s: newSink()}
	w.own = w.keep("caller token", w.idp.User("l01-owner", id.ScopeAll))
	w.other = w.keep("caller token", w.idp.User("l01-stranger", id.ScopeAll))
	w.icall = w.own
	w.ix, w.sa = w.Index(w.st), w.Standalone(w.st)
	var err error
	if w.oid, err = w.d.Encrypt(w.ctx, w.own, obj(w.mark("Plaintext0"), "visible")); err != nil {
		x.Failf("setup", "%v", err)
	}
	t, err := w.d.CreateToken(w.ctx, []byte(w.mark("Contents0")))
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	w.tok = &t
	for i := 0; i < 3; i++ {
		if err := w.ix.Add(w.ctx, w.icall, w.mark("Keyword0"), w.mark(fmt.Sprintf("Identifier%d", i))); err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	var pw string
	w.uid, pw, err = w.sa.NewUser(w.ctx, id.ScopeAll)
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	w.pw = w.keep("password", pw)
	w.keepHash(w.uid)
	w.admin, _, err = w.sa.LoginUser(w.ctx, w.uid, w.pw)
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	w.keep("login token", w.admin)
	if w.gid, err = w.sa.NewGroup(w.ctx, w.admin, id.ScopeIndex); err != nil {
		x.Failf("setup", "%v", err)
	}
	return w
}

// corrupt flips a character of a token string.
func corrupt(s string, at int) string {
	b := []byte(s)
	i := at * (len(b) - 1) / 2
	if b[i] == 'A' {
		b[i] = 'B'
	} else {
		b[i] = 'A'
	}
	return string(b)
}

var lsOps = []struct {
	name string
	run  func(w *lsWorld) error
}{
	{"Encrypt", func(w *lsWorld) error {
		_, err := w.d.Encrypt(w.ctx, w.own, obj(w.mark("Plaintext1"), "visible"), "group")
		return err
	}},
	{"Encrypt, unknown token", func(w *lsWorld) error {
		_, err := w.d.Encrypt(w.ctx, w.mark("Nobody"), obj(w.mark("Plaintext1"), "visible"))
		return err
	}},
	{"Update", func(w *lsWorld) error {
		return w.d.Update(w.ctx, w.own, w.oid, obj(w.mark("Plaintext2"), "visible"))
	}},
	{"Decrypt", func(w *lsWorld) error {
		_, err := w.d.Decrypt(w.ctx, w.own, w.oid)
		return err
	}},
	{"Decrypt by a stranger", func(w *lsWorld) error {
		_, err := w.d.Decrypt(w.ctx, w.other, w.oid)
		return err
	}},
	{"Delete", func(w *lsWorld) error { return w.d.Delete(w.ctx, w.own, w.oid) }},
	{"change access", func(w *lsWorld) error {
		if err := w.d.AddGroupsToAccess(w.ctx, w.own, w.oid, "l01-stranger"); err != nil {
			return err
		}
		if _, err := w.d.GetAccessGroups(w.ctx, w.own, w.oid); err != nil {
			return err
		}
		if err := w.d.AuthorizeIdentity(w.ctx, w.other, w.oid); err != nil {
			return err
		}
		return w.d.RemoveGroupsFromAccess(w.ctx, w.own, w.oid, "l01-stranger")
	}},
	{"CreateToken", func(w *lsWorld) error {
		t, err := w.d.CreateToken(w.ctx, []byte(w.mark("Contents1")))
		if err == nil {
			w.tok = &t
		}
		return err
	}},
	{"GetTokenContents", func(w *lsWorld) error {
		_, err := w.d.GetTokenContents(w.ctx, w.tok)
		if s, e := w.tok.String(); e == nil {
			w.keep("token", s)
		}
		return err
	}},
	{"GetTokenContents, corrupted", func(w *lsWorld) error {
		t := *w.tok
		t.Ciphertext = append([]byte{}, t.Ciphertext...)
		t.Ciphertext[0] ^= 1
		_, err := w.d.GetTokenContents(w.ctx, &t)
		if s, e := t.String(); e == nil {
			w.keep("token", s)
		}
		return err
	}},
	{"index.Add", func(w *lsWorld) error {
		return w.ix.Add(w.ctx, w.icall, w.mark("Keyword0"), w.mark("Identifier4"))
	}},
	{"index.Add again", func(w *lsWorld) error {
		return w.ix.Add(w.ctx, w.icall, w.mark("Keyword0"), w.mark("Identifier1"))
	}},
	{"index.Add, new keyword", func(w *lsWorld) error {
		return w.ix.Add(w.ctx, w.icall, w.mark("Keyword1"), w.mark("Identifier5"))
	}},
	{"index.Search", func(w *lsWorld) error {
		_, err := w.ix.Search(w.ctx, w.icall, w.mark("Keyword0"))
		return err
	}},
	{"index.Search, unknown keyword", func(w *lsWorld) error {
		_, err := w.ix.Search(w.ctx, w.icall, w.mark("Keyword2"))
		return err
	}},
	{"index.Search, unknown token", func(w *lsWorld) error {
		_, err := w.ix.Search(w.ctx, w.mark("Nobody"), w.mark("Keyword0"))
		return err
	}},
	{"index.Delete first", func(w *lsWorld) error {
		return w.ix.Delete(w.ctx, w.icall, w.mark("Keyword0"), w.mark("Identifier0"))
	}},
	{"index.Delete middle", func(w *lsWorld) error {
		return w.ix.Delete(w.ctx, w.icall, w.mark("Keyword0"), w.mark("Identifier1"))
	}},
	{"index.Delete last", func(w *lsWorld) error {
		return w.ix.Delete(w.ctx, w.icall, w.mark("Keyword0"), w.mark("Identifier2"))
	}},
	{"index.Delete unknown", func(w *lsWorld) error {
		return w.ix.Delete(w.ctx, w.icall, w.mark("Keyword0"), w.mark("Identifier9"))
	}},
	{"LoginUser", func(w *lsWorld) error {
		t, _, err := w.sa.LoginUser(w.ctx, w.uid, w.pw)
		w.keep("login token", t)
		return err
	}},
	{"LoginUser, wrong password", func(w *lsWorld) error {
		_, _, err := w.sa.LoginUser(w.ctx, w.uid, w.mark("Password1"))
		return err
	}},
	{"ChangeUserPassword", func(w *lsWorld) error {
		p, err := w.sa.ChangeUserPassword(w.ctx, w.uid, w.pw)
		if err == nil {
			w.pw = w.keep("password", p)
			w.keepHash(w.uid)
		}
		return err
	}},
	{"ChangeUserPassword, wrong password", func(w *lsWorld) error {
		_, err := w.sa.ChangeUserPassword(w.ctx, w.uid, w.mark("Password2"))
		return err
	}},
	{"GetIdentity", func(w *lsWorld) error {
		_, err := w.sa.GetIdentity(w.ctx, w.admin)
		return err
	}},
	{"GetIdentity, corrupted tokens", func(w *lsWorld) (err error) {
		for i := 0; i < 3; i++ {
			_, err = w.sa.GetIdentity(w.ctx, w.keep("login token", corrupt(w.admin, i)))
		}
		_, _ = w.sa.GetIdentity(w.ctx, w.mark("Garbage0"))
		return
	}},
	{"NewUser", func(w *lsWorld) error {
		u, p, err := w.sa.NewUser(w.ctx, id.ScopeIndex)
		w.keep("password", p)
		w.keepHash(u)
		return err
	}},
	{"membership", func(w *lsWorld) error {
		g, err := w.sa.NewGroup(w.ctx, w.admin, id.ScopeIndex)
		if err != nil {
			return err
		}
		if err := w.sa.AddUserToGroups(w.ctx, w.admin, w.uid, g, w.gid); err != nil {
			return err
		}
		return w.sa.RemoveUserFromGroups(w.ctx, w.admin, w.uid, g)
	}},
	{"membership, unknown token", func(w *lsWorld) error {
		_, _ = w.sa.NewGroup(w.ctx, w.mark("Garbage1"), id.ScopeIndex)
		_ = w.sa.AddUserToGroups(w.ctx, w.mark("Garbage1"), w.uid, w.gid)
		_ = w.sa.DeleteUser(w.ctx, w.mark("Garbage1"), w.uid)
		return w.sa.RemoveUserFromGroups(w.ctx, w.mark("Garbage1"), w.uid, w.gid)
	}},
	{"DeleteUser", func(w *lsWorld) error { return w.sa.DeleteUser(w.ctx, w.admin, w.uid) }},
}

const lsWindow = 10

func l01Secrets(x *X, depth int, faults bool) {
	w := newLS(x)
	fs := []kv{{"app", "caller"}}
	dflt := x.Bool()
	lg := plainLogger(w.s, fs).Level(zerolog.TraceLevel)
	if dflt {
		zerolog.DefaultContextLogger = &lg
		x.Defer(func() { zerolog.DefaultContextLogger = nil })
	} else {
		w.ctx = lg.WithContext(w.ctx)
	}
	rng.Record()
	x.Defer(func() { rng.on = false })
	w.st.Inject = faults
	names := ""
	for i := 0; i < depth; i++ {
		k := x.Pick(len(lsOps) + 1)
		if k == 0 {
			break
		}
		op := &lsOps[k-1]
		err := op.run(w)
		x.Op()
		names += fmt.Sprintf("%s: %v; ", op.name, err == nil)
		x.Logf("%s: %v", op.name, err)
	}
	w.st.Inject = false
	x.State(names, len(w.s.lines))
	w.search(x, names)
}

func (w *lsWorld) search(x *X, what string) {
	var lines strings.Builder
	for _, l := range w.s.lines {
		lines.WriteString(l.text)
	}
	all := lines.String()
	found := func(name, form string) {
		for _, l := range w.s.lines {
			if strings.Contains(l.text, form) {
				x.Failf("secret", "%s: a log line contains %s: %s", what, name, clip(l.text, 400))
			}
		}
		if strings.Contains(all, form) {
			x.Failf("secret", "%s: the log contains %s", what, name)
		}
	}
	for n, v := range w.sec {
		for _, f := range formsOf([]byte(v)) {
			if len(f) >= lsWindow {
				found(n, string(f))
			}
		}
		from := 0
		if strings.Contains(n, "token") {
			from = 40
		}
		for i := from; i+lsWindow <= len(v); i += 2 {
			if n != "caller token" {
				found("part of "+n, v[i:i+lsWindow])
			}
		}
	}
	k, c := testKeys(), saConfig()
	for i, b := range [][]byte{k.KEK, k.AEK, k.TEK, k.IEK, c.UEK, c.GEK, c.TEK} {
		for _, f := range formsOf(b) {
			found(fmt.Sprintf("master key %d", i), string(f))
		}
	}
	for i, at := range rng.cuts {
		end := len(rng.rec)
		if i+1 < len(rng.cuts) {
			end = rng.cuts[i+1]
		}
		if b := rng.rec[at:end]; len(b) >= 32 {
			found("random bytes", string(b[:16]))
			found("random bytes", hex.EncodeToString(b[:16]))
			found("random bytes", base64.StdEncoding.EncodeToString(b[:15]))
			found("random bytes", fmt.Sprint([]byte(b[:12]))[1:])
		}
	}
}
