package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/gofrs/uuid"
	"github.com/rs/zerolog"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
)

// Calls that fail take paths of their own, and these must not share unsynchronised state either.

func init() {
	extend("C03", " Also all pairs of calls that fail in each of the ways the library distinguishes, and of a failing call with every successful one, on both bundled providers and behind a proxy.", func(th bool) []*Scenario {
		pre := 0
		if th {
			pre = 1
		}
		return []*Scenario{
			{Name: "failures", Body: func(x *X) { c03Failures(x, false) }, Pre: pre, Coarse: true, Shard: 2},
			{Name: "failures with others", Body: func(x *X) { c03Failures(x, true) }, Pre: pre, Coarse: true, Shard: 2},
			// With a switch in between, synchronisation further down does not order the two calls.
			{Name: "failures twice", Body: func(x *X) { c03Twice(x) }, Pre: pre + 1, Coarse: true, Shard: 2},
		}
	})
}

// fWorld has what calls need to fail.
type fWorld struct {
	*cWorld
	aes           crypto.AES256GCM
	ph            *crypto.PasswordHasher
	wk, ct, hash  []byte
	cr            crypto.Cryptor
	kwp           *crypto.KWP
	none          uuid.UUID
	tamp, foreign data.SealedToken
	texts         [3]string // tokens as text: of another deployment, altered, expired
	px            io.Provider
	rd            *d1.D1 // instances whose storage refuses to change
	rix           *index.SecureIndex
	rsa           *id.Standalone
	half, odd     uuid.UUID    // an object whose contents are missing, one whose contents are damaged
	cut           [2]uuid.UUID // objects whose access lists are damaged
}

// refusing is storage in which everything exists already and nothing can be changed.
type refusing struct{ io.Provider }

func (refusing) Put(context.Context, []byte, io.DataType, []byte) error {
	return io.ErrAlreadyExists
}

func (refusing) Update(context.Context, []byte, io.DataType, []byte) error {
	return io.ErrNotFound
}

func (refusing) Delete(context.Context, []byte, io.DataType) error { return errInjected }

// fBig is a size above common buffer sizes.
const fBig = 70000

type fOp struct {
	name string
	run  func(f *fWorld, k int) error
}

var fGroups = []string{"fg0", "fg1", "fg2", "fg3", "fg4", "fg5", "fg6", "fg7", "fg8", "fg9"}

var fOps = []fOp{
	{"unauthenticated Encrypt", func(f *fWorld, k int) error { _, err := f.d.Encrypt(f.ctx, "t:nobody", f.obj); return err }},
	{"unauthenticated Decrypt", func(f *fWorld, k int) error { _, err := f.d.Decrypt(f.ctx, "t:nobody", f.oids[k]); return err }},
	{"unauthenticated Update", func(f *fWorld, k int) error { return f.d.Update(f.ctx, "t:nobody", f.oids[k], f.obj) }},
	{"unauthenticated Delete", func(f *fWorld, k int) error { return f.d.Delete(f.ctx, "t:nobody", f.oids[k]) }},
	{"unauthenticated AuthorizeIdentity", func(f *fWorld, k int) error { return f.d.AuthorizeIdentity(f.ctx, "t:nobody", f.oids[k]) }},
	{"out of scope Encrypt", func(f *fWorld, k int) error { _, err := f.d.Encrypt(f.ctx, "t:weak", f.obj); return err }},
	{"out of scope Decrypt", func(f *fWorld, k int) error { _, err := f.d.Decrypt(f.ctx, "t:weak", f.oids[k]); return err }},
	{"out of scope AddGroups", func(f *fWorld, k int) error {
		return f.d.AddGroupsToAccess(f.ctx, "t:weak", f.oids[k], f.groups...)
	}},
	{"stranger Decrypt", func(f *fWorld, k int) error { _, err := f.d.Decrypt(f.ctx, "t:stranger", f.oids[k]); return err }},
	{"stranger AuthorizeIdentity", func(f *fWorld, k int) error { return f.d.AuthorizeIdentity(f.ctx, "t:stranger", f.oids[k]) }},
	{"stranger RemoveGroups", func(f *fWorld, k int) error {
		return f.d.RemoveGroupsFromAccess(f.ctx, "t:stranger", f.oids[k], f.groups...)
	}},
	{"stranger GetAccessGroups", func(f *fWorld, k int) error {
		_, err := f.d.GetAccessGroups(f.ctx, "t:stranger", f.oids[k])
		return err
	}},
	{"missing Decrypt", func(f *fWorld, k int) error { _, err := f.d.Decrypt(f.ctx, f.tok(k), f.none); return err }},
	{"missing Update", func(f *fWorld, k int) error { return f.d.Update(f.ctx, f.tok(k), f.none, f.obj) }},
	{"missing Delete", func(f *fWorld, k int) error { return f.d.Delete(f.ctx, f.tok(k), f.none) }},
	{"contents missing", func(f *fWorld, k int) error { _, err := f.d.Decrypt(f.ctx, f.tok(0), f.half); return err }},
	{"contents damaged", func(f *fWorld, k int) error { _, err := f.d.Decrypt(f.ctx, f.tok(0), f.odd); return err }},
	{"access list damaged", func(f *fWorld, k int) error { _, err := f.d.Decrypt(f.ctx, f.tok(0), f.cut[k]); return err }},
	{"user damaged", func(f *fWorld, k int) error { _, _, err := f.sa.LoginUser(f.ctx, "damaged", "pw"); return err }},
	{"foreign user", func(f *fWorld, k int) error { _, _, err := f.sa.LoginUser(f.ctx, "foreign", "pw"); return err }},
	{"colliding Encrypt", func(f *fWorld, k int) error {
		_, err := f.d.Encrypt(f.ctx, f.tok(k), f.obj)
		return err
	}},
	{"refused Encrypt", func(f *fWorld, k int) error { _, err := f.rd.Encrypt(f.ctx, f.tok(k), f.obj); return err }},
	{"refused Update", func(f *fWorld, k int) error { return f.rd.Update(f.ctx, f.tok(k), f.oids[k], f.obj) }},
	{"refused Delete", func(f *fWorld, k int) error { return f.rd.Delete(f.ctx, f.tok(k), f.oids[k]) }},
	{"refused Add", func(f *fWorld, k int) error { return f.rix.Add(f.ctx, f.tok(k), cKws[k], "x") }},
	{"refused index Delete", func(f *fWorld, k int) error { return f.rix.Delete(f.ctx, f.tok(k), cKws[k], "two") }},
	{"refused NewUser", func(f *fWorld, k int) error { _, _, err := f.rsa.NewUser(f.ctx); return err }},
	{"refused NewGroup", func(f *fWorld, k int) error { _, err := f.rsa.NewGroup(f.ctx, f.toks[k]); return err }},
	{"altered token", func(f *fWorld, k int) error { _, err := f.d.GetTokenContents(f.ctx, &f.tamp); return err }},
	{"foreign token", func(f *fWorld, k int) error { _, err := f.d.GetTokenContents(f.ctx, &f.foreign); return err }},
	{"bad token text", func(f *fWorld, k int) error {
		_, err := data.TokenFromString([]string{"no.token.", "!"}[k])
		return err
	}},
	{"unauthenticated Search", func(f *fWorld, k int) error { _, err := f.ix.Search(f.ctx, "t:nobody", cKws[k]); return err }},
	{"out of scope Search", func(f *fWorld, k int) error { _, err := f.ix.Search(f.ctx, "t:weak", cKws[k]); return err }},
	{"out of scope Add", func(f *fWorld, k int) error { return f.ix.Add(f.ctx, "t:weak", cKws[k], "x") }},
	{"out of scope index Delete", func(f *fWorld, k int) error { return f.ix.Delete(f.ctx, "t:weak", cKws[k], "x") }},
	{"missing Search", func(f *fWorld, k int) error { _, err := f.ix.Search(f.ctx, f.tok(k), "missing"); return err }},
	{"missing index Delete", func(f *fWorld, k int) error { return f.ix.Delete(f.ctx, f.tok(k), cKws[k], "missing") }},
	{"wrong password login", func(f *fWorld, k int) error { _, _, err := f.sa.LoginUser(f.ctx, f.uids[k], "wrong"); return err }},
	{"unknown login", func(f *fWorld, k int) error { _, _, err := f.sa.LoginUser(f.ctx, "unknown", "wrong"); return err }},
	{"wrong password change", func(f *fWorld, k int) error { _, err := f.sa.ChangeUserPassword(f.ctx, f.uids[k], "wrong"); return err }},
	{"unknown password change", func(f *fWorld, k int) error { _, err := f.sa.ChangeUserPassword(f.ctx, "unknown", "wrong"); return err }},
	{"bad user token", func(f *fWorld, k int) error { _, err := f.sa.GetIdentity(f.ctx, "no.token."); return err }},
	{"foreign user token", func(f *fWorld, k int) error { _, err := f.sa.GetIdentity(f.ctx, f.texts[0]); return err }},
	{"altered user token", func(f *fWorld, k int) error { _, err := f.sa.NewGroup(f.ctx, f.texts[1]); return err }},
	{"expired user token", func(f *fWorld, k int) error { _, err := f.sa.GetIdentity(f.ctx, f.texts[2]); return err }},
	{"expired DeleteUser", func(f *fWorld, k int) error { return f.sa.DeleteUser(f.ctx, f.texts[2], f.tuid[k]) }},
	{"not a member Add", func(f *fWorld, k int) error { return f.sa.AddUserToGroups(f.ctx, f.toks[k], f.tuid[k], f.gids[1-k]) }},
	{"not a member Remove", func(f *fWorld, k int) error {
		return f.sa.RemoveUserFromGroups(f.ctx, f.toks[k], f.tuid[k], "unknown")
	}},
	{"unknown target Add", func(f *fWorld, k int) error { return f.sa.AddUserToGroups(f.ctx, f.toks[k], "unknown", f.gids[k]) }},
	{"unknown target Remove", func(f *fWorld, k int) error {
		return f.sa.RemoveUserFromGroups(f.ctx, f.toks[k], "unknown", f.gids[k])
	}},
	{"bad wrapped key", func(f *fWorld, k int) error { var s string; return f.cr.Decrypt(&s, "ad", f.ct[:40], f.ct) }},
	{"bad ciphertext", func(f *fWorld, k int) error { var s string; return f.cr.Decrypt(&s, "other", f.wk, f.ct) }},
	{"unencodable data", func(f *fWorld, k int) error { _, _, err := f.cr.Encrypt("text", make(chan int)); return err }},
	{"bad lengths", func(f *fWorld, k int) error {
		_, err := f.kwp.Wrap(nil)
		if err == nil {
			return nil
		}
		if _, err = f.kwp.Unwrap(f.wk[:9]); err == nil {
			return nil
		}
		if _, err = f.aes.Decrypt(make([]byte, 27), nil, seq(32, 1)); err == nil {
			return nil
		}
		if _, err = f.aes.Encrypt(nil, nil, seq(7, 1)); err == nil {
			return nil
		}
		_, err = crypto.NewKWP(seq(7, 1))
		return err
	}},
	{"wrong hash", func(f *fWorld, k int) error {
		if f.ph.Compare("wrong", f.hash) {
			return nil
		}
		return fmt.Errorf("wrong")
	}},
	{"Get missing", func(f *fWorld, k int) error { _, err := f.px.Get(f.ctx, []byte("missing"), 7); return err }},
	{"Put existing", func(f *fWorld, k int) error { return f.px.Put(f.ctx, []byte("existing"), 7, []byte("new")) }},
	{"Update missing", func(f *fWorld, k int) error { return f.px.Update(f.ctx, []byte("missing"), 7, []byte("new")) }},
	{"Delete missing", func(f *fWorld, k int) error { f.px.Delete(f.ctx, []byte("missing"), 7); return fmt.Errorf("no error") }},
	// Not failing, but out of the ordinary.
	{"large object", func(f *fWorld, k int) error {
		o, err := f.d.Encrypt(f.ctx, f.tok(k), &data.Object{Plaintext: make([]byte, fBig)}, fGroups...)
		if err != nil {
			return fmt.Errorf("%v", err)
		}
		f.d.Decrypt(f.ctx, f.tok(k), o)
		return fmt.Errorf("no error")
	}},
	{"emptied list", func(f *fWorld, k int) error {
		f.ix.Delete(f.ctx, f.tok(k), cKws[k], "two")
		f.ix.Delete(f.ctx, f.tok(k), cKws[k], fmt.Sprint("one ", k))
		return fmt.Errorf("no error")
	}},
}

func newF(x *X, prov string, proxied bool) *fWorld {
	f := &fWorld{cWorld: newC(x, prov, 2, false, false)}
	f.w.idp.User("weak", id.Scope(0), id.AccessGroup{ID: "grp"})
	f.w.idp.User("stranger", id.ScopeAll, id.AccessGroup{ID: "elsewhere", Scopes: id.ScopeAll})
	must := func(err error) {
		if err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	f.none = uuid.Must(uuid.FromString("11111111-2222-3333-4444-555555555555"))
	f.px = f.p
	if proxied {
		px := io.NewProxy(f.p)
		f.px = &px
		f.d, f.ix, f.sa = f.w.Instance(f.px), f.w.Index(f.px), f.w.Standalone(f.px)
	}
	must(f.px.Put(f.ctx, []byte("existing"), 7, []byte("existing")))
	var err error
	for i, o := range []*uuid.UUID{&f.half, &f.odd, &f.cut[0], &f.cut[1]} {
		*o, err = f.d.Encrypt(f.ctx, f.tok(0), f.obj, "grp")
		must(err)
		kind := io.DataTypeSealedObject
		if i >= 2 {
			kind = io.DataTypeSealedAccess
		}
		b, err := f.p.Get(f.ctx, o.Bytes(), kind)
		must(err)
		switch i {
		case 0:
			must(f.p.Delete(f.ctx, o.Bytes(), kind))
		case 1, 2:
			b[len(b)/2] ^= 1
			must(f.p.Update(f.ctx, o.Bytes(), kind, b))
		case 3:
			must(f.p.Update(f.ctx, o.Bytes(), kind, b[:len(b)/2]))
		}
	}
	ro := &refusing{f.p}
	f.rd, f.rix, f.rsa = f.w.Instance(ro), f.w.Index(ro), f.w.Standalone(ro)
	b, err := f.p.Get(f.ctx, []byte(f.uids[0]), id.DataTypeSealedUser)
	must(err)
	must(f.p.Put(f.ctx, []byte("foreign"), id.DataTypeSealedUser, b))
	must(f.p.Put(f.ctx, []byte("damaged"), id.DataTypeSealedUser, b[:len(b)/2]))
	f.cr, err = crypto.NewAESCryptor(seq(32, 9))
	must(err)
	f.kwp, err = crypto.NewKWP(seq(32, 9))
	must(err)
	f.wk, f.ct, err = f.cr.Encrypt("text", "ad")
	must(err)
	f.ct = append(f.ct[:len(f.ct):len(f.ct)], make([]byte, 40)...)
	f.ph = crypto.NewPasswordHasher()
	_, f.hash, err = f.ph.GeneratePassword()
	must(err)
	f.tamp = f.seal[0]
	f.tamp.Ciphertext = append([]byte(nil), f.tamp.Ciphertext...)
	f.tamp.Ciphertext[3] ^= 1
	seal := func(tek []byte, valid time.Duration, text string) data.SealedToken {
		c, err := crypto.NewAESCryptor(tek)
		must(err)
		t := data.NewToken([]byte(text), valid)
		s, err := t.Seal(&c)
		must(err)
		return s
	}
	f.foreign = seal(otherKeys().TEK, time.Hour, "foreign")
	for i, t := range []data.SealedToken{seal(otherConfig().TEK, time.Hour, f.uids[0]), seal(saConfig().TEK, time.Hour, f.uids[0]), seal(saConfig().TEK, -time.Hour, f.uids[0])} {
		if i == 1 {
			t.Ciphertext[5] ^= 1
		}
		f.texts[i], err = t.String()
		must(err)
	}
	return f
}

func c03Twice(x *X) {
	prov := []string{"mem", "bolt"}[x.Pick(2)]
	i, slot := x.Pick(len(fOps)), x.Pick(2)
	f := newF(x, prov, false)
	if strings.Contains(fOps[i].name, "colliding") {
		uuids.forced = []uuid.UUID{f.oids[0], f.oids[0]}
	}
	x.Par(func() { fOps[i].run(f, 0); x.Op() }, func() { fOps[i].run(f, slot); x.Op() })
	x.Logf("%s, twice (%s, slot %d)", fOps[i].name, prov, slot)
	x.State(prov, i, slot)
	x.Out("%s twice", fOps[i].name)
}

func c03Failures(x *X, others bool) {
	kind := x.Pick(3)
	prov, proxied := []string{"mem", "bolt", "bolt"}[kind], kind == 2
	i := x.Pick(len(fOps))
	j, names := 0, ""
	if others {
		j = x.Pick(len(cOps))
		names = fOps[i].name + " || " + cOps[j].name
	} else {
		j = i + x.Pick(len(fOps)-i)
		names = fOps[i].name + " || " + fOps[j].name
	}
	if proxied && (others || i != j) {
		return
	}
	slot := x.Pick(2)
	f := newF(x, prov, proxied)
	if slot == 1 {
		l := plainLogger(newSink(), lOne).Level(zerolog.WarnLevel)
		f.ctx = l.WithContext(f.ctx)
	}
	if strings.Contains(names, "colliding") {
		uuids.forced = []uuid.UUID{f.oids[0], f.oids[0]}
	}
	var errs [2]string
	var r cRes
	x.Par(func() { errs[0] = clip(fmt.Sprint(fOps[i].run(f, 0)), 60); x.Op() }, func() {
		if others {
			cOps[j].run(f.cWorld, slot, &r)
		} else {
			errs[1] = clip(fmt.Sprint(fOps[j].run(f, slot)), 60)
		}
		x.Op()
	})
	x.Logf("%s (%s, proxied %v, slot %d): %s / %s", names, prov, proxied, slot, errs[0], errs[1])
	x.State(prov, proxied, i, j, slot, errs[0] == "<nil>")
	x.Out("%s: %v", fOps[i].name, errs[0] != "<nil>")
}
