package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/gofrs/uuid"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
)

func init() {
	register(&Prop{
		ID: "U03", Level: "exploration",
		Rule: "From a fixed history of three users (one deleted) and three groups in several versions: every assignment of recorded records of either kind, any version and any owner, or nothing, to the slots of a user and of a group; every combination of fields of recorded records; " +
			"every bit flip, byte deletion, duplication and truncation of a user's and a group's record, also below the encoding; a corpus of malformed records; each followed by every login, token and management call. Distinct = distinct storage contents.",
		Scenarios: func(th bool) []*Scenario {
			return []*Scenario{
				{Name: "slots", Body: u03Slots, Shard: 2},
				{Name: "pairs", Body: u03Pairs, Shard: 2},
				{Name: "fields", Body: u03Fields, Shard: 2},
				{Name: "bits", Body: func(x *X) { u03Bits(x, th) }, Shard: 2},
				{Name: "raw", Body: u03Raw, Shard: 2},
				{Name: "junk", Body: u03Junk, Shard: 2},
				{Name: "splice", Body: u03Splice, Shard: 2},
				{Name: "similar", Body: u03Similar, Shard: 2},
				{Name: "long", Body: u03Long, Shard: 2, Steps: manySteps},
			}
		},
	})
}

type u03Written struct {
	pw     string
	salt   string
	scopes id.Scope
	groups string
}

type u03World struct {
	*uWorld
	pool    []poolRec3
	written map[string][]u03Written // per uid
	exact   map[string]u03Written   // per uid+record
	gexact  map[string]bool
	target  string
	gtarget string
}

type poolRec3 struct {
	name string
	kind io.DataType
	id   string
	b    []byte
}

func newU03(x *X) *u03World {
	w := &u03World{uWorld: newU(x), written: map[string][]u03Written{}, exact: map[string]u03Written{}, gexact: map[string]bool{}}
	note := func(name string) {
		for i, u := range w.users {
			k := rkey{id.DataTypeSealedUser, u.uid}
			b, ok := w.st.m[k]
			if !ok {
				continue
			}
			if _, ok := w.exact[u.uid+string(b)]; ok {
				continue
			}
			s := parseSealed(b)
			pj, _, err := refOpen(saConfig().UEK, s.WrappedKey, s.Ciphertext, mustJSON(u.uid))
			if err != nil {
				x.Failf("setup", "a user record cannot be read: %v", err)
			}
			var ru refUser
			json.Unmarshal(pj, &ru)
			wr := u03Written{u.pw, string(ru.SaltAndHash), u.scopes, setOf(u.groups)}
			w.written[u.uid] = append(w.written[u.uid], wr)
			w.exact[u.uid+string(b)] = wr
			w.pool = append(w.pool, poolRec3{fmt.Sprintf("%s of user %d", name, i), k.kind, u.uid, b})
		}
		for i, g := range w.gids {
			b := w.st.m[rkey{id.DataTypeSealedGroup, g}]
			if !w.gexact[g+string(b)] {
				w.gexact[g+string(b)] = true
				w.pool = append(w.pool, poolRec3{fmt.Sprintf("group %d", i), id.DataTypeSealedGroup, g, b})
			}
		}
	}
	w.newUser(id.ScopeDecrypt) // alice
	w.newUser(id.ScopeAll)     // mallory
	w.newUser(id.ScopeDelete)  // dave
	note("v1")
	for i := 0; i < 3; i++ {
		w.login(i, w.users[i].pw, true)
	}
	w.newGroup(w.toks[0], id.ScopeEncrypt)
	note("v2")
	w.newGroup(w.toks[1], id.ScopeAll)
	w.newGroup(w.toks[1], id.ScopeIndex)
	note("v3")
	w.member(true, w.toks[1], 0, w.gids[1])
	note("v4")
	w.change(0, w.users[0].pw)
	w.member(false, w.toks[1], 0, w.gids[1])
	note("v5")
	w.deleteUser(w.toks[1], 2)
	w.st.Quiet = true
	return w
}

func (w *u03World) okIdent(i id.Identity, uid string) (string, bool) {
	for _, v := range w.written[uid] {
		g := map[string]struct{}{}
		for k := range i.Groups {
			g[k] = struct{}{}
		}
		if v.scopes != i.Scopes || v.groups != setOf(g) {
			continue
		}
		ok := i.ID == uid
		for k, ag := range i.Groups {
			ok = ok && ag.ID == k && ag.Scopes == w.gscope[k]
		}
		if ok {
			return "", true
		}
	}
	return identStr(i), false
}

// attack runs every call on the tampered storage.
func (w *u03World) attack(sig string) {
	x := w.x
	base := w.st.Clone()
	reset := func() { w.st.m = base.Clone().m }
	var pws []string
	for _, u := range w.users {
		pws = append(pws, u.pw)
		pws = append(pws, u.old...)
	}
	pws = append(pws, "")
	mayPw := func(u *mUser, pw string) bool {
		rec := base.m[rkey{id.DataTypeSealedUser, u.uid}]
		if v, ok := w.exact[u.uid+string(rec)]; ok {
			return v.pw == pw
		}
		for _, v := range w.written[u.uid] {
			if v.pw == pw {
				return true
			}
		}
		return false
	}
	// laundered checks that a record written by an accepted call carries on a genuine one
	laundered := func(what string) {
		for ui, u := range w.users {
			b := w.st.m[rkey{id.DataTypeSealedUser, u.uid}]
			if b == nil || bytes.Equal(b, base.m[rkey{id.DataTypeSealedUser, u.uid}]) {
				continue
			}
			s, err := tryParseSealed(b)
			if err != nil {
				x.Failf(sig+"-launder", "%s left an unreadable record", what)
			}
			pj, _, err := refOpen(saConfig().UEK, s.WrappedKey, s.Ciphertext, mustJSON(u.uid))
			var ru refUser
			if err != nil || json.Unmarshal(pj, &ru) != nil {
				x.Failf(sig+"-launder", "%s left a record that does not open: %v", what, err)
			}
			ok := false
			for _, v := range w.written[u.uid] {
				ok = ok || v.salt == string(ru.SaltAndHash) && uint64(v.scopes) == ru.Scopes
			}
			if !ok {
				x.Failf(sig+"-launder", "%s resealed a forged record for user %d: scopes %d", what, ui, ru.Scopes)
			}
		}
	}
	for ui, u := range w.users {
		for _, pw := range pws {
			reset()
			var t string
			var err error
			x.Guard(sig+" login", func() { t, _, err = w.sa[0].LoginUser(w.ctx, u.uid, pw) })
			x.Op()
			if err == nil {
				if !mayPw(u, pw) {
					x.Failf(sig+"-login", "%s: user %d was logged in with %s", sig, ui, w.pwName(ui, pw))
				}
				w.judge(sig, t, ui)
				x.Out("login")
			} else if t != "" {
				x.Failf(sig+"-leak", "a failed login returned a token")
			}
			reset()
			var np string
			x.Guard(sig+" change", func() { np, err = w.sa[0].ChangeUserPassword(w.ctx, u.uid, pw) })
			x.Op()
			if err == nil && !mayPw(u, pw) {
				x.Failf(sig+"-change", "%s: the password of user %d was changed with %s", sig, ui, w.pwName(ui, pw))
			}
			if err != nil && np != "" {
				x.Failf(sig+"-leak", "a failed change returned a password")
			}
		}
	}
	reset()
	for _, t := range w.toks {
		w.judge(sig, t.s, t.owner)
		for ui := 0; ui < 2; ui++ {
			u := w.users[ui]
			for add := 0; add < 2; add++ {
				for _, g := range w.gids {
					reset()
					var err error
					x.Guard(sig+" membership", func() {
						if add == 1 {
							err = w.sa[0].AddUserToGroups(w.ctx, t.s, u.uid, g)
						} else {
							err = w.sa[0].RemoveUserFromGroups(w.ctx, t.s, u.uid, g)
						}
					})
					x.Op()
					if err == nil {
						was := false
						for _, v := range w.written[w.users[t.owner].uid] {
							was = was || bytes.Contains([]byte(v.groups), []byte(g))
						}
						if !was {
							x.Failf(sig+"-membership", "%s: user %d, never a member, changed a group's membership", sig, t.owner)
						}
						laundered("a membership change")
					}
				}
			}
		}
		reset()
		var err error
		var g string
		x.Guard(sig+" new group", func() { g, err = w.sa[0].NewGroup(w.ctx, t.s, id.ScopeAll) })
		x.Op()
		if err == nil {
			laundered("NewGroup")
		} else if g != "" {
			x.Failf(sig+"-leak", "a failed NewGroup returned an ID")
		}
		reset()
		x.Guard(sig+" delete", func() { w.sa[0].DeleteUser(w.ctx, t.s, "nobody") })
	}
	w.st.m = base.m
}

// judge resolves a token and checks that what is reported was written for its user.
func (w *u03World) judge(sig, tok string, owner int) {
	x := w.x
	var i id.Identity
	var err error
	x.Guard(sig+" identity", func() { i, err = w.sa[0].GetIdentity(w.ctx, tok) })
	x.Op()
	if err != nil {
		if i.ID != "" || i.Scopes != 0 || len(i.Groups) != 0 {
			x.Failf(sig+"-leak", "a refused token yields %s", identStr(i))
		}
		return
	}
	if s, ok := w.okIdent(i, w.users[owner].uid); !ok {
		x.Failf(sig+"-identity", "%s: the token of user %d yields %s, never written for it", sig, owner, s)
	}
	x.Out("identity")
}

func (w *u03World) slot() rkey {
	t := w.x.Pick(5)
	if t < 3 {
		return rkey{id.DataTypeSealedUser, w.users[t].uid}
	}
	return rkey{id.DataTypeSealedGroup, w.gids[[]int{0, 1}[t-3]]}
}

func u03Slots(x *X) {
	w := newU03(x)
	k := w.slot()
	c := x.Pick(len(w.pool) + 1)
	if c == 0 {
		delete(w.st.m, k)
	} else {
		w.st.m[k] = w.pool[c-1].b
		x.Logf("slot %v holds %s", k, w.pool[c-1].name)
	}
	x.State(k.kind, c, "slot")
	w.attack("slots")
}

// two slots at once: users and groups exchanged
func u03Pairs(x *X) {
	w := newU03(x)
	var users, groups []poolRec3
	for _, p := range w.pool {
		if p.kind == id.DataTypeSealedUser {
			users = append(users, p)
		} else {
			groups = append(groups, p)
		}
	}
	a := x.Pick(len(users))
	w.st.m[rkey{id.DataTypeSealedUser, w.users[0].uid}] = users[a].b
	b := x.Pick(len(users) + len(groups))
	if b < len(users) {
		w.st.m[rkey{id.DataTypeSealedUser, w.users[1].uid}] = users[b].b
	} else {
		for _, g := range w.gids {
			w.st.m[rkey{id.DataTypeSealedGroup, g}] = groups[b-len(users)].b
		}
	}
	x.State("pair", a, b)
	w.attack("pairs")
}

func u03Fields(x *X) {
	w := newU03(x)
	k := w.slot()
	ct := parseSealed(w.pool[x.Pick(len(w.pool))].b)
	wk := parseSealed(w.pool[x.Pick(len(w.pool))].b)
	claim := []string{w.users[0].uid, w.users[1].uid, w.gids[1]}[x.Pick(3)]
	w.st.m[k] = mustJSON(map[string]any{"UID": claim, "GID": claim, "Ciphertext": ct.Ciphertext, "WrappedKey": wk.WrappedKey})
	x.State(k.kind, w.st.Snapshot())
	w.attack("fields")
}

func (w *u03World) victim() rkey {
	if w.x.Bool() {
		return rkey{id.DataTypeSealedGroup, w.gids[0]}
	}
	return rkey{id.DataTypeSealedUser, w.users[0].uid}
}

func u03Bits(x *X, th bool) {
	w := newU03(x)
	k := w.victim()
	rec := w.st.m[k]
	pos := x.Pick(len(rec))
	var muts [][]byte
	for b := 0; b < 8; b++ {
		c := bytes.Clone(rec)
		c[pos] ^= 1 << b
		muts = append(muts, c)
	}
	muts = append(muts, rec[:pos], append(bytes.Clone(rec[:pos]), rec[pos+1:]...),
		append(append(bytes.Clone(rec[:pos]), rec[pos]), rec[pos:]...))
	if th {
		for v := 0; v < 256; v++ {
			c := bytes.Clone(rec)
			c[pos] = byte(v)
			muts = append(muts, c)
		}
	}
	for i, m := range muts {
		w.st.m[k] = m
		x.State(k.kind, pos, i)
		w.attack("bits")
	}
}

func u03Raw(x *X) {
	w := newU03(x)
	k := w.victim()
	rec := parseSealed(w.st.m[k])
	f := &rec.Ciphertext
	if x.Bool() {
		f = &rec.WrappedKey
	}
	orig := bytes.Clone(*f)
	pos := x.Pick(len(orig))
	put := func(b []byte, what int) {
		*f = b
		w.st.m[k] = mustJSON(map[string]any{"UID": rec.UID, "GID": rec.GID, "Ciphertext": rec.Ciphertext, "WrappedKey": rec.WrappedKey})
		x.State(k.kind, f == &rec.WrappedKey, pos, what)
		w.attack("raw")
	}
	for b := 0; b < 8; b++ {
		c := bytes.Clone(orig)
		c[pos] ^= 1 << b
		put(c, b)
	}
	put(bytes.Clone(orig[:pos]), 8)
	put(append(bytes.Clone(orig[:pos]), orig[pos+1:]...), 9)
	put(append(bytes.Clone(orig), orig[:pos]...), 10)
}

func u03Junk(x *X) {
	w := newU03(x)
	k := w.victim()
	js := junkRecords(w.st.m[k])
	js = append(js, []byte(`{"SaltAndHash":"AAAA","Scopes":511,"Groups":{}}`), []byte(`{"Scopes":511}`), []byte(`{"UID":5}`), []byte(`{"GID":{}}`), []byte(`{"UID":null,"GID":null}`))
	i := x.Pick(len(js))
	w.st.m[k] = js[i]
	x.State(k.kind, i, "junk")
	x.Logf("record %v replaced by %q", k, clip(string(js[i]), 80))
	w.attack("junk")
}

// Records forged with other keys, and records that open but hold unexpected contents.
func u03Splice(x *X) {
	w := newU03(x)
	c := saConfig()
	k := w.victim()
	user := k.kind == id.DataTypeSealedUser
	pws := w.users[1].pw
	salt := seq(8, 9)
	var plain []byte
	if user {
		plain = mustJSON(refUser{append(salt, refPwHash(pws, salt)...), 511, setFrom(w.gids...)})
	} else {
		plain = mustJSON(refGroup{511})
	}
	kek := c.UEK
	if !user {
		kek = c.GEK
	}
	aad := mustJSON(k.id)
	kind := x.Pick(7)
	switch kind {
	case 0:
		kek = seq(32, 99)
	case 1:
		kek = c.TEK
	case 2: // the other kind's key
		if user {
			kek = c.GEK
		} else {
			kek = c.UEK
		}
	case 3:
		aad = mustJSON(w.users[1].uid)
	case 4:
		aad = mustJSON("")
	case 5:
		aad = aadBytes([]byte(k.id))
	case 6:
		aad = mustJSON(k.id + " ")
	}
	wk, ct := refSealJSON(kek, plain, aad)
	claim := []string{k.id, w.users[1].uid, ""}[x.Pick(3)]
	w.st.m[k] = mustJSON(map[string]any{"UID": claim, "GID": claim, "Ciphertext": ct, "WrappedKey": wk})
	x.State(k.kind, kind, claim == k.id)
	w.attack("splice")
}

// similarIDs returns texts that are close to an ID without being it.
func similarIDs(uid string) []string {
	r := []string{strings.ToUpper(uid), strings.Title(uid), " " + uid, uid + " ", uid + "\x00", "\x00" + uid, uid + "\n", uid + "x", uid + uid, uid + "/", "{" + uid + "}", "urn:uuid:" + uid,
		strings.ReplaceAll(uid, "-", ""), strings.ReplaceAll(uid, "-", "_"), "\ufeff" + uid, uid + "\xff", uid + "\u0301", `"` + uid + `"`, strings.Repeat("0", 8) + uid[8:], uid[:24] + strings.Repeat("0", 12), "", "user:" + uid, uid + ":0"}
	for i := 1; i < len(uid); i++ {
		r = append(r, uid[:i], uid[i:], uid[:i]+strings.ToUpper(uid[i:i+1])+uid[i+1:], uid[:i]+uid[i+1:], uid[:i]+"\x00"+uid[i:])
		for _, c := range "0f-" {
			r = append(r, uid[:i]+string(c)+uid[i+1:])
		}
	}
	for _, c := range "123456789abcde" {
		r = append(r, string(c)+uid[1:], uid[:len(uid)-1]+string(c))
	}
	if u, err := uuid.FromString(uid); err == nil {
		r = append(r, string(u.Bytes()), fmt.Sprintf("%x", u.Bytes()), base64.StdEncoding.EncodeToString(u.Bytes()))
	}
	var o []string
	seen := map[string]bool{uid: true}
	for _, s := range r {
		if !seen[s] {
			seen[s] = true
			o = append(o, s)
		}
	}
	return o
}

// A user's or a group's record placed under an ID that resembles its own, as it is and with its fields and
// those of another recombined.
func u03Similar(x *X) {
	w := newU(x)
	forceUUID("c0ffee12-3456-4abc-9def-0123456789ab")
	w.newUser(id.ScopeDecrypt)
	w.newUser(id.ScopeAll)
	w.login(0, w.users[0].pw, true)
	w.login(1, w.users[1].pw, true)
	w.newGroup(w.toks[0], id.ScopeEncrypt)
	w.newGroup(w.toks[1], id.ScopeAll)
	w.st.Quiet = true
	alice := w.users[0]
	ids := similarIDs(alice.uid)
	like := ids[x.Pick(len(ids))]
	rec := w.st.m[rkey{id.DataTypeSealedUser, alice.uid}]
	relabel := x.Pick(3)
	if relabel > 0 {
		s := parseSealed(rec)
		m := map[string]any{"UID": like, "Ciphertext": s.Ciphertext, "WrappedKey": s.WrappedKey}
		if relabel == 2 {
			m["UID"] = alice.uid
			m["uid"] = like
		}
		rec = mustJSON(m)
	}
	w.st.m[rkey{id.DataTypeSealedUser, like}] = rec
	w.st.m[rkey{id.DataTypeSealedGroup, like}] = w.st.m[rkey{id.DataTypeSealedGroup, w.gids[0]}]
	x.State(like, relabel)
	x.Logf("the record of user %s is placed under %q", alice.uid, like)
	inst := w.sa[x.Pick(2)]
	var t string
	var err error
	x.Guard("similar login", func() { t, _, err = inst.LoginUser(w.ctx, like, alice.pw) })
	x.Op()
	if err == nil || t != "" {
		x.Failf("similar-login", "the record written for %s is accepted for a login as %q", alice.uid, like)
	}
	x.Guard("similar change", func() { t, err = inst.ChangeUserPassword(w.ctx, like, alice.pw) })
	x.Op()
	if err == nil || t != "" {
		x.Failf("similar-change", "the record written for %s is accepted for a password change of %q", alice.uid, like)
	}
	for ti, g := range w.gids {
		x.Guard("similar add", func() { err = inst.AddUserToGroups(w.ctx, w.toks[ti].s, like, g) })
		x.Op()
		if err == nil {
			x.Failf("similar-add", "the record written for %s is accepted when %q is added to a group", alice.uid, like)
		}
		x.Guard("similar remove", func() { err = inst.RemoveUserFromGroups(w.ctx, w.toks[ti].s, like, g) })
		x.Op()
		if err == nil {
			x.Failf("similar-remove", "the record written for %s is accepted when %q is removed from a group", alice.uid, like)
		}
	}
	// the genuine users are what they were
	for i := range w.users {
		if _, _, err := inst.LoginUser(w.ctx, w.users[i].uid, w.users[i].pw); err != nil {
			x.Failf("similar-genuine", "user %d can no longer log in: %v", i, err)
		}
	}
}

// Alterations at every position of the record of a user who is in many groups.
func u03Long(x *X) {
	n := []int{5, 100}[x.Pick(2)]
	w := newU(x)
	w.newUser(id.ScopeDecrypt)
	w.newUser(id.ScopeAll)
	w.login(0, w.users[0].pw, true)
	for i := 0; i < n; i++ {
		w.newGroup(w.toks[0], id.ScopeEncrypt)
	}
	w.st.Quiet = true
	u := w.users[0]
	k := rkey{id.DataTypeSealedUser, u.uid}
	rec := parseSealed(w.st.m[k])
	orig := bytes.Clone(rec.Ciphertext)
	want := map[string]struct{}{}
	for _, g := range w.gids {
		want[g] = struct{}{}
	}
	const chunk = 128
	c := x.Pick((len(orig) + chunk) / chunk)
	put := func(what string, pos int, b []byte) {
		w.st.m[k] = mustJSON(map[string]any{"Ciphertext": b, "WrappedKey": rec.WrappedKey})
		x.State(n, what, pos)
		var i id.Identity
		var err error
		x.Guard("long identity", func() { i, err = w.sa[0].GetIdentity(w.ctx, w.toks[0].s) })
		x.Op()
		if err != nil {
			return
		}
		got := map[string]struct{}{}
		for g := range i.Groups {
			got[g] = struct{}{}
		}
		if i.ID != u.uid || i.Scopes != u.scopes || setOf(got) != setOf(want) {
			x.Failf("long-accepted", "%s at byte %d of %d: a user record that was never written is accepted: %s", what, pos, len(orig), clip(identStr(i), 200))
		}
	}
	for pos := c * chunk; pos < (c+1)*chunk && pos < len(orig); pos++ {
		b := bytes.Clone(orig)
		b[pos] ^= 1 << (pos % 8)
		put("a changed bit", pos, b)
		if pos%8 == 0 || pos > len(orig)-50 {
			put("truncation", pos, bytes.Clone(orig[:pos]))
			put("a removed byte", pos, append(bytes.Clone(orig[:pos]), orig[pos+1:]...))
			put("an added byte", pos, append(append(bytes.Clone(orig[:pos]), 0), orig[pos:]...))
		}
	}
	x.Out("%d", n)
}
