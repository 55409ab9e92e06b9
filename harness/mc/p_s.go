package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

func init() {
	register(&Prop{
		ID: "S01", Level: "model_checking",
		Rule: "All histories of object, token, index and identity operations over distinctive secrets up to the depth; every ID and every byte string handed to the storage provider is searched for every secret, key and password in every plain encoding, also below the record's own encoding, " +
			"and each history is run again with other secrets of the same length and compared call by call. Distinct = distinct call sequences.",
		Scenarios: func(th bool) []*Scenario {
			d := 4
			if th {
				d = 5
			}
			return []*Scenario{
				{Name: "search", Body: func(x *X) { s01Search(x, d) }, Shard: 2},
				{Name: "noninterference", Body: func(x *X) { s01Pair(x, d) }, Shard: 2},
				{Name: "labels", Body: s01Labels},
				{Name: "sizes", Body: s01Sizes, Steps: manySteps},
			}
		},
	})
	register(&Prop{
		ID: "S02", Level: "model_checking",
		Rule: "All histories up to the depth of operations that seal (objects, lists, tokens, index entries, users, groups), rewriting equal contents in the same places, by two instances, and all interleavings of two concurrent sealing operations at statement granularity within the preemption bound; " +
			"every record ever written is opened with a reference implementation, and all keys, nonces, salts, passwords and IDs must be distinct, come from the random source, and use disjoint parts of it. Distinct = distinct sealed records.",
		Scenarios: func(th bool) []*Scenario {
			d, pre := 4, 1
			if th {
				d, pre = 5, 2
			}
			return []*Scenario{
				{Name: "history", Body: func(x *X) { s02History(x, d) }, Shard: 2},
				{Name: "long", Body: s02Long, Shard: 1, Steps: manySteps},
				{Name: "sizes", Body: s02Sizes, Shard: 2, Steps: manySteps},
				{Name: "concurrent", Body: s02Concurrent, Shard: 2, Pre: pre, Fine: true, Site: 3},
			}
		},
	})
	register(&Prop{
		ID: "S03", Level: "exploration",
		Rule: "Every record kind, written by the library and opened by an independent implementation with exactly the documented key, and written by the independent implementation and used through the library; every pair of record kind and wrong key; every subset of foreign keys; every key length from 0 to 64 bytes for every key; field names and encodings of the stored form. Distinct = distinct (kind, key, direction) cases.",
		Scenarios: func(th bool) []*Scenario {
			return []*Scenario{
				{Name: "objects", Body: s03Objects},
				{Name: "index", Body: s03Index},
				{Name: "identity", Body: s03Identity},
				{Name: "tokens", Body: s03Tokens},
				{Name: "foreign-keys", Body: s03Foreign},
				{Name: "lengths", Body: s03Lengths},
				{Name: "key-values", Body: s03KeyValues},
				{Name: "golden", Body: s03Golden},
			}
		},
	})
}

// secrets of a world; every value is distinctive and of fixed length.
type secrets struct {
	pt    []string
	group []string
	kw    []string
	ident []string
	tok   []string
}

func makeSecrets(salt string) secrets {
	g := func(kind string, n int) (r []string) {
		for i := 0; i < n; i++ {
			h := hex.EncodeToString(refSHA3_256([]byte(salt + kind + fmt.Sprint(i))))
			r = append(r, kind+h[:28])
		}
		return
	}
	return secrets{pt: g("Pt", 3), group: g("Gr", 3), kw: g("Kw", 2), ident: g("Id", 3), tok: g("Tk", 1)}
}

func (s secrets) all() (r []string) {
	for _, l := range [][]string{s.pt, s.group, s.kw, s.ident, s.tok} {
		r = append(r, l...)
	}
	return
}

// encodings lists the forms in which a secret would be recognised.
func encodings(sec []byte) [][]byte {
	r := [][]byte{sec}
	h := hex.EncodeToString(sec)
	r = append(r, []byte(h), []byte(strings.ToUpper(h)))
	for shift := 0; shift < 3; shift++ {
		if len(sec)-shift < 9 {
			continue
		}
		p := sec[shift:]
		p = p[:len(p)/3*3]
		r = append(r, []byte(base64.StdEncoding.EncodeToString(p)), []byte(base64.URLEncoding.EncodeToString(p)))
	}
	rev := bytes.Clone(sec)
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	r = append(r, rev)
	var j []byte
	for i, b := range sec { // a JSON array of numbers
		if i > 0 {
			j = append(j, ',')
		}
		j = append(j, fmt.Sprint(b)...)
	}
	r = append(r, j)
	if len(sec) >= 16 { // halves
		r = append(r, sec[:len(sec)/2], sec[len(sec)/2:])
	}
	x := make([]byte, len(sec)) // sums of simple hashes do not hide short keywords
	copy(x, sec)
	sh := refSHA3_256(sec)
	return append(r, sh, []byte(hex.EncodeToString(sh)), []byte(base64.StdEncoding.EncodeToString(sh)))
}

// layers returns b together with everything that can be decoded out of it.
func layers(b []byte, depth int) [][]byte {
	r := [][]byte{b}
	if depth == 0 {
		return r
	}
	var v any
	if json.Unmarshal(b, &v) == nil {
		var walk func(v any)
		walk = func(v any) {
			switch t := v.(type) {
			case map[string]any:
				for k, e := range t {
					r = append(r, []byte(k))
					walk(e)
				}
			case []any:
				for _, e := range t {
					walk(e)
				}
			case string:
				r = append(r, layers([]byte(t), depth-1)...)
			}
		}
		walk(v)
		return r
	}
	if len(b) >= 8 {
		for _, e := range []*base64.Encoding{base64.StdEncoding, base64.RawURLEncoding} {
			if d, err := e.DecodeString(string(b)); err == nil {
				r = append(r, layers(d, depth-1)...)
				break
			}
		}
	}
	return r
}

// sWorld runs histories over all parts of the library on one store.
type sWorld struct {
	*World
	sec     secrets
	d       []*d1.D1
	idx     *index.SecureIndex
	sa      *id.Standalone
	owner   string
	icaller string
	oids    []uuid.UUID
	tokens  []string
	users   [][2]string
	logins  []string
	gids    []string
	fails   int
}

func newS(x *X, sec secrets) *sWorld {
	w := &sWorld{World: NewWorld(x), sec: sec}
	w.st.Quiet = false
	w.d = []*d1.D1{w.World.d, w.Instance(w.st)}
	w.owner = w.idp.User("owner-"+sec.group[2], id.ScopeAll, id.AccessGroup{ID: sec.group[0], Scopes: id.ScopeAll})
	w.icaller = w.idp.User("indexer", id.ScopeIndex)
	w.idx = w.Index(w.st)
	w.sa = w.Standalone(w.st)
	return w
}

const sOps = 15

// do executes one step; unsuccessful steps are part of the history too.
func (w *sWorld) do(op, i int) {
	x := w.x
	x.Op()
	d := w.d[i%len(w.d)]
	s := w.sec
	oid := uuid.Nil
	if len(w.oids) > 0 {
		oid = w.oids[0]
	}
	login := ""
	if len(w.logins) > 0 {
		login = w.logins[len(w.logins)-1]
	}
	var err error
	name := ""
	switch op {
	case 0:
		name = "encrypt"
		var o uuid.UUID
		o, err = d.Encrypt(w.ctx, w.owner, obj(s.pt[0], "visible"), s.group[0], s.group[1])
		if err == nil {
			w.oids = append([]uuid.UUID{o}, w.oids...)
		}
	case 1:
		name = "update"
		err = d.Update(w.ctx, w.owner, oid, obj(s.pt[0], "visible"))
	case 2:
		name = "update other"
		err = d.Update(w.ctx, w.owner, oid, obj(s.pt[1]+s.pt[2], "visible"))
	case 3:
		name = "add groups"
		err = d.AddGroupsToAccess(w.ctx, w.owner, oid, s.group[2])
	case 4:
		name = "remove groups"
		err = d.RemoveGroupsFromAccess(w.ctx, w.owner, oid, s.group[1])
	case 5:
		name = "decrypt and delete"
		if _, err = d.Decrypt(w.ctx, w.owner, oid); err == nil {
			err = d.Delete(w.ctx, w.owner, oid)
		}
	case 6:
		name = "token"
		var t data.SealedToken
		t, err = d.CreateToken(w.ctx, []byte(s.tok[0]))
		if err == nil {
			var ts string
			ts, err = t.String()
			w.tokens = append(w.tokens, ts)
		}
	case 7:
		name = "index add"
		err = w.idx.Add(w.ctx, w.icaller, s.kw[0], s.ident[0])
	case 8:
		name = "index add other"
		err = w.idx.Add(w.ctx, w.icaller, s.kw[1], s.ident[1])
	case 9:
		name = "index delete"
		err = w.idx.Delete(w.ctx, w.icaller, s.kw[0], s.ident[0])
	case 10:
		name = "index search"
		_, err = w.idx.Search(w.ctx, w.icaller, s.kw[0])
	case 11:
		name = "new user and login"
		var u, p, t string
		u, p, err = w.sa.NewUser(w.ctx, id.ScopeAll)
		if err == nil {
			w.users = append(w.users, [2]string{u, p})
			t, _, err = w.sa.LoginUser(w.ctx, u, p)
			w.logins = append(w.logins, t)
		}
	case 12:
		name = "change password"
		if len(w.users) > 0 {
			n := len(w.users) - 1
			var p string
			p, err = w.sa.ChangeUserPassword(w.ctx, w.users[n][0], w.users[n][1])
			if err == nil {
				w.users = append(w.users, [2]string{w.users[n][0], p})
			}
		}
	case 13:
		name = "new group"
		var g string
		g, err = w.sa.NewGroup(w.ctx, login, id.ScopeAll)
		if err == nil {
			w.gids = append(w.gids, g)
		}
	case 14:
		name = "membership"
		if len(w.users) > 0 && len(w.gids) > 0 {
			err = w.sa.AddUserToGroups(w.ctx, login, w.users[0][0], w.gids[len(w.gids)-1])
		}
	}
	if err != nil {
		w.fails++
	}
	x.Logf("%s: %s", name, errName(err))
}

// history picks and runs a history, always one that has something to work with.
func (w *sWorld) history(x *X, depth int) []int {
	var ops []int
	for i := 0; i < depth; i++ {
		c := x.Pick(sOps + 1)
		if c == 0 {
			break
		}
		ops = append(ops, c-1)
	}
	return ops
}

func s01Search(x *X, depth int) {
	w := newS(x, makeSecrets("s01"))
	uuid.DefaultGenerator = uuids
	ops := w.history(x, depth)
	rng.Record()
	w.do(0, 0)
	w.do(11, 0)
	for i, op := range ops {
		w.do(op, i)
	}
	w.do(13, 0)
	x.State(ops)
	x.Out("%d calls", len(w.st.Calls))
	w.searchAll(rng.rec)
}

var secretForms = map[string][][]byte{}

func formsOf(s []byte) [][]byte {
	k := string(s)
	if f, ok := secretForms[k]; ok {
		return f
	}
	f := encodings(s)
	if len(secretForms) < 4000 {
		secretForms[k] = f
	}
	return f
}

func (w *sWorld) searchAll(drawn []byte) {
	x := w.x
	type sec struct {
		name  string
		forms [][]byte
	}
	var secs []sec
	for i, s := range w.sec.all() {
		secs = append(secs, sec{fmt.Sprintf("secret %d (%s)", i, s[:2]), formsOf([]byte(s))})
	}
	k := testKeys()
	c := saConfig()
	for i, b := range [][]byte{k.KEK, k.AEK, k.TEK, k.IEK, c.UEK, c.GEK, c.TEK} {
		secs = append(secs, sec{fmt.Sprintf("master key %d", i), formsOf(b)})
	}
	for _, u := range w.users {
		secs = append(secs, sec{"password", [][]byte{[]byte(u[1]), []byte(base64.StdEncoding.EncodeToString([]byte(u[1])))}})
		raw, err := base64.RawURLEncoding.DecodeString(u[1])
		if err == nil {
			secs = append(secs, sec{"raw password", [][]byte{raw}})
		}
	}
	for _, kw := range w.sec.kw {
		lk, nk := refIndexKeys(k.IEK, kw)
		secs = append(secs, sec{"index key", [][]byte{lk, nk}})
	}
	windows := map[string]bool{}
	for i := 0; i+24 <= len(drawn); i++ {
		windows[string(drawn[i:i+24])] = true
	}
	group := map[string]bool{}
	for _, g := range w.gids {
		group[g] = true
	}
	done := map[string]bool{}
	look := func(what string, b []byte) {
		if done[string(b)] {
			return
		}
		done[string(b)] = true
		for _, l := range layers(b, 3) {
			for _, s := range secs {
				for _, f := range s.forms {
					if len(f) >= 6 && bytes.Contains(l, f) {
						x.Failf("leak", "%s contains %s: %s", what, s.name, clip(fmt.Sprintf("%q", b), 300))
					}
				}
			}
			// raw key material: 24 consecutive bytes of the random source never reach storage
			for i := 0; i+24 <= len(l); i++ {
				if windows[string(l[i:i+24])] {
					x.Failf("leak-key", "%s contains bytes drawn from the random source (a data key)", what)
				}
			}
		}
	}
	for i, c := range w.st.Calls {
		// reading by keyword etc. is part of what storage sees
		look(fmt.Sprintf("storage call %d (%s) data", i, c.Op), c.Data)
		look(fmt.Sprintf("storage call %d (%s) ID", i, c.Op), []byte(c.ID))
		if c.Kind == id.DataTypeSealedUser {
			for g := range group {
				for _, l := range layers(c.Data, 3) {
					if bytes.Contains(l, []byte(g)) {
						x.Failf("leak-membership", "a stored user shows the group %s", g)
					}
				}
			}
		}
	}
	for _, t := range append(append([]string{}, w.tokens...), w.logins...) {
		look("a token", []byte(t))
		for _, u := range w.users {
			for _, l := range layers([]byte(t), 3) {
				if bytes.Contains(l, []byte(u[0])) {
					x.Failf("leak-token", "a login token shows the user ID")
				}
			}
		}
	}
}

// s01Pair runs one history twice with different secrets of equal length.
func s01Pair(x *X, depth int) {
	var ops []int
	type shape struct {
		op   string
		kind io.DataType
		id   string
		n    int
	}
	var runs [2][]shape
	for v := 0; v < 2; v++ {
		resetEnv(x)
		execNumber-- // the same random stream in both runs
		w := newS(x, makeSecrets([]string{"one", "two"}[v]))
		if v == 0 {
			ops = w.history(x, depth)
		}
		w.do(0, 0)
		w.do(7, 0)
		for i, op := range ops {
			w.do(op, i)
		}
		for _, c := range w.st.Calls {
			s := shape{c.Op, c.Kind, c.ID, len(c.Data)}
			if c.Kind == io.DataTypeSealedNode {
				s.id = fmt.Sprint(len(c.ID)) // keywords choose labels, in an unpredictable way
			}
			runs[v] = append(runs[v], s)
		}
	}
	x.State(ops)
	if len(runs[0]) != len(runs[1]) {
		x.Failf("calls", "the number of storage calls depends on secret contents: %d and %d", len(runs[0]), len(runs[1]))
	}
	for i := range runs[0] {
		if runs[0][i] != runs[1][i] {
			x.Failf("shape", "storage call %d depends on secret contents beyond their length: %v and %v", i, runs[0][i], runs[1][i])
		}
	}
	x.Out("%d", len(runs[0]))
}

// Labels of related keywords and positions under two keys: all different, none derivable from
// another without the key, none equal to a keyless function of keyword and position.
func s01Labels(x *X) {
	kws := []string{"", "a", "aa", "ab", "b", "keyword", "keyword1", "keyworD", "\x00", "a\x00", strings.Repeat("k", 200)}
	seen := map[string]string{}
	for kn := 0; kn < 2; kn++ {
		ks := testKeys()
		if kn == 1 {
			ks.IEK = seq(32, 77)
		}
		kp := key.NewStatic(ks)
		w := NewWorld(x)
		tok := w.idp.User("u", id.ScopeIndex)
		idx, err := index.NewSecureIndex(w.ctx, &kp, w.st, w.idp)
		if err != nil {
			x.Failf("new", "%v", err)
		}
		for _, kw := range kws {
			for i := 0; i < 5; i++ {
				n := len(w.st.Calls)
				if err := idx.Add(w.ctx, tok, kw, fmt.Sprint("id", i)); err != nil {
					x.Failf("add", "%v", err)
				}
				x.Op()
				for _, c := range w.st.Calls[n:] {
					if c.Op != "put" {
						continue
					}
					at := fmt.Sprintf("key %d keyword %q position %d", kn, kw, i)
					if o, ok := seen[c.ID]; ok {
						x.Failf("label-shared", "the storage key of %s is also that of %s", at, o)
					}
					seen[c.ID] = at
					x.State(at)
					if len(c.ID) < 16 {
						x.Failf("label-short", "storage key of %s has %d bytes", at, len(c.ID))
					}
					if len(kw) > 2 && strings.Contains(c.ID, kw) {
						x.Failf("label-keyword", "the storage key of %s contains the keyword", at)
					}
				}
			}
		}
	}
	// no byte position of the labels is constant or counts
	var ls []string
	for l := range seen {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for pos := 0; pos < len(ls[0]); pos++ {
		v := map[byte]int{}
		for _, l := range ls {
			if pos < len(l) {
				v[l[pos]]++
			}
		}
		for b, n := range v {
			if n > len(ls)/3 {
				x.Failf("label-structure", "byte %d of the storage keys is %#x in %d of %d labels", pos, b, n, len(ls))
			}
		}
	}
}

// Ciphertext lengths follow plaintext lengths only.
var s01Lengths = []int{200, 255, 256, 500, 512, 1000, 1023, 1024, 1025, 1500, 2048, 4095, 4096, 4097, 8192, 10000, 16384, 32768, 65535, 65536, 70000, 131072, 1 << 20}

// Contents of equal length leave records of equal length.
func s01Sizes(x *X) {
	n := x.Pick(200 + len(s01Lengths))
	if n >= 200 {
		n = s01Lengths[n-200]
	}
	what := x.Pick(4)
	if what > 0 && n > 150000 {
		return
	}
	w := NewWorld(x)
	tok := w.idp.User("u", id.ScopeAll)
	sizes := []int{-1, -1, -1, -1}
	see := func(kind, i, l int) {
		if sizes[i] >= 0 && l != sizes[i] {
			x.Failf("compressed", "the ciphertext of %d bytes of kind %d has %d or %d bytes depending on the contents (%d)", n, what, sizes[i], l, kind)
		}
		sizes[i] = l
	}
	// text of the same length, from repetitive to random
	text := func(kind int) string {
		b := pattern(kind, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-"[b[i]%64]
		}
		return string(b)
	}
	for kind := 0; kind < 4; kind++ {
		x.Op()
		switch what {
		case 0:
			oid, err := w.d.Encrypt(w.ctx, tok, &data.Object{Plaintext: pattern(kind, n), AssociatedData: []byte("m")})
			if err != nil {
				x.Failf("encrypt", "%v", err)
			}
			see(kind, 0, len(parseSealed(w.st.m[oidKey(0, oid)]).Ciphertext))
			if err := w.d.Update(w.ctx, tok, oid, &data.Object{Plaintext: pattern((kind+1)%4, n), AssociatedData: []byte("m")}); err != nil {
				x.Failf("update", "%v", err)
			}
			see(kind, 1, len(parseSealed(w.st.m[oidKey(0, oid)]).Ciphertext))
		case 1:
			t, err := w.d.CreateToken(w.ctx, pattern(kind, n))
			if err != nil {
				x.Failf("token", "%v", err)
			}
			see(kind, 0, len(t.Ciphertext))
		case 2:
			ix := w.Index(w.st)
			before := w.st.Shape()
			if err := ix.Add(w.ctx, tok, fmt.Sprint("kw", kind), text(kind)); err != nil {
				x.Failf("add", "%v", err)
			}
			for k, r := range w.st.m {
				if !strings.Contains(before, k.String()) {
					see(kind, 0, len(parseSealed(r).Ciphertext))
				}
			}
		case 3:
			oid, err := w.d.Encrypt(w.ctx, tok, obj("p", "m"), text(kind)+"-")
			if err != nil {
				x.Failf("encrypt", "%v", err)
			}
			see(kind, 0, len(parseSealed(w.st.m[rkey{io.DataTypeSealedAccess, string(oid.Bytes())}]).Ciphertext))
		}
	}
	x.State(n, what, sizes)
}

// ---- S02 -----------------------------------------------------------------------------

type keyUse struct {
	what string
	b    []byte
}

// collect opens every record ever written and returns all keys and nonces.
func (w *sWorld) collect() (uses []keyUse, cts []keyUse) {
	x := w.x
	k := testKeys()
	c := saConfig()
	seen := map[string]bool{}
	deks := map[string][][]byte{} // wrapped DEKs of an object over time
	for _, cl := range w.st.Calls {
		if (cl.Op != "put" && cl.Op != "update") || cl.Kind != io.DataTypeSealedAccess {
			continue
		}
		a, err := readAccess(cl.Data, k.AEK, uuid.FromBytesOrNil([]byte(cl.ID)))
		if err != nil {
			x.Failf("open", "a written access list cannot be opened: %v", err)
		}
		deks[cl.ID] = append(deks[cl.ID], a.WrappedDEK)
	}
	nodeKeys := map[string][]byte{}
	for _, kw := range w.sec.kw {
		lk, nk := refIndexKeys(k.IEK, kw)
		for i := uint64(0); i < 20; i++ {
			nodeKeys[string(refLabel(lk, i))] = nk
		}
	}
	add := func(what string, kek, wrapped, ct, aad []byte) {
		if seen[string(ct)] {
			x.Failf("ciphertext-repeated", "the ciphertext of %s was written before", what)
		}
		seen[string(ct)] = true
		_, dek, err := refOpen(kek, wrapped, ct, aad)
		if err != nil {
			x.Failf("open", "%s cannot be opened by the reference implementation: %v", what, err)
		}
		uses = append(uses, keyUse{"key of " + what, dek}, keyUse{"nonce of " + what, ct[len(ct)-12:]})
		cts = append(cts, keyUse{"wrapped key of " + what, wrapped}, keyUse{"ciphertext of " + what, ct[:len(ct)-28]})
		x.State(fmt.Sprintf("%x", dek))
	}
	for i, cl := range w.st.Calls {
		if cl.Op != "put" && cl.Op != "update" {
			continue
		}
		s := parseSealed(cl.Data)
		what := fmt.Sprintf("record %d (%s of kind %d)", i, cl.Op, cl.Kind)
		switch cl.Kind {
		case io.DataTypeSealedObject:
			aad := aadBytes(append([]byte(cl.ID), s.AssociatedData...))
			ok := false
			for _, wd := range deks[cl.ID] {
				if _, _, err := refOpen(k.KEK, wd, s.Ciphertext, aad); err == nil {
					add(what, k.KEK, wd, s.Ciphertext, aad)
					ok = true
					break
				}
			}
			if !ok {
				x.Failf("open", "%s cannot be opened with any data key stored for it", what)
			}
		case io.DataTypeSealedAccess:
			add(what, k.AEK, s.WrappedKey, s.Ciphertext, aadBytes([]byte(cl.ID)))
		case io.DataTypeSealedNode:
			add(what, nodeKeys[cl.ID], s.WrappedKey, s.Ciphertext, aadBytes([]byte(cl.ID)))
		case id.DataTypeSealedUser:
			add(what, c.UEK, s.WrappedKey, s.Ciphertext, mustJSON(cl.ID))
		case id.DataTypeSealedGroup:
			add(what, c.GEK, s.WrappedKey, s.Ciphertext, mustJSON(cl.ID))
		}
	}
	for i, ts := range append(append([]string{}, w.tokens...), w.logins...) {
		b, err := base64.RawURLEncoding.DecodeString(ts)
		if err != nil {
			x.Failf("token", "token %d is not base64: %v", i, err)
		}
		s := parseSealed(b)
		kek := k.TEK
		if i >= len(w.tokens) {
			kek = c.TEK
		}
		add(fmt.Sprintf("token %d", i), kek, s.WrappedKey, s.Ciphertext, mustJSON(s.ExpiryTime))
	}
	for i, u := range w.users {
		raw, err := base64.RawURLEncoding.DecodeString(u[1])
		if err != nil {
			x.Failf("password", "%v", err)
		}
		uses = append(uses, keyUse{fmt.Sprintf("password %d", i), raw})
	}
	return
}

// checkFresh checks that everything used is distinct and comes from disjoint parts of the random source.
func (w *sWorld) checkFresh() {
	x := w.x
	if rng.lost {
		x.Failf("harness", "the record of the random source overflowed")
	}
	uses, cts := w.collect()
	type span struct {
		a, b int
		what string
	}
	var spans []span
	byVal := map[string]string{}
	for _, u := range uses {
		if o, ok := byVal[string(u.b)]; ok {
			x.Failf("repeated", "%s equals %s", u.what, o)
		}
		byVal[string(u.b)] = u.what
		i := bytes.Index(rng.rec, u.b)
		if i < 0 {
			x.Failf("not-random", "%s does not consist of bytes drawn from the random source", u.what)
		}
		spans = append(spans, span{i, i + len(u.b), u.what})
	}
	for _, u := range cts {
		if o, ok := byVal[string(u.b)]; ok {
			x.Failf("repeated-output", "%s equals %s", u.what, o)
		}
		byVal[string(u.b)] = u.what
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].a < spans[j].a })
	for i := 1; i < len(spans); i++ {
		if spans[i].a < spans[i-1].b {
			x.Failf("overlap", "%s and %s share bytes of the random source", spans[i-1].what, spans[i].what)
		}
	}
	x.Out("%d keys and nonces", len(uses))
}

func s02History(x *X, depth int) {
	w := newS(x, makeSecrets("s02"))
	ops := w.history(x, depth)
	rng.Record()
	w.do(0, 0)
	w.do(11, 0)
	for i, op := range ops {
		w.do(op, i)
	}
	w.do(1, 1)
	w.do(13, 1)
	w.checkFresh()
}

func s02Long(x *X) {
	op := x.Pick(sOps)
	w := newS(x, makeSecrets("s02l"))
	rng.Record()
	w.do(0, 0)
	w.do(11, 0)
	w.do(13, 0)
	n := 60
	if op == 7 || op == 8 {
		n = 15
	}
	for i := 0; i < n; i++ {
		w.do(op, i)
		if op == 5 {
			w.do(0, i)
		}
		if op == 9 && i < 8 {
			w.do(7, i)
		}
	}
	w.checkFresh()
}

// Contents, identifiers and list entries of every size from empty to large, written again and again.
func s02Sizes(x *X) {
	sizes := []int{-1, 0, 1, 2, 11, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, 33, 44, 48, 63, 64, 65, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 16384, 32768, 65535, 65536, 70000, 300000, 1 << 20}
	n := sizes[x.Pick(len(sizes))]
	part := x.Pick(3)
	s := ""
	if n > 0 {
		s = strings.Repeat("sameagain.", n/10+1)[:n]
	}
	sec := makeSecrets("s02s")
	o := obj(s, "visible")
	if n < 0 {
		o = &data.Object{}
	}
	switch part {
	case 0:
		sec.tok[0] = s
	case 1:
		if n > 70000 {
			return
		}
		sec.ident[0], sec.ident[1] = s, s+"2"
	case 2:
		if n > 70000 {
			return
		}
		sec.group[1] = s
		o = obj("same", s)
	}
	w := newS(x, sec)
	rng.Record()
	for i := 0; i < 3; i++ {
		x.Op()
		d := w.d[i%2]
		oid, err := d.Encrypt(w.ctx, w.owner, o, sec.group[1])
		if err != nil {
			x.Failf("encrypt", "%v", err)
		}
		w.oids = append(w.oids, oid)
		for j := 0; j < 2; j++ {
			if err := w.d[j].Update(w.ctx, w.owner, oid, o); err != nil {
				x.Failf("update", "%v", err)
			}
		}
		if err := d.AddGroupsToAccess(w.ctx, w.owner, oid, sec.group[1]); err != nil {
			x.Failf("add", "%v", err)
		}
		if part == 0 {
			w.do(6, i)
		}
		if part == 1 {
			w.do(7, i)
			w.do(8, i)
		}
	}
	x.State(part, n)
	w.checkFresh()
}

func s02Concurrent(x *X) {
	w := newS(x, makeSecrets("s02c"))
	w.st.YieldOn = true
	o1, err1 := w.d[0].Encrypt(w.ctx, w.owner, obj(w.sec.pt[0], "m"))
	o2, err2 := w.d[0].Encrypt(w.ctx, w.owner, obj(w.sec.pt[0], "m"))
	if err1 != nil || err2 != nil {
		x.Failf("setup", "%v %v", err1, err2)
	}
	kind := x.Pick(8)
	var user, pass string
	if kind >= 6 {
		var err error
		if user, pass, err = w.sa.NewUser(w.ctx, id.ScopeAll); err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	w.st.Calls = make([]Call, 0, 100)
	rng.Record()
	toks := make([]string, 2)
	users := make([][2]string, 2)
	body := func(i int) func() {
		return func() {
			switch kind {
			case 0:
				w.d[0].Update(w.ctx, w.owner, []uuid.UUID{o1, o2}[i], obj(w.sec.pt[0], "m"))
			case 1:
				w.d[0].AddGroupsToAccess(w.ctx, w.owner, []uuid.UUID{o1, o2}[i], "same")
			case 2:
				t, err := w.d[0].CreateToken(w.ctx, []byte(w.sec.tok[0]))
				if err == nil {
					toks[i], _ = t.String()
				}
			case 3:
				w.idx.Add(w.ctx, w.icaller, w.sec.kw[i], w.sec.ident[0])
			case 4:
				w.d[i].Encrypt(w.ctx, w.owner, obj(w.sec.pt[0], "m"))
			case 5:
				users[i][0], users[i][1], _ = w.sa.NewUser(w.ctx, id.ScopeAll)
			case 6:
				toks[i], _, _ = w.sa.LoginUser(w.ctx, user, pass)
			case 7:
				if i == 0 {
					users[0][1], _ = w.sa.ChangeUserPassword(w.ctx, user, pass)
				} else {
					toks[1], _, _ = w.sa.LoginUser(w.ctx, user, pass)
				}
			}
			x.Op()
		}
	}
	x.Par(body(0), body(1))
	if kind == 2 {
		w.tokens = toks
	} else {
		for _, t := range toks {
			if t != "" {
				w.logins = append(w.logins, t)
			}
		}
	}
	for _, u := range users {
		if u[1] != "" {
			w.users = append(w.users, u)
		}
	}
	w.checkFresh()
}

// ---- S03 -----------------------------------------------------------------------------

func fieldNames(x *X, b []byte, want ...string) {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(b, &m); err != nil {
		x.Failf("format", "a stored record is not a JSON object: %v", err)
	}
	got := sortedKeys(m)
	sort.Strings(want)
	if strings.Join(got, ",") != strings.Join(want, ",") {
		x.Failf("format", "a stored record has the fields %v, the published form has %v", got, want)
	}
}

func s03Objects(x *X) {
	pt := pattern(x.Pick(4), []int{0, 1, 16, 33, 1000}[x.Pick(5)])
	ad := pattern(3, []int{0, 1, 7, 64}[x.Pick(4)])
	stage := x.Pick(4)
	w := NewWorld(x)
	k := testKeys()
	owner := w.idp.User("owner", id.ScopeAll)
	reader := w.idp.User("reader", id.ScopeAll)
	list := setFrom("owner", "team", "")
	var oid uuid.UUID
	var err error
	switch stage {
	case 0, 1, 2: // library writes
		oid, err = w.d.Encrypt(w.ctx, owner, &data.Object{Plaintext: pt, AssociatedData: ad}, "team", "")
		if stage == 1 && err == nil {
			oid, err = w.d.Encrypt(w.ctx, owner, obj("other", "x"), "team", "")
			if err == nil {
				err = w.d.Update(w.ctx, owner, oid, &data.Object{Plaintext: pt, AssociatedData: ad})
			}
		}
		if stage == 2 && err == nil {
			list["added"] = struct{}{}
			delete(list, "team")
			if err = w.d.AddGroupsToAccess(w.ctx, owner, oid, "added"); err == nil {
				err = w.d.RemoveGroupsFromAccess(w.ctx, owner, oid, "team")
			}
		}
		if err != nil {
			x.Failf("write", "%v", err)
		}
		or, ar := w.st.m[oidKey(0, oid)], w.st.m[oidKey(1, oid)]
		fieldNames(x, or, "OID", "Ciphertext", "AssociatedData")
		fieldNames(x, ar, "OID", "Ciphertext", "WrappedKey")
		so := parseSealed(or)
		if so.OID == nil || *so.OID != oid || !bytes.Equal(so.AssociatedData, ad) {
			x.Failf("format", "a stored object does not show its ID and associated data in the published form: %s", clip(string(or), 200))
		}
		a, err := readAccess(ar, k.AEK, oid)
		if err != nil {
			x.Failf("access-key", "the stored access list cannot be opened with the access key: %v", err)
		}
		if setOf(a.Groups) != setOf(list) {
			x.Failf("access-form", "the stored access list reads as %s, want %s", setOf(a.Groups), setOf(list))
		}
		p, d, err := readObject(or, k.KEK, a.WrappedDEK, oid)
		if err != nil || !bytes.Equal(p, pt) || !bytes.Equal(d, ad) {
			x.Failf("object-key", "the stored object cannot be opened with the object key: %v", err)
		}
		want := 2 + 28 + (len(pt)+2)/3*4
		if pt == nil {
			want = 4 + 28
		}
		if len(so.Ciphertext) != want {
			x.Failf("object-length", "the ciphertext of %d bytes has %d bytes, want %d", len(pt), len(so.Ciphertext), want)
		}
		// bound to the ID: no other key, ID or associated data opens them
		for i, bad := range [][]byte{k.KEK, k.TEK, k.IEK, saConfig().UEK} {
			if _, err := readAccess(ar, bad, oid); err == nil {
				x.Failf("access-key", "the access list opens with foreign key %d", i)
			}
		}
		other := uuid.Must(uuid.NewV4())
		if _, err := readAccess(ar, k.AEK, other); err == nil {
			x.Failf("access-bound", "the access list is not bound to its object's ID")
		}
		if _, _, err := readObject(or, k.KEK, a.WrappedDEK, other); err == nil {
			x.Failf("object-bound", "the object is not bound to its ID")
		}
		x.State("write", stage, len(pt), len(ad))
	case 3: // the reference writes, the library reads and goes on
		oid = uuid.Must(uuid.FromString("6f0b5c3e-52b2-4d2c-8f5d-0f6a3f1f9f10"))
		dek := make([]byte, 32)
		rng.Read(dek)
		nonce := make([]byte, 12)
		rng.Read(nonce)
		wrapped := refWrap(k.KEK, dek)
		ct := refGCMSeal(dek, nonce, mustJSON(pt), aadBytes(append(append([]byte{}, oid.Bytes()...), ad...)))
		w.st.m[oidKey(0, oid)] = mustJSON(map[string]any{"Ciphertext": ct, "AssociatedData": ad, "OID": oid})
		wk, act := refSealJSON(k.AEK, mustJSON(refAccess{Groups: list, WrappedDEK: wrapped}), aadBytes(oid.Bytes()))
		w.st.m[oidKey(1, oid)] = mustJSON(map[string]any{"WrappedKey": wk, "OID": oid, "Ciphertext": act})
		got, err := w.d.Decrypt(w.ctx, owner, oid)
		checkObj(x, "reference-written", got, err, pt, ad)
		g, err := w.d.GetAccessGroups(w.ctx, owner, oid)
		if err != nil || setOf(g) != setOf(list) {
			x.Failf("reference-list", "%v %s", err, setOf(g))
		}
		if _, err := w.d.Decrypt(w.ctx, reader, oid); !errors.Is(err, d1.ErrNotAuthorized) {
			x.Failf("reference-auth", "an unlisted caller got %v", err)
		}
		if err := w.d.AddGroupsToAccess(w.ctx, owner, oid, "reader"); err != nil {
			x.Failf("reference-add", "%v", err)
		}
		got, err = w.d.Decrypt(w.ctx, reader, oid)
		checkObj(x, "reference-shared", got, err, pt, ad)
		if err := w.d.Update(w.ctx, reader, oid, obj("u", "v")); err != nil {
			x.Failf("reference-update", "%v", err)
		}
		p, d, _, err := refStored(w.st, oid)
		if err != nil || string(p) != "u" || string(d) != "v" {
			x.Failf("reference-updated", "%v %q", err, p)
		}
		x.State("read", len(pt), len(ad))
	}
	x.Op()
	x.Out("%d", stage)
}

func s03Index(x *X) {
	kw := []string{"", "k", "keyword", "é\x00\"", strings.Repeat("x", 300)}[x.Pick(5)]
	dir := x.Pick(2)
	n := 1 + x.Pick(3)
	w := NewWorld(x)
	k := testKeys()
	tok := w.idp.User("u", id.ScopeIndex)
	idx := w.Index(w.st)
	lk, nk := refIndexKeys(k.IEK, kw)
	ids := []string{"first", "", "third \"é\""}
	x.Op()
	if dir == 0 {
		for i := 0; i < n; i++ {
			if err := idx.Add(w.ctx, tok, kw, ids[i]); err != nil {
				x.Failf("add", "%v", err)
			}
		}
		if len(w.st.m) != n {
			x.Failf("records", "%d entries are stored as %d records", n, len(w.st.m))
		}
		for i := 0; i < n; i++ {
			label := refLabel(lk, uint64(i))
			b, ok := w.st.m[rkey{io.DataTypeSealedNode, string(label)}]
			if !ok {
				x.Failf("label", "entry %d of keyword %q is not stored under its KMAC-derived label", i, kw)
			}
			fieldNames(x, b, "Ciphertext", "WrappedKey")
			s := parseSealed(b)
			p, _, err := refOpen(nk, s.WrappedKey, s.Ciphertext, aadBytes(label))
			if err != nil {
				x.Failf("node-key", "entry %d cannot be opened with the keyword's key: %v", i, err)
			}
			var nd refNode
			json.Unmarshal(p, &nd)
			if nd.Identifier != ids[i] || nd.NextCounter != uint64(i+1) {
				x.Failf("node", "entry %d reads as %+v", i, nd)
			}
			fieldNames(x, p, "Identifier", "NextCounter")
			for _, bad := range [][]byte{k.IEK, k.KEK, lk} {
				if _, _, err := refOpen(bad, s.WrappedKey, s.Ciphertext, aadBytes(label)); err == nil {
					x.Failf("node-foreign", "an index entry opens with a foreign key")
				}
			}
			if _, _, err := refOpen(nk, s.WrappedKey, s.Ciphertext, aadBytes(refLabel(lk, uint64(i+1)))); err == nil {
				x.Failf("node-bound", "an index entry is not bound to its label")
			}
		}
	} else {
		for i := 0; i < n; i++ {
			label := refLabel(lk, uint64(i))
			wk, ct := refSealJSON(nk, mustJSON(refNode{ids[i], uint64(i + 1)}), aadBytes(label))
			w.st.m[rkey{io.DataTypeSealedNode, string(label)}] = mustJSON(map[string]any{"Ciphertext": ct, "WrappedKey": wk})
		}
		got, err := idx.Search(w.ctx, tok, kw)
		if err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", ids[:n]) {
			x.Failf("search", "an index written by the reference implementation reads as %q %v, want %q", got, err, ids[:n])
		}
		if err := idx.Add(w.ctx, tok, kw, "more"); err != nil {
			x.Failf("extend", "%v", err)
		}
		if err := idx.Delete(w.ctx, tok, kw, ids[0]); err != nil {
			x.Failf("delete", "%v", err)
		}
		got, err = idx.Search(w.ctx, tok, kw)
		want := append(append([]string{}, ids[1:n]...), "more")
		if err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			x.Failf("search-again", "%q %v, want %q", got, err, want)
		}
	}
	x.State(kw, dir, n)
	x.Out("%d %d", dir, n)
}

func s03Identity(x *X) {
	dir := x.Pick(2)
	sc := id.Scope([]uint64{0, 1, 256, 511, 1 << 40}[x.Pick(5)])
	w := NewWorld(x)
	c := saConfig()
	sa := w.Standalone(w.st)
	x.Op()
	if dir == 0 {
		u, p, err := sa.NewUser(w.ctx, sc)
		if err != nil {
			x.Failf("user", "%v", err)
		}
		t, _, err := sa.LoginUser(w.ctx, u, p)
		if err != nil {
			x.Failf("login", "%v", err)
		}
		g, err := sa.NewGroup(w.ctx, t, sc)
		if err != nil {
			x.Failf("group", "%v", err)
		}
		b := w.st.m[rkey{id.DataTypeSealedUser, u}]
		fieldNames(x, b, "UID", "Ciphertext", "WrappedKey")
		s := parseSealed(b)
		pj, _, err := refOpen(c.UEK, s.WrappedKey, s.Ciphertext, mustJSON(u))
		if err != nil {
			x.Failf("user-key", "a stored user cannot be opened with the user key and its ID: %v", err)
		}
		var ru refUser
		if err := json.Unmarshal(pj, &ru); err != nil || ru.Scopes != uint64(sc) || setOf(ru.Groups) != setOf(setFrom(g)) {
			x.Failf("user-form", "the stored user reads as %+v %v", ru, err)
		}
		fieldNames(x, pj, "SaltAndHash", "Scopes", "Groups")
		if len(ru.SaltAndHash) != 40 || !bytes.Equal(refPwHash(p, ru.SaltAndHash[:8]), ru.SaltAndHash[8:]) {
			x.Failf("user-hash", "the stored password hash is not the published one")
		}
		gb := w.st.m[rkey{id.DataTypeSealedGroup, g}]
		fieldNames(x, gb, "GID", "Ciphertext", "WrappedKey")
		gs := parseSealed(gb)
		pj, _, err = refOpen(c.GEK, gs.WrappedKey, gs.Ciphertext, mustJSON(g))
		if err != nil {
			x.Failf("group-key", "a stored group cannot be opened with the group key and its ID: %v", err)
		}
		var rg refGroup
		if err := json.Unmarshal(pj, &rg); err != nil || rg.Scopes != uint64(sc) {
			x.Failf("group-form", "the stored group reads as %+v %v", rg, err)
		}
		for _, bad := range [][]byte{c.GEK, c.TEK} {
			if _, _, err := refOpen(bad, s.WrappedKey, s.Ciphertext, mustJSON(u)); err == nil {
				x.Failf("user-foreign", "a user opens with a foreign key")
			}
		}
		if _, _, err := refOpen(c.UEK, gs.WrappedKey, gs.Ciphertext, mustJSON(g)); err == nil {
			x.Failf("group-foreign", "a group opens with the user key")
		}
		tb, err := base64.RawURLEncoding.DecodeString(t)
		if err != nil {
			x.Failf("token-form", "%v", err)
		}
		fieldNames(x, tb, "ExpiryTime", "Ciphertext", "WrappedKey")
		ts := parseSealed(tb)
		pj, _, err = refOpen(c.TEK, ts.WrappedKey, ts.Ciphertext, mustJSON(ts.ExpiryTime))
		var uid []byte
		if err != nil || json.Unmarshal(pj, &uid) != nil || string(uid) != u {
			x.Failf("token-key", "a login token cannot be opened with the token key: %v", err)
		}
	} else {
		u, g := "user-1", "group-1"
		salt := seq(8, 3)
		put := func(kind io.DataType, name, key string, kek []byte, v any) {
			wk, ct := refSealJSON(kek, mustJSON(v), mustJSON(key))
			w.st.m[rkey{kind, key}] = mustJSON(map[string]any{name: key, "Ciphertext": ct, "WrappedKey": wk})
		}
		put(id.DataTypeSealedUser, "UID", u, c.UEK, refUser{append(salt, refPwHash("pässword", salt)...), uint64(sc), setFrom(g)})
		put(id.DataTypeSealedGroup, "GID", g, c.GEK, refGroup{uint64(sc) | 2})
		t, _, err := sa.LoginUser(w.ctx, u, "pässword")
		if err != nil {
			x.Failf("reference-login", "a user written by the reference implementation cannot log in: %v", err)
		}
		ident, err := sa.GetIdentity(w.ctx, t)
		if err != nil || ident.ID != u || ident.Scopes != sc || len(ident.Groups) != 1 || ident.Groups[g].Scopes != sc|2 {
			x.Failf("reference-identity", "%+v %v", ident, err)
		}
	}
	x.State(dir, sc)
	x.Out("%d", dir)
}

func s03Tokens(x *X) {
	n := []int{0, 1, 50}[x.Pick(3)]
	w := NewWorld(x)
	k := testKeys()
	pt := pattern(3, n)
	x.Op()
	t, err := w.d.CreateToken(w.ctx, pt)
	if err != nil {
		x.Failf("create", "%v", err)
	}
	pj, _, err := refOpen(k.TEK, t.WrappedKey, t.Ciphertext, mustJSON(t.ExpiryTime))
	var got []byte
	if err != nil || json.Unmarshal(pj, &got) != nil || !bytes.Equal(got, pt) {
		x.Failf("token-key", "a token cannot be opened with the token key bound to its expiry: %v", err)
	}
	for i, bad := range [][]byte{k.KEK, k.AEK, k.IEK} {
		if _, _, err := refOpen(bad, t.WrappedKey, t.Ciphertext, mustJSON(t.ExpiryTime)); err == nil {
			x.Failf("token-foreign", "a token opens with foreign key %d", i)
		}
	}
	wk, ct := refSealJSON(k.TEK, mustJSON(pt), mustJSON(t.ExpiryTime))
	s := base64.RawURLEncoding.EncodeToString(mustJSON(map[string]any{"ExpiryTime": t.ExpiryTime, "Ciphertext": ct, "WrappedKey": wk}))
	p, err := data.TokenFromString(s)
	if err != nil {
		x.Failf("reference-token", "%v", err)
	}
	g, err := w.d.GetTokenContents(w.ctx, &p)
	if err != nil || !bytes.Equal(g, pt) {
		x.Failf("reference-token", "a token sealed by the reference implementation yields %q %v", g, err)
	}
	x.State(n)
}

// Instances whose other keys differ read what this one wrote, instances with a different key of that
// kind do not.
func s03Foreign(x *X) {
	mask := x.Pick(16)
	w := NewWorld(x)
	ks := testKeys()
	for i, p := range []*[]byte{&ks.KEK, &ks.AEK, &ks.TEK, &ks.IEK} {
		if mask&(1<<i) != 0 {
			*p = seq(32, byte(150+i))
		}
	}
	kp := key.NewStatic(ks)
	other, err := d1.New(w.ctx, &kp, w.st, w.idp)
	if err != nil {
		x.Failf("new", "%v", err)
	}
	oi, err := index.NewSecureIndex(w.ctx, &kp, w.st, w.idp)
	if err != nil {
		x.Failf("new", "%v", err)
	}
	owner := w.idp.User("owner", id.ScopeAll)
	idx := w.Index(w.st)
	oid, err := w.d.Encrypt(w.ctx, owner, obj("p", "a"))
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	tk, err := w.d.CreateToken(w.ctx, []byte("token"))
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	if err := idx.Add(w.ctx, owner, "kw", "ident"); err != nil {
		x.Failf("setup", "%v", err)
	}
	x.Op()
	_, err = other.GetAccessGroups(w.ctx, owner, oid)
	if (err == nil) != (mask&2 == 0) {
		x.Failf("access", "access list with foreign keys %04b: %v", mask, err)
	}
	_, err = other.Decrypt(w.ctx, owner, oid)
	if (err == nil) != (mask&3 == 0) {
		x.Failf("object", "object with foreign keys %04b: %v", mask, err)
	}
	_, err = other.GetTokenContents(w.ctx, &tk)
	if (err == nil) != (mask&4 == 0) {
		x.Failf("token", "token with foreign keys %04b: %v", mask, err)
	}
	got, err := oi.Search(w.ctx, owner, "kw")
	if found := err == nil && len(got) == 1; found != (mask&8 == 0) {
		x.Failf("index", "index with foreign keys %04b: %q %v", mask, got, err)
	}
	// the identity provider's keys
	c := saConfig()
	if mask&1 != 0 {
		c.UEK = seq(32, 160)
	}
	if mask&2 != 0 {
		c.GEK = seq(32, 161)
	}
	if mask&4 != 0 {
		c.TEK = seq(32, 162)
	}
	sa := w.Standalone(w.st)
	u, p, err := sa.NewUser(w.ctx, id.ScopeAll)
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	t, _, err := sa.LoginUser(w.ctx, u, p)
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	if mask&8 != 0 {
		if _, err := sa.NewGroup(w.ctx, t, id.ScopeAll); err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	so, err := id.NewStandalone(c, w.st)
	if err != nil {
		x.Failf("new", "%v", err)
	}
	_, _, err = so.LoginUser(w.ctx, u, p)
	if (err == nil) != (mask&1 == 0) {
		x.Failf("user", "login with foreign keys %04b: %v", mask, err)
	}
	_, err = so.GetIdentity(w.ctx, t)
	if (err == nil) != (mask&5 == 0 && (mask&8 == 0 || mask&2 == 0)) {
		x.Failf("identity", "identity with foreign keys %04b: %v", mask, err)
	}
	x.State(mask)
	x.Out("%04b", mask)
}

// keyValue is a 32 byte key: constant, or a pattern with one byte replaced.
func keyValue(i int) []byte {
	k := seq(32, 91)
	vals := []byte{0, 0xff, 0x20, 0x0a, 0x80, 1}
	switch {
	case i == 0:
		return make([]byte, 32)
	case i == 1:
		return bytes.Repeat([]byte{0xff}, 32)
	case i == 2:
		return bytes.Repeat([]byte{'k'}, 32)
	case i == 3: // two equal halves
		return append(seq(16, 3), seq(16, 3)...)
	}
	i -= 4
	k[i/len(vals)] = vals[i%len(vals)]
	return k
}

const nKeyValues = 4 + 32*6

// The key used is exactly the one given, whatever its value: the reference opens what is written under
// it, and an instance whose key differs in one bit does not.
func s03KeyValues(x *X) {
	which := x.Pick(7)
	n := x.Pick(nKeyValues)
	if which >= 4 && n >= 4 && (n-4)/6 != 0 && (n-4)/6 != 15 && (n-4)/6 != 31 {
		return // these need a real password hash each
	}
	v := keyValue(n)
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	x.Op()
	build := func(v []byte) (*d1.D1, *index.SecureIndex, *id.Standalone) {
		ks, c := testKeys(), saConfig()
		*([]*[]byte{&ks.KEK, &ks.AEK, &ks.TEK, &ks.IEK, &c.UEK, &c.GEK, &c.TEK}[which]) = bytes.Clone(v)
		kp := key.NewStatic(ks)
		d, err1 := d1.New(w.ctx, &kp, w.st, w.idp)
		ix, err2 := index.NewSecureIndex(w.ctx, &kp, w.st, w.idp)
		sa, err3 := id.NewStandalone(c, w.st)
		if err1 != nil || err2 != nil || err3 != nil {
			x.Failf("new", "%v %v %v", err1, err2, err3)
		}
		return &d, &ix, &sa
	}
	d, ix, sa := build(v)
	var near [][]byte
	for _, pos := range []int{0, 7, 15, 16, 24, 30, 31} {
		for _, bit := range []byte{1, 0x80} {
			o := bytes.Clone(v)
			o[pos] ^= bit
			near = append(near, o)
		}
	}
	x.State(which, n)
	x.Out("%d", which)
	k := testKeys()
	switch {
	case which < 2:
		oid, err := d.Encrypt(w.ctx, owner, obj("content", "meta"), "grp")
		if err != nil {
			x.Failf("write", "%v", err)
		}
		aek, kek := k.AEK, k.KEK
		if which == 0 {
			kek = v
		} else {
			aek = v
		}
		a, err := readAccess(w.st.m[oidKey(1, oid)], aek, oid)
		if err != nil {
			x.Failf("access-key", "the access list cannot be opened with the given access key %x", aek)
		}
		if p, _, err := readObject(w.st.m[oidKey(0, oid)], kek, a.WrappedDEK, oid); err != nil || string(p) != "content" {
			x.Failf("object-key", "the object cannot be opened with the given object key %x", kek)
		}
		for _, o := range near {
			d2, _, _ := build(o)
			if got, err := d2.Decrypt(w.ctx, owner, oid); err == nil {
				x.Failf("near-key", "an object written under key %x reads under %x: %q", v, o, got.Plaintext)
			}
		}
	case which == 2:
		t, err := d.CreateToken(w.ctx, []byte("token"))
		if err != nil {
			x.Failf("write", "%v", err)
		}
		if _, _, err := refOpen(v, t.WrappedKey, t.Ciphertext, mustJSON(t.ExpiryTime)); err != nil {
			x.Failf("token-key", "a token cannot be opened with the given token key %x", v)
		}
		for _, o := range near {
			d2, _, _ := build(o)
			if _, err := d2.GetTokenContents(w.ctx, &t); err == nil {
				x.Failf("near-key", "a token sealed under key %x opens under %x", v, o)
			}
		}
	case which == 3:
		if err := ix.Add(w.ctx, owner, "kw", "ident"); err != nil {
			x.Failf("write", "%v", err)
		}
		lk, nk := refIndexKeys(v, "kw")
		label := refLabel(lk, 0)
		b, ok := w.st.m[rkey{io.DataTypeSealedNode, string(label)}]
		if !ok {
			x.Failf("label", "an entry is not stored under the label of the given index key %x", v)
		}
		s := parseSealed(b)
		if _, _, err := refOpen(nk, s.WrappedKey, s.Ciphertext, aadBytes(label)); err != nil {
			x.Failf("node-key", "an entry cannot be opened with the given index key %x", v)
		}
		for _, o := range near {
			_, ix2, _ := build(o)
			if got, err := ix2.Search(w.ctx, owner, "kw"); err == nil && len(got) > 0 {
				x.Failf("near-key", "an index written under key %x reads under %x", v, o)
			}
		}
	default:
		u, p, err := sa.NewUser(w.ctx, id.ScopeAll)
		if err != nil {
			x.Failf("write", "%v", err)
		}
		t, _, err := sa.LoginUser(w.ctx, u, p)
		if err != nil {
			x.Failf("login", "%v", err)
		}
		g, err := sa.NewGroup(w.ctx, t, id.ScopeAll)
		if err != nil {
			x.Failf("group", "%v", err)
		}
		var aad []byte
		var s Sealed
		switch which {
		case 4:
			s, aad = parseSealed(w.st.m[rkey{id.DataTypeSealedUser, u}]), mustJSON(u)
		case 5:
			s, aad = parseSealed(w.st.m[rkey{id.DataTypeSealedGroup, g}]), mustJSON(g)
		case 6:
			b, _ := base64.RawURLEncoding.DecodeString(t)
			s = parseSealed(b)
			aad = mustJSON(s.ExpiryTime)
		}
		if _, _, err := refOpen(v, s.WrappedKey, s.Ciphertext, aad); err != nil {
			x.Failf("identity-key", "a record of kind %d cannot be opened with the given key %x", which, v)
		}
		for _, o := range near {
			_, _, sa2 := build(o)
			if _, err := sa2.GetIdentity(w.ctx, t); err == nil {
				x.Failf("near-key", "identity data sealed under key %x opens under %x (key %d)", v, o, which)
			}
		}
	}
}

func s03Lengths(x *X) {
	which := x.Pick(7)
	n := x.Pick(66) - 1
	var k []byte
	if n >= 0 {
		k = seq(n, 5)
	}
	if n < 0 {
		n = 0
	}
	w := NewWorld(x)
	ks := testKeys()
	c := saConfig()
	*([]*[]byte{&ks.KEK, &ks.AEK, &ks.TEK, &ks.IEK, &c.UEK, &c.GEK, &c.TEK}[which]) = k
	kp := key.NewStatic(ks)
	x.Op()
	var err error
	x.Guard("constructor", func() {
		switch {
		case which < 3:
			_, err = d1.New(w.ctx, &kp, w.st, w.idp)
		case which == 3:
			_, err = index.NewSecureIndex(w.ctx, &kp, w.st, w.idp)
		default:
			_, err = id.NewStandalone(c, w.st)
		}
	})
	if (err == nil) != (n == 32) {
		x.Failf("length", "key %d of %d bytes: constructor returned %v", which, n, err)
	}
	x.State(which, n)
	x.Out("%d", which)
}
