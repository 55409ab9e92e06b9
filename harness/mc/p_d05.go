package main

import (
	"bytes"
	"context"
	"fmt"
	"strings"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

func init() {
	register(&Prop{
		ID: "D05", Level: "exploration",
		Rule: "From a fixed history of two objects of different owners in several versions plus a deleted one: every assignment of recorded records (of either kind, any version, any object) or nothing to the slots of an object; " +
			"every combination of record fields of all versions; every bit flip, byte deletion, duplication and truncation of both records, also below the encoding; a corpus of malformed records; each followed by every operation of owner, revoked member and foreign owner. " +
			"Distinct = distinct storage contents.",
		Scenarios: func(th bool) []*Scenario {
			return []*Scenario{
				{Name: "slots", Body: d05Slots, Shard: 2},
				{Name: "fields", Body: d05Fields, Shard: 3},
				{Name: "access-fields", Body: d05AccessFields, Shard: 2},
				{Name: "bits", Body: func(x *X) { d05Bits(x, th) }, Shard: 2},
				{Name: "raw", Body: d05Raw, Shard: 2},
				{Name: "junk", Body: d05Junk, Shard: 2},
				{Name: "splice", Body: d05Splice, Shard: 2},
				{Name: "neighbours", Body: d05Neighbours, Shard: 2},
				{Name: "long", Body: func(x *X) { d05Long(x, th) }, Shard: 2, Steps: manySteps},
				{Name: "huge", Body: func(x *X) { d05Huge(x, th) }, Shard: 2, Steps: manySteps},
			}
		},
	})
}

type d05World struct {
	*World
	pool  []poolRec
	oids  []uuid.UUID
	pairs map[uuid.UUID]map[string]bool       // plaintext/aad pairs written for an object
	lists map[uuid.UUID][]map[string]struct{} // access lists written for an object
	byRec map[string]map[string]struct{}      // list written with a given access record
	toks  []string
	ids   []map[string]struct{}
}

type poolRec struct {
	name string
	kind io.DataType
	oid  uuid.UUID
	b    []byte
}

func newD05(x *X) *d05World {
	w := &d05World{World: NewWorld(x), pairs: map[uuid.UUID]map[string]bool{}, lists: map[uuid.UUID][]map[string]struct{}{}, byRec: map[string]map[string]struct{}{}}
	alice := w.idp.User("alice", id.ScopeAll)
	bob := w.idp.User("bob", id.ScopeAll)
	mallory := w.idp.User("mallory", id.ScopeAll)
	w.toks = []string{alice, bob, mallory}
	w.ids = []map[string]struct{}{setFrom("alice"), setFrom("bob"), setFrom("mallory")}
	step := func(name string, oid uuid.UUID, list []string, pt, ad string) {
		if w.pairs[oid] == nil {
			w.pairs[oid] = map[string]bool{}
		}
		w.pairs[oid][pt+"\x00"+ad] = true
		w.lists[oid] = append(w.lists[oid], setFrom(list...))
		for _, k := range []io.DataType{0, 1} {
			b := w.st.m[oidKey(k, oid)]
			dup := false
			for _, p := range w.pool {
				dup = dup || bytes.Equal(p.b, b)
			}
			if !dup {
				w.pool = append(w.pool, poolRec{fmt.Sprintf("%s/%d", name, k), k, oid, b})
			}
		}
		w.byRec[string(w.st.m[oidKey(1, oid)])] = setFrom(list...)
	}
	must := func(err error) {
		if err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	a, err := w.d.Encrypt(w.ctx, alice, obj("alice 1", "aad 1"), "bob")
	must(err)
	step("a1", a, []string{"alice", "bob"}, "alice 1", "aad 1")
	must(w.d.Update(w.ctx, alice, a, obj("alice 2", "aad 2")))
	step("a2", a, []string{"alice", "bob"}, "alice 2", "aad 2")
	must(w.d.RemoveGroupsFromAccess(w.ctx, alice, a, "bob"))
	step("a3", a, []string{"alice"}, "alice 2", "aad 2")
	must(w.d.Update(w.ctx, alice, a, obj("alice 4", "")))
	step("a4", a, []string{"alice"}, "alice 4", "")
	m, err := w.d.Encrypt(w.ctx, mallory, obj("mallory 1", "aad 1"))
	must(err)
	step("m1", m, []string{"mallory"}, "mallory 1", "aad 1")
	must(w.d.Update(w.ctx, mallory, m, obj("alice 2", "aad 2"))) // same content as alice's
	step("m2", m, []string{"mallory"}, "alice 2", "aad 2")
	d, err := w.d.Encrypt(w.ctx, alice, obj("deleted", "aad d"))
	must(err)
	step("d1", d, []string{"alice"}, "deleted", "aad d")
	must(w.d.Delete(w.ctx, alice, d))
	w.oids = []uuid.UUID{a, m, d}
	return w
}

// attack runs every operation by every caller on the tampered storage and judges what is accepted.
func (w *d05World) attack(sig string, oids ...uuid.UUID) {
	x := w.x
	base := w.st.Clone()
	for _, oid := range oids {
		rec := base.m[oidKey(1, oid)]
		exact, pristine := w.byRec[string(rec)]
		if pristine {
			pristine = false
			for _, p := range w.pool {
				if p.kind == 1 && p.oid == oid && bytes.Equal(p.b, rec) {
					pristine = true
				}
			}
		}
		for t, tok := range w.toks {
			may := false
			for _, l := range w.lists[oid] {
				for i := range w.ids[t] {
					if _, ok := l[i]; ok {
						may = true
					}
				}
			}
			if pristine {
				may = false
				for i := range w.ids[t] {
					if _, ok := exact[i]; ok {
						may = true
					}
				}
			}
			for _, op := range dOps {
				if !op.existing {
					continue
				}
				w.st.m = base.Clone().m
				var r opResult
				x.Guard(sig+" "+op.name, func() { r = op.run(w.d, w.ctx, tok, oid) })
				x.Op()
				if r.err != nil {
					if !r.zero {
						x.Failf(sig+"-leak", "%s: a failed %s returned data %+v", sig, op.name, r)
					}
					continue
				}
				if op.name == "Delete" && rec == nil {
					continue // nothing to authorise by: reports the object as gone
				}
				if !may {
					x.Failf(sig+"-authorised", "%s: %s by %s on object %d was authorised although no access list written for the object lists the caller (access record: %s)",
						sig, op.name, tok, w.index(oid), clip(string(rec), 300))
				}
				switch op.name {
				case "Decrypt":
					if !w.pairs[oid][string(r.obj.Plaintext)+"\x00"+string(r.obj.AssociatedData)] {
						x.Failf(sig+"-content", "%s: Decrypt of object %d returned %q with %q, never written together for that object",
							sig, w.index(oid), r.obj.Plaintext, r.obj.AssociatedData)
					}
					x.Out("accepted %s", op.name)
				case "GetAccessGroups":
					ok := false
					for _, l := range w.lists[oid] {
						ok = ok || setOf(l) == setOf(r.set)
					}
					if !ok {
						x.Failf(sig+"-list", "%s: GetAccessGroups reports %s, never an access list of that object", sig, setOf(r.set))
					}
				case "Update":
					// the accepted list was genuine: now the object must hold what was written
					got, err := w.d.Decrypt(w.ctx, tok, oid)
					if err == nil && (string(got.Plaintext) != "updated" || string(got.AssociatedData) != "updatedmeta") {
						x.Failf(sig+"-update", "%s: Decrypt after a successful Update returned %q", sig, got.Plaintext)
					}
				}
			}
		}
	}
	w.st.m = base.m
}

func (w *d05World) index(oid uuid.UUID) int {
	for i, o := range w.oids {
		if o == oid {
			return i
		}
	}
	return -1
}

func d05Slots(x *X) {
	w := newD05(x)
	t := w.oids[x.Pick(3)]
	var names []string
	for _, k := range []io.DataType{0, 1} {
		c := x.Pick(len(w.pool) + 2)
		switch {
		case c == 0:
			names = append(names, "as is")
		case c == 1:
			delete(w.st.m, oidKey(k, t))
			names = append(names, "nothing")
		default:
			w.st.m[oidKey(k, t)] = w.pool[c-2].b
			names = append(names, w.pool[c-2].name)
		}
	}
	x.Logf("object %d: object slot holds %s, access slot holds %s", w.index(t), names[0], names[1])
	x.State(w.index(t), names)
	w.attack("slots", t)
}

func setJSON(m map[string]any) []byte { return mustJSON(m) }

func d05Fields(x *X) {
	w := newD05(x)
	t := w.oids[x.Pick(2)]
	var objs, accs []poolRec
	for _, p := range w.pool {
		if p.kind == 0 {
			objs = append(objs, p)
		} else {
			accs = append(accs, p)
		}
	}
	ct := parseSealed(objs[x.Pick(len(objs))].b)
	ads := objs[x.Pick(len(objs))]
	ad := parseSealed(ads.b).AssociatedData
	acc := accs[x.Pick(len(accs))]
	claim := w.oids[x.Pick(2)]
	if x.Bool() {
		ct = parseSealed(acc.b) // the access list's ciphertext as object
	}
	w.st.m[oidKey(0, t)] = setJSON(map[string]any{"OID": claim, "Ciphertext": ct.Ciphertext, "AssociatedData": ad})
	w.st.m[oidKey(1, t)] = acc.b
	x.State(w.index(t), w.st.Snapshot())
	x.Logf("object %d: aad of %s, access record %s", w.index(t), ads.name, acc.name)
	w.attack("fields", t)
}

func d05AccessFields(x *X) {
	w := newD05(x)
	t := w.oids[x.Pick(2)]
	ct := parseSealed(w.pool[x.Pick(len(w.pool))].b)
	wk := w.pool[x.Pick(len(w.pool))]
	wrapped := parseSealed(wk.b).WrappedKey
	claim := w.oids[x.Pick(2)]
	if wk.kind == 0 {
		// the object's own wrapped key lives inside its access list
		for _, p := range w.pool {
			if p.kind == 1 && p.oid == wk.oid {
				if a, err := readAccess(p.b, testKeys().AEK, p.oid); err == nil {
					wrapped = a.WrappedDEK
				}
			}
		}
	}
	w.st.m[oidKey(1, t)] = setJSON(map[string]any{"OID": claim, "Ciphertext": ct.Ciphertext, "WrappedKey": wrapped})
	x.State(w.index(t), w.st.Snapshot())
	w.attack("access-fields", t)
}

func d05Bits(x *X, th bool) {
	w := newD05(x)
	t := w.oids[x.Pick(2)]
	k := io.DataType(x.Pick(2))
	rec := w.st.m[oidKey(k, t)]
	pos := x.Pick(len(rec))
	var muts [][]byte
	for b := 0; b < 8; b++ {
		c := bytes.Clone(rec)
		c[pos] ^= 1 << b
		muts = append(muts, c)
	}
	muts = append(muts, rec[:pos], append(bytes.Clone(rec[:pos]), rec[pos+1:]...),
		append(append(bytes.Clone(rec[:pos]), rec[pos]), rec[pos:]...), append(bytes.Clone(rec), rec[pos:]...))
	if th {
		for v := 0; v < 256; v++ {
			c := bytes.Clone(rec)
			c[pos] = byte(v)
			muts = append(muts, c)
		}
	}
	for _, m := range muts {
		w.st.m[oidKey(k, t)] = m
		x.State(w.index(t), k, pos, string(m) == string(rec), clip(fmt.Sprintf("%x", m), 4000))
		w.attack("bits", t)
	}
}

// Changes below the encoding: every bit of ciphertext, wrapped key and associated data.
func d05Raw(x *X) {
	w := newD05(x)
	t := w.oids[0]
	k := io.DataType(x.Pick(2))
	rec := parseSealed(w.st.m[oidKey(k, t)])
	if k == 0 && x.Bool() {
		// an earlier version with associated data
		for _, p := range w.pool {
			if p.name == "a2/0" {
				rec = parseSealed(p.b)
				w.st.m[oidKey(0, t)] = p.b
			}
			if p.name == "a3/1" {
				w.st.m[oidKey(1, t)] = p.b
			}
		}
	}
	fields := []*[]byte{&rec.Ciphertext, &rec.AssociatedData, &rec.WrappedKey}
	f := fields[x.Pick(3)]
	orig := bytes.Clone(*f)
	pos := x.Pick(len(orig) + 1)
	put := func(b []byte) {
		*f = b
		m := map[string]any{"OID": t, "Ciphertext": rec.Ciphertext}
		if k == 0 {
			m["AssociatedData"] = rec.AssociatedData
		} else {
			m["WrappedKey"] = rec.WrappedKey
		}
		w.st.m[oidKey(k, t)] = setJSON(m)
		x.State(k, pos, w.st.Snapshot())
		w.attack("raw", t)
	}
	if pos < len(orig) {
		for b := 0; b < 8; b++ {
			c := bytes.Clone(orig)
			c[pos] ^= 1 << b
			put(c)
		}
		put(append(bytes.Clone(orig[:pos]), orig[pos+1:]...))
	}
	put(bytes.Clone(orig[:pos]))
	put(append(bytes.Clone(orig), orig[:pos]...))
	put(append(append(bytes.Clone(orig[:pos]), 0), orig[pos:]...))
	if pos+8 <= len(orig) {
		c := bytes.Clone(orig)
		copy(c[pos:], make([]byte, 8))
		put(c)
	}
}

func junkRecords(good []byte) [][]byte {
	s := string(good)
	sl := parseSealed(good)
	r := []string{"", " ", "null", "{}", "[]", "0", "true", `""`, "{", `{"`, `{"Ciphertext"`, `{"Ciphertext":}`, `{"Ciphertext":null,"WrappedKey":null}`,
		`{"Ciphertext":"","WrappedKey":""}`, `{"Ciphertext":"AAAA","WrappedKey":"AAAA"}`, `{"Ciphertext":5,"WrappedKey":6}`, `{"Ciphertext":[1,2,3],"WrappedKey":[]}`,
		`{"Ciphertext":{"a":1}}`, `{"OID":null}`, `{"OID":""}`, `{"OID":"x"}`, `{"OID":5}`, strings.Repeat("[", 20000), strings.Repeat(`{"a":`, 20000),
		s + s, s + " ", s + "x", " " + s, "\xef\xbb\xbf" + s, strings.ToLower(s), strings.ToUpper(s), strings.ReplaceAll(s, ":", ": "),
		strings.ReplaceAll(s, `"Ciphertext"`, `"ciphertext"`), strings.ReplaceAll(s, `"WrappedKey"`, `"wrappedkey"`),
		strings.ReplaceAll(s, `"`, `'`), "\x00\x00\x00\x00", "\xff\xfe", string(make([]byte, 3000)),
		strings.Replace(s, "{", `{"Ciphertext":"AAAA",`, 1), strings.Replace(s, "{", `{"Groups":{"mallory":{}},"WrappedDEK":"AAAA",`, 1),
		`{"Groups":{"mallory":{},"alice":{},"bob":{}},"WrappedDEK":"AAAA"}`, `{"Plaintext":"AAAA","AssociatedData":"AAAA"}`,
		`{"Ciphertext":"` + strings.Repeat("A", 100000) + `"}`, `{"Ciphertext":"====","WrappedKey":"===="}`, `{"Ciphertext":"AA\u0000A"}`}
	for n := 0; n <= 64; n++ {
		r = append(r, string(mustJSON(Sealed{Ciphertext: make([]byte, n), WrappedKey: sl.WrappedKey})))
		r = append(r, string(mustJSON(Sealed{Ciphertext: sl.Ciphertext, WrappedKey: make([]byte, n), AssociatedData: sl.AssociatedData})))
		if n < len(sl.Ciphertext) {
			r = append(r, string(mustJSON(Sealed{Ciphertext: sl.Ciphertext[:n], WrappedKey: sl.WrappedKey, AssociatedData: sl.AssociatedData})))
		}
		if n < len(sl.WrappedKey) {
			r = append(r, string(mustJSON(Sealed{Ciphertext: sl.Ciphertext, WrappedKey: sl.WrappedKey[:n]})))
		}
	}
	var o [][]byte
	for _, s := range r {
		o = append(o, []byte(s))
	}
	return o
}

func d05Junk(x *X) {
	w := newD05(x)
	t := w.oids[0]
	k := io.DataType(x.Pick(2))
	js := junkRecords(w.st.m[oidKey(k, t)])
	i := x.Pick(len(js))
	w.st.m[oidKey(k, t)] = js[i]
	x.State(k, i)
	x.Logf("record of kind %d replaced by %q", k, clip(string(js[i]), 80))
	w.attack("junk", t)
}

// Records sealed by an attacker who has other keys, or genuine parts recombined.
func d05Splice(x *X) {
	w := newD05(x)
	a, m := w.oids[0], w.oids[1]
	k := testKeys()
	evil := setFrom("mallory", "alice")
	kind := x.Pick(8)
	var kek, aad []byte
	plain := mustJSON(refAccess{Groups: evil, WrappedDEK: make([]byte, 40)})
	kek, aad = seq(32, 99), aadBytes(a.Bytes())
	switch kind {
	case 0: // a key of the attacker
	case 1: // sealed for another object
		kek, aad = k.AEK, aadBytes(m.Bytes())
	case 2: // a token's key
		kek = k.TEK
	case 3: // the object key
		kek = k.KEK
	case 4: // with the list but another binding
		kek, aad = k.AEK, aadBytes(nil)
	case 5:
		kek, aad = k.AEK, mustJSON("")
	case 6:
		kek, aad = k.AEK, aadBytes(append(a.Bytes(), 0))
	case 7: // bound to the textual ID
		kek, aad = k.AEK, mustJSON(a.String())
	}
	wk, ct := refSealJSON(kek, plain, aad)
	rec := map[string]any{"OID": []any{a, m, a.String()}[x.Pick(3)], "Ciphertext": ct, "WrappedKey": wk}
	w.st.m[oidKey(1, a)] = setJSON(rec)
	x.State(kind, fmt.Sprint(rec["OID"] == m))
	w.attack("splice", a)
}

var _ = data.Object{}
var _ d1.D1
var _ context.Context
var _ key.Keys

// Records of two objects of different owners whose IDs differ in one bit, or are rearrangements of each
// other, are exchanged in every way.
func d05Neighbours(x *X) {
	var a, b uuid.UUID
	copy(a[:], seq(16, 0x21))
	switch i := x.Pick(128 + 7); {
	case i < 128:
		b = a
		b[i/8] ^= 1 << (i % 8)
	case i == 128: // halves swapped
		copy(b[:8], a[8:])
		copy(b[8:], a[:8])
	case i == 129: // reversed
		for j := range b {
			b[j] = a[15-j]
		}
	case i == 130: // complement
		for j := range b {
			b[j] = ^a[j]
		}
	case i == 131: // first half only in common
		copy(b[:8], a[:8])
	case i == 132: // second half only
		copy(b[8:], a[8:])
	case i == 133: // IDs of zeros and ones
		a, b = uuid.UUID{}, uuid.UUID{15: 1}
	case i == 134:
		a = uuid.UUID{}
		for j := range b {
			b[j] = 0xff
		}
	}
	w := &d05World{World: NewWorld(x), pairs: map[uuid.UUID]map[string]bool{}, lists: map[uuid.UUID][]map[string]struct{}{}, byRec: map[string]map[string]struct{}{}}
	w.toks = []string{w.idp.User("alice", id.ScopeAll), w.idp.User("mallory", id.ScopeAll)}
	w.ids = []map[string]struct{}{setFrom("alice"), setFrom("mallory")}
	w.oids = []uuid.UUID{a, b}
	other := w.Instance(w.st)
	for i, oid := range w.oids {
		forceUUID(oid.String())
		got, err := w.d.Encrypt(w.ctx, w.toks[i], obj(fmt.Sprint("secret ", i), fmt.Sprint("meta ", i)))
		if err != nil {
			x.Failf("setup", "%v", err)
		}
		if got != oid {
			x.Failf("setup", "the object got ID %v instead of %v", got, oid)
		}
		w.pairs[oid] = map[string]bool{fmt.Sprintf("secret %d\x00meta %d", i, i): true}
		w.lists[oid] = []map[string]struct{}{w.ids[i]}
		w.byRec[string(w.st.m[oidKey(1, oid)])] = w.ids[i]
		for _, k := range []io.DataType{0, 1} {
			w.pool = append(w.pool, poolRec{fmt.Sprint(i, "/", k), k, oid, w.st.m[oidKey(k, oid)]})
		}
	}
	if x.Bool() {
		w.d = other
	}
	how := x.Pick(4)
	k0, k1 := oidKey(0, a), oidKey(0, b)
	g0, g1 := oidKey(1, a), oidKey(1, b)
	relabel := func(rec []byte, oid uuid.UUID) []byte { // rewrites the record's own OID field
		s := parseSealed(rec)
		m := map[string]any{"OID": oid, "Ciphertext": s.Ciphertext}
		if s.WrappedKey != nil {
			m["WrappedKey"] = s.WrappedKey
		}
		if s.AssociatedData != nil {
			m["AssociatedData"] = s.AssociatedData
		}
		return setJSON(m)
	}
	fix := x.Bool()
	move := func(to, from rkey, oid uuid.UUID) []byte {
		if fix {
			return relabel(w.st.m[from], oid)
		}
		return w.st.m[from]
	}
	switch how {
	case 0:
		w.st.m[g0] = move(g0, g1, a)
	case 1:
		w.st.m[k0] = move(k0, k1, a)
	case 2:
		w.st.m[k0], w.st.m[g0] = move(k0, k1, a), move(g0, g1, a)
	case 3:
		w.st.m[k0], w.st.m[k1] = move(k0, k1, a), move(k1, k0, b)
		w.st.m[g0], w.st.m[g1] = move(g0, g1, a), move(g1, g0, b)
	}
	x.State(a, b, how, fix)
	x.Logf("objects %v and %v, exchange %d, relabelled %v", a, b, how, fix)
	w.attack("neighbours", a, b)
}

// Alterations at every position of long contents, long associated data and long access lists.
func d05Long(x *X, th bool) {
	n := 20000
	if th {
		n = 70000
	}
	size := []int{300, 4500, n}[x.Pick(3)]
	field := x.Pick(3)
	npt, nad, ngr := 40, 40, 1
	switch field {
	case 0:
		npt = size
	case 1:
		nad = size
	case 2:
		ngr = size / 20
	}
	w := NewWorld(x)
	tok := w.idp.User("owner", id.ScopeAll)
	stranger := w.idp.User("stranger", id.ScopeAll)
	var groups []string
	for i := 0; i < ngr; i++ {
		groups = append(groups, fmt.Sprintf("group number %d", i))
	}
	pt, ad := pattern(0, npt), pattern(0, nad)
	oid, err := w.d.Encrypt(w.ctx, tok, &data.Object{Plaintext: pt, AssociatedData: ad}, groups...)
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	want := setOf(setFrom(append(groups, "owner")...))
	k := io.DataType(field / 2)
	rec := parseSealed(w.st.m[oidKey(k, oid)])
	f := &rec.Ciphertext
	if field == 1 {
		f = &rec.AssociatedData
	}
	orig := bytes.Clone(*f)
	chunk := 64
	c := x.Pick((len(orig) + chunk) / chunk)
	put := func(what string, pos int, b []byte) {
		*f = b
		m := map[string]any{"OID": oid, "Ciphertext": rec.Ciphertext}
		if k == 0 {
			m["AssociatedData"] = rec.AssociatedData
		} else {
			m["WrappedKey"] = rec.WrappedKey
		}
		w.st.m[oidKey(k, oid)] = setJSON(m)
		x.State(size, field, what, pos)
		got, err := w.d.Decrypt(w.ctx, tok, oid)
		x.Op()
		if err == nil && (!bytes.Equal(got.Plaintext, pt) || !bytes.Equal(got.AssociatedData, ad)) {
			x.Failf("accepted", "%s at byte %d of %d of the %s: Decrypt returned contents that were never written", what, pos, len(orig), []string{"ciphertext", "associated data", "access list"}[field])
		}
		if k == 1 {
			if got, err := w.d.GetAccessGroups(w.ctx, tok, oid); err == nil && setOf(got) != want {
				x.Failf("accepted-list", "%s at byte %d of %d of the access list: a list that was never written is accepted", what, pos, len(orig))
			}
		}
		if _, err := w.d.Decrypt(w.ctx, stranger, oid); err == nil {
			x.Failf("stranger", "%s at byte %d of %d gave a stranger access", what, pos, len(orig))
		}
	}
	for pos := c * chunk; pos < (c+1)*chunk && pos < len(orig); pos++ {
		b := bytes.Clone(orig)
		b[pos] ^= 1 << (pos % 8)
		put("a changed bit", pos, b)
		if pos%8 == 0 || pos > len(orig)-50 {
			put("truncation", pos, bytes.Clone(orig[:pos]))
			put("a removed byte", pos, append(bytes.Clone(orig[:pos]), orig[pos+1:]...))
			put("an added byte", pos, append(append(bytes.Clone(orig[:pos]), 0), orig[pos:]...))
		}
	}
	x.Logf("%d bytes of field %d, chunk %d", size, field, c)
	x.Out("%d %d", size, field)
}

// Contents and associated data beyond 64 KiB and 1 MiB, altered at either end, at powers of two and in between.
func d05Huge(x *X, th bool) {
	sizes := []int{1<<16 + 100, 1<<20 + 100, 1<<21 + 7}
	if th {
		sizes = append(sizes, 1<<24+17)
	}
	size := sizes[x.Pick(len(sizes))]
	isAAD := x.Bool()
	npt, nad := size, 10
	if isAAD {
		npt, nad = 10, size
	}
	w := NewWorld(x)
	tok := w.idp.User("owner", id.ScopeAll)
	pt, ad := pattern(0, npt), pattern(0, nad)
	oid, err := w.d.Encrypt(w.ctx, tok, &data.Object{Plaintext: pt, AssociatedData: ad})
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	rec := parseSealed(w.st.m[oidKey(0, oid)])
	f := &rec.Ciphertext
	if isAAD {
		f = &rec.AssociatedData
	}
	orig := *f
	n := len(orig)
	at := []int{0, 1, 1 << 12, 1 << 15, 1<<16 - 1, 1 << 16, n / 2, n - 1000, n - 65, n - 29, n - 17, n - 2, n - 1}[x.Pick(13)]
	b := bytes.Clone(orig)
	what := x.Pick(5)
	switch what {
	case 0:
		b[at] ^= 1
	case 1:
		b = b[:at]
	case 2:
		b = append(b[:at], b[at+1:]...)
	case 3:
		b = append(b, orig[at:]...)
	case 4:
		for i := at; i < len(b); i++ {
			b[i] = 0
		}
	}
	*f = b
	w.st.m[oidKey(0, oid)] = setJSON(map[string]any{"OID": oid, "Ciphertext": rec.Ciphertext, "AssociatedData": rec.AssociatedData})
	got, err := w.d.Decrypt(w.ctx, tok, oid)
	x.Op()
	x.State(size, isAAD, at, what)
	if err == nil && (!bytes.Equal(got.Plaintext, pt) || !bytes.Equal(got.AssociatedData, ad)) {
		x.Failf("accepted", "alteration %d at byte %d of %d (associated data: %v): Decrypt returned contents that were never written", what, at, n, isAAD)
	}
	x.Logf("%d bytes, associated data %v, alteration %d at %d", size, isAAD, what, at)
	x.Out("%v", errName(err))
}
