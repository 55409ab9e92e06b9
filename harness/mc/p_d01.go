package main

import (
	"bytes"
	"fmt"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"verif.local/shim/vfile"
)

func init() {
	register(&Prop{
		ID: "D01", Level: "model_checking",
		Rule: "Executions are histories of object operations by several callers on two instances sharing storage (all sequences over the alphabet up to the depth), " +
			"single write/rewrite/read chains for every pair of sizes and byte patterns, long rewrite chains, and the same on the bundled providers; " +
			"after each, every object is decrypted through every instance and compared with a reference map. States are distinct (model, history position) pairs.",
		Scenarios: func(th bool) []*Scenario {
			depth := 4
			if th {
				depth = 5
			}
			r := []*Scenario{
				{Name: "sizes", Body: func(x *X) { d01Sizes(x, th) }, Steps: manySteps},
				{Name: "bytes", Body: d01Bytes},
				{Name: "short", Body: d01Short, Shard: 1},
				{Name: "contents", Body: d01Contents, Shard: 1},
				{Name: "rewrites", Body: func(x *X) { d01Rewrites(x, th) }, Shard: 2},
				{Name: "history", Body: func(x *X) { d01History(x, depth, "ref") }, Shard: 3},
				{Name: "history-mem", Body: func(x *X) { d01History(x, depth-1, "mem") }, Shard: 3},
				{Name: "history-bolt", Body: func(x *X) { d01History(x, depth-2, "bolt") }, Shard: 2},
				{Name: "chain", Body: func(x *X) { d01Chain(x, th) }, Shard: 1},
			}
			return r
		},
	})
}

func pattern(kind, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 0:
			b[i] = byte(i*31 + n)
		case 1:
			b[i] = 0
		case 2:
			b[i] = 0xff
		case 3:
			b[i] = "\"\\{}[]<>&,:\n\t\x00\u2028é"[i%19]
		}
	}
	return b
}

func checkObj(x *X, sig string, got data.Object, err error, pt, ad []byte) {
	if err != nil {
		x.Failf(sig+"-error", "%s: Decrypt by a listed, fully scoped caller failed: %v", sig, err)
	}
	if !bytes.Equal(got.Plaintext, pt) {
		x.Failf(sig+"-plaintext", "%s: plaintext of %d bytes differs: got %d bytes %s, want %s", sig, len(pt), len(got.Plaintext), clip(fmt.Sprintf("%x", got.Plaintext), 80), clip(fmt.Sprintf("%x", pt), 80))
	}
	if !bytes.Equal(got.AssociatedData, ad) {
		x.Failf(sig+"-aad", "%s: associated data differs: got %s, want %s", sig, clip(fmt.Sprintf("%x", got.AssociatedData), 80), clip(fmt.Sprintf("%x", ad), 80))
	}
}

func d01Sizes(x *X, th bool) {
	sizes := []int{0, 1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 17, 28, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025,
		4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 131072, 262144, 1 << 20, 1<<20 + 1}
	if th {
		sizes = append(sizes, 3<<20, 5<<20+3, 16<<20+1)
	}
	ads := []int{0, 1, 16, 17, 255, 256, 1000, 4096, 65536, 70000}
	w := NewWorld(x)
	tok := w.idp.User("u", id.ScopeAll)
	n1 := sizes[x.Pick(len(sizes))]
	a1 := ads[x.Pick(len(ads))]
	if n1 > 300000 && a1 > 17 {
		return
	}
	rew := x.Pick(4) // which size the object is rewritten to
	pt := pattern(0, n1)
	ad := pattern(0, a1)
	x.Logf("encrypt %d bytes with %d bytes of associated data", n1, a1)
	o := &data.Object{Plaintext: pt, AssociatedData: ad}
	if n1 == 0 && rew == 1 {
		o.Plaintext = nil
	}
	if a1 == 0 && rew == 1 {
		o.AssociatedData = nil
	}
	oid, err := w.d.Encrypt(w.ctx, tok, o)
	x.Op()
	if err != nil {
		x.Failf("encrypt", "Encrypt of %d bytes failed: %v", n1, err)
	}
	got, err := w.d.Decrypt(w.ctx, tok, oid)
	x.Op()
	checkObj(x, "sizes", got, err, pt, ad)
	n2 := []int{0, n1 + 1, n1 / 2, 33}[rew]
	pt2, ad2 := pattern(0, n2), pattern(2, (a1+rew)%300)
	x.Logf("update to %d bytes with %d bytes of associated data", n2, len(ad2))
	if err := w.d.Update(w.ctx, tok, oid, &data.Object{Plaintext: pt2, AssociatedData: ad2}); err != nil {
		x.Failf("update", "Update failed: %v", err)
	}
	x.Op()
	got, err = w.Instance(w.st).Decrypt(w.ctx, tok, oid)
	x.Op()
	checkObj(x, "sizes-updated", got, err, pt2, ad2)
	x.State(n1, a1, n2)
	x.Out("ok")
}

// Every sequence of rewrites among a few contents that include missing, empty, equal and shorter parts.
func d01Rewrites(x *X, th bool) {
	parts := []func() []byte{
		func() []byte { return nil },
		func() []byte { return []byte{} },
		func() []byte { return []byte("x") },
		func() []byte { return []byte{0} },
		func() []byte { return pattern(0, 300) },
		func() []byte { return pattern(0, 299) },
	}
	w := NewWorld(x)
	tok := w.idp.User("u", id.ScopeAll)
	other := w.Instance(w.st)
	n := 3
	if th {
		n = 4
	}
	var oid uuid.UUID
	var seen []int
	for i := 0; i < n; i++ {
		p, a := x.Pick(len(parts)), x.Pick(len(parts))
		seen = append(seen, p, a)
		o := &data.Object{Plaintext: parts[p](), AssociatedData: parts[a]()}
		var err error
		if i == 0 {
			oid, err = w.d.Encrypt(w.ctx, tok, o)
		} else {
			err = w.d.Update(w.ctx, tok, oid, o)
		}
		x.Op()
		if err != nil {
			x.Failf("rewrites", "write %d of %v failed: %v", i, seen, err)
		}
		x.Logf("write %d bytes with %d bytes of associated data", len(parts[p]()), len(parts[a]()))
		for _, d := range []*d1.D1{w.d, other} {
			got, err := d.Decrypt(w.ctx, tok, oid)
			checkObj(x, "rewrites", got, err, parts[p](), parts[a]())
		}
		x.State(seen)
	}
	x.Out("%d", seen[len(seen)-1])
}

// Every byte value at every alignment, in plaintext and associated data.
func d01Bytes(x *X) {
	w := NewWorld(x)
	tok := w.idp.User("u", id.ScopeAll)
	v := byte(x.Pick(256))
	n := 1 + x.Pick(4)
	kind := x.Pick(4)
	pt := bytes.Repeat([]byte{v}, n)
	ad := append(pattern(kind, n+3), v)
	oid, err := w.d.Encrypt(w.ctx, tok, &data.Object{Plaintext: pt, AssociatedData: ad})
	x.Op()
	if err != nil {
		x.Failf("encrypt", "Encrypt failed: %v", err)
	}
	got, err := w.d.Decrypt(w.ctx, tok, oid)
	x.Op()
	checkObj(x, "bytes", got, err, pt, ad)
	x.State(v, n, kind)
}

// Every content of up to two bytes, in plaintext and associated data.
func d01Short(x *X) {
	a, in := x.Pick(257), x.Bool()
	w := NewWorld(x)
	tok := w.idp.User("u", id.ScopeAll)
	for b := 0; b <= 256; b++ {
		var c []byte
		if a < 256 {
			c = append(c, byte(a))
		}
		if b < 256 {
			c = append(c, byte(b))
		}
		pt, ad := c, []byte("meta")
		if in {
			pt, ad = ad, c
		}
		oid, err := w.d.Encrypt(w.ctx, tok, &data.Object{Plaintext: append([]byte{}, pt...), AssociatedData: append([]byte{}, ad...)})
		if err != nil {
			x.Failf("encrypt", "Encrypt failed: %v", err)
		}
		got, err := w.d.Decrypt(w.ctx, tok, oid)
		x.Op()
		checkObj(x, "short", got, err, pt, ad)
		w.st.Delete(w.ctx, oid.Bytes(), io.DataTypeSealedObject)
		w.st.Delete(w.ctx, oid.Bytes(), io.DataTypeSealedAccess)
	}
	x.State(a, in)
}

// Beginnings and ends that formats, encodings and text handling treat specially.
var marks = []string{"", "\n", "\r\n", "\r", "\n\n", " ", "\t", "\x00", "\x00\x00\x00\x00", "\x00\x00\x00\x01", "\xff\xff\xff\xff", "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\u0085", "\u00a0", "\u200b", "\u2028",
	"\"", "'", "\\", "{", "}", "[]", "{}", "null", "\"\"", "true", "0", "-1", "1e5", "=", "==", "AAAA", "<", "&amp;", "%00", "\x1f\x8b\x08", "PK\x03\x04", "BZh", "\x28\xb5\x2f\xfd", "\x78\x9c", "d1", "v1:", "\x80", "\xc3", "\xf0\x9f", "\x01", "\x7f", "\x1b[0m", "../", "-----BEGIN", "data:", "{\"Plaintext\":\"eA==\"}"}

func d01Contents(x *X) {
	pre, in := marks[x.Pick(len(marks))], x.Bool()
	w := NewWorld(x)
	tok := w.idp.User("u", id.ScopeAll)
	var oid uuid.UUID
	for i, suf := range marks {
		for j, mid := range []string{"", "middle", suf + pre} {
			pt, ad := []byte(pre+mid+suf), []byte(suf+mid)
			if in {
				pt, ad = ad, pt
			}
			o := &data.Object{Plaintext: append([]byte{}, pt...), AssociatedData: append([]byte{}, ad...)}
			var err error
			if i+j == 0 {
				oid, err = w.d.Encrypt(w.ctx, tok, o)
			} else {
				err = w.d.Update(w.ctx, tok, oid, o)
			}
			if err != nil {
				x.Failf("write", "writing %q with %q failed: %v", pt, ad, err)
			}
			got, err := w.d.Decrypt(w.ctx, tok, oid)
			x.Op()
			checkObj(x, "contents", got, err, pt, ad)
			if (i+j)%5 == 1 {
				oid, err = w.d.Encrypt(w.ctx, tok, o)
				if err != nil {
					x.Failf("write", "writing %q with %q failed: %v", pt, ad, err)
				}
				got, err := w.d.Decrypt(w.ctx, tok, oid)
				checkObj(x, "contents", got, err, pt, ad)
			}
		}
	}
	x.State(pre, in)
}

type modelObj struct {
	pt, ad string
	groups map[string]struct{}
	gone   bool
	oid    uuid.UUID
	any    bool
}

// makeProvider creates one of the storage implementations.
func makeProvider(x *X, kind string) io.Provider {
	switch kind {
	case "ref":
		return NewStore(x)
	case "mem":
		m := io.NewMem()
		return &m
	case "bolt":
		p := scratchFile(".db")
		b, err := io.NewBolt(p)
		if err != nil {
			x.Failf("bolt-open", "NewBolt: %v", err)
		}
		x.Defer(func() { vfile.CloseAll(p); removeFile(p) })
		return &b
	}
	panic("kind")
}

func d01History(x *X, depth int, prov string) {
	w := NewWorld(x)
	p := makeProvider(x, prov)
	ds := []*d1.D1{w.Instance(p), w.Instance(p)}
	owner := w.idp.User("owner", id.ScopeAll)
	member := w.idp.User("member", id.ScopeAll, id.AccessGroup{ID: "grp", Scopes: id.ScopeAll})
	stranger := w.idp.User("stranger", id.ScopeAll)
	toks := []string{owner, member, stranger}
	ids := []map[string]struct{}{setFrom("owner"), setFrom("member", "grp"), setFrom("stranger")}
	var objs []*modelObj
	version := 0
	content := func() (string, string) {
		version++
		return fmt.Sprintf("content %d", version), fmt.Sprintf("meta %d", version)
	}
	create := func(d int) {
		pt, ad := content()
		m := &modelObj{pt: pt, ad: ad, groups: setFrom("owner", "grp")}
		var err error
		m.oid, err = ds[d].Encrypt(w.ctx, owner, obj(pt, ad), "grp")
		x.Op()
		if err != nil {
			x.Failf("encrypt", "Encrypt failed: %v", err)
		}
		x.Logf("d%d encrypt -> o%d %q", d, len(objs), pt)
		objs = append(objs, m)
	}
	create(0)
	create(1)
	listed := func(m *modelObj, c int) bool {
		for i := range ids[c] {
			if _, ok := m.groups[i]; ok {
				return true
			}
		}
		return false
	}
	same := 0
	for step := 0; step < depth; step++ {
		op := x.Pick(12)
		if op == 0 {
			break
		}
		o := 0
		d := 0
		c := 0
		switch {
		case op >= 1 && op <= 6: // two objects
			if op <= 4 {
				o = x.Pick(2)
			}
		}
		m := objs[o]
		x.Op()
		switch op {
		case 1, 2: // update by owner/member through instance 0/1
			d, c = op-1, op-1
			pt, ad := content()
			if same++; same == 2 {
				pt = m.pt // only the associated data changes
			}
			err := ds[d].Update(w.ctx, toks[c], m.oid, obj(pt, ad))
			want := listed(m, c) && !m.gone
			x.Logf("d%d update o%d by %s %q: %v", d, o, toks[c], pt, err)
			if (err == nil) != want {
				x.Failf("update-result", "Update returned %v, expected success=%v", err, want)
			}
			if err == nil {
				m.pt, m.ad = pt, ad
			}
		case 3, 4: // read by owner/stranger
			d, c = op-3, (op-3)*2
			got, err := ds[d].Decrypt(w.ctx, toks[c], m.oid)
			x.Logf("d%d decrypt o%d by %s: %q %v", d, o, toks[c], got.Plaintext, err)
			if listed(m, c) && !m.gone {
				checkObj(x, "read", got, err, []byte(m.pt), []byte(m.ad))
			}
		case 5:
			err := ds[0].AddGroupsToAccess(w.ctx, owner, m.oid, "stranger")
			x.Logf("add stranger to o%d: %v", o, err)
			if err == nil {
				m.groups["stranger"] = struct{}{}
			}
		case 6:
			err := ds[1].RemoveGroupsFromAccess(w.ctx, owner, m.oid, "grp")
			x.Logf("remove grp from o%d: %v", o, err)
			if err == nil {
				delete(m.groups, "grp")
			}
		case 7:
			pt, ad := content()
			err := ds[1].Update(w.ctx, stranger, objs[0].oid, obj(pt, ad))
			x.Logf("d1 update o0 by stranger: %v", err)
			if err == nil && listed(objs[0], 2) {
				objs[0].pt, objs[0].ad = pt, ad
			}
		case 8:
			err := ds[0].Delete(w.ctx, owner, objs[1].oid)
			x.Logf("delete o1: %v", err)
			if err == nil {
				objs[1].gone = true
			}
		case 9:
			create(1)
		case 10:
			_, err := ds[1].GetAccessGroups(w.ctx, member, objs[0].oid)
			err2 := ds[0].AuthorizeIdentity(w.ctx, owner, objs[0].oid)
			x.Logf("list and authorize o0: %v %v", err, err2)
		case 11: // a third, fresh instance
			ds = append(ds, w.Instance(p))
			x.Logf("new instance")
		}
	}
	var before string
	if s, ok := p.(*Store); ok {
		before = s.Snapshot()
	}
	for di := len(ds) - 1; di >= 0; di-- {
		for _, m := range objs {
			if m.gone {
				continue
			}
			got, err := ds[di].Decrypt(w.ctx, owner, m.oid)
			checkObj(x, "final", got, err, []byte(m.pt), []byte(m.ad))
		}
	}
	if s, ok := p.(*Store); ok && s.Snapshot() != before {
		x.Failf("read-writes", "reading changed what is stored")
	}
	st := ""
	for _, m := range objs {
		st += fmt.Sprint(m.pt, m.gone, setOf(m.groups), ";")
	}
	x.State(prov, len(ds), st)
	x.Out("%s", st)
}

// Long chains of rewrites of one object, reading after each.
func d01Chain(x *X, th bool) {
	n := 300
	if th {
		n = 70000
	}
	mode := x.Pick(2)
	w := NewWorld(x)
	w.st.Quiet = true
	w.st.Limit = 1 << 30
	tok := w.idp.User("u", id.ScopeAll)
	oid, err := w.d.Encrypt(w.ctx, tok, obj("v0", "a0"))
	if err != nil {
		x.Failf("encrypt", "Encrypt failed: %v", err)
	}
	for i := 1; i <= n; i++ {
		pt, ad := fmt.Sprintf("v%d", i), fmt.Sprintf("a%d", i)
		if mode == 1 {
			pt = "constant"
		}
		if err := w.d.Update(w.ctx, tok, oid, obj(pt, ad)); err != nil {
			x.Failf("update", "update %d failed: %v", i, err)
		}
		got, err := w.d.Decrypt(w.ctx, tok, oid)
		checkObj(x, "chain", got, err, []byte(pt), []byte(ad))
		x.Op()
		x.Op()
		x.State("chain", mode, i)
	}
}
