package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
	"verif.local/shim/vfile"
)

func init() {
	register(&Prop{
		ID: "X01", Level: "model_checking",
		Rule: "All sequences of additions and deletions over a small alphabet of keywords and identifiers up to the depth, by several callers through two instances sharing storage, on the reference store and the bundled providers; " +
			"all ordered pairs of similar keywords and of similar identifiers; chains around every encoding boundary of the counter. After each operation every keyword is searched and compared with a reference map of lists. States are distinct (reference index, operation) pairs.",
		Assume: []string{"Long chains are written by the reference implementation of the format (checked by S03), entries beyond the stated lengths are not covered."},
		Scenarios: func(th bool) []*Scenario {
			d, n := 7, 5
			if th {
				d, n = 9, 6
			}
			return []*Scenario{
				{Name: "one-keyword", Body: func(x *X) { x01History(x, "ref", 1, 2, d+1) }, Shard: 4},
				{Name: "three-identifiers", Body: func(x *X) { x01History(x, "ref", 1, 3, d-1) }, Shard: 3},
				{Name: "two-keywords", Body: func(x *X) { x01History(x, "ref", 2, 2, n) }, Shard: 3},
				{Name: "history-mem", Body: func(x *X) { x01History(x, "mem", 2, 2, n-1) }, Shard: 2},
				{Name: "history-bolt", Body: func(x *X) { x01History(x, "bolt", 1, 2, n) }, Shard: 2},
				{Name: "keywords", Body: x01Keywords, Shard: 2},
				{Name: "identifiers", Body: x01Identifiers, Shard: 2},
				{Name: "lengths", Body: x01Lengths, Shard: 1},
				{Name: "chains", Body: func(x *X) { x01Chains(x, th) }, Shard: 2, Steps: 4000000000},
				{Name: "counters", Body: x01Counters, Shard: 2},
				{Name: "reopen", Body: x01Reopen, Shard: 2},
			}
		},
	})
	register(&Prop{
		ID: "X02", Level: "fault_enumeration",
		Rule: "From every list up to three entries over two identifiers, all sequences of operations up to the depth in which up to the stated number of storage calls fail before or after taking effect, or the process stops there, with plain and wrapped provider errors; " +
			"after each failed call the index, read through a fresh instance, must be one of the permitted lists, and from there on exactly the reference list. States are distinct (list, operation, faults, outcome).",
		Scenarios: func(th bool) []*Scenario {
			d := 2
			if th {
				d = 3
			}
			return []*Scenario{
				{Name: "faults", Body: func(x *X) { x02Faults(x, false, d+1) }, Faults: 1, Shard: 4},
				{Name: "two-faults", Body: func(x *X) { x02Faults(x, false, d) }, Faults: 2, Shard: 4},
				{Name: "crashes", Body: func(x *X) { x02Faults(x, true, d) }, Faults: 1, Shard: 4},
				{Name: "two-crashes", Body: func(x *X) { x02Faults(x, true, d) }, Faults: 2, Shard: 4},
				{Name: "errors", Body: x02Errors, Shard: 2},
				{Name: "repeated", Body: func(x *X) { x02Repeated(x, d+3) }, Shard: 3},
			}
		},
	})
	register(&Prop{
		ID: "X03", Level: "exploration",
		Rule: "Every scope value of the documented scopes (512) and selected undocumented bits, with every operation, with and without groups that have the index scope; rejected tokens; identity provider failures that still return an identity; every key length at construction; " +
			"histories in which a caller's scopes change between calls.",
		Scenarios: func(th bool) []*Scenario {
			return []*Scenario{
				{Name: "scopes", Body: x03Scopes, Shard: 2},
				{Name: "auth", Body: x03Auth, Shard: 2},
				{Name: "history", Body: x03History, Shard: 3},
				{Name: "keys", Body: x03Keys, Shard: 1},
				{Name: "names", Body: x03Names, Shard: 1},
			}
		},
	})
	register(&Prop{
		ID: "X04", Level: "fault_enumeration",
		Rule: "Every record ever written put into, or removed from, every slot of two keywords' chains, singly and in pairs; every exchange of fields between records; every bit flip of every record, truncations, extensions and malformed records; records sealed under foreign keys. " +
			"After each, all index operations are run and judged.",
		Scenarios: func(th bool) []*Scenario {
			r := []*Scenario{
				{Name: "slots", Body: func(x *X) { x04Slots(x, 1) }, Shard: 2},
				{Name: "pairs", Body: func(x *X) { x04Slots(x, 2) }, Shard: 2},
				{Name: "fields", Body: x04Fields, Shard: 2},
				{Name: "bits", Body: func(x *X) { x04Bits(x, th) }, Shard: 2},
				{Name: "raw", Body: x04Raw, Shard: 2},
				{Name: "junk", Body: x04Junk, Shard: 2},
				{Name: "foreign", Body: x04Foreign, Shard: 2},
				{Name: "long", Body: x04Long, Shard: 2, Steps: manySteps},
			}
			if th {
				r = append(r, &Scenario{Name: "triples", Body: func(x *X) { x04Slots(x, 3) }, Shard: 3})
			}
			return r
		},
	})
	register(&Prop{
		ID: "X05", Level: "model_checking",
		Rule: "All pairs and triples of concurrent additions, searches and (on other keywords) deletions on chains of length 0 to 2, through one and two instances, under all interleavings of their storage calls and of their statements within the preemption bound, on the reference store and both bundled providers; " +
			"results and final lists are judged with the real-time order of the calls. Distinct = distinct outcomes.",
		Scenarios: func(th bool) []*Scenario {
			pre, tri := 4, 2
			if th {
				pre, tri = 8, 3
			}
			return []*Scenario{
				{Name: "pairs", Body: func(x *X) { x05Run(x, "ref", 2) }, Pre: pre, Coarse: true, Shard: 3},
				{Name: "triples", Body: func(x *X) { x05Run(x, "ref", 3) }, Pre: tri, Coarse: true, Shard: 3},
				{Name: "fine", Body: func(x *X) { x05Run(x, "ref", 2) }, Pre: 1, Fine: true, Site: 2, Shard: 3},
				{Name: "mem", Body: func(x *X) { x05Run(x, "mem", 2) }, Pre: tri - 1, Fine: true, Site: 1, Shard: 3},
				{Name: "bolt", Body: func(x *X) { x05Run(x, "bolt", 2) }, Pre: 1, Coarse: true, Shard: 3},
			}
		},
	})
}

func idxErr(err error) string {
	if err == nil {
		return "ok"
	}
	for e, n := range map[error]string{index.ErrNotAuthenticated: "not-authenticated", index.ErrNotAuthorized: "not-authorized",
		index.ErrNodeNotFound: "node-not-found", index.ErrNodeAlreadyExists: "node-exists", errInjected: "injected"} {
		if errors.Is(err, e) {
			return n
		}
	}
	return "other"
}

// without returns l without any occurrence of s.
func without(l []string, s string) (r []string) {
	for _, e := range l {
		if e != s {
			r = append(r, e)
		}
	}
	return r
}

func listText(l []string) string { return fmt.Sprintf("%q", append([]string{}, l...)) }

// wantSearch fails unless the keyword's list is exactly want.
func (w *World) wantSearch(ix *index.SecureIndex, tok, kw string, want []string, sig string) {
	var got []string
	var err error
	w.x.Guard("Search", func() { got, err = ix.Search(w.ctx, tok, kw) })
	w.x.Op()
	if err != nil {
		w.x.Failf(sig+"-error", "Search for %q failed: %v", clip(kw, 60), err)
	}
	if listText(got) != listText(want) {
		w.x.Failf(sig, "Search for %q returned %s, want %s", clip(kw, 60), clip(listText(got), 300), clip(listText(want), 300))
	}
}

// ---- X01 ---------------------------------------------------------------------------

func x01History(x *X, prov string, nk, ni, depth int) {
	w := NewWorld(x)
	p := makeProvider(x, prov)
	ix := []*index.SecureIndex{w.Index(p), w.Index(p)}
	toks := []string{w.idp.User("u", id.ScopeIndex), w.idp.User("v", id.ScopeAll)}
	kws := []string{"kw", "kw\x00"}[:nk]
	ids := []string{"id", "id2", ""}[:ni]
	m := map[string][]string{}
	for i := 0; i < depth; i++ {
		c := x.Pick(1 + 2*nk*ni)
		if c == 0 {
			break
		}
		c--
		k, d := kws[c/(2*ni)], ids[c/2%ni]
		in, tok := ix[i%2], toks[i/2%2]
		if c%2 == 0 {
			x.Logf("Add %q %q", k, d)
			if err := in.Add(w.ctx, tok, k, d); err != nil {
				x.Failf("add", "Add(%q, %q) to %s failed: %v", k, d, listText(m[k]), err)
			}
			m[k] = append(m[k], d)
		} else {
			x.Logf("Delete %q %q", k, d)
			if err := in.Delete(w.ctx, tok, k, d); err != nil {
				x.Failf("delete", "Delete(%q, %q) from %s failed: %v", k, d, listText(m[k]), err)
			}
			m[k] = without(m[k], d)
		}
		x.Op()
		x.State(prov, fmt.Sprintf("%q", m), c)
		if i >= 2 || depth < 5 {
			for _, k := range kws {
				w.wantSearch(ix[(i+1)%2], toks[(i/2+1)%2], k, m[k], "list")
			}
		}
	}
	for _, k := range kws {
		w.wantSearch(ix[0], toks[0], k, m[k], "final-list")
	}
	if st, ok := p.(*Store); ok { // nothing but the listed entries stays behind
		n := 0
		for _, l := range m {
			n += len(l)
		}
		if len(st.m) != n {
			x.Failf("left-over", "%d entries are stored as %d records", n, len(st.m))
		}
	}
	x.Out("%d", len(m["kw"]))
}

var x01Odd = []string{"", "a", "A", "a ", " a", "ab", "b", "aa", "a\x00", "\x00", "\x00a", "a\n", "é", "e\u0301", "\u2028", "a\u2028", "\"", "\\", "\\\"", "<a>&", "\\u0061", "null", "0", "[]", "a:b", "a/b", "😀", "\ufffd", "a\ufffd", "\xff", "a\xff", "\xc3", "\xed\xa0\x80",
	"keyword with several words", strings.Repeat("a", 31), strings.Repeat("a", 32), strings.Repeat("a", 33), strings.Repeat("x", 300), strings.Repeat("x", 301)}

func x01Keywords(x *X) {
	w := NewWorld(x)
	ix := w.Index(w.st)
	tok := w.idp.User("u", id.ScopeIndex)
	a := x01Odd[x.Pick(len(x01Odd))]
	b := x01Odd[x.Pick(len(x01Odd))]
	m := map[string][]string{}
	add := func(k, d string) {
		if err := ix.Add(w.ctx, tok, k, d); err != nil {
			x.Failf("add", "Add under keyword %q: %v", clip(k, 60), err)
		}
		x.Op()
		m[k] = append(m[k], d)
	}
	check := func(sig string) {
		w.wantSearch(ix, tok, a, m[a], sig)
		w.wantSearch(ix, tok, b, m[b], sig)
	}
	add(a, "first")
	check("keyword")
	add(b, "second")
	add(a, "third")
	add(b, "first")
	check("keyword")
	if err := ix.Delete(w.ctx, tok, a, "first"); err != nil {
		x.Failf("delete", "%v", err)
	}
	m[a] = without(m[a], "first")
	check("keyword-deleted")
	for _, l := range []string{"first", "second", "third"} {
		if err := ix.Delete(w.ctx, tok, b, l); err != nil {
			x.Failf("delete", "%v", err)
		}
		m[b] = without(m[b], l)
	}
	check("keyword-emptied")
	add(b, "again")
	check("keyword-again")
	x.State(a, b)
}

func x01Identifiers(x *X) {
	w := NewWorld(x)
	ix := w.Index(w.st)
	tok := w.idp.User("u", id.ScopeIndex)
	a := x01Odd[x.Pick(len(x01Odd))]
	b := x01Odd[x.Pick(len(x01Odd))]
	// m is the reference, v the same with identifiers as JSON would carry them (the known finding)
	var m, v []string
	for _, d := range []string{a, b, a, b} {
		if err := ix.Add(w.ctx, tok, "kw", d); err != nil {
			x.Failf("add", "Add of identifier %q: %v", clip(d, 60), err)
		}
		x.Op()
		m, v = append(m, d), append(v, jsonText(d))
	}
	look := func(what string) {
		got, err := ix.Search(w.ctx, tok, "kw")
		if err != nil {
			x.Failf("identifier-error", "%s: %v", what, err)
		}
		if listText(got) == listText(m) {
			return
		}
		if listText(got) == listText(v) {
			x.Note("invalid-utf8-identifier", "%s: identifiers read back as %s, want %s", what, clip(listText(got), 300), clip(listText(m), 300))
			return
		}
		x.Failf("identifier", "%s: identifiers read back as %s, want %s", what, clip(listText(got), 300), clip(listText(m), 300))
	}
	look("added")
	for _, d := range []string{a, b} {
		if err := ix.Delete(w.ctx, tok, "kw", d); err != nil {
			x.Failf("delete", "%v", err)
		}
		m, v = without(m, d), without(v, d)
		look("deleted")
	}
	x.State(a, b)
}

// jsonText is s with every byte that is not part of valid UTF-8 replaced by U+FFFD.
func jsonText(s string) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

// Keywords and identifiers of every length across the block sizes of the MAC and the cipher.
func x01Lengths(x *X) {
	w := NewWorld(x)
	ix := w.Index(w.st)
	tok := w.idp.User("u", id.ScopeIndex)
	n := x.Pick(420)
	if n >= 410 {
		n = []int{511, 512, 1000, 1023, 1024, 4096, 16384, 65535, 65536, 100000}[n-410]
	}
	kw, d := string(pattern(0, n+1)[:n]), strings.Repeat("i", n)
	other := kw + "x"
	for _, k := range []string{kw, other} {
		if err := ix.Add(w.ctx, tok, k, d); err != nil {
			x.Failf("add", "length %d: %v", n, err)
		}
	}
	if err := ix.Add(w.ctx, tok, kw, d+"j"); err != nil {
		x.Failf("add", "length %d: %v", n, err)
	}
	w.wantSearch(ix, tok, kw, []string{d, d + "j"}, "length")
	w.wantSearch(ix, tok, other, []string{d}, "length")
	if err := ix.Delete(w.ctx, tok, kw, d); err != nil {
		x.Failf("delete", "length %d: %v", n, err)
	}
	w.wantSearch(ix, tok, kw, []string{d + "j"}, "length-deleted")
	w.wantSearch(ix, tok, other, []string{d}, "length-deleted")
	x.State(n)
}

// putNode stores an entry by means of the reference implementation.
func putNode(st *Store, kw, ident string, at, next uint64) {
	lk, nk := refIndexKeys(testKeys().IEK, kw)
	label := refLabel(lk, at)
	wk, ct := refSealJSON(nk, mustJSON(refNode{ident, next}), aadBytes(label))
	st.m[rkey{io.DataTypeSealedNode, string(label)}] = mustJSON(Sealed{Ciphertext: ct, WrappedKey: wk})
}

var x01chain = map[int]*Store{}

func x01Chains(x *X, th bool) {
	lens := []int{1, 2, 3, 10, 62, 63, 64, 65, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 1000}
	big := []int{16382, 16383, 16384, 16385}
	n := 0
	if i := x.Pick(len(lens) + len(big)); i < len(lens) {
		n = lens[i]
	} else {
		n = big[i-len(lens)]
	}
	what := x.Pick(6)
	if n > 2000 && !th && what != 0 && what != 3 {
		return
	}
	w := NewWorld(x)
	name := func(i int) string { return fmt.Sprint("id", i) }
	if x01chain[n] == nil {
		st := NewStore(x)
		for i := 0; i < n; i++ {
			putNode(st, "kw", name(i), uint64(i), uint64(i+1))
		}
		x01chain[n] = st
	}
	st := x01chain[n].Clone()
	st.x = x
	ix := w.Index(st)
	tok := w.idp.User("u", id.ScopeIndex)
	var m []string
	for i := 0; i < n; i++ {
		m = append(m, name(i))
	}
	add := func(d string) {
		if err := ix.Add(w.ctx, tok, "kw", d); err != nil {
			x.Failf("add", "Add to a chain of %d: %v", len(m), err)
		}
		x.Op()
		m = append(m, d)
	}
	del := func(d string) {
		if err := ix.Delete(w.ctx, tok, "kw", d); err != nil {
			x.Failf("delete", "Delete from a chain of %d: %v", len(m), err)
		}
		x.Op()
		m = without(m, d)
	}
	look := func() { w.wantSearch(ix, tok, "kw", m, "chain") }
	x.Logf("chain of %d, case %d", n, what)
	switch what {
	case 0:
		look()
		add("new1")
		add("new2")
		look()
	case 1:
		del(name(n - 1))
		add("new")
		look()
	case 2:
		del(name(0))
		look()
		add("new")
		look()
	case 3:
		del(name(n / 2))
		del(name(n - 1))
		del("absent")
		look()
	case 4:
		add(name(0))
		add("new")
		add(name(0))
		del(name(0))
		look()
	case 5:
		add("new")
		del("new")
		look()
		add("new")
		look()
	}
	x.State(n, what)
	x.Out("%d", len(m))
}

// Chains whose counters lie around the boundaries of the encodings of large counters.
func x01Counters(x *X) {
	cs := []uint64{1 << 7, 1 << 14, 1 << 21, 1 << 28, 1 << 31, 1 << 32, 1 << 35, 1 << 42, 1 << 49, 1 << 53, 1 << 56, 1 << 63}
	c := cs[x.Pick(len(cs))] - 3 + uint64(x.Pick(5))
	w := NewWorld(x)
	ix := w.Index(w.st)
	tok := w.idp.User("u", id.ScopeIndex)
	putNode(w.st, "kw", "first", 0, c)
	m := []string{"first"}
	for i := 0; i < 4; i++ {
		d := fmt.Sprint("id", i)
		if err := ix.Add(w.ctx, tok, "kw", d); err != nil {
			x.Failf("add", "counter %d: %v", c, err)
		}
		x.Op()
		m = append(m, d)
		w.wantSearch(ix, tok, "kw", m, "counter")
	}
	d := m[x.Pick(5)]
	if err := ix.Delete(w.ctx, tok, "kw", d); err != nil {
		x.Failf("delete", "%v", err)
	}
	m = without(m, d)
	w.wantSearch(ix, tok, "kw", m, "counter")
	x.State(c, d)
}

// The index survives reopening of the Bolt file and is seen by instances created later.
func x01Reopen(x *X) {
	w := NewWorld(x)
	tok := w.idp.User("u", id.ScopeIndex)
	path := scratchFile(".db")
	x.Defer(func() { vfile.CloseAll(path); removeFile(path) })
	var ix *index.SecureIndex
	open := func() {
		vfile.CloseAll(path)
		b, err := io.NewBolt(path)
		if err != nil {
			x.Failf("open", "%v", err)
		}
		ix = w.Index(&b)
	}
	open()
	var m []string
	for i := 0; i < 4; i++ {
		c := x.Pick(5)
		if c == 0 {
			break
		}
		d := []string{"a", "b"}[(c-1)/2]
		if c%2 == 1 {
			if err := ix.Add(w.ctx, tok, "kw", d); err != nil {
				x.Failf("add", "%v", err)
			}
			m = append(m, d)
		} else {
			if err := ix.Delete(w.ctx, tok, "kw", d); err != nil {
				x.Failf("delete", "%v", err)
			}
			m = without(m, d)
		}
		x.Op()
		if i%2 == 1 {
			open()
		}
	}
	open()
	w.wantSearch(ix, tok, "kw", m, "reopened")
	x.State(listText(m))
}

// ---- X02 ---------------------------------------------------------------------------

// partial lists every result of removing some of the occurrences of d from l.
func partial(l []string, d string) map[string][]string {
	r := map[string][]string{}
	var rec func(i int, acc []string)
	rec = func(i int, acc []string) {
		if i == len(l) {
			r[listText(acc)] = append([]string{}, acc...)
			return
		}
		rec(i+1, append(acc[:len(acc):len(acc)], l[i]))
		if l[i] == d {
			rec(i+1, acc)
		}
	}
	rec(0, nil)
	return r
}

func x02Faults(x *X, crash bool, depth int) {
	w := NewWorld(x)
	tok := w.idp.User("u", id.ScopeIndex)
	ix := w.Index(w.st)
	ids := []string{"a", "b"}
	var m []string
	for i := 0; i < 3; i++ { // every list of up to three entries
		c := x.Pick(3)
		if c == 0 {
			break
		}
		if err := ix.Add(w.ctx, tok, "kw", ids[c-1]); err != nil {
			x.Failf("setup", "%v", err)
		}
		m = append(m, ids[c-1])
	}
	if err := ix.Add(w.ctx, tok, "other", "bystander"); err != nil {
		x.Failf("setup", "%v", err)
	}
	w.st.Wrap = x.Bool()
	w.st.Crashes = crash
	for i := 0; i < depth; i++ {
		c := x.Pick(6)
		if c == 0 {
			break
		}
		c--
		w.st.Inject = true
		w.st.Faulted = nil
		before := append([]string{}, m...)
		var err error
		var got []string
		name := [...]string{"Add a", "Add b", "Delete a", "Delete b", "Search"}[c]
		d := ids[c%2]
		crashed := Crashable(func() {
			x.Guard(name, func() {
				switch {
				case c < 2:
					err = ix.Add(w.ctx, tok, "kw", d)
				case c < 4:
					err = ix.Delete(w.ctx, tok, "kw", d)
				default:
					got, err = ix.Search(w.ctx, tok, "kw")
				}
			})
		})
		x.Op()
		w.st.Restart()
		w.st.Inject = false
		faults := append([]string{}, faultNames(w.st.Faulted)...)
		x.Logf("%s on %s: %v crashed=%v faults=%v", name, listText(before), err, crashed, w.st.Faulted)
		if crashed {
			ix = w.Index(w.st)
		}
		failed := len(w.st.Faulted) > 0
		if failed && !crashed && !errors.Is(err, errInjected) {
			x.Failf("swallowed:"+name[:3], "%s returned %v although a storage call failed (%v)", name, err, w.st.Faulted)
		}
		if !failed && err != nil {
			x.Failf("error:"+name[:3], "%s on %s failed without any storage failure: %v", name, listText(before), err)
		}
		if c == 4 && err != nil && got != nil {
			x.Failf("partial-search", "a failed Search returned %q", got)
		}
		if c == 4 && !failed && listText(got) != listText(m) {
			x.Failf("search", "Search returned %q, want %s", got, listText(m))
		}
		// what the index may hold now
		allowed := map[string][]string{}
		want := before
		switch {
		case c < 2:
			want = append(append([]string{}, before...), d)
		case c < 4:
			want = without(before, d)
		}
		if failed {
			allowed[listText(before)] = before
			if c >= 2 && c < 4 {
				allowed = partial(before, d)
			}
		}
		allowed[listText(want)] = want
		now, err := w.Index(w.st).Search(w.ctx, tok, "kw")
		if err != nil {
			x.Failf("unreadable", "after %s (%v) the index cannot be searched: %v", name, w.st.Faulted, err)
		}
		l, ok := allowed[listText(now)]
		if !ok {
			var al []string
			for k := range allowed {
				al = append(al, k)
			}
			sort.Strings(al)
			x.Failf("list:"+name[:3], "after %s on %s (%v, crashed=%v) the index holds %q, permitted: %v", name, listText(before), w.st.Faulted, crashed, now, al)
		}
		m = l
		x.State(name, listText(before), faults, listText(m), w.st.Wrap)
		x.Out("%s %v", name, faults)
		if failed && i == depth-1 && (c < 2 && listText(m) == listText(before) || c >= 2 && c < 4) { // repetition completes it
			if c < 2 {
				err = ix.Add(w.ctx, tok, "kw", d)
			} else {
				err = ix.Delete(w.ctx, tok, "kw", d)
			}
			x.Op()
			if err != nil {
				x.Failf("repeat:"+name[:3], "repeating the failed %s: %v", name, err)
			}
			m = want
			w.wantSearch(ix, tok, "kw", m, "repeated:"+name[:3])
		}
	}
	// from here on everything works and nothing comes back
	for _, d := range []string{"c", "a", "d"} {
		if err := ix.Add(w.ctx, tok, "kw", d); err != nil {
			x.Failf("later-add", "a later Add fails: %v", err)
		}
		m = append(m, d)
		w.wantSearch(ix, tok, "kw", m, "later")
	}
	if err := ix.Delete(w.ctx, tok, "kw", "a"); err != nil {
		x.Failf("later-delete", "a later Delete fails: %v", err)
	}
	m = without(m, "a")
	w.wantSearch(ix, tok, "kw", m, "later")
	if err := ix.Add(w.ctx, tok, "kw", "e"); err != nil {
		x.Failf("later-add", "a later Add fails: %v", err)
	}
	w.wantSearch(ix, tok, "kw", append(m, "e"), "later")
	w.wantSearch(ix, tok, "other", []string{"bystander"}, "bystander")
}

// Each call of each operation on each chain fails with every kind of error; documented provider errors
// at a place where they make no sense must not be taken for success.
func x02Errors(x *X) {
	w := NewWorld(x)
	tok := w.idp.User("u", id.ScopeIndex)
	n := x.Pick(4)
	var m []string
	ix := w.Index(w.st)
	for i := 0; i < n; i++ {
		if err := ix.Add(w.ctx, tok, "kw", []string{"a", "b", "a"}[i]); err != nil {
			x.Failf("setup", "%v", err)
		}
		m = append(m, []string{"a", "b", "a"}[i])
	}
	kinds := append(failureKinds(), errInjected)
	k := x.Pick(len(kinds))
	f := &failingProvider{Store: w.st, at: 1 + x.Pick(9), err: kinds[k], ok: x.Bool()}
	ctx, cancel := context.WithCancel(w.ctx)
	defer cancel()
	if x.Bool() {
		f.on = cancel
	}
	op := x.Pick(4)
	fx := w.Index(f)
	var err error
	var got []string
	switch op {
	case 0:
		err = fx.Add(ctx, tok, "kw", "new")
	case 1:
		err = fx.Delete(ctx, tok, "kw", "a")
	case 2:
		err = fx.Delete(ctx, tok, "kw", "absent")
	case 3:
		got, err = fx.Search(ctx, tok, "kw")
	}
	x.Op()
	x.Logf("op %d on %s, call %d of %d fails with %v: %v", op, listText(m), f.at, f.n, f.err, err)
	x.State(n, k, f.at, op)
	if f.n < f.at {
		if err != nil {
			x.Failf("spurious", "failed without a failure: %v", err)
		}
		return
	}
	if !errors.Is(err, f.err) {
		x.Failf("lost-error", "operation %d returned %v, the storage failure was %v", op, err, f.err)
	}
	if got != nil {
		x.Failf("partial-search", "a failed Search returned %q", got)
	}
	// the index holds what it held, with the operation applied or not
	now, e := w.Index(w.st).Search(w.ctx, tok, "kw")
	if e != nil {
		x.Failf("unreadable", "after operation %d failed at call %d the index cannot be searched: %v", op, f.at, e)
	}
	allowed := map[string][]string{listText(m): m}
	switch op {
	case 0:
		l := append(append([]string(nil), m...), "new")
		allowed[listText(l)] = l
	case 1: // some of the repeated entries may be gone
		allowed = partial(m, "a")
		l := without(m, "a")
		allowed[listText(l)] = l
	}
	if _, ok := allowed[listText(now)]; !ok {
		x.Failf("list", "operation %d on %s failing at call %d left %q", op, listText(m), f.at, now)
	}
	x.Out("%d", op)
}

// ---- X03 ---------------------------------------------------------------------------

var idxOps = []struct {
	name string
	run  func(w *World, ix *index.SecureIndex, tok string) ([]string, error)
}{
	{"Add", func(w *World, ix *index.SecureIndex, tok string) ([]string, error) {
		return nil, ix.Add(w.ctx, tok, "kw", "new")
	}},
	{"Search", func(w *World, ix *index.SecureIndex, tok string) ([]string, error) {
		return ix.Search(w.ctx, tok, "kw")
	}},
	{"Delete", func(w *World, ix *index.SecureIndex, tok string) ([]string, error) {
		return nil, ix.Delete(w.ctx, tok, "kw", "b")
	}},
	{"Add to an unused keyword", func(w *World, ix *index.SecureIndex, tok string) ([]string, error) {
		return nil, ix.Add(w.ctx, tok, "unused", "new")
	}},
	{"Search for an unused keyword", func(w *World, ix *index.SecureIndex, tok string) ([]string, error) {
		return ix.Search(w.ctx, tok, "unused")
	}},
	{"Delete from an unused keyword", func(w *World, ix *index.SecureIndex, tok string) ([]string, error) {
		return nil, ix.Delete(w.ctx, tok, "unused", "b")
	}},
}

func x03World(x *X) (*World, *index.SecureIndex) {
	w := NewWorld(x)
	ix := w.Index(w.st)
	adm := w.idp.User("admin", id.ScopeIndex)
	for _, d := range []string{"a", "b", "c"} {
		if err := ix.Add(w.ctx, adm, "kw", d); err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	return w, ix
}

// judge03 runs an operation and compares with the expected decision ("" for success).
func (w *World) judge03(ix *index.SecureIndex, op int, tok, want, what string) {
	x := w.x
	before := w.st.Snapshot()
	o := idxOps[op]
	var r []string
	var err error
	x.Guard(o.name, func() { r, err = o.run(w, ix, tok) })
	x.Op()
	if got := idxErr(err); got != want {
		x.Failf("decision:"+want, "%s by %s returned %s (%v), want %s", o.name, what, got, err, want)
	}
	if want != "ok" {
		if r != nil {
			x.Failf("revealed", "a refused %s by %s returned %q", o.name, what, r)
		}
		if w.st.Snapshot() != before {
			x.Failf("changed", "a refused %s by %s changed storage", o.name, what)
		}
		return
	}
	switch op {
	case 0, 2, 3:
		if (w.st.Snapshot() == before) != (false) {
			x.Failf("no-effect", "%s by %s succeeded without effect", o.name, what)
		}
	case 1:
		if listText(r) != listText([]string{"a", "b", "c"}) {
			x.Failf("result", "Search by %s returned %q", what, r)
		}
	case 4:
		if len(r) != 0 {
			x.Failf("result", "Search for an unused keyword by %s returned %q", what, r)
		}
	}
}

func x03Scopes(x *X) {
	s := id.Scope(x.Pick(512))
	hi := []id.Scope{0, 1 << 20, 1 << 31, 1 << 32, 1 << 63}[x.Pick(5)]
	if uint64(id.ScopeEnd) < 256 || hi != 0 && s&id.ScopeIndex == 0 && s != 0 {
		if hi != 0 && s > 3 {
			return
		}
	}
	op := x.Pick(len(idxOps))
	g := x.Pick(4)
	w, ix := x03World(x)
	s |= hi
	var groups []id.AccessGroup
	if g&1 != 0 {
		groups = append(groups, id.AccessGroup{ID: "g", Scopes: id.ScopeAll})
	}
	if g&2 != 0 {
		groups = append(groups, id.AccessGroup{ID: "caller", Scopes: id.ScopeIndex}, id.AccessGroup{ID: "", Scopes: ^id.Scope(0)})
	}
	tok := w.idp.User("caller", s, groups...)
	want := "not-authorized"
	if s&id.ScopeIndex != 0 {
		want = "ok"
	}
	w.judge03(ix, op, tok, want, fmt.Sprintf("a caller with scopes %b and %d groups", s, len(groups)))
	x.State(s, op, g)
	x.Out("%s", want)
}

func x03Auth(x *X) {
	w, ix := x03World(x)
	op := x.Pick(len(idxOps))
	ok := w.idp.User("caller", id.ScopeAll)
	kind := x.Pick(6)
	tok, want := ok, "not-authenticated"
	switch kind {
	case 0:
		tok = ""
	case 1:
		tok = ok + " "
	case 2:
		tok = "T:caller"
	case 3: // the provider fails but also returns an identity
		w.idp.err = errStub
	case 4:
		w.idp.err = fmt.Errorf("wrapped: %w", id.ErrNotAuthenticated)
	case 5:
		want = "ok"
	}
	w.judge03(ix, op, tok, want, fmt.Sprintf("caller kind %d", kind))
	x.State(op, kind)
	x.Out("%d %s", kind, want)
}

// Neither the names of the caller and its groups nor their number matter.
func x03Names(x *X) {
	w, ix := x03World(x)
	names := append([]string{"caller", "kw", "a", "admin2", "index", "t:admin"}, oddNames...)
	name := names[x.Pick(len(names))]
	own := []id.Scope{0, id.ScopeIndex, id.ScopeAll &^ id.ScopeIndex, ^id.Scope(0)}[x.Pick(4)]
	op := x.Pick(3)
	n := []int{0, 1, 3, 33, 130}[x.Pick(5)]
	gs := []id.AccessGroup{{ID: "t:" + name, Scopes: id.ScopeIndex}, {ID: name, Scopes: id.ScopeAll}, {ID: "admin", Scopes: id.ScopeIndex}, {ID: "t:admin", Scopes: ^id.Scope(0)}, {ID: "index", Scopes: id.ScopeIndex}, {ID: "kw", Scopes: id.ScopeIndex}}
	for i := 0; i < n; i++ {
		gs = append(gs, id.AccessGroup{ID: fmt.Sprint("group", i), Scopes: id.ScopeIndex})
	}
	if x.Bool() {
		gs = nil
	}
	tok := w.idp.User(name, own, gs...)
	want := "not-authorized"
	if own&id.ScopeIndex != 0 {
		want = "ok"
	}
	w.judge03(ix, op, tok, want, fmt.Sprintf("%q with scopes %b and %d groups", clip(name, 30), own, len(gs)))
	x.State(name, own, op, len(gs))
}

// A decision never depends on an earlier one.
func x03History(x *X) {
	w, ix := x03World(x)
	tok := "t:caller"
	sc := []id.Scope{id.ScopeIndex, 0, id.ScopeAll &^ id.ScopeIndex}
	for i := 0; i < 3; i++ {
		c := x.Pick(4)
		want := "not-authenticated"
		delete(w.idp.m, tok)
		if c < 3 {
			w.idp.User("caller", sc[c])
			want = "not-authorized"
			if c == 0 {
				want = "ok"
			}
		}
		op := []int{1, 4, 0, 2}[x.Pick(4)]
		before := w.st.Snapshot()
		r, err := idxOps[op].run(w, ix, tok)
		x.Op()
		if idxErr(err) != want {
			x.Failf("decision:"+want, "call %d: %s returned %v, want %s", i, idxOps[op].name, err, want)
		}
		if err != nil && (r != nil || w.st.Snapshot() != before) {
			x.Failf("effect", "call %d: a refused %s had an effect", i, idxOps[op].name)
		}
		x.State(i, c, op)
	}
}

func x03Keys(x *X) {
	n := x.Pick(66)
	k := testKeys()
	k.IEK = seq(n, 4)
	if n == 65 {
		k.IEK = nil
		n = 0
	}
	w := NewWorld(x)
	kp := key.NewStatic(k)
	ix, err := index.NewSecureIndex(w.ctx, &kp, w.st, w.idp)
	x.Op()
	if (err == nil) != (n == 32) {
		x.Failf("key-length", "NewSecureIndex with a key of %d bytes: %v", n, err)
	}
	if n != 32 && !errors.Is(err, index.ErrInvalidMasterKeyLength) {
		x.Failf("key-error", "NewSecureIndex with a key of %d bytes: %v", n, err)
	}
	_ = ix
	x.State(n)
}

// ---- X04 ---------------------------------------------------------------------------

type x04World struct {
	*World
	ix    *index.SecureIndex
	tok   string
	added map[string]map[string]bool
	hist  []rkey2 // every record ever written
	slots []rkey
}

type rkey2 struct {
	k rkey
	v []byte
}

var x04kws = []string{"kw", "other"}

func newX04(x *X) *x04World {
	w := &x04World{World: NewWorld(x), added: map[string]map[string]bool{"kw": {}, "other": {}}}
	w.ix = w.Index(w.st)
	w.tok = w.idp.User("u", id.ScopeIndex)
	seen := map[string]bool{}
	w.st.OnApplied = func(op string, k rkey) {
		if v, ok := w.st.m[k]; ok && op != "delete" && !seen[string(v)] {
			seen[string(v)] = true
			w.hist = append(w.hist, rkey2{k, v})
		}
	}
	do := func(add bool, k, d string) {
		var err error
		if add {
			err = w.ix.Add(w.ctx, w.tok, k, d)
			w.added[k][d] = true
		} else {
			err = w.ix.Delete(w.ctx, w.tok, k, d)
		}
		if err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	do(true, "kw", "a")
	do(true, "kw", "b")
	do(true, "kw", "old")
	do(true, "kw", "c")
	do(true, "other", "d")
	do(true, "other", "e")
	do(false, "kw", "old")
	do(false, "kw", "a")
	do(true, "kw", "f")
	do(false, "other", "d")
	w.st.OnApplied = nil
	w.st.Limit = w.st.n + 3000
	for _, k := range x04kws {
		lk, _ := refIndexKeys(testKeys().IEK, k)
		for i := uint64(0); i < 6; i++ {
			w.slots = append(w.slots, rkey{io.DataTypeSealedNode, string(refLabel(lk, i))})
		}
	}
	return w
}

// attack runs everything on the manipulated store.
func (w *x04World) attack() {
	x := w.x
	look := func(what string) {
		for _, k := range x04kws {
			var got []string
			var err error
			x.Guard("Search", func() { got, err = w.ix.Search(w.ctx, w.tok, k) })
			x.Op()
			if err != nil {
				if got != nil {
					x.Failf("error-and-result", "%s: Search returned both %q and %v", what, got, err)
				}
				x.Out("search fails")
				continue
			}
			for _, d := range got {
				if !w.added[k][d] {
					x.Failf("invented", "%s: Search for %q returned %q, which was never added under it", what, k, d)
				}
			}
			x.Out("search %d", len(got))
		}
	}
	look("after tampering")
	st := w.st.Clone()
	for _, k := range x04kws {
		x.Guard("Add", func() { w.ix.Add(w.ctx, w.tok, k, "late") })
		w.added[k]["late"] = true
		x.Op()
	}
	look("after tampering and additions")
	w.st.m = st.m
	for _, k := range x04kws {
		for _, d := range []string{"b", "e", "absent"} {
			x.Guard("Delete", func() { w.ix.Delete(w.ctx, w.tok, k, d) })
			x.Op()
		}
	}
	look("after tampering and deletions")
}

func x04Slots(x *X, n int) {
	w := newX04(x)
	last := -1
	for i := 0; i < n; i++ {
		s := x.Pick(len(w.slots) + 1)
		if s == 0 {
			break
		}
		if s <= last { // the order of the changes does not matter
			return
		}
		last = s
		slot := w.slots[s-1]
		h := x.Pick(len(w.hist) + 1)
		if h == 0 {
			delete(w.st.m, slot)
			x.Logf("slot %d removed", s-1)
		} else {
			w.st.m[slot] = w.hist[h-1].v
			x.Logf("slot %d replaced by record %d", s-1, h-1)
		}
		x.State(i, s, h)
	}
	w.attack()
}

func x04Fields(x *X) {
	w := newX04(x)
	slot := w.slots[x.Pick(len(w.slots))]
	a, b := w.hist[x.Pick(len(w.hist))], w.hist[x.Pick(len(w.hist))]
	sa, sb := parseSealed(a.v), parseSealed(b.v)
	w.st.m[slot] = mustJSON(map[string]any{"Ciphertext": sa.Ciphertext, "WrappedKey": sb.WrappedKey})
	x.State(slot, a.k, b.k)
	x.Logf("slot %v: ciphertext of %v with wrapped key of %v", slot, a.k, b.k)
	w.attack()
}

// Alterations at every position of the records of long identifiers.
func x04Long(x *X) {
	n := []int{0, 1, 15, 16, 17, 300, 5000, 20000}[x.Pick(8)]
	w := NewWorld(x)
	ix := w.Index(w.st)
	tok := w.idp.User("u", id.ScopeAll)
	ids := []string{string(pattern(1, n)), string(pattern(2, n)) + "b"}
	for i := range ids {
		ids[i] = strings.ToValidUTF8(ids[i], "x")
		if err := ix.Add(w.ctx, tok, "kw", ids[i]); err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	lk, _ := refIndexKeys(testKeys().IEK, "kw")
	at := x.Pick(2)
	slot := rkey{io.DataTypeSealedNode, string(refLabel(lk, uint64(at)))}
	rec := parseSealed(w.st.m[slot])
	orig := bytes.Clone(rec.Ciphertext)
	const chunk = 512
	c := x.Pick((len(orig) + chunk) / chunk)
	put := func(what string, pos int, b []byte) {
		w.st.m[slot] = mustJSON(map[string]any{"Ciphertext": b, "WrappedKey": rec.WrappedKey})
		x.State(n, at, what, pos)
		got, err := ix.Search(w.ctx, tok, "kw")
		x.Op()
		for _, g := range got {
			if g != ids[0] && g != ids[1] {
				x.Failf("long-invented", "%s at byte %d of a node of %d bytes: Search returned an identifier that was never added: %q", what, pos, len(orig), clip(g, 60))
			}
		}
		x.Out("%v", err == nil)
	}
	for pos := c * chunk; pos < (c+1)*chunk && pos < len(orig); pos++ {
		if len(orig) > 1000 && pos%7 != 0 && pos > 100 && pos < len(orig)-100 {
			continue
		}
		b := bytes.Clone(orig)
		b[pos] ^= 1 << (pos % 8)
		put("a changed bit", pos, b)
		if pos%5 == 0 || pos > len(orig)-50 {
			put("truncation", pos, bytes.Clone(orig[:pos]))
			put("a removed byte", pos, append(bytes.Clone(orig[:pos]), orig[pos+1:]...))
			put("an added byte", pos, append(append(bytes.Clone(orig[:pos]), 0), orig[pos:]...))
		}
	}
}

func x04Bits(x *X, th bool) {
	w := newX04(x)
	live := []rkey{}
	for _, s := range w.slots {
		if _, ok := w.st.m[s]; ok {
			live = append(live, s)
		}
	}
	slot := live[x.Pick(len(live))]
	s := parseSealed(w.st.m[slot])
	ct, wk := s.Ciphertext, s.WrappedKey
	i := x.Pick((len(ct) + len(wk)) * 8)
	if i < len(ct)*8 {
		ct = append([]byte{}, ct...)
		ct[i/8] ^= 1 << (i % 8)
	} else {
		wk = append([]byte{}, wk...)
		wk[i/8-len(ct)] ^= 1 << (i % 8)
	}
	w.st.m[slot] = mustJSON(map[string]any{"Ciphertext": ct, "WrappedKey": wk})
	x.State(slot, i)
	x.Logf("bit %d of slot %v flipped", i, slot)
	n := len(x.fails)
	got, err := w.ix.Search(w.ctx, w.tok, x04kws[0])
	got2, err2 := w.ix.Search(w.ctx, w.tok, x04kws[1])
	if err == nil && err2 == nil && n == len(x.fails) {
		x.Failf("bit-accepted", "flipping bit %d of a node went unnoticed: %q %q", i, got, got2)
	}
	w.attack()
}

func x04Raw(x *X) {
	w := newX04(x)
	slot := w.slots[x.Pick(3)]
	v, ok := w.st.m[slot]
	if !ok {
		v = w.hist[0].v
	}
	i := x.Pick(len(v) + 1)
	kind := x.Pick(4)
	c := append([]byte{}, v...)
	switch kind {
	case 0:
		c = c[:i]
	case 1:
		if i < len(c) {
			c[i] ^= 1 << (i % 8)
		}
	case 2:
		c = append(c[:i:i], append([]byte{'"'}, c[i:]...)...)
	case 3:
		if i < len(c) {
			c[i] = 0
		}
	}
	w.st.m[slot] = c
	x.State(slot, i, kind)
	w.attack()
}

func x04Junk(x *X) {
	w := newX04(x)
	slot := w.slots[x.Pick(len(w.slots))]
	js := junkRecords(w.hist[0].v)
	i := x.Pick(len(js))
	w.st.m[slot] = js[i]
	x.State(slot, i)
	x.Logf("slot %v replaced by %q", slot, clip(string(js[i]), 80))
	w.attack()
}

// Records sealed by an attacker under other keys or bound to another label.
func x04Foreign(x *X) {
	w := newX04(x)
	k := x.Pick(2)
	slot := w.slots[k*6+x.Pick(6)]
	label := []byte(slot.id)
	lk, nk := refIndexKeys(testKeys().IEK, x04kws[k])
	_, nkOther := refIndexKeys(testKeys().IEK, x04kws[1-k])
	kek := [][]byte{seq(32, 99), testKeys().IEK, lk, nkOther, testKeys().KEK, nk, nk, nk, nk}
	i := x.Pick(len(kek))
	aad := aadBytes(label)
	switch i {
	case 5:
		aad = aadBytes([]byte(w.slots[(k*6+x.Pick(6)+1)%12].id))
		if string(aad) == string(aadBytes(label)) {
			return
		}
	case 6:
		aad = aadBytes(nil)
	case 7:
		aad = label
	case 8:
		aad = aadBytes(append(append([]byte{}, label...), 0))
	}
	next := []uint64{0, 1, 2, 3, 7, 1 << 63, ^uint64(0)}[x.Pick(7)]
	wk, ct := refSealJSON(kek[i], mustJSON(refNode{"forged", next}), aad)
	w.st.m[slot] = mustJSON(map[string]any{"Ciphertext": ct, "WrappedKey": wk})
	x.State(slot, i, next)
	x.Logf("slot %v: node sealed under foreign key %d", slot, i)
	w.attack()
}

// ---- X05 ---------------------------------------------------------------------------

type x05call struct {
	op         int
	start, end int
	err        string
	list       []string
}

var x05ops = []string{"add kw a", "add kw b", "search kw", "add kw b again", "search kw again", "add other c", "search other", "delete other z", "delete other absent"}

func x05Run(x *X, prov string, n int) {
	w := NewWorld(x)
	p := makeProvider(x, prov)
	if st, ok := p.(*Store); ok {
		st.YieldOn = false
	}
	tok := w.idp.User("u", id.ScopeIndex)
	ix := []*index.SecureIndex{w.Index(p), w.Index(p)}
	nInit := x.Pick(3)
	if n == 3 && nInit == 2 {
		return
	}
	var init []string
	for i := 0; i < nInit; i++ {
		d := []string{"b", "i"}[i]
		if err := ix[0].Add(w.ctx, tok, "kw", d); err != nil {
			x.Failf("setup", "%v", err)
		}
		init = append(init, d)
	}
	other := []string{"z", "y", "z"}
	for _, d := range other {
		if err := ix[0].Add(w.ctx, tok, "other", d); err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	calls := make([]x05call, n)
	last, del := 0, 0
	two := x.Bool()
	onOther := 0
	for i := range calls {
		last += x.Pick(len(x05ops) - last)
		calls[i].op = last
		if last >= 7 {
			del++
		}
		if last >= 5 {
			onOther++
		}
	}
	if onOther > 1 && del > 0 || onOther == n { // deletions only together with calls on another keyword
		return
	}
	if prov != "ref" && nInit == 2 {
		return
	}
	clock := 0
	var fs []func()
	for i := range calls {
		c := &calls[i]
		in := ix[0]
		if two {
			in = ix[i%2]
		}
		fs = append(fs, func() {
			clock++
			c.start = clock
			var err error
			f := strings.Fields(x05ops[c.op])
			switch f[0] {
			case "add":
				err = in.Add(w.ctx, tok, f[1], f[2])
			case "search":
				c.list, err = in.Search(w.ctx, tok, f[1])
			case "delete":
				err = in.Delete(w.ctx, tok, f[1], f[2])
			}
			c.err = idxErr(err)
			clock++
			c.end = clock
			x.Op()
		})
	}
	if st, ok := p.(*Store); ok {
		st.YieldOn = true
	}
	x.Par(fs...)
	if st, ok := p.(*Store); ok {
		st.YieldOn = false
	}
	var desc []string
	for _, c := range calls {
		desc = append(desc, fmt.Sprintf("%s [%d,%d] %s %q", x05ops[c.op], c.start, c.end, c.err, c.list))
	}
	x.Logf("%s", strings.Join(desc, "; "))
	final := map[string][]string{}
	for _, k := range []string{"kw", "other"} {
		l, err := w.Index(p).Search(w.ctx, tok, k)
		if err != nil {
			x.Failf("final-error", "after %v, Search for %q fails: %v", desc, k, err)
		}
		final[k] = l
	}
	var outs []string
	for _, c := range calls {
		outs = append(outs, x05ops[c.op]+" "+c.err+" "+listText(c.list))
	}
	x.State(prov, nInit, outs, listText(final["kw"]))
	x.Out("%v -> %s", outs, listText(final["kw"]))
	ini := map[string][]string{"kw": init, "other": other}
	for i := range calls {
		c := &calls[i]
		f := strings.Fields(x05ops[c.op])
		switch {
		case c.err == "ok":
		case f[0] == "add" && c.err == "node-exists":
			raced := false
			for j := range calls {
				d := &calls[j]
				if j != i && strings.HasPrefix(x05ops[d.op], "add "+f[1]) && d.start < c.end && c.start < d.end {
					raced = true
				}
			}
			if !raced {
				x.Failf("spurious-exists", "%s failed with already-exists and no other addition ran at the same time: %v", x05ops[c.op], desc)
			}
		default:
			x.Failf("error", "%s failed: %v", x05ops[c.op], desc)
		}
	}
	for _, k := range []string{"kw", "other"} {
		deleted := false
		var adds []*x05call
		for i := range calls {
			f := strings.Fields(x05ops[calls[i].op])
			if f[1] == k && f[0] == "add" && calls[i].err == "ok" {
				adds = append(adds, &calls[i])
			}
			if f[1] == k && f[0] == "delete" {
				deleted = f[2] == "z"
			}
		}
		if deleted {
			if listText(final[k]) != listText([]string{"y"}) {
				x.Failf("deleted", "%v left %q under %q", desc, final[k], k)
			}
			continue
		}
		// some order of the successful additions, respecting real time, gives the final list, and
		// every search saw a prefix that contains what was complete before and nothing that began later
		name := func(c *x05call) string { return strings.Fields(x05ops[c.op])[2] }
		ok := false
		perms := [][]int{{}}
		if len(adds) > 0 {
			perms = permutations(len(adds))
		}
		for _, perm := range perms {
			good := true
			want := append([]string{}, ini[k]...)
			pos := make([]int, len(adds))
			for i, a := range perm {
				for _, b := range perm[i+1:] {
					if adds[b].end < adds[a].start {
						good = false
					}
				}
				pos[a] = len(want)
				want = append(want, name(adds[a]))
			}
			good = good && listText(want) == listText(final[k])
			for i := range calls {
				c := &calls[i]
				f := strings.Fields(x05ops[c.op])
				if f[0] != "search" || f[1] != k {
					continue
				}
				if len(c.list) > len(want) || listText(c.list) != listText(want[:len(c.list)]) {
					good = false
				}
				for a := range adds {
					if adds[a].end < c.start && pos[a] >= len(c.list) || adds[a].start > c.end && pos[a] < len(c.list) {
						good = false
					}
				}
				for j := range calls { // later searches see at least as much
					e := &calls[j]
					g := strings.Fields(x05ops[e.op])
					if g[0] == "search" && g[1] == k && e.end < c.start && len(e.list) > len(c.list) {
						good = false
					}
				}
			}
			if good {
				ok = true
				break
			}
		}
		if !ok {
			x.Failf("lists", "no order of the additions explains %v with the final list %q under %q", desc, final[k], k)
		}
	}
}

// deleteFails refuses record deletions while it is armed.
type deleteFails struct {
	*Store
	armed bool
}

func (f *deleteFails) Delete(ctx context.Context, id []byte, k io.DataType) error {
	if f.armed {
		return errInjected
	}
	return f.Store.Delete(ctx, id, k)
}

// Many deletions in a row are interrupted where they remove a record and never repeated; then the list is
// emptied or kept, and entries are added.
func x02Repeated(x *X, depth int) {
	w := NewWorld(x)
	f := &deleteFails{Store: w.st}
	tok := w.idp.User("u", id.ScopeIndex)
	ix := w.Index(f)
	n := 3 + x.Pick(4)
	var m []string
	add := func() {
		d := fmt.Sprintf("entry %d", len(m))
		for i := 0; strings.Contains(listText(m), d); i++ {
			d = fmt.Sprintf("entry %d.%d", len(m), i)
		}
		if err := ix.Add(w.ctx, tok, "kw", d); err != nil {
			x.Failf("repeated-add", "Add to %s: %v", listText(m), err)
		}
		x.Op()
		m = append(m, d)
		w.wantSearch(ix, tok, "kw", m, "repeated-added")
	}
	for i := 0; i < n; i++ {
		add()
	}
	del := func(at int, interrupted bool) {
		d := m[at]
		before := m
		f.armed = interrupted
		err := ix.Delete(w.ctx, tok, "kw", d)
		f.armed = false
		x.Op()
		want := without(before, d)
		if !interrupted {
			if err != nil {
				x.Failf("repeated-delete", "Delete from %s: %v", listText(before), err)
			}
			m = want
			w.wantSearch(ix, tok, "kw", m, "repeated-deleted")
			return
		}
		if !errors.Is(err, errInjected) {
			x.Failf("repeated-swallowed", "an interrupted Delete returned %v", err)
		}
		now, err := w.Index(w.st).Search(w.ctx, tok, "kw")
		if t := listText(now); err != nil || t != listText(before) && t != listText(want) {
			x.Failf("repeated-list", "after an interrupted Delete of %q from %s the index holds %q, %v", d, listText(before), now, err)
		}
		m = now
	}
	what := ""
	for i := 0; i < depth && len(m) > 0; i++ {
		c := x.Pick(6)
		switch c {
		case 0:
			what += " stop"
			i = depth
		case 1:
			del(0, true)
			what += " first interrupted"
		case 2:
			del(len(m)/2, true)
			what += " middle interrupted"
		case 3:
			del(0, false)
			what += " first"
		case 4:
			del(len(m)-1, false)
			what += " last"
		case 5:
			add()
			what += " add"
		}
		x.State(n, what)
	}
	if x.Bool() {
		what += " empty"
		for len(m) > 0 {
			del(0, false)
		}
	}
	x.Logf("%d entries, then%s", n, what)
	for i := 0; i < 4; i++ {
		add()
	}
	for len(m) > 0 {
		del(len(m)/2, false)
	}
	add()
}
