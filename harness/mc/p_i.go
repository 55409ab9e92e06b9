package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/cybercryptio/d1-lib/v2/io"
	"verif.local/shim/vfile"
	"verif.local/shim/vsched"
)

func init() {
	register(&Prop{
		ID: "I01", Level: "model_checking",
		Rule: "All sequences of Put, Update and Delete on several keys up to the depth with a read of every key after each, on every bundled provider, with reopening of the Bolt file; all pairs of similar keys; values of every stated size; the proxy with every subset of its functions overridden. " +
			"Compared with a reference map. States are distinct (provider, reference map, operation).",
		Scenarios: func(th bool) []*Scenario {
			d := 4
			if th {
				d = 5
			}
			return []*Scenario{
				{Name: "sequences-mem", Body: func(x *X) { i01Sequence(x, "mem", d+1) }, Shard: 3},
				{Name: "sequences-proxy", Body: func(x *X) { i01Sequence(x, "proxy", d) }, Shard: 3},
				{Name: "sequences-bolt", Body: func(x *X) { i01Sequence(x, "bolt", d-1) }, Shard: 3},
				{Name: "sequences-bolt-proxy", Body: func(x *X) { i01Sequence(x, "bolt-proxy", d-2) }, Shard: 3},
				{Name: "reopen", Body: func(x *X) { i01Sequence(x, "reopen", d-1) }, Shard: 3},
				{Name: "keys", Body: i01Keys, Shard: 1},
				{Name: "key-pairs", Body: func(x *X) { i01KeyPairs(x, th) }, Shard: 2},
				{Name: "values", Body: func(x *X) { i01Values(x, th) }, Shard: 2},
				{Name: "huge", Body: i01Huge, Shard: 2, Steps: manySteps},
				{Name: "held", Body: i01Held, Shard: 2},
				{Name: "many", Body: func(x *X) { i01Many(x, th) }, Shard: 1},
				{Name: "proxy", Body: i01Proxy, Shard: 2},
				{Name: "contexts", Body: i01Contexts, Shard: 2},
			}
		},
	})
	register(&Prop{
		ID: "I02", Level: "model_checking",
		Rule: "All programs of two threads with up to two calls and three threads with one call on one or two entries, initially present or absent, under all interleavings of statements and synchronisation operations within the preemption bound (in-memory) and of synchronisation operations inside bbolt (Bolt); " +
			"results and final contents must be those of a sequential order consistent with real time. Distinct = distinct outcomes.",
		Assume: []string{"Sequentially consistent memory; the race detector build of C03 covers the rest."},
		Scenarios: func(th bool) []*Scenario {
			pre, bp := 2, 4
			if th {
				pre, bp = 4, 7
			}
			return []*Scenario{
				{Name: "mem-pairs", Body: func(x *X) { i02Run(x, "mem", [][]int{{0}, {0}}, 2) }, Pre: 6, Fine: true, Site: 3, Shard: 3},
				{Name: "mem-threads", Body: func(x *X) { i02Run(x, "mem", [][]int{{0}, {0}, {0}}, 1) }, Pre: pre + 1, Fine: true, Site: 2, Shard: 3},
				{Name: "mem-programs", Body: func(x *X) { i02Run(x, "mem", [][]int{{0, 0}, {0, 0}}, 1) }, Pre: pre, Fine: true, Site: 3, Shard: 3},
				{Name: "bolt-pairs", Body: func(x *X) { i02Run(x, "bolt", [][]int{{0}, {0}}, 2) }, Pre: bp, Coarse: true, Shard: 3},
				{Name: "bolt-threads", Body: func(x *X) { i02Run(x, "bolt", [][]int{{0}, {0}, {0}}, 1) }, Pre: bp - 2, Coarse: true, Shard: 3},
				{Name: "bolt-programs", Body: func(x *X) { i02Run(x, "bolt", [][]int{{0, 0}, {0, 0}}, 1) }, Pre: bp - 2, Coarse: true, Shard: 3},
				{Name: "bolt-fine", Body: func(x *X) { i02Run(x, "bolt", [][]int{{0}, {0}}, 1) }, Pre: 2, Fine: true, Site: 1, Shard: 3},
			}
		},
	})
	register(&Prop{
		ID: "I03", Level: "fault_enumeration",
		Rule: "All sequences of writes up to the depth through the Bolt provider, on databases of three sizes; the process or machine stops after every file operation, with every subset of the writes issued since the last completed synchronisation lost and the last one torn at every sector boundary; " +
			"the resulting file is opened by a new provider and compared entry by entry with the acknowledged contents, with the interrupted call applied or not; then written to again. States are distinct (history, crash point, surviving writes).",
		Assume: []string{"A completed sync makes all earlier writes of the file durable; sectors of 512 bytes are written atomically; when more than eight writes are unsynchronised, only the sets missing at most one or keeping at most one of them are explored."},
		Scenarios: func(th bool) []*Scenario {
			d := 3
			if th {
				d = 4
			}
			return []*Scenario{
				{Name: "crash", Body: func(x *X) { i03Crash(x, d) }, Shard: 4},
				{Name: "torn", Body: func(x *X) { i03Torn(x) }, Shard: 4},
				{Name: "growth", Body: func(x *X) { i03Growth(x) }, Shard: 3},
				{Name: "reopening", Body: func(x *X) { i03Reopen(x) }, Shard: 3},
				{Name: "failing", Body: func(x *X) { i03Failing(x, d) }, Shard: 3, Faults: 1},
			}
		},
	})
}

// ---- I01 ---------------------------------------------------------------------------

func i01Sequence(x *X, prov string, depth int) {
	var p io.Provider
	path := ""
	open := func() {
		vfile.CloseAll(path)
		b, err := io.NewBolt(path)
		if err != nil {
			x.Failf("open", "NewBolt: %v", err)
		}
		p = &b
	}
	switch prov {
	case "proxy":
		m := io.NewMem()
		px := io.NewProxy(&m)
		p = &px
	case "bolt-proxy":
		px := io.NewProxy(makeProvider(x, "bolt"))
		p = &px
	case "reopen":
		path = scratchFile(".db")
		x.Defer(func() { vfile.CloseAll(path); removeFile(path) })
		open()
	default:
		p = makeProvider(x, prov)
	}
	ctx := context.Background()
	keys := []struct {
		id string
		k  io.DataType
	}{{"id", 0}, {"id", 1}, {"id2", 0}}
	m := map[int]string{}
	type result struct {
		data []byte
		want string
	}
	var results []result // values returned by Get belong to the caller: later operations leave them alone
	check := func() {
		for _, r := range results {
			if string(r.data) != r.want {
				x.Failf("get-changed", "a value that Get returned as %q has changed to %q", r.want, r.data)
			}
		}
		if len(results) > 0 { // and what the caller does to them leaves the entries alone
			x.Guard("get-unwritable", func() { scribble(results[0].data) })
			results = results[1:]
		}
		for i, k := range keys {
			got, err := p.Get(ctx, []byte(k.id), k.k)
			x.Op()
			if err == nil && len(got) > 0 {
				results = append(results, result{got, string(got)})
			}
			want, ok := m[i]
			switch {
			case ok && err != nil:
				x.Failf("get-lost", "Get of a stored entry failed: %v", err)
			case ok && string(got) != want:
				x.Failf("get-value", "Get returned %q, want %q", got, want)
			case !ok && !errors.Is(err, io.ErrNotFound):
				x.Failf("get-missing", "Get of a missing entry returned %q, %v", got, err)
			case !ok && got != nil:
				x.Failf("get-data", "a failed Get returned %q", got)
			}
		}
	}
	check()
	for i := 0; i < depth; i++ {
		c := x.Pick(1 + 5*len(keys))
		if c == 0 {
			break
		}
		c--
		op, n := c%5, c/5
		k := keys[n]
		v := fmt.Sprintf("value %d", i)
		if op > 2 {
			v = ""
		}
		_, ok := m[n]
		var err, want error
		id, data := []byte(k.id), []byte(v)
		switch op {
		case 0, 3:
			err = p.Put(ctx, id, k.k, data)
			if ok {
				want = io.ErrAlreadyExists
			} else {
				m[n] = v
			}
		case 1, 4:
			err = p.Update(ctx, id, k.k, data)
			if !ok {
				want = io.ErrNotFound
			} else {
				m[n] = v
			}
		case 2:
			err = p.Delete(ctx, id, k.k)
			delete(m, n)
		}
		if string(id) != k.id || string(data) != v {
			x.Failf("arguments", "the operation changed its arguments to %q, %q", id, data)
		}
		scribble(id) // the caller uses its buffers again
		scribble(data)
		x.Op()
		x.Logf("%s %q/%d: %v", [...]string{"put", "update", "delete", "put empty", "update empty"}[op], k.id, k.k, err)
		if want == nil && err != nil || want != nil && !errors.Is(err, want) {
			x.Failf("result:"+[...]string{"put", "update", "delete", "put", "update"}[op], "operation on %q/%d (stored before: %v) returned %v, want %v", k.id, k.k, ok, err, want)
		}
		check()
		if prov == "reopen" {
			open()
			check()
		}
		x.State(prov, fmt.Sprint(m), c)
	}
	x.Out("%d", len(m))
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

var i01IDs = func() []string {
	r := []string{"", "\x00", "\x00\x00\x00", "\x01\x00\x00", "a", "a\x00", "a\x00\x00\x00", "a\x01\x00\x00", "a\x01", "a\x00\x00", "a:0", "a:1", "61", "61:0", ":", "0", ":0", "a ", "A", "b", "ab", "\xff", "\xff\xff\xff", "é", "object",
		strings.Repeat("i", 16), strings.Repeat("i", 32), strings.Repeat("\x00", 16), strings.Repeat("L", 5000), strings.Repeat("L", 5000) + "\x00\x00\x00", strings.Repeat("M", 30000)}
	return r
}()

var i01Kinds = []io.DataType{0, 1, 2, 3, 4, 10, 16, 255, 256, 257, 0x3a30, 65535}

// Every ordered pair of keys that differ in some way.
func i01Keys(x *X) {
	prov := []string{"mem", "bolt", "proxy"}[x.Pick(3)]
	a := x.Pick(len(i01IDs) * len(i01Kinds))
	var p io.Provider
	if prov == "proxy" {
		m := io.NewMem()
		px := io.NewProxy(&m)
		p = &px
		if a%4 != 0 {
			return
		}
	} else {
		p = makeProvider(x, prov)
	}
	ctx := context.Background()
	aid, ak := []byte(i01IDs[a/len(i01Kinds)]), i01Kinds[a%len(i01Kinds)]
	if err := p.Put(ctx, aid, ak, []byte("A")); err != nil {
		x.Failf("put", "Put(%q,%d): %v", clip(string(aid), 40), ak, err)
	}
	same := func(what string, bid []byte, bk io.DataType) {
		got, err := p.Get(ctx, aid, ak)
		x.Op()
		if err != nil || string(got) != "A" {
			x.Failf("influence", "%s of entry %q/%d changed entry %q/%d: %q, %v", what, clip(string(bid), 40), bk, clip(string(aid), 40), ak, got, err)
		}
	}
	for i, idText := range i01IDs {
		for _, bk := range i01Kinds {
			bid := []byte(idText)
			if prov == "bolt" && (i+int(bk)+a)%3 != 0 && a%len(i01Kinds) > 3 {
				continue
			}
			if bytes.Equal(bid, aid) && bk == ak {
				continue
			}
			if got, err := p.Get(ctx, bid, bk); !errors.Is(err, io.ErrNotFound) {
				x.Failf("seen", "Get(%q,%d) returns %q, %v although only %q/%d is stored", clip(idText, 40), bk, got, err, clip(string(aid), 40), ak)
			}
			if err := p.Update(ctx, bid, bk, []byte("B")); !errors.Is(err, io.ErrNotFound) {
				x.Failf("seen", "Update(%q,%d) returns %v although only %q/%d is stored", clip(idText, 40), bk, err, clip(string(aid), 40), ak)
			}
			if err := p.Delete(ctx, bid, bk); err != nil {
				x.Failf("delete", "Delete of a missing entry: %v", err)
			}
			same("Delete", bid, bk)
			if err := p.Put(ctx, bid, bk, []byte("B")); err != nil {
				x.Failf("put", "Put(%q,%d) with only %q/%d stored: %v", clip(idText, 40), bk, clip(string(aid), 40), ak, err)
			}
			same("Put", bid, bk)
			if err := p.Update(ctx, bid, bk, []byte("C")); err != nil {
				x.Failf("update", "%v", err)
			}
			same("Update", bid, bk)
			if got, err := p.Get(ctx, bid, bk); err != nil || string(got) != "C" {
				x.Failf("get", "%q %v", got, err)
			}
			if err := p.Delete(ctx, bid, bk); err != nil {
				x.Failf("delete", "%v", err)
			}
			same("Delete", bid, bk)
			x.State(prov, a, i, bk)
		}
	}
}

// A value that Get returned is the caller's: it stays as it was through any later writes to the same and to
// other entries, and through closing the database; and the caller may write to it.
func i01Held(x *X) {
	prov := []string{"mem", "bolt", "proxy", "bolt-proxy"}[x.Pick(4)]
	n := []int{1, 17, 1000, 1023, 1024, 1025, 4096, 20000, 70000, 300000}[x.Pick(10)]
	m := []int{0, 1, 1000, 5000, 70000}[x.Pick(5)]
	ops := []int{x.Pick(5), x.Pick(5), x.Pick(5)}
	ctx := context.Background()
	var p io.Provider
	switch prov {
	case "proxy":
		m := io.NewMem()
		px := io.NewProxy(&m)
		p = &px
	case "bolt-proxy":
		px := io.NewProxy(makeProvider(x, "bolt"))
		p = &px
	default:
		p = makeProvider(x, prov)
	}
	must := func(err error) {
		x.Op()
		if err != nil {
			x.Failf("held-write", "values of %d and %d bytes, steps %v: %v", n, m, ops, err)
		}
	}
	want := pattern(1, n)
	must(p.Put(ctx, []byte("a"), 0, want))
	must(p.Put(ctx, []byte("b"), 0, pattern(2, m)))
	var held [][]byte
	get := func() {
		got, err := p.Get(ctx, []byte("a"), 0)
		must(err)
		if !bytes.Equal(got, want) {
			x.Failf("held-value", "a value of %d bytes reads as %d bytes", n, len(got))
		}
		held = append(held, got)
	}
	get()
	get()
	for i, op := range ops {
		switch op {
		case 0:
			must(p.Update(ctx, []byte("b"), 0, pattern(i, m+i)))
		case 1:
			must(p.Put(ctx, []byte(fmt.Sprint("c", i)), 0, pattern(3, n)))
		case 2:
			must(p.Delete(ctx, []byte("b"), 0))
			must(p.Put(ctx, []byte("b"), 0, pattern(2, m)))
		case 3:
			must(p.Update(ctx, []byte("b"), 0, pattern(3, 40000)))
		case 4:
			must(p.Update(ctx, []byte("a"), 0, pattern(1, n)))
		}
	}
	get()
	must(p.Delete(ctx, []byte("a"), 0))
	must(p.Put(ctx, []byte("a"), 0, pattern(3, n)))
	for i, h := range held {
		same := false
		x.Guard("held-read", func() { same = bytes.Equal(h, want) })
		if !same {
			x.Failf("held-changed", "a value of %d bytes that Get returned has changed after steps %v", n, ops)
		}
		x.Guard("held-write", func() { scribble(h) })
		for j := i + 1; j < len(held); j++ {
			if !bytes.Equal(held[j], want) {
				x.Failf("held-shared", "two values of %d bytes that Get returned share memory", n)
			}
		}
	}
	got, err := p.Get(ctx, []byte("a"), 0)
	must(err)
	if !bytes.Equal(got, pattern(3, n)) {
		x.Failf("held-stored", "writing to a returned value of %d bytes changed the stored entry", n)
	}
	x.State(prov, n, m, ops)
}

// Every pair of an ID from all short strings over a small alphabet and a kind from all small and some large
// numbers: an entry is stored under one of them, then under each other; all stay apart.
func i01KeyPairs(x *X, th bool) {
	prov := []string{"mem", "bolt"}[x.Pick(2)]
	alphabet := [][]string{{"", "0", "1", "2", "a", ":", "DataType", "-"}, {"", "\x00", "\x01", "\x02", "\x80", "\x81", "\xff", "0"}}[x.Pick(2)]
	var ids []string
	for _, a := range alphabet {
		for _, b := range alphabet {
			ids = append(ids, a+b)
			if th || prov == "mem" {
				for _, c := range alphabet[1:5] {
					ids = append(ids, "k"+a+b+c)
				}
			}
		}
	}
	kinds := []io.DataType{0, 1, 2, 3, 5, 9, 10, 11, 12, 19, 20, 21, 22, 99, 100, 101, 110, 111, 112, 120, 122, 200, 201, 210, 211, 221, 255, 256, 257, 511, 512, 768, 1000, 1024, 65535}
	n := 1
	if x.Bool() { // all together, in both orders of insertion
		n = 2
	}
	rev := x.Bool()
	first := x.Pick(len(kinds))
	p := makeProvider(x, prov)
	ctx := context.Background()
	if prov == "bolt" && (n == 2) != (first == 0) {
		return
	}
	value := func(i string, k io.DataType) []byte { return []byte(fmt.Sprintf("%q %d", i, k)) }
	seen := map[string]bool{}
	type ent struct {
		id string
		k  io.DataType
	}
	var all []ent
	add := func(i string, k io.DataType) {
		if seen[string(value(i, k))] || i == "" && prov == "bolt" {
			return
		}
		seen[string(value(i, k))] = true
		all = append(all, ent{i, k})
	}
	for _, i := range ids {
		for j, k := range kinds {
			if n == 2 && (j+first)%4 != 0 && k >= 256 {
				continue
			}
			if n == 1 && j != first {
				continue
			}
			add(i, k)
		}
	}
	if n == 1 { // entries of one kind, probed through all others
		for _, e := range all {
			if err := p.Put(ctx, []byte(e.id), e.k, value(e.id, e.k)); err != nil {
				x.Failf("pair-put", "Put(%q,%d): %v", e.id, e.k, err)
			}
		}
		for _, i := range ids {
			for _, k := range kinds {
				if i == "" && prov == "bolt" {
					continue
				}
				got, err := p.Get(ctx, []byte(i), k)
				x.Op()
				if k == kinds[first] && (err != nil || !bytes.Equal(got, value(i, k))) || k != kinds[first] && !errors.Is(err, io.ErrNotFound) {
					x.Failf("pair-seen", "Get(%q,%d) with entries of kind %d stored: %q, %v", i, k, kinds[first], got, err)
				}
				x.State(prov, i, k, kinds[first])
			}
		}
		return
	}
	at := func(i int) ent {
		if rev {
			return all[len(all)-1-i]
		}
		return all[i]
	}
	for i := range all {
		e := at(i)
		if err := p.Put(ctx, []byte(e.id), e.k, value(e.id, e.k)); err != nil {
			x.Failf("pair-put", "Put(%q,%d) reports %v although it is not stored", e.id, e.k, err)
		}
		x.Op()
	}
	for i := range all {
		e := at(i)
		if got, err := p.Get(ctx, []byte(e.id), e.k); err != nil || !bytes.Equal(got, value(e.id, e.k)) {
			x.Failf("pair-get", "Get(%q,%d) returns %q, %v", e.id, e.k, got, err)
		}
		if i%2 == 0 {
			if err := p.Delete(ctx, []byte(e.id), e.k); err != nil {
				x.Failf("pair-delete", "%v", err)
			}
		}
		x.Op()
	}
	for i := range all {
		e := at(i)
		got, err := p.Get(ctx, []byte(e.id), e.k)
		if i%2 == 0 && !errors.Is(err, io.ErrNotFound) || i%2 == 1 && (err != nil || !bytes.Equal(got, value(e.id, e.k))) {
			x.Failf("pair-after-delete", "Get(%q,%d), entry %d, returns %q, %v", e.id, e.k, i, got, err)
		}
		x.State(prov, "together", e.id, e.k)
	}
}

func i01Values(x *X, th bool) {
	prov := []string{"mem", "bolt", "bolt-reopen"}[x.Pick(3)]
	sizes := []int{-1, 0, 1, 2, 15, 16, 17, 255, 256, 1000, 4000, 4079, 4080, 4095, 4096, 4097, 8192, 16384, 65535, 65536, 100000, 1 << 20}
	if th {
		sizes = append(sizes, 8<<20+1)
	}
	n1, n2 := sizes[x.Pick(len(sizes))], sizes[x.Pick(len(sizes))]
	kind := x.Pick(4)
	if n1+n2 > 150000 && (kind > 0 || n1 != n2 && n1 > 1 && n2 > 1) {
		return
	}
	mk := func(n int) []byte {
		if n < 0 {
			return nil
		}
		return pattern(kind, n)
	}
	var p io.Provider
	path := scratchFile(".db")
	open := func() {
		vfile.CloseAll(path)
		b, err := io.NewBolt(path)
		if err != nil {
			x.Failf("open", "%v", err)
		}
		p = &b
	}
	if prov == "mem" {
		m := io.NewMem()
		p = &m
	} else {
		x.Defer(func() { vfile.CloseAll(path); removeFile(path) })
		open()
	}
	ctx := context.Background()
	check := func(i string, want []byte) {
		got, err := p.Get(ctx, []byte(i), 0)
		x.Op()
		if err != nil || !bytes.Equal(got, want) {
			x.Failf("value", "a value of %d bytes reads as %d bytes %s, %v", len(want), len(got), clip(fmt.Sprintf("%x", got), 60), err)
		}
	}
	v1, v2 := mk(n1), mk(n2)
	must := func(err error) {
		if err != nil {
			x.Failf("write", "sizes %d, %d: %v", n1, n2, err)
		}
	}
	must(p.Put(ctx, []byte("a"), 0, v1))
	must(p.Put(ctx, []byte("b"), 0, v2))
	check("a", v1)
	check("b", v2)
	if err := p.Put(ctx, []byte("a"), 0, v2); !errors.Is(err, io.ErrAlreadyExists) {
		x.Failf("exists", "Put over a value of %d bytes: %v", n1, err)
	}
	check("a", v1)
	must(p.Update(ctx, []byte("a"), 0, v2))
	must(p.Update(ctx, []byte("b"), 0, v1))
	if prov == "bolt-reopen" {
		open()
	}
	check("a", v2)
	check("b", v1)
	must(p.Delete(ctx, []byte("a"), 0))
	if _, err := p.Get(ctx, []byte("a"), 0); !errors.Is(err, io.ErrNotFound) {
		x.Failf("deleted", "%v", err)
	}
	check("b", v1)
	x.State(prov, n1, n2, kind)
}

// Values around the powers of two that length fields and limits like to use.
func i01Huge(x *X) {
	prov := []string{"mem", "bolt"}[x.Pick(2)]
	n := []int{1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<25 + 1}[x.Pick(4)]
	p := makeProvider(x, prov)
	ctx := context.Background()
	v := pattern(3, n)
	must := func(what string, err error) {
		if err != nil {
			x.Failf("huge-write", "%s of %d bytes: %v", what, n, err)
		}
	}
	check := func(want []byte) {
		got, err := p.Get(ctx, []byte("a"), 0)
		x.Op()
		if err != nil || !bytes.Equal(got, want) {
			x.Failf("huge-value", "a value of %d bytes reads as %d bytes, %v", len(want), len(got), err)
		}
	}
	must("Put", p.Put(ctx, []byte("a"), 0, v))
	check(v)
	must("Update", p.Update(ctx, []byte("a"), 0, []byte("small")))
	check([]byte("small"))
	must("Update", p.Update(ctx, []byte("a"), 0, v))
	check(v)
	must("Delete", p.Delete(ctx, []byte("a"), 0))
	x.State(prov, n)
}

// Many entries of mixed sizes: page splits and merges.
func i01Many(x *X, th bool) {
	prov := []string{"mem", "bolt"}[x.Pick(2)]
	n := []int{50, 300, 1500}[x.Pick(3)]
	step := []int{1, 7, 37}[x.Pick(3)]
	if th && n == 1500 {
		n = 5000
	}
	p := makeProvider(x, prov)
	ctx := context.Background()
	m := map[string]string{}
	key := func(i int) []byte { return []byte(fmt.Sprintf("key %d", i*step%n*7919)) }
	for i := 0; i < n; i++ {
		v := string(pattern(i%4, i*37%900))
		k := key(i)
		_, ok := m[string(k)]
		err := p.Put(ctx, k, io.DataType(i%3), []byte(v))
		if ok && errors.Is(err, io.ErrAlreadyExists) {
			continue
		}
		if err != nil {
			x.Failf("put", "entry %d: %v", i, err)
		}
		m[fmt.Sprintf("%s/%d", k, i%3)] = v
		if i%3 == 2 {
			k := key(i / 2)
			if err := p.Delete(ctx, k, io.DataType(i/2%3)); err != nil {
				x.Failf("delete", "%v", err)
			}
			delete(m, fmt.Sprintf("%s/%d", k, i/2%3))
		}
		x.Op()
	}
	for i := 0; i < n; i++ {
		for k := 0; k < 3; k++ {
			want, ok := m[fmt.Sprintf("%s/%d", key(i), k)]
			got, err := p.Get(ctx, key(i), io.DataType(k))
			if ok != (err == nil) || string(got) != want {
				x.Failf("get", "entry %d/%d of %d: %d bytes %v, want %d bytes %v", i, k, n, len(got), err, len(want), ok)
			}
		}
	}
	x.State(prov, n, step)
}

// recording is a provider that notes exactly what it was called with.
type recording struct {
	calls []Call
	raw   [][]byte
	out   []byte
	err   error
}

func (r *recording) add(op string, ctx context.Context, id []byte, k io.DataType, d []byte) {
	r.calls = append(r.calls, Call{Op: op, ID: string(id), Kind: k, Data: d, Ctx: ctx})
}
func (r *recording) Put(ctx context.Context, id []byte, k io.DataType, d []byte) error {
	r.add("put", ctx, id, k, d)
	return r.err
}
func (r *recording) Get(ctx context.Context, id []byte, k io.DataType) ([]byte, error) {
	r.add("get", ctx, id, k, nil)
	return r.out, r.err
}
func (r *recording) Update(ctx context.Context, id []byte, k io.DataType, d []byte) error {
	r.add("update", ctx, id, k, d)
	return r.err
}
func (r *recording) Delete(ctx context.Context, id []byte, k io.DataType) error {
	r.add("delete", ctx, id, k, nil)
	return r.err
}

func i01Proxy(x *X) {
	over := x.Pick(16)
	op := x.Pick(4)
	impl, mine := &recording{out: []byte("impl")}, &recording{out: []byte("mine")}
	var wantErr error
	if e := x.Pick(4); e > 0 {
		wantErr = []error{io.ErrNotFound, io.ErrAlreadyExists, errInjected}[e-1]
		impl.err, mine.err = wantErr, wantErr
	}
	px := io.NewProxy(impl)
	if over&1 != 0 {
		px.PutFunc = mine.Put
	}
	if over&2 != 0 {
		px.GetFunc = mine.Get
	}
	if over&4 != 0 {
		px.UpdateFunc = mine.Update
	}
	if over&8 != 0 {
		px.DeleteFunc = mine.Delete
	}
	var p io.Provider = &px
	ctx := context.WithValue(context.Background(), ctxKey{}, "proxy")
	idb, k, d := pattern(0, []int{0, 3, 40}[x.Pick(3)]), io.DataType([]uint16{0, 2, 700}[x.Pick(3)]), pattern(1, 9)
	var err error
	var out []byte
	name := [...]string{"put", "get", "update", "delete"}[op]
	switch op {
	case 0:
		err = p.Put(ctx, idb, k, d)
	case 1:
		out, err = p.Get(ctx, idb, k)
	case 2:
		err = p.Update(ctx, idb, k, d)
	case 3:
		err = p.Delete(ctx, idb, k)
	}
	x.Op()
	who, other := impl, mine
	if over&(1<<op) != 0 {
		who, other = mine, impl
	}
	if len(who.calls) != 1 || len(other.calls) != 0 {
		x.Failf("forward", "%s with overridden set %b: %d calls to the right and %d to the wrong implementation", name, over, len(who.calls), len(other.calls))
	}
	c := who.calls[0]
	if c.Op != name || c.ID != string(idb) || c.Kind != k || c.Ctx != ctx || (op == 0 || op == 2) && !bytes.Equal(c.Data, d) {
		x.Failf("arguments", "%s(%x, %d, %x) arrived as %s(%x, %d, %x)", name, idb, k, d, c.Op, c.ID, c.Kind, c.Data)
	}
	if err != wantErr || op == 1 && !bytes.Equal(out, who.out) {
		x.Failf("result", "%s returned %q, %v, want %q, %v", name, out, err, who.out, wantErr)
	}
	x.State(over, op, len(idb), k)
}

// Contexts, cancelled ones included, do not change what is stored.
func i01Contexts(x *X) {
	prov := []string{"mem", "bolt"}[x.Pick(2)]
	p := makeProvider(x, prov)
	ctx, cancel := context.WithCancel(context.Background())
	bg := context.Background()
	if x.Bool() {
		cancel()
	}
	defer cancel()
	op := x.Pick(4)
	present := x.Bool()
	if present {
		p.Put(bg, []byte("k"), 0, []byte("old"))
	}
	var err error
	switch op {
	case 0:
		err = p.Put(ctx, []byte("k"), 0, []byte("new"))
	case 1:
		_, err = p.Get(ctx, []byte("k"), 0)
	case 2:
		err = p.Update(ctx, []byte("k"), 0, []byte("new"))
	case 3:
		err = p.Delete(ctx, []byte("k"), 0)
	}
	x.Op()
	got, gerr := p.Get(bg, []byte("k"), 0)
	want := "old"
	if !present {
		want = ""
	}
	if err == nil {
		switch op {
		case 0, 2:
			want = "new"
		case 3:
			want = ""
		}
	}
	if string(got) != want || (gerr != nil) != (want == "") {
		x.Failf("effect", "operation %d returned %v and left %q, %v", op, err, got, gerr)
	}
	if ctx.Err() == nil && present != (err == nil) && op != 0 && op != 3 {
		x.Failf("result", "operation %d: %v", op, err)
	}
	x.State(prov, op, present)
}

// ---- I02 ---------------------------------------------------------------------------

type i02call struct {
	op, key    int
	val        string
	start, end int
	res        string
}

func i02Run(x *X, prov string, shape [][]int, nk int) {
	p := makeProvider(x, prov)
	ctx := context.Background()
	type ent struct {
		id string
		k  io.DataType
	}
	ents := []ent{{"id", 0}, {"id", 1}}[:nk]
	m := map[int]string{}
	init := x.Pick(2)
	if init == 1 {
		for i, e := range ents {
			m[i] = "initinit"
			if err := p.Put(ctx, []byte(e.id), e.k, []byte("initinit")); err != nil {
				x.Failf("setup", "%v", err)
			}
		}
	}
	var calls []*i02call
	var fs []func()
	clock := 0
	for t := range shape {
		var mine []*i02call
		for range shape[t] {
			o := x.Pick(4 * nk)
			c := &i02call{op: o % 4, key: o / 4, val: strings.Repeat(string(rune('0'+len(calls))), 8)} // (any part of it tells which)
			calls = append(calls, c)
			mine = append(mine, c)
		}
		fs = append(fs, func() {
			for _, c := range mine {
				clock++
				c.start = clock
				c.res = c.run(ctx, p, []byte(ents[c.key].id), ents[c.key].k)
				clock++
				c.end = clock
				x.Op()
			}
		})
	}
	if len(shape) == 2 && len(shape[0]) == 1 || len(shape) == 3 { // threads are interchangeable
		for i := 1; i < len(calls); i++ {
			if calls[i-1].op+4*calls[i-1].key > calls[i].op+4*calls[i].key {
				return
			}
		}
	}
	if prov == "bolt" { // two reads at once are uninteresting
		gets := 0
		for _, c := range calls {
			if c.op == 1 {
				gets++
			}
		}
		if gets == len(calls) {
			return
		}
	}
	x.Par(fs...)
	for k, e := range ents {
		clock++
		c := &i02call{op: 1, key: k, start: clock}
		c.res = c.run(ctx, p, []byte(e.id), e.k)
		clock++
		c.end = clock
		calls = append(calls, c)
	}
	var desc []string
	for _, c := range calls {
		desc = append(desc, fmt.Sprintf("%s %d %s [%d,%d] -> %s", i02names[c.op], c.key, c.val, c.start, c.end, c.res))
	}
	x.Logf("initially %v: %s", m, strings.Join(desc, "; "))
	var outs []string
	for _, c := range calls {
		outs = append(outs, fmt.Sprintf("%s%d=%s", i02names[c.op], c.key, c.res))
	}
	x.State(prov, init, outs)
	x.Out("%d %v", init, outs)
	if !linearizable(calls, m) {
		var ops []string
		for _, c := range calls[:len(calls)-nk] {
			ops = append(ops, i02names[c.op])
		}
		sort.Strings(ops)
		x.Failf("nonlinearizable:"+prov+":"+strings.Join(ops, "+"), "%s: no order explains: initially %v, %s", prov, m, strings.Join(desc, "; "))
	}
}

var i02names = [...]string{"put", "get", "update", "delete"}

func (c *i02call) run(ctx context.Context, p io.Provider, id []byte, k io.DataType) string {
	var err error
	var out []byte
	switch c.op {
	case 0:
		err = p.Put(ctx, id, k, []byte(c.val))
	case 1:
		out, err = p.Get(ctx, id, k)
	case 2:
		err = p.Update(ctx, id, k, []byte(c.val))
	case 3:
		err = p.Delete(ctx, id, k)
	}
	switch {
	case errors.Is(err, io.ErrNotFound):
		return "not found"
	case errors.Is(err, io.ErrAlreadyExists):
		return "exists"
	case err != nil:
		return "error " + err.Error()
	case c.op == 1:
		return "=" + string(out)
	}
	return "ok"
}

// linearizable searches for a sequential order of the calls that respects real time and the results.
func linearizable(calls []*i02call, m map[int]string) bool {
	done := make([]bool, len(calls))
	var rec func(n int, m map[int]string) bool
	rec = func(n int, m map[int]string) bool {
		if n == len(calls) {
			return true
		}
		for i, c := range calls {
			if done[i] {
				continue
			}
			first := true
			for j, d := range calls {
				if !done[j] && j != i && d.end < c.start {
					first = false
				}
			}
			if !first {
				continue
			}
			v, ok := m[c.key]
			nm := map[int]string{}
			for k, w := range m {
				nm[k] = w
			}
			want := "ok"
			switch c.op {
			case 0:
				if ok {
					want = "exists"
				} else {
					nm[c.key] = c.val
				}
			case 1:
				want = "not found"
				if ok {
					want = "=" + v
				}
			case 2:
				if ok {
					nm[c.key] = c.val
				} else {
					want = "not found"
				}
			case 3:
				delete(nm, c.key)
			}
			if want != c.res {
				continue
			}
			done[i] = true
			if rec(n+1, nm) {
				return true
			}
			done[i] = false
		}
		return false
	}
	return rec(0, m)
}

// ---- I03 ---------------------------------------------------------------------------

// i03World records the file operations of a Bolt provider from a given starting content on.
type i03World struct {
	x     *X
	path  string
	p     *io.Bolt
	ev    *[]vfile.Event
	base  []byte
	model map[string]string
}

func newI03(x *X, n, size int) *i03World {
	w := &i03World{x: x, path: scratchFile(".db"), model: map[string]string{}}
	x.Defer(func() { vfile.Stop(w.path); vfile.CloseAll(w.path); removeFile(w.path) })
	b, err := io.NewBolt(w.path)
	if err != nil {
		x.Failf("open", "%v", err)
	}
	w.p = &b
	for i := 0; i < n; i++ {
		k, v := fmt.Sprintf("base%d", i), string(pattern(i%4, size+i%7))
		if err := b.Put(context.Background(), []byte(k), 0, []byte(v)); err != nil {
			x.Failf("setup", "%v", err)
		}
		w.model[k] = v
	}
	if w.base, err = os.ReadFile(w.path); err != nil {
		x.Failf("read", "%v", err)
	}
	w.ev = vfile.Record(w.path)
	return w
}

type i03op struct {
	op   int // 0 put, 1 update, 2 delete
	key  string
	val  string
	from int // first event
	to   int // first event after it was acknowledged
	err  error
}

func (w *i03World) do(o *i03op) {
	ctx := context.Background()
	o.from = len(*w.ev)
	switch o.op {
	case 0:
		o.err = w.p.Put(ctx, []byte(o.key), 0, []byte(o.val))
	case 1:
		o.err = w.p.Update(ctx, []byte(o.key), 0, []byte(o.val))
	case 2:
		o.err = w.p.Delete(ctx, []byte(o.key), 0)
	}
	o.to = len(*w.ev)
	w.x.Op()
}

func (o *i03op) apply(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[k] = v
	}
	if o.err != nil {
		return r
	}
	if o.op == 2 {
		delete(r, o.key)
	} else {
		r[o.key] = o.val
	}
	return r
}

// image is the file after a crash at event n with the given unsynchronised events lost.
func (w *i03World) image(n int, lost map[int]bool, tornAt, tornLen int) []byte {
	img := append([]byte{}, w.base...)
	for i, e := range (*w.ev)[:n] {
		if lost[i] {
			continue
		}
		switch e.Kind {
		case "write":
			d := e.Data
			if i == tornAt {
				d = d[:tornLen]
			}
			if need := int(e.Off) + len(d); need > len(img) {
				img = append(img, make([]byte, need-len(img))...)
			}
			copy(img[e.Off:], d)
		case "truncate":
			if int(e.Size) > len(img) {
				img = append(img, make([]byte, int(e.Size)-len(img))...)
			} else {
				img = img[:e.Size]
			}
		}
	}
	return img
}

// unsynced lists the write and truncate events before n that no completed sync covers.
func (w *i03World) unsynced(n int) (r []int) {
	for i, e := range (*w.ev)[:n] {
		if e.Kind == "sync" {
			r = r[:0]
		} else {
			r = append(r, i)
		}
	}
	return r
}

func contentText(m map[string]string) string {
	var r []string
	for k, v := range m {
		r = append(r, fmt.Sprintf("%s=%d bytes %s", k, len(v), clip(v, 12)))
	}
	sort.Strings(r)
	return strings.Join(r, ";")
}

// recover opens the image and checks that it holds one of the permitted contents.
func (w *i03World) recover(img []byte, permitted []map[string]string, keys []string, what string) {
	x := w.x
	path := scratchFile(".db")
	if err := os.WriteFile(path, img, 0o600); err != nil {
		x.Failf("harness", "%v", err)
	}
	x.Defer(func() { vfile.CloseAll(path); removeFile(path) })
	var b io.Bolt
	var err error
	x.Guard("NewBolt", func() { b, err = io.NewBolt(path) })
	if err != nil {
		x.Failf("unopenable", "%s: the file cannot be opened: %v", what, err)
	}
	ctx := context.Background()
	for round := 0; round < 2; round++ {
		got := map[string]string{}
		for _, k := range keys {
			var v []byte
			var err error
			x.Guard("Get", func() { v, err = b.Get(ctx, []byte(k), 0) })
			x.Op()
			if err == nil {
				got[k] = string(v)
			} else if !errors.Is(err, io.ErrNotFound) {
				x.Failf("unreadable", "%s: Get(%q): %v", what, k, err)
			}
		}
		g := contentText(got)
		var match map[string]string
		for _, m := range permitted {
			same := len(m) == len(got)
			for k, v := range m {
				same = same && got[k] == v
			}
			if same {
				match = m
			}
		}
		if match == nil {
			var pt []string
			for _, m := range permitted {
				pt = append(pt, contentText(m))
			}
			x.Failf("content", "%s (round %d): recovered %s, permitted %s", what, round, clip(g, 500), clip(strings.Join(pt, " OR "), 900))
		}
		if round == 0 { // life goes on after the recovery
			if err := b.Put(ctx, []byte("after"), 0, []byte("crash")); err != nil {
				x.Failf("unwritable", "%s: Put after recovery: %v", what, err)
			}
			vfile.CloseAll(path)
			if b, err = io.NewBolt(path); err != nil {
				x.Failf("unopenable", "%s: reopening: %v", what, err)
			}
			nm := map[string]string{"after": "crash"}
			for k, v := range match {
				nm[k] = v
			}
			permitted, keys = []map[string]string{nm}, append(append([]string{}, keys...), "after")
		}
	}
}

// crash explores one crash point of the recorded history.
func (w *i03World) crash(ops []*i03op, keys []string, n int, lost map[int]bool, tornAt, tornLen int) {
	m := w.model
	permitted := []map[string]string{m}
	for _, o := range ops {
		nm := o.apply(m)
		if o.to <= n && !(o.to == o.from && n < o.to) {
			permitted = []map[string]string{nm}
		} else if o.from < n {
			permitted = append(permitted, nm)
		}
		m = nm
		if o.to > n {
			break
		}
	}
	var ls []int
	for i := range lost {
		ls = append(ls, i)
	}
	sort.Ints(ls)
	what := fmt.Sprintf("crash after file operation %d of %d with operations %v lost", n, len(*w.ev), ls)
	if tornAt >= 0 {
		what += fmt.Sprintf(" and %d torn after %d bytes", tornAt, tornLen)
	}
	w.x.Logf("%s", what)
	w.recover(w.image(n, lost, tornAt, tornLen), permitted, keys, what)
}

// choose picks which of the unsynchronised events are lost.
func (w *i03World) choose(un []int) map[int]bool {
	lost := map[int]bool{}
	if len(un) <= 8 {
		for _, i := range un {
			if w.x.Bool() {
				lost[i] = true
			}
		}
		return lost
	}
	c := w.x.Pick(2*len(un) + 2)
	switch {
	case c == 0:
	case c == 1:
		for _, i := range un {
			lost[i] = true
		}
	case c < 2+len(un):
		lost[un[c-2]] = true
	default:
		for j, i := range un {
			if j != c-2-len(un) {
				lost[i] = true
			}
		}
	}
	return lost
}

func (w *i03World) history(depth int, sizes []int) (ops []*i03op, keys []string) {
	x := w.x
	ks := []string{"a", "base0"}
	for k := range w.model {
		keys = append(keys, k)
	}
	keys = append(keys, "a")
	if _, ok := w.model["base0"]; !ok {
		keys = append(keys, "base0")
	}
	sort.Strings(keys)
	for i := 0; i < depth; i++ {
		c := x.Pick(1 + 3*len(ks))
		if c == 0 {
			break
		}
		c--
		o := &i03op{op: c % 3, key: ks[c/3], val: string(pattern(0, sizes[(i+c)%len(sizes)]))}
		w.do(o)
		m := w.model
		for _, p := range ops {
			m = p.apply(m)
		}
		_, ok := m[o.key]
		if (o.err != nil) != (o.op == 0 && ok || o.op == 1 && !ok) {
			x.Failf("result", "operation %d on %q: %v", o.op, o.key, o.err)
		}
		x.Logf("%s %q %d bytes: %v, file operations %d..%d", [...]string{"put", "update", "delete"}[o.op], o.key, len(o.val), o.err, o.from, o.to)
		ops = append(ops, o)
	}
	return ops, keys
}

func i03Crash(x *X, depth int) {
	size := []int{0, 3, 40}[x.Pick(3)]
	w := newI03(x, size, 120)
	ops, keys := w.history(depth, []int{10, 5000, 0})
	n := x.Pick(len(*w.ev) + 1)
	lost := w.choose(w.unsynced(n))
	w.crash(ops, keys, n, lost, -1, 0)
	x.State(size, len(ops), n, fmt.Sprint(lost))
	x.Out("events %d, lost %d", len(*w.ev), len(lost))
}

// The last surviving write is torn at every sector boundary.
func i03Torn(x *X) {
	w := newI03(x, 3, 120)
	ops, keys := w.history(2, []int{10, 5000})
	if len(ops) == 0 || len(*w.ev) == 0 {
		return
	}
	n := 1 + x.Pick(len(*w.ev))
	un := w.unsynced(n)
	if len(un) == 0 {
		return
	}
	t := un[x.Pick(len(un))]
	e := (*w.ev)[t]
	if e.Kind != "write" {
		return
	}
	sectors := (len(e.Data) + 511) / 512
	if sectors < 2 {
		return
	}
	if len(un) > 8 {
		un = un[len(un)-8:]
	}
	at := 512 * (1 + x.Pick(sectors-1))
	lost := map[int]bool{}
	for _, i := range un {
		if i != t && x.Bool() {
			lost[i] = true
		}
	}
	w.crash(ops, keys, n, lost, t, at)
	x.State(len(ops), n, t, at, fmt.Sprint(lost))
	x.Out("torn")
}

// Writes that make the file grow.
func i03Growth(x *X) {
	w := newI03(x, 3, 120)
	big := []int{70000, 300000}[x.Pick(2)]
	var ops []*i03op
	for i, o := range []*i03op{{op: 0, key: "a", val: string(pattern(0, big))}, {op: 1, key: "base0", val: string(pattern(2, big/2))}, {op: 2, key: "a"}, {op: 0, key: "a", val: "small"}} {
		w.do(o)
		if o.err != nil {
			x.Failf("result", "%d %v", i, o.err)
		}
		ops = append(ops, o)
	}
	keys := []string{"a"}
	for k := range w.model {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	n := x.Pick(len(*w.ev) + 1)
	lost := w.choose(w.unsynced(n))
	w.crash(ops, keys, n, lost, -1, 0)
	x.State(big, n, fmt.Sprint(lost))
	x.Out("events %d, lost %d", len(*w.ev), len(lost))
}

// The crash comes while, or after, a later provider opens the file.
func i03Reopen(x *X) {
	size := []int{1, 3, 40}[x.Pick(3)]
	w := newI03(x, size, 120)
	rounds := 1 + x.Pick(2)
	for i := 0; i < rounds; i++ {
		vfile.CloseAll(w.path)
		b, err := io.NewBolt(w.path)
		if err != nil {
			x.Failf("open", "%v", err)
		}
		w.p = &b
	}
	var keys []string
	for k := range w.model {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	n := x.Pick(len(*w.ev) + 1)
	lost := w.choose(w.unsynced(n))
	w.crash(nil, keys, n, lost, -1, 0)
	x.State(size, rounds, n, fmt.Sprint(lost))
	x.Out("reopen: events %d, lost %d", len(*w.ev), len(lost))
}

// One file operation fails, with nothing or a part of a write done. The call that was running reports an
// error; whatever reported success is there, in the running provider, after reopening, and after a crash.
func i03Failing(x *X, depth int) {
	size := []int{0, 3, 40}[x.Pick(3)]
	w := newI03(x, size, 120)
	failed, armed := false, true
	vfile.OnEvent(func(path string, ev vfile.Event) error {
		if path != w.path || !armed {
			return nil
		}
		n := 2
		if ev.Kind == "write" {
			n = 4
		}
		switch vsched.Choose(n, vsched.Fault) {
		case 1:
			failed = true
			return vfile.Partial{}
		case 2:
			failed = true
			return vfile.Partial{N: len(ev.Data) / 2}
		case 3:
			failed = true
			return vfile.Partial{N: 512}
		}
		return nil
	})
	x.Defer(func() { vfile.OnEvent(nil) })
	ctx := context.Background()
	ks := []string{"a", "base0"}
	var keys []string
	for k := range w.model {
		keys = append(keys, k)
	}
	for _, k := range ks {
		if _, ok := w.model[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	live, durable := []map[string]string{w.model}, []map[string]string{w.model}
	read := func(p io.Provider, from []map[string]string, what string) (left []map[string]string) {
		got := map[string]string{}
		for _, k := range keys {
			v, err := p.Get(ctx, []byte(k), 0)
			x.Op()
			if err == nil {
				got[k] = string(v)
			} else if !errors.Is(err, io.ErrNotFound) {
				x.Failf("failing-unreadable", "%s: Get(%q): %v", what, k, err)
			}
		}
		g := contentText(got)
		for _, m := range from {
			if contentText(m) == g {
				left = append(left, m)
			}
		}
		if left == nil {
			x.Failf("failing-content", "%s: the entries are %s, of permitted contents %d none matches", what, clip(g, 500), len(from))
		}
		return left
	}
	var hist []string
	for i := 0; i < depth; i++ {
		c := x.Pick(1 + 3*len(ks))
		if c == 0 {
			break
		}
		c--
		o := &i03op{op: c % 3, key: ks[c/3], val: string(pattern(0, []int{10, 5000, 40000}[(i+c)%3]))}
		failed = false
		x.Guard("operation", func() { w.do(o) })
		hist = append(hist, fmt.Sprintf("%s %q %d bytes: %v (file operation failed: %v)", [...]string{"put", "update", "delete"}[o.op], o.key, len(o.val), o.err, failed))
		x.Logf("%s", hist[len(hist)-1])
		was := failed
		failed = false
		armed = false
		if was && o.err == nil && len(*w.ev) > 0 {
			// It may still have succeeded if it was done again; then it is there.
			x.Logf("success although a file operation failed")
		}
		var next []map[string]string
		switch {
		case o.err == nil:
			for _, m := range live {
				if _, ok := m[o.key]; o.op == 0 && !ok || o.op == 1 && ok || o.op == 2 {
					next = append(next, o.apply(m))
				}
			}
			if next == nil {
				x.Failf("failing-result", "%v: the last result is impossible", hist)
			}
			live = read(w.p, next, strings.Join(hist, "; "))
			durable = live
		case errors.Is(o.err, io.ErrAlreadyExists) || errors.Is(o.err, io.ErrNotFound):
			for _, m := range live {
				if _, ok := m[o.key]; o.op == 0 && ok || o.op == 1 && !ok {
					next = append(next, m)
				}
			}
			if next == nil {
				x.Failf("failing-result", "%v: the last result is impossible", hist)
			}
			live = read(w.p, next, strings.Join(hist, "; "))
		default:
			if !was {
				x.Failf("failing-error", "%v: an error without a failed file operation", hist)
			}
			e := o.err
			o.err = nil
			for _, m := range live {
				next = append(next, m)
				if _, ok := m[o.key]; o.op == 0 && !ok || o.op == 1 && ok || o.op == 2 {
					next = append(next, o.apply(m))
				}
			}
			o.err = e
			durable = append(append([]map[string]string{}, durable...), next...)
			live = read(w.p, next, strings.Join(hist, "; "))
		}
		armed = true
		x.State(size, strings.Join(hist, "; "))
	}
	armed = false
	vfile.CloseAll(w.path)
	img, err := os.ReadFile(w.path)
	if err != nil {
		x.Failf("harness", "%v", err)
	}
	w.recover(img, durable, keys, "reopened after "+strings.Join(hist, "; "))
	lost := w.choose(w.unsynced(len(*w.ev)))
	if len(lost) > 0 {
		w.recover(w.image(len(*w.ev), lost, -1, 0), durable, keys, fmt.Sprintf("crash with operations %v lost after %s", lost, strings.Join(hist, "; ")))
	}
	x.Out("%d", len(durable))
}
