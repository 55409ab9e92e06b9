package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"fmt"
	"sort"
	"strings"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

func init() {
	register(&Prop{
		ID: "B01", Level: "model_checking",
		Rule: "Every exported operation with every argument in a buffer that has sentinels before, behind and in its spare capacity (five amounts of it), for several sizes, on the reference store and both bundled providers, succeeding, refused and with each single storage call failing: all buffers are compared at every storage call and afterwards, then overwritten, as are the results, and everything observable is compared with before. " +
			"All histories of operations up to the depth whose arguments and results are overwritten at once are compared with the same history left alone. Distinct = distinct (operation, outcome, observation) states.",
		Assume: []string{"The plain structures of package data hold the slices they are given; AES256GCM documents that it works in place; hash.Hash.Sum appends. These are outside the statement."},
		Scenarios: func(th bool) []*Scenario {
			d := 3
			if th {
				d = 4
			}
			return []*Scenario{
				{Name: "calls", Body: func(x *X) { b01Calls(x, "ref") }, Shard: 2},
				{Name: "calls-mem", Body: func(x *X) { b01Calls(x, "mem") }, Shard: 2},
				{Name: "calls-bolt", Body: func(x *X) { b01Calls(x, "bolt") }, Shard: 2},
				{Name: "faults", Body: func(x *X) { b01Calls(x, "fault") }, Shard: 2, Faults: 1},
				{Name: "order", Body: func(x *X) { b01Calls(x, "ref") }, Shard: 2, Order: 1},
				{Name: "histories", Body: func(x *X) { b01Histories(x, d, "ref") }, Shard: 2},
				{Name: "histories-mem", Body: func(x *X) { b01Histories(x, d-1, "mem") }, Shard: 2},
				{Name: "histories-bolt", Body: func(x *X) { b01Histories(x, d-1, "bolt") }, Shard: 2},
				{Name: "keys", Body: b01Keys},
				{Name: "crypto", Body: b01Crypto, Shard: 2},
				{Name: "providers", Body: b01Providers, Shard: 2},
				{Name: "values", Body: b01Values},
			}
		},
	})
}

// ---- tracked buffers --------------------------------------------------------------

const sentinel = 0xC5

// bufs makes arguments that are windows into larger arrays filled with sentinels.
type bufs struct {
	x     *X
	spare int
	b     []tbuf
	s     []tstrs
	sc    []tscopes
	m     []tmap
}

type tbuf struct {
	name       string
	full, copy []byte
}
type tstrs struct {
	name       string
	full, copy []string
}
type tscopes struct {
	name       string
	full, copy []id.Scope
}
type tmap struct {
	name string
	m    map[string]id.AccessGroup
	copy map[string]id.AccessGroup
}

// bytes returns content in a slice with b.spare bytes of spare capacity, tracked with 8 bytes before it.
func (b *bufs) bytes(name string, content []byte) []byte {
	full := bytes.Repeat([]byte{sentinel}, 8+len(content)+b.spare+8)
	copy(full[8:], content)
	b.b = append(b.b, tbuf{name, full, bytes.Clone(full)})
	return full[8 : 8+len(content) : 8+len(content)+b.spare]
}

// track follows a buffer that somebody else made, up to its capacity.
func (b *bufs) track(name string, v []byte) {
	full := v[:cap(v)]
	b.b = append(b.b, tbuf{name, full, bytes.Clone(full)})
}

func (b *bufs) strs(name string, v ...string) []string {
	full := make([]string, len(v)+b.spare)
	copy(full, v)
	for i := len(v); i < len(full); i++ {
		full[i] = "sentinel"
	}
	b.s = append(b.s, tstrs{name, full, append([]string{}, full...)})
	return full[:len(v)]
}

func (b *bufs) scopes(name string, v ...id.Scope) []id.Scope {
	full := make([]id.Scope, len(v)+b.spare)
	copy(full, v)
	for i := len(v); i < len(full); i++ {
		full[i] = id.ScopeIndex
	}
	b.sc = append(b.sc, tscopes{name, full, append([]id.Scope{}, full...)})
	return full[:len(v)]
}

func (b *bufs) groups(name string, m map[string]id.AccessGroup) map[string]id.AccessGroup {
	c := map[string]id.AccessGroup{}
	for k, v := range m {
		c[k] = v
	}
	b.m = append(b.m, tmap{name, m, c})
	return m
}

func (b *bufs) check(when string) {
	for _, t := range b.b {
		if !bytes.Equal(t.full, t.copy) {
			for i := range t.full {
				if t.full[i] != t.copy[i] {
					b.x.Failf("modified:"+t.name, "%s: byte %d of the buffer around %s (%d bytes, the value starts at 8, spare %d) was changed from %02x to %02x", when, i, t.name, len(t.full), b.spare, t.copy[i], t.full[i])
				}
			}
		}
	}
	for _, t := range b.s {
		for i := range t.full {
			if t.full[i] != t.copy[i] {
				b.x.Failf("modified:"+t.name, "%s: element %d of %s (capacity %d, spare %d) was changed from %q to %q", when, i, t.name, len(t.full), b.spare, t.copy[i], t.full[i])
			}
		}
	}
	for _, t := range b.sc {
		for i := range t.full {
			if t.full[i] != t.copy[i] {
				b.x.Failf("modified:"+t.name, "%s: element %d of %s (capacity %d, spare %d) was changed", when, i, t.name, len(t.full), b.spare)
			}
		}
	}
	for _, t := range b.m {
		if fmt.Sprint(t.m) != fmt.Sprint(t.copy) {
			b.x.Failf("modified:"+t.name, "%s: %s was changed from %v to %v", when, t.name, t.copy, t.m)
		}
	}
}

// scribble overwrites everything tracked, and forgets it.
func (b *bufs) scribble() {
	for _, t := range b.b {
		flip(t.full)
	}
	for _, t := range b.s {
		for i := range t.full {
			t.full[i] = "scribble"
		}
	}
	for _, t := range b.sc {
		for i := range t.full {
			t.full[i] = ^t.full[i]
		}
	}
	for _, t := range b.m {
		for k := range t.m {
			delete(t.m, k)
		}
		t.m["scribble"] = id.AccessGroup{ID: "scribble", Scopes: id.ScopeAll}
	}
	b.b, b.s, b.sc, b.m = nil, nil, nil, nil
}

// forget stops tracking.
func (b *bufs) forget() { b.b, b.s, b.sc, b.m = nil, nil, nil, nil }

// flip overwrites a slice up to its capacity.
func flip(v []byte) {
	v = v[:cap(v)]
	for i := range v {
		v[i] ^= 0x5a
	}
}

// ---- a world whose storage is observed -----------------------------------------------

// spyProvider remembers which records exist and looks at the tracked buffers at every call.
type spyProvider struct {
	io.Provider
	keys map[rkey]bool
	on   func()
}

func (s *spyProvider) see(id []byte, kind io.DataType) {
	s.keys[rkey{kind, string(id)}] = true
	if s.on != nil {
		s.on()
	}
}

func (s *spyProvider) Put(ctx context.Context, id []byte, kind io.DataType, data []byte) error {
	s.see(id, kind)
	return s.Provider.Put(ctx, id, kind, data)
}
func (s *spyProvider) Get(ctx context.Context, id []byte, kind io.DataType) ([]byte, error) {
	s.see(id, kind)
	return s.Provider.Get(ctx, id, kind)
}
func (s *spyProvider) Update(ctx context.Context, id []byte, kind io.DataType, data []byte) error {
	s.see(id, kind)
	return s.Provider.Update(ctx, id, kind, data)
}
func (s *spyProvider) Delete(ctx context.Context, id []byte, kind io.DataType) error {
	s.see(id, kind)
	return s.Provider.Delete(ctx, id, kind)
}

// sharingID hands out the same maps on every call.
type sharingID struct {
	m  map[string]id.Identity
	on func()
}

func (s *sharingID) GetIdentity(_ context.Context, token string) (id.Identity, error) {
	i, ok := s.m[token]
	if !ok {
		return id.Identity{}, errStub
	}
	if s.on != nil {
		s.on()
	}
	return i, nil
}

type bWorld struct {
	*bufs
	w      *World
	ctx    context.Context
	p      *spyProvider
	st     *Store
	idp    *sharingID
	d      *d1.D1
	ix     *index.SecureIndex
	sa     *id.Standalone
	oids   []uuid.UUID
	tokens []string // strings of sealed tokens
	toks   []*data.SealedToken
	uids   []string
	pws    []string
	saTok  []string
	gids   []string
	names  map[string]string
	tk     int // token of the current call
}

func newB(x *X, prov string, spare int) *bWorld {
	b := &bWorld{bufs: &bufs{x: x, spare: spare}, w: NewWorld(x), ctx: baseCtx(), names: map[string]string{}}
	var p io.Provider
	if prov == "fault" || prov == "ref" {
		b.st = NewStore(x)
		b.st.Extra = spare
		b.st.Quiet = true
		p = b.st
	} else {
		p = makeProvider(x, prov)
	}
	b.p = &spyProvider{Provider: p, keys: map[rkey]bool{}}
	b.idp = &sharingID{m: map[string]id.Identity{
		"t:owner":    {ID: "owner", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"own": {ID: "own", Scopes: id.ScopeDecrypt}}},
		"t:member":   {ID: "member", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"grp": {ID: "grp", Scopes: id.ScopeAll}}},
		"t:stranger": {ID: "stranger", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{}},
		"t:weak":     {ID: "owner", Scopes: 0, Groups: map[string]id.AccessGroup{"grp": {ID: "grp"}}},
	}}
	kp := key.NewStatic(testKeys())
	d, err := d1.New(b.ctx, &kp, b.p, b.idp)
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	b.d = &d
	ix, err := index.NewSecureIndex(b.ctx, &kp, b.p, b.idp)
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	b.ix = &ix
	sa, err := id.NewStandalone(saConfig(), b.p)
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	b.sa = &sa
	return b
}

func (b *bWorld) must(err error) {
	if err != nil {
		b.x.Failf("setup", "%v", err)
	}
}

// populate creates two objects, two users, a group, index entries and a token.
func (b *bWorld) populate() {
	for i := 0; i < 2; i++ {
		o, err := b.d.Encrypt(b.ctx, "t:owner", obj(fmt.Sprintf("secret %d", i), fmt.Sprintf("meta %d", i)), "grp")
		b.must(err)
		b.oids = append(b.oids, o)
		u, pw, err := b.sa.NewUser(b.ctx, id.ScopeEncrypt)
		b.must(err)
		b.uids, b.pws = append(b.uids, u), append(b.pws, pw)
		t, _, err := b.sa.LoginUser(b.ctx, u, pw)
		b.must(err)
		b.saTok = append(b.saTok, t)
	}
	for i := 0; i < 2; i++ {
		g, err := b.sa.NewGroup(b.ctx, b.saTok[0], id.ScopeDecrypt)
		b.must(err)
		b.gids = append(b.gids, g)
	}
	b.must(b.ix.Add(b.ctx, "t:owner", "kw", "one"))
	b.must(b.ix.Add(b.ctx, "t:owner", "kw", "two"))
	b.token("token text")
}

func (b *bWorld) token(s string) {
	t, err := b.d.CreateToken(b.ctx, []byte(s))
	b.must(err)
	b.toks = append(b.toks, &t)
	ts, err := t.String()
	b.must(err)
	b.tokens = append(b.tokens, ts)
}

// records reads all storage.
func (b *bWorld) records() string {
	var r []string
	for k := range b.p.keys {
		v, err := b.p.Provider.Get(b.ctx, []byte(k.id), k.kind)
		if err == nil {
			r = append(r, fmt.Sprintf("%d/%x=%x", k.kind, k.id, v))
		}
	}
	sort.Strings(r)
	return strings.Join(r, ";")
}

// observe describes everything that can be read through the instances.
func (b *bWorld) observe() string {
	on := b.p.on
	b.p.on = nil
	defer func() { b.p.on = on }()
	if b.st != nil {
		i := b.st.Inject
		b.st.Inject = false
		defer func() { b.st.Inject = i }()
	}
	var s strings.Builder
	for n, oid := range b.oids {
		o, err := b.d.Decrypt(b.ctx, "t:member", oid)
		g, gerr := b.d.GetAccessGroups(b.ctx, "t:member", oid)
		fmt.Fprintf(&s, "object %d: %q %q %s %s %s; ", n, o.Plaintext, o.AssociatedData, errName(err), setOf(g), errName(gerr))
	}
	for _, kw := range []string{"kw", "kx"} {
		l, err := b.ix.Search(b.ctx, "t:owner", kw)
		fmt.Fprintf(&s, "%s: %q %s; ", kw, l, idxErr(err))
	}
	for n := range b.uids {
		_, _, err := b.sa.LoginUser(b.ctx, b.uids[n], b.pws[n])
		fmt.Fprintf(&s, "login %d: %s; ", n, idErr(err))
	}
	for n, t := range b.saTok {
		i, err := b.sa.GetIdentity(b.ctx, t)
		fmt.Fprintf(&s, "identity %d: %s %s; ", n, b.norm(identStr(i)), idErr(err))
	}
	for n, t := range b.tokens {
		st, err := data.TokenFromString(t)
		var pt []byte
		if err == nil {
			pt, err = b.d.GetTokenContents(b.ctx, &st)
		}
		fmt.Fprintf(&s, "token %d: %q %v; ", n, pt, err)
	}
	for tok, i := range b.idp.m {
		if b.idp.m[tok].ID != i.ID {
			s.WriteString("identity map; ")
		}
	}
	return s.String()
}

// norm replaces generated identifiers.
func (b *bWorld) norm(s string) string {
	for i, g := range b.gids {
		s = strings.ReplaceAll(s, g, fmt.Sprintf("g%d", i))
	}
	for i, u := range b.uids {
		s = strings.ReplaceAll(s, u, fmt.Sprintf("u%d", i))
	}
	f := strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(" [],{}()", r) })
	sort.Strings(f)
	return strings.Join(f, " ")
}

// bOp is one exported operation with arguments of about n bytes. It returns the results, which the caller
// may overwrite: byte slices, string slices and maps.
type bOp struct {
	name string
	run  func(b *bWorld, n int) (err error, results []any)
}

var bTokens = []string{"t:owner", "t:stranger", "t:weak", "t:bad"}

func descending(s ...string) []string {
	sort.Sort(sort.Reverse(sort.StringSlice(s)))
	return s
}

func bStr(n int, c byte) string { return strings.Repeat(string(rune(c)), n) }

var bOps = []bOp{
	{"Encrypt", func(b *bWorld, n int) (error, []any) {
		o := &data.Object{Plaintext: b.bytes("Object.Plaintext", []byte(bStr(n, 'p'))), AssociatedData: b.bytes("Object.AssociatedData", []byte(bStr(n, 'a')))}
		gs := []string{"x", "grp", "x"} // neither sorted nor free of duplicates
		oid, err := b.d.Encrypt(b.ctx, b.tok(), o, b.strs("groups", gs[:n%4]...)...)
		if err == nil {
			b.oids = append(b.oids, oid)
		}
		return err, nil
	}},
	{"Update", func(b *bWorld, n int) (error, []any) {
		o := &data.Object{Plaintext: b.bytes("Object.Plaintext", []byte(bStr(n, 'q'))), AssociatedData: b.bytes("Object.AssociatedData", []byte(bStr(n, 'b')))}
		return b.d.Update(b.ctx, b.tok(), b.oids[0], o), nil
	}},
	{"Decrypt", func(b *bWorld, n int) (error, []any) {
		o, err := b.d.Decrypt(b.ctx, b.tok(), b.oids[0])
		return err, []any{o.Plaintext, o.AssociatedData}
	}},
	{"Delete", func(b *bWorld, n int) (error, []any) { return b.d.Delete(b.ctx, b.tok(), b.oids[1]), nil }},
	{"GetAccessGroups", func(b *bWorld, n int) (error, []any) {
		m, err := b.d.GetAccessGroups(b.ctx, b.tok(), b.oids[0])
		return err, []any{m}
	}},
	{"AddGroupsToAccess", func(b *bWorld, n int) (error, []any) {
		return b.d.AddGroupsToAccess(b.ctx, b.tok(), b.oids[0], b.strs("groups", []string{"grp", "grp", "a"}[:n%4]...)...), nil
	}},
	{"RemoveGroupsFromAccess", func(b *bWorld, n int) (error, []any) {
		return b.d.RemoveGroupsFromAccess(b.ctx, b.tok(), b.oids[0], b.strs("groups", []string{"zz", "grp", "zz"}[:n%4]...)...), nil
	}},
	{"AuthorizeIdentity", func(b *bWorld, n int) (error, []any) { return b.d.AuthorizeIdentity(b.ctx, b.tok(), b.oids[0]), nil }},
	{"CreateToken", func(b *bWorld, n int) (error, []any) {
		t, err := b.d.CreateToken(b.ctx, b.bytes("plaintext", []byte(bStr(n, 't'))))
		if err != nil {
			return err, nil
		}
		s, err := t.String()
		b.tokens = append(b.tokens, s)
		return err, []any{t.Ciphertext, t.WrappedKey}
	}},
	{"GetTokenContents", func(b *bWorld, n int) (error, []any) {
		t := *b.toks[0]
		if n > 100 {
			big, err := b.d.CreateToken(b.ctx, []byte(bStr(n, 't')))
			b.must(err)
			t = big
		}
		t.Ciphertext = b.bytes("SealedToken.Ciphertext", t.Ciphertext)
		t.WrappedKey = b.bytes("SealedToken.WrappedKey", t.WrappedKey)
		if n == 0 {
			t.WrappedKey = t.WrappedKey[:8]
		}
		e := t.ExpiryTime
		pt, err := b.d.GetTokenContents(b.ctx, &t)
		if t.ExpiryTime != e {
			b.x.Failf("modified:SealedToken", "GetTokenContents changed the token")
		}
		return err, []any{pt}
	}},
	{"TokenFromString", func(b *bWorld, n int) (error, []any) {
		t, err := data.TokenFromString(b.tokens[0])
		return err, []any{t.Ciphertext, t.WrappedKey}
	}},
	{"SealedToken.String", func(b *bWorld, n int) (error, []any) {
		t := data.SealedToken{Ciphertext: b.bytes("SealedToken.Ciphertext", b.toks[0].Ciphertext), WrappedKey: b.bytes("SealedToken.WrappedKey", b.toks[0].WrappedKey), ExpiryTime: b.toks[0].ExpiryTime}
		s, err := t.String()
		if s != b.tokens[0] {
			b.x.Failf("string", "SealedToken.String is not the same for the same token")
		}
		return err, nil
	}},
	{"index.Add", func(b *bWorld, n int) (error, []any) { return b.ix.Add(b.ctx, b.tok(), "kw", bStr(n+1, 'i')), nil }},
	{"index.AddNew", func(b *bWorld, n int) (error, []any) { return b.ix.Add(b.ctx, b.tok(), "kx", bStr(n+1, 'i')), nil }},
	{"index.Search", func(b *bWorld, n int) (error, []any) {
		l, err := b.ix.Search(b.ctx, b.tok(), "kw")
		return err, []any{l}
	}},
	{"index.Delete", func(b *bWorld, n int) (error, []any) { return b.ix.Delete(b.ctx, b.tok(), "kw", "two"), nil }},
	{"NewUser", func(b *bWorld, n int) (error, []any) {
		all := []id.Scope{id.ScopeDelete, id.ScopeUpdate, id.ScopeDelete}
		u, pw, err := b.sa.NewUser(b.ctx, b.scopes("scopes", all[:n%4]...)...)
		if err == nil {
			b.uids, b.pws = append(b.uids, u), append(b.pws, pw)
			t, _, e := b.sa.LoginUser(b.ctx, u, pw)
			if e == nil {
				b.saTok = append(b.saTok, t)
			}
		}
		return err, nil
	}},
	{"NewGroup", func(b *bWorld, n int) (error, []any) {
		all := []id.Scope{id.ScopeDelete, id.ScopeUpdate, id.ScopeDelete}
		g, err := b.sa.NewGroup(b.ctx, b.sTok(), b.scopes("scopes", all[:n%4]...)...)
		if err == nil {
			b.gids = append(b.gids, g)
		}
		return err, nil
	}},
	{"LoginUser", func(b *bWorld, n int) (error, []any) {
		t, _, err := b.sa.LoginUser(b.ctx, b.uids[0], b.pws[n%2])
		if err == nil {
			b.saTok = append(b.saTok, t)
		}
		return err, nil
	}},
	{"ChangeUserPassword", func(b *bWorld, n int) (error, []any) {
		pw, err := b.sa.ChangeUserPassword(b.ctx, b.uids[1], b.pws[1-n%2])
		if err == nil {
			b.pws[1] = pw
		}
		return err, nil
	}},
	{"AddUserToGroups", func(b *bWorld, n int) (error, []any) {
		return b.sa.AddUserToGroups(b.ctx, b.sTok(), b.uids[1], b.strs("gids", append(descending(b.gids[0], b.gids[1]), b.uids[0])[:n%4]...)...), nil
	}},
	{"RemoveUserFromGroups", func(b *bWorld, n int) (error, []any) {
		return b.sa.RemoveUserFromGroups(b.ctx, b.sTok(), b.uids[0], b.strs("gids", append(descending(b.gids[0], b.gids[1]), "nope")[:n%4]...)...), nil
	}},
	{"GetIdentity", func(b *bWorld, n int) (error, []any) {
		i, err := b.sa.GetIdentity(b.ctx, b.sTok())
		return err, []any{i.Groups}
	}},
	{"DeleteUser", func(b *bWorld, n int) (error, []any) { return b.sa.DeleteUser(b.ctx, b.sTok(), b.uids[1]), nil }},
}

func (b *bWorld) tok() string { return bTokens[b.tk] }
func (b *bWorld) sTok() string {
	return []string{b.saTok[0], b.saTok[1], "bad", b.saTok[0] + "x"}[b.tk]
}

// spoil overwrites results.
func spoil(results []any) {
	for _, r := range results {
		switch v := r.(type) {
		case []byte:
			flip(v)
		case []string:
			v = v[:cap(v)]
			for i := range v {
				v[i] = "scribble"
			}
		case map[string]struct{}:
			if v != nil {
				for k := range v {
					delete(v, k)
				}
				v["scribble"] = struct{}{}
				v["t:stranger"] = struct{}{}
			}
		case map[string]id.AccessGroup:
			if v != nil {
				for k := range v {
					delete(v, k)
				}
				v["scribble"] = id.AccessGroup{ID: "scribble", Scopes: id.ScopeAll}
			}
		default:
			panic("result type")
		}
	}
}

func render(results []any) string {
	var s []string
	for _, r := range results {
		switch v := r.(type) {
		case []byte:
			s = append(s, fmt.Sprintf("%x", v))
		case map[string]struct{}:
			s = append(s, setOf(v))
		default:
			s = append(s, fmt.Sprint(v))
		}
	}
	return strings.Join(s, "|")
}

func b01Calls(x *X, prov string) {
	sizes := []int{0, 1, 2, 3, 16, 31, 100, 3000, 9000, 70000}
	spares := []int{0, 1, 7, 16, 200}
	op := bOps[x.Pick(len(bOps))]
	tk := x.Pick(len(bTokens))
	n := sizes[x.Pick(len(sizes))]
	spare := spares[x.Pick(len(spares))]
	noise := x.Pick(4)
	if prov != "ref" && (noise > 1 || spare != 7 && spare != 200) {
		return
	}
	if n > 100 && (spare != 7 || noise > 1) {
		return
	}
	b := newB(x, prov, spare)
	b.populate()
	for tok, i := range b.idp.m {
		b.groups("the identity provider's groups of "+tok, i.Groups)
	}
	b.p.on = func() { b.check(op.name + ", during the call") }
	if prov == "fault" {
		b.st.Inject = true
	}
	b.tk = tk
	var err error
	var res []any
	x.Guard(op.name, func() { err, res = op.run(b, n) })
	x.Op()
	b.tk = 0
	if b.st != nil {
		b.st.Inject = false
	}
	b.p.on = nil
	b.check(op.name + ", after the call")
	what := fmt.Sprintf("%s (token %s, size %d, spare %d): %v", op.name, bTokens[tk], n, spare, err)
	x.Logf("%s", what)
	want, stored, got := b.observe(), b.records(), render(res)
	if noise > 0 { // a result stays what it was while other calls run
		for k, o := range bOps {
			if k%3 == noise-1 && o.name != "Delete" && o.name != "DeleteUser" {
				nb := *b // its effects on the harness's bookkeeping are dropped
				nb.bufs = &bufs{x: x, spare: spare}
				o.run(&nb, 16)
				x.Op()
			}
		}
		b.check(op.name + ", while other operations ran")
		if g := render(res); g != got {
			x.Failf("result:"+op.name, "the result of %s changed while other operations ran: %s -> %s", what, got, g)
		}
		want, stored = b.observe(), b.records()
	}
	// overwrite the arguments
	gm := b.m
	b.m = nil // the identity provider's own
	b.scribble()
	if g := render(res); g != got {
		x.Failf("shared:"+op.name, "overwriting the arguments of %s changed its result: %s -> %s", what, got, g)
	}
	if g := b.records(); g != stored {
		x.Failf("retained:"+op.name, "overwriting the arguments of %s changed stored data", what)
	}
	if g := b.observe(); g != want {
		x.Failf("retained:"+op.name, "overwriting the arguments of %s changed what is read from %s to %s", what, want, g)
	}
	// overwrite the results
	spoil(res)
	b.m = gm
	b.check("overwriting the results of " + op.name)
	if g := b.records(); g != stored {
		x.Failf("result-shared:"+op.name, "overwriting the result of %s changed stored data", what)
	}
	if g := b.observe(); g != want {
		x.Failf("result-shared:"+op.name, "overwriting the result of %s changed what is read from %s to %s", what, want, g)
	}
	x.State(op.name, tk, n, spare, errName(err), got)
	x.Out("%s %v", op.name, err == nil)
}

// b01Histories runs one history twice, overwriting everything passed and returned in one of them.
func b01Histories(x *X, depth int, prov string) {
	var hist [][2]int
	for len(hist) < depth {
		o := x.Pick(len(bOps) + 1)
		if o == 0 {
			break
		}
		hist = append(hist, [2]int{o - 1, x.Pick(2)})
	}
	run := func(scribble bool) string {
		b := newB(x, prov, 9)
		b.populate()
		var log []string

		for _, h := range hist {
			err, res := bOps[h[0]].run(b, []int{2, 17}[h[1]])
			x.Op()
			if bOps[h[0]].name == "CreateToken" || bOps[h[0]].name == "TokenFromString" {
				log = append(log, errName(err))
			} else {
				log = append(log, errName(err)+idErr(err)+b.norm(render(res)))
			}
			if scribble {
				b.scribble()
				spoil(res)
			} else {
				b.check(bOps[h[0]].name)
			}
		}
		return strings.Join(log, ";") + " / " + b.observe()
	}
	a := run(false)
	c := run(true)
	var names []string
	for _, h := range hist {
		names = append(names, bOps[h[0]].name)
	}
	x.Logf("%s", strings.Join(names, ", "))
	x.State(a)
	if a != c {
		x.Failf("history", "overwriting arguments and results changes what the history [%s] returns and leaves:\n%s\n%s", strings.Join(names, ", "), a, c)
	}
}

// ---- keys ---------------------------------------------------------------------------

// sharingKeys returns the same slices on every call.
type sharingKeys struct{ k key.Keys }

func (s *sharingKeys) GetKeys(context.Context) (key.Keys, error) { return s.k, nil }

func b01Keys(x *X) {
	spare := []int{0, 1, 32, 136, 300}[x.Pick(5)]
	what := x.Pick(4)
	early := x.Bool() // overwrite before the first use
	b := newB(x, "ref", spare)
	b.populate()
	want := b.observe()
	use := func() {
		b.check("keys, while the instance is used")
		if g := b.observe(); g != want {
			x.Failf("keys", "an instance whose caller overwrote the keys after construction reads %s instead of %s", g, want)
		}
	}
	k := testKeys()
	kp := &sharingKeys{key.Keys{KEK: b.bytes("Keys.KEK", k.KEK), AEK: b.bytes("Keys.AEK", k.AEK), TEK: b.bytes("Keys.TEK", k.TEK), IEK: b.bytes("Keys.IEK", k.IEK)}}
	switch what {
	case 0:
		d, err := d1.New(b.ctx, kp, b.p, b.idp)
		b.must(err)
		b.check("d1.New")
		if early {
			b.scribble()
		}
		b.d = &d
		use()
		b.scribble()
		use()
		o, err := d.Encrypt(b.ctx, "t:owner", obj("later", "meta"), "grp")
		b.must(err)
		t, err := d.CreateToken(b.ctx, []byte("later"))
		b.must(err)
		b.d = b.w.Instance(b.p)
		w2 := key.NewStatic(testKeys())
		d2, err := d1.New(b.ctx, &w2, b.p, b.idp)
		b.must(err)
		if r, err := d2.Decrypt(b.ctx, "t:owner", o); err != nil || string(r.Plaintext) != "later" {
			x.Failf("keys-written", "an object written after the keys were overwritten cannot be read with the original keys: %v", err)
		}
		if r, err := d2.GetTokenContents(b.ctx, &t); err != nil || string(r) != "later" {
			x.Failf("keys-written", "a token made after the keys were overwritten cannot be read with the original keys: %v", err)
		}
	case 1:
		ix, err := index.NewSecureIndex(b.ctx, kp, b.p, b.idp)
		b.must(err)
		b.check("index.NewSecureIndex")
		if early {
			b.scribble()
		}
		b.ix = &ix
		use()
		b.scribble()
		use()
		b.must(ix.Add(b.ctx, "t:owner", "kx", "later"))
		w2 := key.NewStatic(testKeys())
		ix2, err := index.NewSecureIndex(b.ctx, &w2, b.p, b.idp)
		b.must(err)
		if l, err := ix2.Search(b.ctx, "t:owner", "kx"); err != nil || len(l) != 1 || l[0] != "later" {
			x.Failf("keys-written", "an entry added after the keys were overwritten is not found with the original keys: %q %v", l, err)
		}
	case 2:
		c := saConfig()
		cfg := id.StandaloneConfig{UEK: b.bytes("UEK", c.UEK), GEK: b.bytes("GEK", c.GEK), TEK: b.bytes("TEK", c.TEK)}
		sa, err := id.NewStandalone(cfg, b.p)
		b.must(err)
		b.check("id.NewStandalone")
		if early {
			b.scribble()
		}
		old := b.sa
		b.sa = &sa
		use()
		b.scribble()
		use()
		u, pw, err := sa.NewUser(b.ctx)
		b.must(err)
		t, _, err := old.LoginUser(b.ctx, u, pw)
		if err != nil {
			x.Failf("keys-written", "a user created after the keys were overwritten cannot log in with the original keys: %v", err)
		}
		if _, err := sa.GetIdentity(b.ctx, t); err != nil {
			x.Failf("keys-written", "a token of the original keys is not accepted: %v", err)
		}
	case 3: // the bundled key provider: its creator's and its callers' copies
		st := key.NewStatic(kp.k)
		b.check("key.NewStatic")
		if early {
			b.scribble()
		}
		got, err := st.GetKeys(b.ctx)
		b.must(err)
		same := func(when string) {
			g, err := st.GetKeys(b.ctx)
			if err != nil || !bytes.Equal(g.KEK, k.KEK) || !bytes.Equal(g.AEK, k.AEK) || !bytes.Equal(g.TEK, k.TEK) || !bytes.Equal(g.IEK, k.IEK) {
				x.Failf("keys-static", "%s, the bundled key provider returns other keys (%v)", when, err)
			}
			flip(g.KEK)
			flip(g.AEK)
			flip(g.TEK)
			flip(g.IEK)
		}
		same("at first")
		for _, v := range [][]byte{got.KEK, got.AEK, got.TEK, got.IEK} {
			flip(v)
		}
		same("after a caller overwrote the keys it got")
		b.scribble()
		same("after its creator overwrote the keys")
		d, err := d1.New(b.ctx, &st, b.p, b.idp)
		b.must(err)
		b.d = &d
		use()
		same("after a D1 instance was created")
		st2 := key.NewStatic(key.Keys{}) // lengths are preserved, absent ones too
		if g, err := st2.GetKeys(b.ctx); err != nil || len(g.KEK)+len(g.AEK)+len(g.TEK)+len(g.IEK) != 0 {
			x.Failf("keys-static", "empty keys came back as %v, %v", g, err)
		}
	}
	x.Op()
	x.State(spare, what, early)
}

// ---- package crypto --------------------------------------------------------------------

func b01Crypto(x *X) {
	spare := []int{0, 1, 16, 32, 64, 300}[x.Pick(6)]
	n := []int{0, 1, 15, 16, 31, 32, 33, 135, 136, 137, 600, 4081, 5000, 20000, 70000}[x.Pick(15)]
	if n > 200 && spare != 0 && spare != 16 {
		return
	}
	b := &bufs{x: x, spare: spare}
	in := func(name string, start byte) []byte { return b.bytes(name, seq(n, start)) }
	fail := func(err error) {
		if err != nil {
			x.Failf("crypto-setup", "%v", err)
		}
	}
	what := x.Pick(9)
	if n > 8000 && (what == 1 || what == 2) { // more than a key-wrapping provider has to take
		return
	}
	switch what {
	case 0: // Cryptor
		kek := b.bytes("KEK", seq(32, 9))
		c, err := crypto.NewAESCryptor(kek)
		fail(err)
		pt, ad := in("plaintext", 3), in("data", 4)
		wk, ct, err := c.Encrypt(pt, ad)
		fail(err)
		b.check("Cryptor.Encrypt")
		adc := bytes.Clone(ad)
		b.scribble()
		wk2, ct2, err := c.Encrypt(seq(n, 30), seq(n, 31))
		fail(err)
		cw, cc := bytes.Clone(wk), bytes.Clone(ct)
		flip(wk2)
		flip(ct2)
		if !bytes.Equal(wk, cw) || !bytes.Equal(ct, cc) {
			x.Failf("crypto-shared", "two results of Cryptor.Encrypt share memory")
		}
		twk, tct, tad := b.bytes("wrappedKey", wk), b.bytes("ciphertext", ct), b.bytes("data", adc)
		var out, out2 []byte
		for i := 0; i < 2; i++ {
			if err := c.Decrypt(&out, tad, twk, tct); err != nil || !bytes.Equal(out, seq(n, 3)) {
				x.Failf("crypto-retained", "decryption %d after overwriting the caller's buffers: %v %x", i, err, out)
			}
			b.check("Cryptor.Decrypt")
		}
		fail(c.Decrypt(&out2, tad, twk, tct))
		flip(out2)
		if !bytes.Equal(out, seq(n, 3)) {
			x.Failf("crypto-shared", "two results of Cryptor.Decrypt share memory")
		}
		twk[0] ^= 1
		b.forget()
		b.track("wrappedKey", twk)
		b.track("ciphertext", tct)
		if err := c.Decrypt(&out2, tad, twk, tct); err == nil {
			x.Failf("crypto", "a damaged wrapped key was accepted")
		}
		b.check("failing Cryptor.Decrypt")
		b.scribble()
		if !bytes.Equal(out, seq(n, 3)) {
			x.Failf("crypto-shared", "the result of Cryptor.Decrypt shares memory with its arguments")
		}
	case 1, 2: // KWP
		kwp, err := crypto.NewKWP(b.bytes("wrapping key", seq([]int{16, 32}[n%2], 9)))
		fail(err)
		d := b.bytes("key", seq(n+16, 5))
		wr, err := kwp.Wrap(d)
		fail(err)
		b.check("KWP.Wrap")
		keep := bytes.Clone(wr)
		b.scribble()
		if !bytes.Equal(wr, keep) {
			x.Failf("crypto-shared", "the result of Wrap shares memory with its argument")
		}
		wr2, err := kwp.Wrap(seq(n+16, 5))
		fail(err)
		if !bytes.Equal(wr2, keep) {
			x.Failf("crypto-retained", "Wrap gives another result after the caller overwrote its buffers")
		}
		flip(wr2)
		if !bytes.Equal(wr, keep) {
			x.Failf("crypto-shared", "two results of Wrap share memory")
		}
		tw := b.bytes("wrapped key", wr)
		if what == 2 {
			tw[n%len(tw)] ^= 4
			b.forget()
			b.track("wrapped key", tw)
		}
		u, err := kwp.Unwrap(tw)
		b.check("KWP.Unwrap")
		if what == 1 {
			if err != nil || !bytes.Equal(u, seq(n+16, 5)) {
				x.Failf("crypto", "Unwrap: %v", err)
			}
			u2, _ := kwp.Unwrap(tw)
			b.scribble()
			flip(u2)
			if !bytes.Equal(u, seq(n+16, 5)) {
				x.Failf("crypto-shared", "the result of Unwrap shares memory")
			}
		}
	case 3, 4: // KMAC
		nw := crypto.NewKMAC256
		if what == 4 {
			nw = crypto.NewKMAC128
		}
		k, cs := b.bytes("key", seq(n+32, 5)), in("customization string", 6)
		h := nw(k, 32, cs)
		b.check("NewKMAC")
		msg := in("message", 7)
		h.Write(msg)
		b.check("KMAC.Write")
		b.scribble()
		s1 := h.Sum(nil)
		keep := bytes.Clone(s1)
		s2 := h.Sum(nil)
		if !bytes.Equal(s1, s2) {
			x.Failf("crypto-retained", "KMAC.Sum changes the state")
		}
		flip(s2)
		h.Reset()
		h.Write(seq(n, 7))
		s3 := h.Sum(nil)
		if !bytes.Equal(s1, keep) || !bytes.Equal(s3, keep) {
			x.Failf("crypto-retained", "KMAC after its arguments were overwritten and reset: %x, %x, %x", keep, s1, s3)
		}
		ref := nw(seq(n+32, 5), 32, seq(n, 6))
		ref.Write(seq(n, 7))
		if !bytes.Equal(ref.Sum(nil), keep) {
			x.Failf("crypto-retained", "overwriting the arguments of NewKMAC changed its result")
		}
		in1 := b.bytes("in", seq(4, 8))
		o := h.Sum(in1[:4:4])
		if !bytes.Equal(o[:4], seq(4, 8)) {
			x.Failf("crypto-sum", "Sum did not append")
		}
		b.check("KMAC.Sum")
	case 5: // KDF
		cs := [][]byte{in("context", 5), in("context", 6), in("context", 8)}
		cs2 := [][]byte{cs[0], cs[1], cs[2]}
		kik := b.bytes("kik", seq(n+32, 1))
		r := crypto.KMACKDF(32, kik, in("label", 2), cs[:2]...)
		b.check("KMACKDF")
		for i := range cs {
			if n > 0 && &cs[i][0] != &cs2[i][0] {
				x.Failf("crypto", "KMACKDF changed the list of contexts")
			}
		}
		b.scribble()
		if !bytes.Equal(r, crypto.KMACKDF(32, seq(n+32, 1), seq(n, 2), seq(n, 5), seq(n, 6))) {
			x.Failf("crypto-shared", "the result of KMACKDF depends on later changes of its arguments")
		}
	case 6: // Tagger
		k := b.bytes("key", seq(32, 5))
		t, err := crypto.NewKMAC256Tagger(k)
		fail(err)
		d := in("data", 6)
		t1, err := t.Tag(d)
		fail(err)
		b.check("Tagger.Tag")
		b.scribble()
		keep := bytes.Clone(t1)
		t2, err := t.Tag(seq(n, 6))
		fail(err)
		if !bytes.Equal(t2, keep) {
			x.Failf("crypto-retained", "the tagger gives another tag after the caller overwrote the key")
		}
		flip(t2)
		if !bytes.Equal(t1, keep) {
			x.Failf("crypto-shared", "two tags share memory")
		}
	case 7: // password hasher
		h := crypto.NewPasswordHasher()
		pw, sh, err := h.GeneratePassword()
		fail(err)
		pw2, sh2, err := h.GeneratePassword()
		fail(err)
		flip(sh2)
		_ = pw2
		t := b.bytes("saltAndHash", sh)
		for i := 0; i < 2; i++ {
			if !h.Compare(pw, t) {
				x.Failf("crypto", "a generated password does not match its hash")
			}
			b.check("PasswordHasher.Compare")
		}
		if h.Compare(pw+"x", t) {
			x.Failf("crypto", "a wrong password matches")
		}
		b.check("PasswordHasher.Compare")
	case 8: // AES256GCM may work in place on its first argument only; random bytes
		a := crypto.AES256GCM{Random: &crypto.NativeRandom{}}
		ad, k := in("aad", 2), b.bytes("key", seq(32, 3))
		ct, err := a.Encrypt(seq(n, 1), ad, k)
		fail(err)
		b.check("AES256GCM.Encrypt")
		pt, err := a.Decrypt(bytes.Clone(ct), ad, k)
		if err != nil || !bytes.Equal(pt, seq(n, 1)) {
			x.Failf("crypto", "AES256GCM round trip: %v", err)
		}
		b.check("AES256GCM.Decrypt")
		b.scribble()
		if !bytes.Equal(pt, seq(n, 1)) {
			x.Failf("crypto-shared", "a plaintext shares memory with the additional data or the key")
		}
		var rnd crypto.NativeRandom
		r1, err := rnd.GetBytes(uint(n))
		fail(err)
		keep := bytes.Clone(r1)
		r2, err := rnd.GetBytes(uint(n))
		fail(err)
		flip(r2)
		if !bytes.Equal(r1, keep) || len(r1) != n {
			x.Failf("crypto-shared", "two results of GetBytes share memory")
		}
	}
	x.Op()
	x.State(what, n, spare)
}

// ---- storage providers -------------------------------------------------------------------

func b01Providers(x *X) {
	kind := []string{"mem", "bolt", "proxy"}[x.Pick(3)]
	spare := []int{0, 1, 2, 16, 100}[x.Pick(5)]
	idn := []int{1, 16, 32}[x.Pick(3)]
	n := []int{0, 1, 100, 5000}[x.Pick(4)]
	two := x.Bool() // a second record whose ID continues in the first one's spare capacity
	b := &bufs{x: x, spare: spare}
	var p io.Provider
	if kind == "proxy" {
		m := io.NewMem()
		px := io.NewProxy(&m)
		p = &px
	} else {
		p = makeProvider(x, kind)
	}
	ctx := baseCtx()
	must := func(op string, err error) {
		if err != nil {
			x.Failf("provider-"+op, "%s: %v", op, err)
		}
		b.check(kind + " " + op)
		x.Op()
	}
	other := seq(idn, 99)
	if two {
		must("put", p.Put(ctx, other, io.DataTypeSealedAccess, []byte("other")))
	}
	get := func(id []byte, want []byte, when string) {
		g, err := p.Get(ctx, id, io.DataTypeSealedObject)
		if err != nil || !bytes.Equal(g, want) {
			x.Failf("provider-retained", "%s provider, %s: %v, %d bytes %x", kind, when, err, len(g), clipB(g))
		}
		flip(g)
		if two {
			g, err := p.Get(ctx, other, io.DataTypeSealedAccess)
			if err != nil || string(g) != "other" {
				x.Failf("provider-other", "%s provider, %s: the other record: %v %x", kind, when, err, clipB(g))
			}
			flip(g)
		}
	}
	k := b.bytes("id", seq(idn, 1))
	must("put", p.Put(ctx, k, io.DataTypeSealedObject, b.bytes("data", seq(n, 2))))
	g1, err := p.Get(ctx, k, io.DataTypeSealedObject)
	must("get", err)
	keep := bytes.Clone(g1)
	b.scribble()
	if !bytes.Equal(g1, keep) {
		x.Failf("provider-shared", "%s provider: overwriting the data passed to Put changed a result of Get", kind)
	}
	get(seq(idn, 1), seq(n, 2), "after overwriting what was passed to Put and Get")
	get(seq(idn, 1), seq(n, 2), "after overwriting the result of Get up to its capacity")
	if err := p.Put(ctx, b.bytes("id", seq(idn, 1)), io.DataTypeSealedObject, b.bytes("data", seq(n, 3))); err == nil {
		x.Failf("provider-put", "%s provider: a second Put succeeded", kind)
	}
	b.check(kind + " failing put")
	b.scribble()
	get(seq(idn, 1), seq(n, 2), "after a failed Put")
	must("update", p.Update(ctx, b.bytes("id", seq(idn, 1)), io.DataTypeSealedObject, b.bytes("data", seq(n+1, 4))))
	if !bytes.Equal(g1, keep) {
		x.Failf("provider-shared", "%s provider: Update changed an earlier result of Get", kind)
	}
	b.scribble()
	get(seq(idn, 1), seq(n+1, 4), "after overwriting what was passed to Update")
	get(seq(idn, 1), seq(n+1, 4), "after overwriting the result of Get up to its capacity")
	must("update", p.Update(ctx, seq(idn, 1), io.DataTypeSealedObject, seq(n, 5)))
	get(seq(idn, 1), seq(n, 5), "after a shorter Update")
	must("delete", p.Delete(ctx, b.bytes("id", seq(idn, 1)), io.DataTypeSealedObject))
	if !bytes.Equal(g1, keep) {
		x.Failf("provider-shared", "%s provider: Delete changed an earlier result of Get", kind)
	}
	if _, err := p.Get(ctx, b.bytes("id", seq(idn, 1)), io.DataTypeSealedObject); err == nil {
		x.Failf("provider-delete", "deleted record found")
	}
	b.check(kind + " failing get")
	if err := p.Update(ctx, b.bytes("id", seq(idn, 1)), io.DataTypeSealedObject, b.bytes("data", seq(n, 3))); err == nil {
		x.Failf("provider-update", "%s provider: Update of a deleted record succeeded", kind)
	}
	b.check(kind + " failing update")
	for t := io.DataType(0); t < 6; t++ {
		v := t.Bytes()
		c := bytes.Clone(v)
		flip(v)
		if !bytes.Equal(t.Bytes(), c) {
			x.Failf("datatype", "DataType.Bytes returns shared memory")
		}
	}
	x.State(kind, spare, idn, n, two)
}

func clipB(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

// ---- identities and plain values ---------------------------------------------------------

func b01Values(x *X) {
	spare := []int{0, 1, 8, 64}[x.Pick(4)]
	n := []int{0, 1, 2, 3, 20, 300, 5000}[x.Pick(7)]
	what := x.Pick(6)
	if n > 3 && what < 3 {
		return
	}
	b := &bufs{x: x, spare: spare}
	switch what {
	case 0: // Identity
		gs := map[string]id.AccessGroup{}
		for i := 0; i < n; i++ {
			gs[fmt.Sprint("g", i)] = id.AccessGroup{ID: fmt.Sprint("g", i), Scopes: id.Scope(1 << i)}
		}
		i := id.Identity{ID: "me", Scopes: id.ScopeEncrypt, Groups: b.groups("Identity.Groups", gs)}
		m := i.GetIDs()
		b.check("Identity.GetIDs")
		want := setOf(m)
		spoil([]any{m})
		b.check("overwriting the result of Identity.GetIDs")
		if g := setOf(i.GetIDs()); g != want {
			x.Failf("identity", "overwriting the result of GetIDs changed it from %s to %s", want, g)
		}
		i.GetIDScope("g0")
		i.GetIDScope("none")
		i.GetIDScope("me")
		b.check("Identity.GetIDScope")
		if i.ID != "me" || i.Scopes != id.ScopeEncrypt {
			x.Failf("identity", "the identity changed")
		}
	case 1: // ScopeUnion
		s := b.scopes("scopes", []id.Scope{id.ScopeEncrypt, id.ScopeDecrypt, id.ScopeIndex}[:n]...)
		u := id.ScopeUnion(s...)
		b.check("ScopeUnion")
		_ = u.Contains(id.ScopeEncrypt)
		_ = u.String()
	case 2: // Access
		a := data.NewAccess(b.bytes("wrappedDEK", seq(8*n, 1)))
		gs := b.strs("groups", []string{"a", "b", "c"}[:n]...)
		a.AddGroups(gs...)
		a.ContainsGroups(gs...)
		c, err := crypto.NewAESCryptor(seq(32, 1))
		if err != nil {
			x.Failf("setup", "%v", err)
		}
		sealed, err := a.Seal(uuid.UUID{1}, &c)
		if err != nil {
			x.Failf("setup", "%v", err)
		}
		b.check("Access.Seal")
		b.track("SealedAccess.Ciphertext", sealed.Ciphertext)
		b.track("SealedAccess.WrappedKey", sealed.WrappedKey)
		u, err := sealed.Unseal(&c)
		if err != nil {
			x.Failf("setup", "%v", err)
		}
		b.check("SealedAccess.Unseal")
		u.Groups["new"] = struct{}{}
		u.RemoveGroups(gs...)
		flip(u.WrappedDEK)
		b.check("changing an unsealed access")
		u2, err := sealed.Unseal(&c)
		if err != nil || setOf(u2.Groups) != setOf(a.Groups) || !bytes.Equal(u2.WrappedDEK, a.WrappedDEK) {
			x.Failf("access", "changing an unsealed access list changed what is unsealed next: %v", err)
		}
	case 3: // Object
		o := data.Object{Plaintext: b.bytes("Plaintext", seq(n*15, 1)), AssociatedData: b.bytes("AssociatedData", seq(n*16, 2))}
		c, err := crypto.NewAESCryptor(seq(32, 1))
		if err != nil {
			x.Failf("setup", "%v", err)
		}
		wk, so, err := o.Seal(uuid.UUID{1}, &c)
		if err != nil {
			x.Failf("setup", "%v", err)
		}
		b.check("Object.Seal")
		b.track("SealedObject.Ciphertext", so.Ciphertext)
		b.track("wrappedKey", wk)
		p, err := so.Unseal(wk, &c)
		if err != nil || !bytes.Equal(p.Plaintext, seq(n*15, 1)) {
			x.Failf("object", "unseal: %v", err)
		}
		b.check("SealedObject.Unseal")
		flip(p.Plaintext)
		b.check("overwriting an unsealed plaintext")
	case 4: // Node
		c, err := crypto.NewAESCryptor(seq(32, 1))
		if err != nil {
			x.Failf("setup", "%v", err)
		}
		t, err := crypto.NewKMAC256Tagger(seq(32, 2))
		if err != nil {
			x.Failf("setup", "%v", err)
		}
		nd := data.Node{Identifier: "i", NextCounter: uint64(n)}
		lb := b.bytes("label", seq(32, 3))
		sn, err := nd.Seal(lb, &c)
		if err != nil {
			x.Failf("setup", "%v", err)
		}
		b.check("Node.Seal")
		b.track("SealedNode.Ciphertext", sn.Ciphertext)
		b.track("SealedNode.WrappedKey", sn.WrappedKey)
		n2, err := sn.Unseal(lb, &c)
		if err != nil || n2.Identifier != "i" {
			x.Failf("node", "unseal: %v", err)
		}
		b.check("SealedNode.Unseal")
		l1, err := nd.NextLabel(&t)
		if err != nil {
			x.Failf("setup", "%v", err)
		}
		keep := bytes.Clone(l1)
		l2, _ := nd.NextLabel(&t)
		flip(l2)
		if !bytes.Equal(l1, keep) {
			x.Failf("node", "two labels share memory")
		}
	case 5: // Token
		tk := data.NewToken(b.bytes("Plaintext", seq(n*20, 1)), data.TokenValidity)
		c, err := crypto.NewAESCryptor(seq(32, 1))
		if err != nil {
			x.Failf("setup", "%v", err)
		}
		s, err := tk.Seal(&c)
		if err != nil {
			x.Failf("setup", "%v", err)
		}
		b.check("Token.Seal")
		b.scribble()
		b.track("SealedToken.Ciphertext", s.Ciphertext)
		b.track("SealedToken.WrappedKey", s.WrappedKey)
		u, err := s.Unseal(&c)
		if err != nil || !bytes.Equal(u.Plaintext, seq(n*20, 1)) {
			x.Failf("token", "unseal: %v", err)
		}
		flip(u.Plaintext)
		b.check("overwriting an unsealed token")
		str, _ := s.String()
		raw, _ := base64.RawURLEncoding.DecodeString(str)
		_ = raw
		b.check("SealedToken.String")
	}
	x.Op()
	x.State(spare, n, what)
}
