package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"
	_ "time/tzdata"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/key"
	"verif.local/shim/vsched"
)

func init() {
	register(&Prop{
		ID: "T01", Level: "model_checking",
		Rule: "Under a virtual clock: all combinations of creation instant, local time zones at creation, serialisation and parsing, number of round trips, kind of token and instant of opening; all histories up to the depth of creating, logging in, advancing the clock and opening; every bit of every token field, " +
			"every single-character edit and prefix of the string form, exchanges of fields between tokens, foreign keys and malformed documents. Distinct = distinct (instant, zones, age) cases or edits.",
		Assume: []string{"zone offsets are whole minutes, as all current ones are"},
		Scenarios: func(th bool) []*Scenario {
			d := 6
			if th {
				d = 8
			}
			return []*Scenario{
				{Name: "lifetime", Body: func(x *X) { t01Lifetime(x, th) }, Shard: 2},
				{Name: "periods", Body: t01Periods},
				{Name: "history", Body: func(x *X) { t01History(x, d) }, Shard: 2},
				{Name: "logins", Body: func(x *X) { t01Logins(x, d-1) }, Shard: 2},
				{Name: "real-clock", Body: t01Real, Solo: true},
				{Name: "bits", Body: t01Bits},
				{Name: "chars", Body: t01Chars},
				{Name: "fields", Body: t01Fields},
				{Name: "junk", Body: t01Junk},
			}
		},
	})
}

// virtualTime reports whether the code under test reads the virtual clock.
func virtualTime(x *X) bool {
	ref := time.Date(2031, 5, 6, 7, 8, 9, 0, time.UTC)
	vsched.SetClock(ref)
	defer vsched.SetClock(time.Time{})
	t := data.NewToken(nil, time.Hour)
	d := t.ExpiryTime.Sub(ref)
	return d > -100*24*time.Hour && d < 100*24*time.Hour
}

func setClock(x *X, t time.Time) {
	vsched.SetClock(t.In(time.Local))
}

func zone(name string) *time.Location {
	l, err := time.LoadLocation(name)
	if err != nil {
		panic(err)
	}
	return l
}

var t01Zones = []func() *time.Location{
	func() *time.Location { return time.UTC },
	func() *time.Location { return zone("Europe/Copenhagen") },
	func() *time.Location { return zone("America/New_York") },
	func() *time.Location { return zone("Asia/Kathmandu") },
	func() *time.Location { return zone("Pacific/Kiritimati") },
	func() *time.Location { return time.FixedZone("", -12*3600) },
	func() *time.Location { return time.FixedZone("odd", -(9*3600 + 30*60)) },
}

var t01Instants = []time.Time{
	time.Date(2024, 6, 15, 12, 0, 0, 0, time.UTC),
	time.Date(2024, 6, 15, 12, 0, 0, 123456789, time.UTC),
	time.Date(2024, 6, 15, 12, 0, 0, 999999999, time.UTC),
	time.Date(2024, 6, 15, 12, 0, 0, 100, time.UTC),
	time.Date(2024, 12, 31, 23, 30, 0, 1, time.UTC),         // year end
	time.Date(2024, 3, 31, 0, 30, 0, 500000000, time.UTC),   // expiry after the change to summer time
	time.Date(2024, 10, 27, 0, 30, 0, 5000, time.UTC),       // expiry in the repeated hour
	time.Date(2024, 11, 3, 5, 59, 59, 999999999, time.UTC),  // the same in New York
	time.Date(2024, 2, 28, 23, 59, 59, 999999999, time.UTC), // leap day
	time.Date(1969, 12, 31, 23, 30, 0, 0, time.UTC),         // around the epoch
	time.Date(2262, 4, 11, 23, 47, 16, 854775807, time.UTC), // last int64 of nanoseconds
	time.Date(9999, 12, 30, 10, 0, 0, 999000000, time.UTC),  // last year of the text form
}

func setZone(i int) { time.Local = t01Zones[i]() }

// round trips a sealed token through its string form.
func trip(x *X, t data.SealedToken, reZone int) data.SealedToken {
	s, err := t.String()
	if err != nil {
		x.Failf("string", "a token cannot be serialised: %v", err)
	}
	if reZone >= 0 {
		setZone(reZone)
	}
	p, err := data.TokenFromString(s)
	if err != nil {
		x.Failf("parse", "the string form of a token cannot be parsed: %v", err)
	}
	if !p.ExpiryTime.Equal(t.ExpiryTime) {
		x.Failf("expiry-shift", "the expiry %v reads as %v after serialisation", t.ExpiryTime, p.ExpiryTime)
	}
	return p
}

func t01Lifetime(x *X, th bool) {
	if !virtualTime(x) {
		x.Logf("no virtual time")
		return
	}
	kind := x.Pick(2) // 0: D1 token, 1: login token
	at := t01Instants[x.Pick(len(t01Instants))]
	z0 := x.Pick(len(t01Zones))
	z1, z2 := z0, z0
	trips := x.Pick(3)
	if trips > 0 {
		z1 = x.Pick(len(t01Zones))
	}
	if trips > 1 {
		z2 = 1
		if th {
			z2 = x.Pick(len(t01Zones))
		}
	}
	pt := [][]byte{[]byte("contents \x00\xff"), {}, pattern(3, 300)}[(z0+z1)%3]
	w := NewWorld(x)
	setZone(z0)
	setClock(x, at)
	x.Op()
	expiry := at.Add(time.Hour)
	valid := map[bool]string{true: "refused", false: "accepted"}
	ages := []time.Duration{-24 * time.Hour, -time.Minute, -time.Second, -1, 0, 1, time.Second, 30 * time.Minute, time.Hour - time.Second, time.Hour - 1, time.Hour, time.Hour + 1, time.Hour + time.Microsecond, time.Hour + time.Second - time.Duration(at.Nanosecond()), 2 * time.Hour, 25 * time.Hour, 24 * 365 * time.Hour}
	switch kind {
	case 0:
		t, err := w.d.CreateToken(w.ctx, pt)
		if err != nil {
			x.Failf("create", "%v", err)
		}
		if !t.ExpiryTime.Equal(expiry) {
			x.Failf("advertised", "a token created at %v advertises the expiry %v", at, t.ExpiryTime)
		}
		if trips > 0 {
			t = trip(x, t, z1)
		}
		if trips > 1 {
			t = trip(x, t, z2)
		}
		for _, a := range ages {
			setClock(x, at.Add(a))
			before := t
			got, err := w.d.GetTokenContents(w.ctx, &t)
			x.Op()
			want := a <= time.Hour
			if (err == nil) != want {
				x.Failf("lifetime", "a token created at %v in zone %v, %d round trips, is %s at age %v: %v", at, time.Local, trips, valid[want], a, err)
			}
			if want && !bytes.Equal(got, pt) {
				x.Failf("contents", "a token yields %q instead of %q", got, pt)
			}
			if !want && len(got) != 0 {
				x.Failf("expired-contents", "an expired token yields contents")
			}
			if !t.ExpiryTime.Equal(before.ExpiryTime) || !bytes.Equal(t.Ciphertext, before.Ciphertext) || !bytes.Equal(t.WrappedKey, before.WrappedKey) {
				x.Failf("token-changed", "opening a token changed it")
			}
		}
	case 1:
		sa := w.Standalone(w.st)
		u, p, err := sa.NewUser(w.ctx, id.ScopeAll)
		if err != nil {
			x.Failf("setup", "%v", err)
		}
		s, adv, err := sa.LoginUser(w.ctx, u, p)
		if err != nil {
			x.Failf("login", "%v", err)
		}
		if adv != expiry.Unix() {
			x.Failf("advertised-login", "a login at %v advertises the expiry %d, want %d", at, adv, expiry.Unix())
		}
		if trips > 0 {
			t, err := data.TokenFromString(s)
			if err != nil {
				x.Failf("parse", "%v", err)
			}
			if !t.ExpiryTime.Equal(expiry) {
				x.Failf("advertised", "a login token created at %v has the expiry %v", at, t.ExpiryTime)
			}
			setZone(z1)
			if s, err = t.String(); err != nil {
				x.Failf("string", "%v", err)
			}
		}
		if trips > 1 {
			setZone(z2)
			t, err := data.TokenFromString(s)
			if err != nil {
				x.Failf("parse", "%v", err)
			}
			if s, err = t.String(); err != nil {
				x.Failf("string", "%v", err)
			}
		}
		for _, a := range ages {
			setClock(x, at.Add(a))
			got, err := sa.GetIdentity(w.ctx, s)
			x.Op()
			want := a <= time.Hour
			if (err == nil) != want {
				x.Failf("login-lifetime", "a login token created at %v in zone %v, %d round trips, is %s at age %v: %v", at, time.Local, trips, valid[want], a, err)
			}
			if want && got.ID != u || !want && (!errors.Is(err, id.ErrNotAuthenticated) || got.ID != "") {
				x.Failf("login-identity", "a login token yields %q, %v", got.ID, err)
			}
		}
	}
	x.State(kind, at, z0, z1, z2, trips)
	x.Out("%d %d", kind, trips)
}

func tokenCryptor(x *X, k []byte) crypto.CryptorInterface {
	c, err := crypto.NewAESCryptor(k)
	if err != nil {
		x.Failf("cryptor", "%v", err)
	}
	return &c
}

func t01Periods(x *X) {
	if !virtualTime(x) {
		return
	}
	ps := []time.Duration{0, 1, -1, time.Second, -time.Second, time.Minute, time.Hour, -time.Hour, 24 * time.Hour, 50 * 365 * 24 * time.Hour}
	p := ps[x.Pick(len(ps))]
	at := t01Instants[x.Pick(9)]
	setClock(x, at)
	c := tokenCryptor(x, testKeys().TEK)
	tok := data.NewToken([]byte("data"), p)
	if !tok.ExpiryTime.Equal(at.Add(p)) {
		x.Failf("period", "a token of period %v created at %v expires at %v", p, at, tok.ExpiryTime)
	}
	st, err := tok.Seal(c)
	if err != nil {
		x.Failf("seal", "%v", err)
	}
	x.Op()
	for _, d := range []time.Duration{-time.Second, -1, 0, 1, time.Second} {
		now := at.Add(p + d)
		if now.Before(at) {
			continue
		}
		setClock(x, now)
		got, err := st.Unseal(c)
		if (err == nil) != (d <= 0) {
			x.Failf("period-lifetime", "a token of period %v, %v after its expiry: %v", p, d, err)
		}
		if err == nil && (string(got.Plaintext) != "data" || !got.ExpiryTime.Equal(at.Add(p))) {
			x.Failf("period-contents", "%q %v", got.Plaintext, got.ExpiryTime)
		}
	}
	x.State(p, at)
}

// Histories of creating tokens, advancing the clock, opening all of them, through two instances.
func t01History(x *X, depth int) {
	if !virtualTime(x) {
		return
	}
	w := NewWorld(x)
	ds := []*d1.D1{w.d, w.Instance(w.st)}
	ks := testKeys()
	ks.TEK = seq(32, 200)
	kp := key.NewStatic(ks)
	foreign, err := d1.New(w.ctx, &kp, w.st, w.idp)
	if err != nil {
		x.Failf("new", "%v", err)
	}
	now := t01Instants[2]
	setClock(x, now)
	type tk struct {
		t  data.SealedToken
		s  string
		pt string
		at time.Time
	}
	var ts []tk
	steps := []time.Duration{1, time.Second, 30 * time.Minute, time.Hour, -10 * time.Minute}
	for i := 0; i < depth; i++ {
		c := x.Pick(2 + len(steps))
		x.Op()
		switch {
		case c == 0:
			pt := fmt.Sprintf("token %d", i)
			t, err := ds[i%2].CreateToken(w.ctx, []byte(pt))
			if err != nil {
				x.Failf("create", "%v", err)
			}
			s, err := t.String()
			if err != nil {
				x.Failf("string", "%v", err)
			}
			ts = append(ts, tk{t, s, pt, now})
		case c == 1:
			setZone((i + 3) % len(t01Zones))
			setClock(x, now)
		default:
			now = now.Add(steps[c-2])
			setClock(x, now)
		}
		for n := range ts {
			o := ts[n]
			// a clock set back before the creation promises nothing
			if now.Before(o.at) {
				continue
			}
			want := !now.After(o.at.Add(time.Hour))
			p, err := data.TokenFromString(o.s)
			if err != nil {
				x.Failf("parse", "%v", err)
			}
			for j, t := range []data.SealedToken{o.t, p} {
				got, err := ds[(i+j)%2].GetTokenContents(w.ctx, &t)
				if (err == nil) != want || want && string(got) != o.pt {
					x.Failf("history", "token %d of age %v: %q %v", n, now.Sub(o.at), got, err)
				}
				if _, err := foreign.GetTokenContents(w.ctx, &t); err == nil {
					x.Failf("foreign", "a token opens under another token key")
				}
			}
		}
		x.State(len(ts), now, c)
	}
	x.Out("%d tokens", len(ts))
}

// Histories of logins of two users through two instances, password changes and advancing the clock.
func t01Logins(x *X, depth int) {
	if !virtualTime(x) {
		return
	}
	w := NewWorld(x)
	sas := []*id.Standalone{w.Standalone(w.st), w.Standalone(w.st)}
	now := t01Instants[2]
	setClock(x, now)
	var us, ps [2]string
	for i := range us {
		var err error
		if us[i], ps[i], err = sas[0].NewUser(w.ctx, id.ScopeAll); err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	type tk struct {
		s  string
		u  int
		at time.Time
	}
	var ts []tk
	steps := []time.Duration{0, 1, 20 * time.Minute, time.Hour - 1, time.Hour}
	for i := 0; i < depth; i++ {
		c := x.Pick(3 + len(steps))
		x.Op()
		switch {
		case c < 2:
			s, adv, err := sas[i%2].LoginUser(w.ctx, us[c], ps[c])
			if err != nil {
				x.Failf("login", "%v", err)
			}
			if adv != now.Add(time.Hour).Unix() {
				x.Failf("advertised-login", "a login at %v advertises the expiry %d, want %d", now, adv, now.Add(time.Hour).Unix())
			}
			ts = append(ts, tk{s, c, now})
		case c == 2:
			p, err := sas[i%2].ChangeUserPassword(w.ctx, us[0], ps[0])
			if err != nil {
				x.Failf("password", "%v", err)
			}
			ps[0] = p
		default:
			now = now.Add(steps[c-3])
			setClock(x, now)
		}
		for n, o := range ts {
			want := !now.After(o.at.Add(time.Hour))
			for _, sa := range sas {
				got, err := sa.GetIdentity(w.ctx, o.s)
				if (err == nil) != want || want && got.ID != us[o.u] {
					x.Failf("login-history", "login token %d of age %v: %q %v", n, now.Sub(o.at), got.ID, err)
				}
			}
		}
		x.State(len(ts), now, c)
	}
	x.Out("%d logins", len(ts))
}

// With the real clock (and its monotonic reading).
func t01Real(x *X) {
	w := NewWorld(x)
	a := time.Now()
	t, err := w.d.CreateToken(w.ctx, []byte("real"))
	b := time.Now()
	x.Op()
	if err != nil {
		x.Failf("create", "%v", err)
	}
	if t.ExpiryTime.Before(a.Add(time.Hour)) || t.ExpiryTime.After(b.Add(time.Hour)) {
		x.Failf("advertised", "a token created between %v and %v expires at %v", a, b, t.ExpiryTime)
	}
	for i := 0; i < 3; i++ {
		got, err := w.d.GetTokenContents(w.ctx, &t)
		if err != nil || string(got) != "real" {
			x.Failf("real", "after %d round trips: %q %v", i, got, err)
		}
		t = trip(x, t, i)
	}
	x.State("real")
}

// t01Token makes a token of the given contents at a fixed instant.
func t01Token(x *X, w *World, pt string) data.SealedToken {
	t, err := w.d.CreateToken(w.ctx, []byte(pt))
	if err != nil {
		x.Failf("create", "%v", err)
	}
	return t
}

// judge opens a possibly altered token: it may only yield what was sealed, and only until the sealed expiry.
func judge(x *X, w *World, t data.SealedToken, orig data.SealedToken, pt string, what string) {
	x.Op()
	var got []byte
	var err error
	x.Guard("open", func() { got, err = w.d.GetTokenContents(w.ctx, &t) })
	if err != nil {
		if len(got) != 0 {
			x.Failf("contents-with-error", "%s: an error together with contents", what)
		}
		return
	}
	same := bytes.Equal(t.WrappedKey, orig.WrappedKey) && bytes.Equal(t.Ciphertext, orig.Ciphertext) && t.ExpiryTime.Equal(orig.ExpiryTime)
	if !same {
		x.Failf("altered-accepted", "a token was accepted after: %s", what)
	}
	if string(got) != pt {
		x.Failf("altered-contents", "%s: the token yields %q", what, got)
	}
}

func t01Bits(x *X) {
	field := x.Pick(2)
	pt := []string{"", "the contents"}[x.Pick(2)]
	w := NewWorld(x)
	t := t01Token(x, w, pt)
	orig := t
	n := len(t.WrappedKey)
	if field == 1 {
		n = len(t.Ciphertext)
	}
	i := x.Pick(n + 1)
	get := func(t *data.SealedToken) *[]byte {
		if field == 0 {
			return &t.WrappedKey
		}
		return &t.Ciphertext
	}
	if i == n { // lengths
		for l := 0; l < n; l++ {
			c := t
			*get(&c) = bytes.Clone(*get(&t))[:l]
			judge(x, w, c, orig, pt, fmt.Sprintf("field %d cut to %d", field, l))
			*get(&c) = bytes.Clone(*get(&t))[n-l:]
			judge(x, w, c, orig, pt, fmt.Sprintf("field %d reduced to its last %d bytes", field, l))
		}
		for l := 1; l < 40; l++ {
			c := t
			*get(&c) = append(bytes.Clone(*get(&t)), make([]byte, l)...)
			judge(x, w, c, orig, pt, fmt.Sprintf("field %d extended by %d", field, l))
		}
		c := t
		*get(&c) = nil
		judge(x, w, c, orig, pt, "field removed")
		return
	}
	for b := 0; b < 8; b++ {
		c := t
		*get(&c) = bytes.Clone(*get(&t))
		(*get(&c))[i] ^= 1 << b
		judge(x, w, c, orig, pt, fmt.Sprintf("bit %d of field %d flipped", 8*i+b, field))
		x.State(field, pt, i, b)
	}
	for b := 0; b < 256; b++ {
		c := t
		*get(&c) = bytes.Clone(*get(&t))
		(*get(&c))[i] = byte(b)
		judge(x, w, c, orig, pt, fmt.Sprintf("byte %d of field %d set to %d", i, field, b))
	}
}

func t01Chars(x *X) {
	w := NewWorld(x)
	t := t01Token(x, w, "contents")
	s, err := t.String()
	if err != nil {
		x.Failf("string", "%v", err)
	}
	const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_+/=. \x00\n"
	chunk := x.Pick(40)
	try := func(v, what string) {
		x.Op()
		var p data.SealedToken
		var err error
		x.Guard("parse", func() { p, err = data.TokenFromString(v) })
		if err == nil {
			judge(x, w, p, t, "contents", what)
		}
	}
	for i := chunk; i < len(s); i += 40 {
		for _, c := range alphabet {
			try(s[:i]+string(c)+s[i+1:], fmt.Sprintf("character %d of the string form set to %q", i, c))
		}
		try(s[:i]+s[i+1:], fmt.Sprintf("character %d removed", i))
		try(s[:i]+"A"+s[i:], fmt.Sprintf("character inserted at %d", i))
		try(s[:i], fmt.Sprintf("cut to %d characters", i))
		try(s[i:], fmt.Sprintf("first %d characters removed", i))
		try(s[:i]+"\n"+s[i:], fmt.Sprintf("line break at %d", i))
		if i+4 < len(s) {
			try(s[:i]+s[i+1:i+2]+s[i:i+1]+s[i+2:], fmt.Sprintf("characters %d and %d exchanged", i, i+1))
		}
	}
	if chunk == 0 {
		try(s+s, "doubled")
		try(s+"A", "extended")
		try(s+"=", "padded")
		try("", "emptied")
		// the document, byte by byte
		doc, _ := base64.RawURLEncoding.DecodeString(s)
		for i := range doc {
			for b := 0; b < 256; b++ {
				d := bytes.Clone(doc)
				d[i] = byte(b)
				try(base64.RawURLEncoding.EncodeToString(d), fmt.Sprintf("byte %d of the document set to %d", i, b))
			}
			x.State("doc", i)
		}
	}
	x.State("chars", chunk)
}

func t01Fields(x *X) {
	w := NewWorld(x)
	virt := virtualTime(x)
	if virt {
		setClock(x, t01Instants[1])
	}
	a := t01Token(x, w, "contents a")
	if virt {
		setClock(x, t01Instants[1].Add(time.Minute))
	}
	b := t01Token(x, w, "contents b")
	if virt {
		setClock(x, t01Instants[1].Add(2*time.Minute))
	}
	ks := testKeys()
	ks.TEK = seq(32, 99)
	kp := key.NewStatic(ks)
	other, err := d1.New(w.ctx, &kp, w.st, w.idp)
	if err != nil {
		x.Failf("new", "%v", err)
	}
	c, err := other.CreateToken(w.ctx, []byte("contents c"))
	if err != nil {
		x.Failf("create", "%v", err)
	}
	ts := []data.SealedToken{a, b, c}
	i, j, k := x.Pick(3), x.Pick(3), x.Pick(3)
	m := data.SealedToken{ExpiryTime: ts[i].ExpiryTime, Ciphertext: ts[j].Ciphertext, WrappedKey: ts[k].WrappedKey}
	for n, in := range []*d1.D1{w.d, &other} {
		var got []byte
		var err error
		x.Guard("open", func() { got, err = in.GetTokenContents(w.ctx, &m) })
		x.Op()
		want := i == j && j == k && (n == 0 && i < 2 || n == 1 && i == 2)
		if (err == nil) != want {
			x.Failf("mixed", "a token with expiry, ciphertext and key of tokens %d, %d, %d under key %d: %q %v", i, j, k, n, got, err)
		}
	}
	// expiry changed
	deltas := []time.Duration{1, -1, 1000, -1000, time.Millisecond, time.Second, -time.Second, time.Minute, time.Hour, -time.Hour, 24 * time.Hour, 365 * 24 * time.Hour, 250 * 365 * 24 * time.Hour}
	for _, d := range deltas {
		t := a
		t.ExpiryTime = t.ExpiryTime.Add(d)
		judge(x, w, t, a, "contents a", fmt.Sprintf("expiry moved by %v", d))
		t.ExpiryTime = t.ExpiryTime.In(time.FixedZone("", 3600))
		judge(x, w, t, a, "contents a", fmt.Sprintf("expiry moved by %v and put in another zone", d))
		t.ExpiryTime = t.ExpiryTime.Add(time.Hour)
		judge(x, w, t, a, "contents a", "expiry moved")
	}
	// the same wall clock in other zones is another instant
	for _, off := range []int{-12, -1, 1, 14} {
		t := a
		e := a.ExpiryTime.UTC()
		t.ExpiryTime = time.Date(e.Year(), e.Month(), e.Day(), e.Hour(), e.Minute(), e.Second(), e.Nanosecond(), time.FixedZone("", off*3600))
		judge(x, w, t, a, "contents a", fmt.Sprintf("wall clock of the expiry moved to %+d h", off))
	}
	for _, e := range []time.Time{{}, time.Unix(0, 0), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(-1, 1, 1, 0, 0, 0, 0, time.UTC), time.Unix(1<<62, 0)} {
		t := a
		t.ExpiryTime = e
		judge(x, w, t, a, "contents a", fmt.Sprintf("expiry set to %v", e.Unix()))
		x.Guard("string", func() { t.String() })
	}
	// after the expiry nothing brings it back
	if virt {
		for _, z := range t01Zones {
			setClock(x, t01Instants[1].Add(3*time.Hour))
			t := a
			for _, d := range []time.Duration{time.Hour, 24 * time.Hour} {
				t.ExpiryTime = a.ExpiryTime.Add(d).In(z())
				if _, err := w.d.GetTokenContents(w.ctx, &t); err == nil {
					x.Failf("prolonged", "an expired token opens after its expiry field was moved by %v", d)
				}
				e := a.ExpiryTime.In(z())
				t.ExpiryTime = time.Date(e.Year(), e.Month(), e.Day()+1, e.Hour(), e.Minute(), e.Second(), e.Nanosecond(), z())
				if _, err := w.d.GetTokenContents(w.ctx, &t); err == nil {
					x.Failf("prolonged", "an expired token opens with a moved expiry")
				}
			}
		}
	}
	x.State(i, j, k)
}

func t01Junk(x *X) {
	w := NewWorld(x)
	sa := w.Standalone(w.st)
	t := t01Token(x, w, "contents")
	e, ct, wk := string(mustJSON(t.ExpiryTime)), string(mustJSON(t.Ciphertext)), string(mustJSON(t.WrappedKey))
	vals := [][]string{
		{e, `null`, `""`, `0`, `-1`, `1e400`, `{}`, `[]`, `true`, `"x"`, `"9999-12-31T23:59:59Z"`, `"2099-01-01T00:00:00+24:00"`, `"10000-01-01T00:00:00Z"`, `"2099-01-01"`, `"9223372036854775807"`, ``},
		{ct, `null`, `""`, `0`, `[1,2]`, `[300]`, `{}`, `"%%"`, `"QQ"`, `"QUJD"`, `[]`, ``},
		{wk, `null`, `""`, `0`, `[1,2]`, `{}`, `"QQ=="`, `"QUJDQUJDQUJDQUJDQUJDQUJD"`, `[]`, ``},
	}
	i, j, k := x.Pick(len(vals[0])), x.Pick(len(vals[1])), x.Pick(len(vals[2]))
	pick := []string{vals[0][i], vals[1][j], vals[2][k]}
	names := []string{"ExpiryTime", "Ciphertext", "WrappedKey"}
	var fs []string
	for n := range names {
		if pick[n] != "" {
			fs = append(fs, `"`+names[n]+`":`+pick[n])
		}
	}
	docs := []string{"{" + strings.Join(fs, ",") + "}"}
	if i == 0 && j == 0 && k == 0 {
		d := docs[0]
		docs = append(docs, "", " ", "null", "[]", "0", "true", `""`, `"x"`, "{", "}", "[[", strings.Repeat("[", 20000), strings.Repeat(`{"a":`, 12000), "nul", "\x00", "\xff\xfe",
			d+d, d+"x", d[:len(d)-1], d+",", strings.ToLower(d), `{"ExpiryTime":"2099-01-01T00:00:00Z",`+d[1:], d[:len(d)-1]+`,"ExpiryTime":"2099-01-01T00:00:00Z"}`,
			d[:len(d)-1]+`,"expirytime":"2099-01-01T00:00:00Z"}`, d[:len(d)-1]+`,"EXPIRYTIME":null}`, "["+d+"]", strings.Repeat(" ", 5000)+d, `{"\u0045xpiryTime":"2099-01-01T00:00:00Z",`+d[1:])
	}
	for _, doc := range docs {
		s := base64.RawURLEncoding.EncodeToString([]byte(doc))
		for _, v := range []string{s, doc} {
			x.Op()
			var p data.SealedToken
			var err error
			x.Guard("parse", func() { p, err = data.TokenFromString(v) })
			if err == nil {
				judge(x, w, p, t, "contents", "document "+clip(doc, 200))
				x.Guard("string", func() { p.String() })
			}
			var ident id.Identity
			x.Guard("identity", func() { ident, err = sa.GetIdentity(context.Background(), v) })
			if err == nil || ident.ID != "" {
				x.Failf("junk-identity", "a malformed token yields the identity %q", ident.ID)
			}
		}
	}
	x.State(i, j, k)
	x.Out("%d", len(docs))
	_ = json.Valid
}
