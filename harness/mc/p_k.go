package main

import (
	"bytes"
	"crypto/pbkdf2"
	stdsha3 "crypto/sha3"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/gofrs/uuid"
)

func init() {
	register(&Prop{ID: "K01", Level: "exploration",
		Rule:      "Every (plaintext length, associated data length, key) combination of the grid compared with the reference, every single-bit change of ciphertext, tag, nonce, associated data and key, every truncation and extension, every key length 0..64, on fresh and on reused instances. Distinct = distinct inputs with their verdict.",
		Scenarios: func(th bool) []*Scenario { return k01(th) }})
	register(&Prop{ID: "K02", Level: "exploration",
		Rule:      "Every permitted length (quick: 16..520 and boundaries; thorough: all) under both wrapping key sizes compared with an RFC 5649 reference; every single-bit change of wraps of chosen lengths, every truncation and extension, crafted IVs, length fields and paddings against the reference's verdict; every length outside the permitted range. Distinct = distinct inputs with their verdict.",
		Scenarios: func(th bool) []*Scenario { return k02(th) }})
	register(&Prop{ID: "K03", Level: "exploration",
		Rule:      "Grids of key, customisation, message and output lengths (block boundaries included) compared with an independent KMAC, and every sequence of Write/Sum/Reset steps up to the depth compared with the reference after each Sum. Distinct = distinct inputs or histories.",
		Scenarios: func(th bool) []*Scenario { return k03(th) }})
	register(&Prop{ID: "K04", Level: "exploration",
		Rule:      "Every pair of values and associated values of the type alphabet, encrypted and decrypted with every other associated value, wrapped key, wrapping key and every single-bit change, destinations pre-filled, on instances with every short history of earlier calls. Distinct = distinct (value, associated value, alteration) triples.",
		Scenarios: func(th bool) []*Scenario { return k04(th) }})
	register(&Prop{ID: "K05", Level: "exploration", QuickS: 200,
		Rule:      "Generated passwords against their own and each other's hashes, every single-character change, truncation and extension of a password, every single-bit change and truncation of salt and hash, and hashes produced by a reference PBKDF2, with the real number of rounds. Distinct = distinct (password, hash) pairs.",
		Scenarios: func(th bool) []*Scenario { return k05(th) }})
	register(&Prop{ID: "A01", Level: "exploration",
		Rule:      "All pairs of scope values below the end marker plus values with high bits, unions of up to three, every identity over a small ID alphabet. Distinct = distinct argument tuples.",
		Scenarios: func(th bool) []*Scenario { return a01(th) }})
}

func refSelfCheck(x *X) {
	m := []byte("The quick brown fox")
	w := stdsha3.Sum256(m)
	if !bytes.Equal(refSHA3_256(m), w[:]) {
		die("reference SHA3 is wrong")
	}
	// SP 800-185 KMAC sample #4 (KMAC256)
	key, _ := hex.DecodeString("404142434445464748494A4B4C4D4E4F505152535455565758595A5B5C5D5E5F")
	want, _ := hex.DecodeString("20C570C31346F703C9AC36C61C03CB64C3970D0CFC787E9B79599D273A68D2F7F69D4CC3DE9D104A351689F27CF6F5951F0103F33F4F24871024D9C27773A8DD")
	if !bytes.Equal(refKMAC(136, key, []byte{0, 1, 2, 3}, 64, []byte("My Tagged Application")), want) {
		die("reference KMAC is wrong")
	}
	// RFC 5649 section 6
	kek, _ := hex.DecodeString("5840df6e29b02af1ab493b705bf16ea1ae8338f4dcc176a8")
	p, _ := hex.DecodeString("c37b7e6492584340bed12207808941155068f738")
	want, _ = hex.DecodeString("138bdeaa9b8fa7fc61f97742e72248ee5ae6ae5360d1ae6a5f54f373fa543b6a")
	if !bytes.Equal(refWrap(kek, p), want) {
		die("reference KWP is wrong")
	}
	if q, err := refUnwrap(kek, want); err != nil || !bytes.Equal(q, p) {
		die("reference KWP unwrap is wrong")
	}
}

// fixedRandom serves a fixed stream and counts what is drawn.
type fixedRandom struct {
	b   []byte
	n   int
	err bool
}

func (f *fixedRandom) GetBytes(n uint) ([]byte, error) {
	if f.err {
		return nil, fmt.Errorf("no randomness")
	}
	r := make([]byte, n)
	for i := range r {
		r[i] = f.b[f.n%len(f.b)]
		f.n++
	}
	return r, nil
}

// ---- K01 -------------------------------------------------------------------------

func k01(th bool) []*Scenario {
	var sizes []int
	for i := 0; i <= 70; i++ {
		sizes = append(sizes, i)
	}
	sizes = append(sizes, 95, 96, 97, 111, 112, 113, 127, 128, 129, 143, 144, 255, 256, 257, 271, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1<<20+7)
	if th {
		for i := 71; i <= 600; i++ {
			sizes = append(sizes, i)
		}
		sizes = append(sizes, 8<<20+5, 64<<20+3)
	}
	ads := []int{-1, 0, 1, 12, 13, 15, 16, 17, 28, 31, 32, 33, 64, 100, 256, 1000, 65537}
	flip := []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 64, 100}
	keys := [][]byte{seq(32, 9), bytes.Repeat([]byte{0}, 32), bytes.Repeat([]byte{0xff}, 32)}
	mk := func(n int) []byte {
		if n < 0 {
			return nil
		}
		return pattern(0, n)
	}
	return []*Scenario{
		{Name: "grid", Body: func(x *X) {
			n := sizes[x.Pick(len(sizes))]
			a := ads[x.Pick(len(ads))]
			k := keys[x.Pick(len(keys))]
			spare := x.Pick(4)
			if n > 100000 && (a > 17 || spare > 1) {
				return
			}
			nonce := seq(12, byte(n+a))
			r := &fixedRandom{b: nonce}
			g := &crypto.AES256GCM{Random: r}
			for use := 0; use < 2; use++ { // fresh and reused instance
				pt := mk(n)
				if n == 0 && use == 1 {
					pt = nil
				}
				orig := bytes.Clone(pt)
				switch spare {
				case 1:
					pt = append(make([]byte, 0, n+28), pt...)
				case 2:
					pt = append(make([]byte, 0, n+100), pt...)
				case 3:
					pt = append(make([]byte, 0, n+13), pt...)
				}
				ad := mk(a)
				kk := bytes.Clone(k)
				r.n = 0
				var ct []byte
				var err error
				x.Guard("encrypt", func() { ct, err = g.Encrypt(pt, ad, kk) })
				x.Op()
				if err != nil {
					x.Failf("encrypt-error", "Encrypt of %d bytes failed: %v", n, err)
				}
				want := refGCMSeal(k, nonce, orig, mk(a))
				if len(ct) != n+28 {
					x.Failf("length", "ciphertext of %d bytes for a plaintext of %d", len(ct), n)
				}
				if !bytes.Equal(ct, want) {
					x.Failf("conformance", "ciphertext of %d bytes (aad %d) is not AES-256-GCM ciphertext||tag||nonce", n, a)
				}
				if !bytes.Equal(ad, mk(a)) || !bytes.Equal(kk, k) {
					x.Failf("args", "Encrypt modified the associated data or the key")
				}
				var pt2 []byte
				x.Guard("decrypt", func() { pt2, err = g.Decrypt(bytes.Clone(want), ad, kk) })
				x.Op()
				if err != nil || !bytes.Equal(pt2, orig) {
					x.Failf("roundtrip", "Decrypt of a %d byte message: %v, equal=%v", n, err, bytes.Equal(pt2, orig))
				}
				if !bytes.Equal(ad, mk(a)) || !bytes.Equal(kk, k) {
					x.Failf("args", "Decrypt modified the associated data or the key")
				}
				nx := []string{"none", "12", "many"}
				_ = nx
			}
			x.State("grid", n, a, k[0], spare)
		}},
		{Name: "huge", Steps: manySteps, Body: func(x *X) {
			big := []int{0, 65536, 1<<20 + 1, 1<<24 + 1}
			n, a := big[x.Pick(len(big))], big[x.Pick(len(big))]
			nonce := seq(12, 7)
			g := &crypto.AES256GCM{Random: &fixedRandom{b: nonce}}
			want := refGCMSeal(keys[0], nonce, mk(n), mk(a))
			ct, err := g.Encrypt(mk(n), mk(a), bytes.Clone(keys[0]))
			if err != nil || !bytes.Equal(ct, want) {
				x.Failf("conformance", "ciphertext of %d bytes (aad %d) is not AES-256-GCM ciphertext||tag||nonce: %v", n, a, err)
			}
			pt, err := g.Decrypt(ct, mk(a), bytes.Clone(keys[0]))
			if err != nil || !bytes.Equal(pt, mk(n)) {
				x.Failf("roundtrip", "Decrypt of a %d byte message with %d bytes of associated data: %v", n, a, err)
			}
			x.Op()
			x.State("huge", n, a)
		}},
		{Name: "alter", Body: func(x *X) {
			n := flip[x.Pick(len(flip))]
			a := []int{0, 1, 16, 33}[x.Pick(4)]
			k := keys[0]
			g := &crypto.AES256GCM{Random: &fixedRandom{b: seq(12, 3)}}
			ct, err := g.Encrypt(mk(n), mk(a), k)
			if err != nil {
				x.Failf("encrypt-error", "%v", err)
			}
			ad := mk(a)
			reject := func(what string, ct, ad, k []byte) {
				x.Op()
				x.State("alter", n, a, what)
				var err error
				var pt []byte
				x.Guard("decrypt", func() { pt, err = g.Decrypt(bytes.Clone(ct), ad, k) })
				if err == nil {
					x.Failf("accepted", "Decrypt accepted %s (plaintext %d, aad %d), returning %x", what, n, a, pt)
				}
				if pt != nil {
					x.Failf("leak", "Decrypt returned data together with an error for %s", what)
				}
			}
			for i := 0; i < 8*len(ct); i++ {
				c := bytes.Clone(ct)
				c[i/8] ^= 1 << (i % 8)
				reject(fmt.Sprintf("bit %d of the ciphertext flipped", i), c, ad, k)
			}
			for i := 0; i < 8*len(ad); i++ {
				c := bytes.Clone(ad)
				c[i/8] ^= 1 << (i % 8)
				reject(fmt.Sprintf("bit %d of the associated data flipped", i), ct, c, k)
			}
			for i := 0; i < 256; i++ {
				c := bytes.Clone(k)
				c[i/8] ^= 1 << (i % 8)
				reject(fmt.Sprintf("bit %d of the key flipped", i), ct, ad, c)
			}
			for i := 0; i < len(ct); i++ {
				reject(fmt.Sprintf("ciphertext cut to %d", i), ct[:i], ad, k)
				reject(fmt.Sprintf("ciphertext without its first %d bytes", i+1), ct[i+1:], ad, k)
			}
			for i := 1; i <= 40; i++ {
				reject(fmt.Sprintf("ciphertext extended by %d", i), append(bytes.Clone(ct), make([]byte, i)...), ad, k)
				reject(fmt.Sprintf("ciphertext prefixed by %d", i), append(make([]byte, i), ct...), ad, k)
			}
			for i := 0; i < len(ad); i++ {
				reject(fmt.Sprintf("associated data cut to %d", i), ct, ad[:i], k)
			}
			reject("associated data extended", ct, append(bytes.Clone(ad), 0), k)
			for i := 1; i <= 40; i++ {
				reject(fmt.Sprintf("the key extended by %d", i), ct, ad, append(bytes.Clone(k), make([]byte, i)...))
				reject(fmt.Sprintf("the key prefixed by %d", i), ct, ad, append(make([]byte, i), k...))
			}
			for i := 0; i < len(k); i++ {
				reject(fmt.Sprintf("the key cut to %d", i), ct, ad, k[:i])
			}
			reject("the key repeated", ct, ad, append(bytes.Clone(k), k...))
			reject("no key", ct, ad, nil)
			// Rejections leave the instance usable.
			if pt, err := g.Decrypt(bytes.Clone(ct), ad, k); err != nil || !bytes.Equal(pt, mk(n)) {
				x.Failf("roundtrip", "decryption after rejections failed: %v", err)
			}
		}},
		{Name: "large", Shard: 1, Body: func(x *X) {
			top := 21
			if th {
				top = 25
			}
			n := 1<<(16+x.Pick(top-15)) - 1 + x.Pick(3)
			long := x.Bool() // the associated data is
			p, a := n, 5
			if long {
				p, a = 5, n
			}
			k := keys[0]
			g := &crypto.AES256GCM{Random: &fixedRandom{b: seq(12, 3)}}
			pt, ad := mk(p), mk(a)
			ct, err := g.Encrypt(bytes.Clone(pt), ad, k)
			x.Op()
			x.State("large", p, a)
			if err != nil || len(ct) != p+28 {
				x.Failf("encrypt-error", "Encrypt of %d bytes (aad %d): %d bytes, %v", p, a, len(ct), err)
			}
			if q, err := g.Decrypt(bytes.Clone(ct), ad, k); err != nil || !bytes.Equal(q, pt) {
				x.Failf("roundtrip", "Decrypt of a %d byte message (aad %d): %v", p, a, err)
			}
			try := func(what string, c, d []byte) {
				x.Op()
				if q, err := g.Decrypt(bytes.Clone(c), d, k); err == nil || q != nil {
					x.Failf("accepted", "Decrypt accepted %s (plaintext %d, aad %d)", what, p, a)
				}
			}
			for _, f := range []struct {
				name string
				b    []byte
				try  func(what string, b []byte)
			}{{"ciphertext", ct, func(w string, b []byte) { try(w, b, ad) }}, {"associated data", ad, func(w string, b []byte) { try(w, ct, b) }}} {
				l := len(f.b)
				for _, pos := range []int{0, l / 2, l - 1, l - 2, l - 14, l - 29} {
					if pos >= 0 && pos < l {
						c := bytes.Clone(f.b)
						c[pos] ^= 0x40
						f.try(fmt.Sprintf("a change of byte %d of the %s", pos, f.name), c)
					}
				}
				f.try("a shortened "+f.name, f.b[:l-1])
				f.try("an extended "+f.name, append(bytes.Clone(f.b), f.b[l-1]))
			}
		}},
		{Name: "keys", Body: func(x *X) {
			kl := x.Pick(80)
			n := []int{0, 1, 28, 40}[x.Pick(4)]
			if kl == 32 {
				return
			}
			g := &crypto.AES256GCM{Random: &fixedRandom{b: seq(12, 3)}}
			x.State("keys", kl, n)
			x.Op()
			x.Guard("keylen", func() {
				if _, err := g.Encrypt(mk(n), nil, seq(kl, 1)); err == nil {
					x.Failf("keylen", "Encrypt accepted a key of %d bytes", kl)
				}
				if _, err := g.Decrypt(mk(n+28), nil, seq(kl, 1)); err == nil {
					x.Failf("keylen", "Decrypt accepted a key of %d bytes", kl)
				}
				if kl == 16 || kl == 24 { // data that would be right for AES-128 or AES-192
					if _, err := g.Decrypt(refGCMSeal(seq(kl, 1), seq(12, 3), mk(n), nil), nil, seq(kl, 1)); err == nil {
						x.Failf("keylen", "Decrypt accepted a key of %d bytes with fitting data", kl)
					}
				}
			})
		}},
		{Name: "norandom", Body: func(x *X) {
			g := &crypto.AES256GCM{Random: &fixedRandom{b: seq(12, 3), err: true}}
			x.Op()
			x.State("norandom")
			x.Guard("norandom", func() {
				if _, err := g.Encrypt(mk(5), nil, keys[0]); err == nil {
					x.Failf("norandom", "Encrypt succeeded without a nonce")
				}
			})
		}},
	}
}

// ---- K02 -------------------------------------------------------------------------

func k02(th bool) []*Scenario {
	var lens []int
	for i := 16; i <= 520; i++ {
		lens = append(lens, i)
	}
	lens = append(lens, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8183, 8184, 8185, 8190, 8191, 8192)
	if th {
		lens = nil
		for i := 16; i <= 8192; i++ {
			lens = append(lens, i)
		}
	}
	keks := [][]byte{seq(16, 5), seq(32, 5)}
	return []*Scenario{
		{Name: "conformance", Body: func(x *X) {
			kek := keks[x.Pick(2)]
			n := lens[x.Pick(len(lens))]
			k, err := crypto.NewKWP(bytes.Clone(kek))
			if err != nil {
				x.Failf("new", "NewKWP: %v", err)
			}
			p := pattern(0, n)
			x.Op()
			x.Guard("wrap", func() {
				w, err := k.Wrap(p)
				if err != nil {
					x.Failf("wrap-error", "Wrap of %d bytes: %v", n, err)
				}
				if !bytes.Equal(p, pattern(0, n)) {
					x.Failf("args", "Wrap modified its input")
				}
				want := refWrap(kek, p)
				if !bytes.Equal(w, want) {
					x.Failf("conformance", "Wrap of %d bytes differs from RFC 5649: %s, want %s", n, clip(hex.EncodeToString(w), 80), clip(hex.EncodeToString(want), 80))
				}
				u, err := k.Unwrap(want)
				if err != nil || !bytes.Equal(u, p) {
					x.Failf("roundtrip", "Unwrap of a wrapped %d byte key: %v", n, err)
				}
				if !bytes.Equal(want, refWrap(kek, p)) {
					x.Failf("args", "Unwrap modified its input")
				}
				w2, err := k.Wrap(p)
				if err != nil || !bytes.Equal(w2, want) {
					x.Failf("deterministic", "a second Wrap differs")
				}
			})
			x.State("conf", len(kek), n)
		}},
		{Name: "alter", Body: func(x *X) {
			kek := keks[x.Pick(2)]
			al := []int{16, 17, 20, 23, 24, 25, 31, 32, 33, 40, 64, 100}
			n := al[x.Pick(len(al))]
			k, _ := crypto.NewKWP(kek)
			w := refWrap(kek, pattern(0, n))
			reject := func(k *crypto.KWP, what string, c []byte) {
				x.Op()
				x.State("alter", len(kek), n, what)
				x.Guard("unwrap", func() {
					if u, err := k.Unwrap(c); err == nil {
						x.Failf("accepted", "Unwrap accepted %s of a wrapped %d byte key as %x", what, n, u)
					} else if u != nil {
						x.Failf("leak", "Unwrap returned data with an error")
					}
				})
			}
			for i := 0; i < 8*len(w); i++ {
				c := bytes.Clone(w)
				c[i/8] ^= 1 << (i % 8)
				reject(k, fmt.Sprintf("flip of bit %d", i), c)
			}
			for i := 0; i < len(w); i++ {
				reject(k, fmt.Sprintf("truncation to %d", i), w[:i])
			}
			for i := 1; i <= 24; i++ {
				reject(k, fmt.Sprintf("extension by %d", i), append(bytes.Clone(w), make([]byte, i)...))
				reject(k, fmt.Sprintf("doubling and %d", i), append(bytes.Clone(w), w[:i]...))
			}
			for b := 0; b < 8*len(kek); b++ {
				o := bytes.Clone(kek)
				o[b/8] ^= 1 << (b % 8)
				ok, _ := crypto.NewKWP(o)
				reject(ok, fmt.Sprintf("kek bit %d", b), w)
			}
			other, _ := crypto.NewKWP(keks[1-(len(kek)/32)])
			reject(other, "kek of the other size", w)
			if u, err := k.Unwrap(w); err != nil || !bytes.Equal(u, pattern(0, n)) {
				x.Failf("roundtrip", "Unwrap after rejections: %v", err)
			}
		}},
		{Name: "crafted", Body: func(x *X) {
			kek := keks[x.Pick(2)]
			blocks := 2 + x.Pick(4) // 16..40 bytes of key material
			k, _ := crypto.NewKWP(kek)
			body := pattern(0, 8*blocks)
			for zeros := 0; zeros <= 9; zeros++ {
				for mli := 0; mli <= 8*blocks+9; mli++ {
					for iv := 0; iv < 8; iv++ {
						s := make([]byte, 8, 8+8*blocks)
						copy(s, []byte{0xA6, 0x59, 0x59, 0xA6})
						s[4], s[5], s[6], s[7] = 0, 0, 0, byte(mli)
						switch iv {
						case 1:
							s[0] ^= 0x80
						case 2:
							s[3] ^= 1
						case 3:
							s[4] = 0x80
						case 4:
							s[5] = 1
						case 5:
							s[6] = 1
						case 6:
							s[4] = 0xff
						case 7:
							copy(s, bytes.Repeat([]byte{0xA6}, 8))
						}
						b := bytes.Clone(body)
						for i := range b {
							if b[i] == 0 {
								b[i] = 1
							}
							if i >= len(b)-zeros {
								b[i] = 0
							}
						}
						c := refWrapRaw(kek, append(s, b...))
						want, werr := refUnwrap(kek, c)
						if werr == nil && len(want) < 16 {
							continue // shorter than any key that may be wrapped: either answer is fine
						}
						x.Op()
						x.State("crafted", len(kek), blocks, zeros, mli, iv)
						x.Guard("unwrap", func() {
							got, err := k.Unwrap(c)
							if (err == nil) != (werr == nil) || err == nil && !bytes.Equal(got, want) {
								x.Failf("crafted", "Unwrap of a wrap with IV variant %d, length field %d, %d blocks, %d zero bytes at the end: err=%v, RFC 5649 says %v", iv, mli, blocks, zeros, err, werr)
							}
						})
					}
				}
			}
		}},
		{Name: "range", Body: func(x *X) {
			kek := keks[x.Pick(2)]
			k, _ := crypto.NewKWP(kek)
			var bad []int
			for i := 0; i < 16; i++ {
				bad = append(bad, i)
			}
			for i := 8193; i < 8300; i++ {
				bad = append(bad, i)
			}
			bad = append(bad, 16384, 65536, 1<<20)
			for _, n := range bad {
				x.Op()
				x.State("range", len(kek), n)
				x.Guard("wrap", func() {
					if _, err := k.Wrap(make([]byte, n)); err == nil {
						x.Failf("range", "Wrap accepted %d bytes", n)
					}
				})
			}
			for n := 0; n < 300; n++ {
				x.Op()
				x.Guard("unwrap", func() {
					if _, err := k.Unwrap(pattern(0, n)); err == nil {
						x.Failf("range", "Unwrap accepted %d arbitrary bytes", n)
					}
				})
			}
			if th || x.Bool() {
				big := refWrap(kek, pattern(0, 8193))
				x.Op()
				x.Guard("unwrap", func() {
					if _, err := k.Unwrap(big); err == nil {
						x.Failf("range", "Unwrap accepted a wrap of 8193 bytes")
					}
				})
			}
			x.Guard("unwrap", func() {
				if _, err := k.Unwrap(nil); err == nil {
					x.Failf("range", "Unwrap accepted nil")
				}
				if _, err := k.Wrap(nil); err == nil {
					x.Failf("range", "Wrap accepted nil")
				}
			})
		}},
		{Name: "keklen", Body: func(x *X) {
			n := x.Pick(80)
			x.Op()
			x.State("keklen", n)
			x.Guard("newkwp", func() {
				_, err := crypto.NewKWP(make([]byte, n))
				if ok := n == 16 || n == 32; (err == nil) != ok {
					x.Failf("keklen", "NewKWP with %d bytes: %v", n, err)
				}
			})
		}},
	}
}

// ---- K03 -------------------------------------------------------------------------

func k03(th bool) []*Scenario {
	keyLens := []int{32, 33, 40, 63, 64, 65, 100, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 200, 255, 256, 257, 266, 267, 268, 300, 400, 402, 403, 404, 8190, 8191, 8192, 8193}
	msgLens := []int{0, 1, 2, 31, 32, 100, 130, 131, 132, 133, 134, 135, 136, 137, 160, 165, 166, 167, 168, 169, 255, 256, 257, 271, 272, 273, 335, 336, 337, 1000}
	outLens := []int{8, 9, 16, 31, 32, 33, 64, 135, 136, 137, 168, 169, 255, 256, 300, 8192}
	custs := []int{-1, 0, 1, 11, 21, 31, 32, 120, 126, 127, 128, 129, 135, 136, 137, 168, 300, 8192}
	if th {
		keyLens, msgLens = nil, nil
		for i := 16; i <= 460; i++ {
			keyLens = append(keyLens, i)
		}
		for i := 0; i <= 460; i += 3 {
			msgLens = append(msgLens, i)
		}
		keyLens = append(keyLens, 8190, 8191, 8192, 8193, 65536)
		outLens = append(outLens, 10, 12, 20, 28, 48, 65, 200, 1000, 65536)
	} else {
		for i := 16; i < 32; i++ {
			keyLens = append(keyLens, i)
		}
	}
	mk := func(v int, key []byte, out int, c []byte) hash.Hash {
		if v == 0 {
			return crypto.NewKMAC128(key, out, c)
		}
		return crypto.NewKMAC256(key, out, c)
	}
	rates := []int{168, 136}
	cust := func(n int) []byte {
		if n < 0 {
			return nil
		}
		return pattern(0, n)
	}
	grid := func(x *X, v, kl, ml, ol, cl int) {
		if v == 1 && kl < 32 {
			return
		}
		key, msg := pattern(0, kl), pattern(3, ml)
		want := refKMAC(rates[v], key, msg, ol, cust(cl))
		x.Op()
		x.State("grid", v, kl, ml, ol, cl)
		x.Guard("kmac", func() {
			h := mk(v, key, ol, cust(cl))
			h.Write(msg)
			if got := h.Sum(nil); !bytes.Equal(got, want) {
				x.Failf("conformance", "KMAC%d(key %d bytes, message %d, output %d, customisation %d) differs from SP 800-185", 128+128*v, kl, ml, ol, cl)
			}
			if h.Size() != ol || h.BlockSize() != rates[v] {
				x.Failf("sizes", "Size %d, BlockSize %d", h.Size(), h.BlockSize())
			}
		})
	}
	depth := 4
	if th {
		depth = 6
	}
	return []*Scenario{
		{Name: "huge", Steps: manySteps, Body: func(x *X) {
			v := x.Pick(2)
			big := []int{8193, 65535, 65536, 65537, 1<<21 - 1, 1 << 21, 1<<21 + 1}
			n := big[x.Pick(len(big))]
			switch x.Pick(5) {
			case 0:
				grid(x, v, n, 3, 32, 5)
			case 1:
				grid(x, v, 32, n, 32, 5)
			case 2:
				grid(x, v, 32, 3, n, 5)
			case 3:
				grid(x, v, 32, 3, 32, n)
			case 4:
				grid(x, v, n, n, n, n)
			}
		}},
		{Name: "grid-key-msg", Body: func(x *X) {
			v := x.Pick(2)
			kl := keyLens[x.Pick(len(keyLens))]
			for _, ml := range msgLens {
				grid(x, v, kl, ml, 32, 5)
			}
		}},
		{Name: "grid-key-cust", Body: func(x *X) {
			v := x.Pick(2)
			kl := keyLens[x.Pick(len(keyLens))]
			for _, cl := range custs {
				grid(x, v, kl, 3, 32, cl)
			}
		}},
		{Name: "grid-out", Body: func(x *X) {
			v := x.Pick(2)
			ol := outLens[x.Pick(len(outLens))]
			for _, ml := range msgLens {
				for _, cl := range custs {
					grid(x, v, 32, ml, ol, cl)
				}
			}
		}},
		{Name: "history", Shard: 2, Body: func(x *X) {
			v := x.Pick(2)
			kl := []int{32, 131, 163, 200}[x.Pick(4)]
			key := pattern(0, kl)
			h := mk(v, key, 32, []byte("c"))
			var msg []byte
			for i := 0; i < depth; i++ {
				op := x.Pick(9)
				if op == 0 {
					break
				}
				x.Op()
				x.Guard("kmac", func() {
					switch op {
					case 1, 2, 3, 4, 5:
						c := pattern(0, []int{0, 1, 50, 136, 200}[op-1])
						c0 := bytes.Clone(c)
						n, err := h.Write(c)
						if n != len(c) || err != nil {
							x.Failf("write", "Write returned %d, %v", n, err)
						}
						if !bytes.Equal(c, c0) {
							x.Failf("args", "Write modified its input")
						}
						msg = append(msg, c...)
						x.Logf("write %d", len(c))
					case 6:
						x.Logf("sum")
						if got := h.Sum(nil); !bytes.Equal(got, refKMAC(rates[v], key, msg, 32, []byte("c"))) {
							x.Failf("history", "Sum after %v differs from the reference", x.trace)
						}
					case 7:
						x.Logf("sum onto a prefix")
						got := h.Sum([]byte("prefix"))
						if !bytes.Equal(got, append([]byte("prefix"), refKMAC(rates[v], key, msg, 32, []byte("c"))...)) {
							x.Failf("history", "Sum onto a prefix after %v differs from the reference", x.trace)
						}
					case 8:
						x.Logf("reset")
						h.Reset()
						msg = nil
					}
				})
			}
			if got := h.Sum(nil); !bytes.Equal(got, refKMAC(rates[v], key, msg, 32, []byte("c"))) {
				x.Failf("history", "final Sum after %v differs from the reference", x.trace)
			}
			x.State("history", v, kl, len(msg), len(x.trace))
			x.Out("%d", len(msg))
		}},
		{Name: "splits", Body: func(x *X) {
			// one message, every way of splitting it into three writes around the block size
			v := x.Pick(2)
			msg := pattern(0, 300)
			want := refKMAC(rates[v], pattern(0, 32), msg, 32, nil)
			cuts := []int{0, 1, 2, 67, 99, 100, 101, 135, 136, 137, 150, 167, 168, 169, 271, 272, 273, 299, 300}
			a := cuts[x.Pick(len(cuts))]
			b := cuts[x.Pick(len(cuts))]
			if b < a {
				return
			}
			x.Op()
			x.State("splits", v, a, b)
			h := mk(v, pattern(0, 32), 32, nil)
			h.Write(msg[:a])
			h.Sum(nil)
			h.Write(msg[a:b])
			h.Write(msg[b:])
			if !bytes.Equal(h.Sum(nil), want) {
				x.Failf("splits", "writes of %d, %d and %d bytes give a different MAC", a, b-a, 300-b)
			}
		}},
		{Name: "kdf", Body: func(x *X) {
			sizes := []int{8, 16, 31, 32, 33, 64, 200}
			n := sizes[x.Pick(len(sizes))]
			lab := []string{"", "label", "id", "x", "a longer label than any block is going to hold, for sure: " + strings.Repeat("y", 200)}[x.Pick(5)]
			ctxs := [][][]byte{nil, {nil}, {[]byte("a")}, {[]byte("a"), []byte("b")}, {[]byte("ab")}, {pattern(0, 136)}, {pattern(0, 100), nil, pattern(2, 99)}}
			c := ctxs[x.Pick(len(ctxs))]
			kl := []int{32, 48, 131, 136}[x.Pick(4)]
			key := pattern(0, kl)
			x.Op()
			x.State("kdf", n, len(lab), len(c), kl)
			want := refKMAC(136, key, bytes.Join(c, nil), n, []byte(lab))
			x.Guard("kdf", func() {
				for i := 0; i < 2; i++ {
					if got := crypto.KMACKDF(n, key, []byte(lab), c...); !bytes.Equal(got, want) {
						x.Failf("kdf", "KMACKDF(%d, key %d, %q, %d contexts) is not the specified KMAC value", n, kl, clip(lab, 20), len(c))
					}
				}
			})
		}},
		{Name: "tagger", Body: func(x *X) {
			vals := []any{[]byte{}, []byte(nil), []byte{0}, []byte("data"), pattern(0, 200), "string", "", "<é>", 7, uint64(1 << 63), nil, true,
				struct{ A, B string }{"x", "y"}, []string{"a", "b"}, map[string]int{"k": 1}, pattern(3, 19)}
			v := vals[x.Pick(len(vals))]
			key := pattern(0, 32)
			x.Op()
			x.State("tagger", fmt.Sprintf("%T%v", v, v))
			x.Guard("tagger", func() {
				t, err := crypto.NewKMAC256Tagger(key)
				if err != nil {
					x.Failf("tagger", "%v", err)
				}
				want := refKMAC(136, key, nil, 32, mustJSON(v))
				for i := 0; i < 2; i++ {
					got, err := t.Tag(v)
					if err != nil || !bytes.Equal(got, want) {
						x.Failf("tagger", "Tag(%v) = %x, %v; want %x", v, got, err, want)
					}
				}
			})
		}},
		{Name: "tagger-keys", Body: func(x *X) {
			n := x.Pick(80)
			x.Op()
			x.State("tagger-keys", n)
			if _, err := crypto.NewKMAC256Tagger(make([]byte, n)); (err == nil) != (n == 32) {
				x.Failf("tagger-keylen", "NewKMAC256Tagger with %d bytes: %v", n, err)
			}
		}},
		{Name: "selfcheck", Solo: true, Body: refSelfCheck},
	}
}

// ---- K04 -------------------------------------------------------------------------

type k04Inner struct {
	S string
	B []byte
	M map[string]int
}
type k04Struct struct {
	A int64
	B bool
	F float64
	I k04Inner
	P *int
	T time.Time
}

func k04(th bool) []*Scenario {
	seven := 7
	vals := []any{[]byte("some bytes"), []byte{}, "a string", "", "<\"\u2028&é\\", int64(-5), uint64(1<<64 - 1), true, 1.5,
		k04Struct{1, true, -0.25, k04Inner{"s", []byte{0, 255}, map[string]int{"a": 1, "b": 2}}, &seven, time.Date(2024, 2, 29, 23, 59, 59, 999999999, time.UTC)},
		[]string{"x", "", "z"}, map[string][]byte{"k": {1}, "l": {2}}, [3]int{1, 2, 3}, pattern(0, 5000), strings.Repeat("long ", 3000)}
	aads := []any{nil, []byte(nil), []byte{}, []byte{0}, []byte("aad"), "aad", "", "aad ", "<a&b>\u2028", "<a&b>", map[string]string{"<k>": "&"}, 0, 1, uint64(1), true, struct{ X int }{1}, []int{1}, []int{1, 1},
		pattern(0, 300), pattern(2, 300), time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2024, 1, 1, 0, 0, 0, 1, time.UTC)}
	kek := seq(32, 77)
	// dest returns a pre-filled destination of the value's type
	dest := func(v any) (ptr any, snapshot func() string) {
		p := reflect.New(reflect.TypeOf(v))
		switch v.(type) {
		case []byte:
			p.Elem().Set(reflect.ValueOf([]byte("OLD CONTENT OF THE DESTINATION")))
		case string:
			p.Elem().SetString("OLD")
		case int64:
			p.Elem().SetInt(99)
		}
		return p.Interface(), func() string { return fmt.Sprintf("%#v", p.Elem().Interface()) }
	}
	return []*Scenario{
		{Name: "pairs", Body: func(x *X) {
			v := vals[x.Pick(len(vals))]
			ai := x.Pick(len(aads))
			a := aads[ai]
			c, err := crypto.NewAESCryptor(bytes.Clone(kek))
			if err != nil {
				x.Failf("new", "%v", err)
			}
			vb, ab := fmt.Sprintf("%#v", v), fmt.Sprintf("%#v", a)
			var w, ct []byte
			x.Guard("encrypt", func() { w, ct, err = c.Encrypt(v, a) })
			x.Op()
			if err != nil {
				x.Failf("encrypt", "Encrypt(%T, %T): %v", v, a, err)
			}
			if fmt.Sprintf("%#v", v) != vb || fmt.Sprintf("%#v", a) != ab {
				x.Failf("args", "Encrypt altered its arguments")
			}
			// conformance with the reference
			pj, _, err := refOpen(kek, w, ct, mustJSON(a))
			if err != nil {
				x.Failf("format", "the reference cannot open what Encrypt produced for %T/%T: %v", v, a, err)
			}
			back := reflect.New(reflect.TypeOf(v))
			if err := jsonUnmarshal(pj, back.Interface()); err != nil || !sameValue(back.Elem().Interface(), v) {
				x.Failf("format", "content is not the JSON of the value")
			}
			w0, ct0 := bytes.Clone(w), bytes.Clone(ct)
			for use := 0; use < 2; use++ {
				p, _ := dest(v)
				x.Guard("decrypt", func() { err = c.Decrypt(p, a, w, ct) })
				x.Op()
				if err != nil || !sameValue(reflect.ValueOf(p).Elem().Interface(), v) {
					x.Failf("roundtrip", "Decrypt(%T, %T) on use %d: %v, got %s", v, a, use, err, clip(fmt.Sprintf("%#v", p), 200))
				}
				if !bytes.Equal(w, w0) || !bytes.Equal(ct, ct0) {
					x.Failf("args", "Decrypt altered its arguments")
				}
			}
			for bi, b := range aads {
				if string(mustJSON(b)) == string(mustJSON(a)) {
					continue
				}
				p, snap := dest(v)
				before := snap()
				x.Guard("decrypt", func() { err = c.Decrypt(p, b, w, ct) })
				x.Op()
				x.State("pairs", vb, ai, bi)
				if err == nil {
					x.Failf("aad-accepted", "Decrypt accepted associated value %#v instead of %#v", b, a)
				}
				if snap() != before {
					x.Failf("partial", "a failed Decrypt changed the destination")
				}
			}
		}},
		{Name: "values", Body: func(x *X) {
			// every pair of a value and an associated value that is itself such a value
			more := append(append([]any{}, vals...), k04More(&seven)...)
			vi, ai := x.Pick(len(more)), x.Pick(len(more))
			v, a := more[vi], more[ai]
			c, _ := crypto.NewAESCryptor(kek)
			vb, ab := fmt.Sprintf("%#v", v), fmt.Sprintf("%#v", a)
			w, ct, err := c.Encrypt(v, a)
			x.Op()
			if err != nil {
				x.Failf("encrypt", "Encrypt(%T, %T): %v", v, a, err)
			}
			p, _ := dest(v)
			x.Guard("decrypt", func() { err = c.Decrypt(p, a, w, ct) })
			x.Op()
			if err != nil || !sameValue(reflect.ValueOf(p).Elem().Interface(), v) {
				x.Failf("roundtrip", "Decrypt of %s (%T): %v, got %s", clip(vb, 200), v, err, clip(fmt.Sprintf("%#v", reflect.ValueOf(p).Elem().Interface()), 200))
			}
			if fmt.Sprintf("%#v", v) != vb || fmt.Sprintf("%#v", a) != ab {
				x.Failf("args", "the arguments were altered")
			}
			x.State("values", vi, ai)
			if vi != 0 && vi != 4 {
				return
			}
			for bi, b := range more {
				if string(mustJSON(b)) == string(mustJSON(a)) {
					continue
				}
				p, snap := dest(v)
				before := snap()
				x.Guard("decrypt", func() { err = c.Decrypt(p, b, w, ct) })
				x.Op()
				x.State("values", vi, ai, bi)
				if err == nil {
					x.Failf("aad-accepted", "Decrypt accepted associated value %#v instead of %#v", b, a)
				}
				if snap() != before {
					x.Failf("partial", "a failed Decrypt changed the destination")
				}
			}
		}},
		{Name: "alter", Body: func(x *X) {
			v := vals[x.Pick(6)]
			a := []any{[]byte("aad"), "x"}[x.Pick(2)]
			c, _ := crypto.NewAESCryptor(kek)
			w, ct, err := c.Encrypt(v, a)
			if err != nil {
				x.Failf("encrypt", "%v", err)
			}
			w2, ct2, err := c.Encrypt(v, a)
			if err != nil {
				x.Failf("encrypt", "%v", err)
			}
			if bytes.Equal(w, w2) || bytes.Equal(ct, ct2) {
				x.Failf("fresh", "two encryptions of the same value coincide")
			}
			reject := func(cr *crypto.Cryptor, what string, w, ct []byte) {
				x.Op()
				x.State("alter", fmt.Sprintf("%v", v), a, what)
				p, snap := dest(v)
				before := snap()
				var err error
				x.Guard("decrypt", func() { err = cr.Decrypt(p, a, w, ct) })
				if err == nil {
					x.Failf("accepted", "Decrypt accepted %s", what)
				}
				if snap() != before {
					x.Failf("partial", "a failed Decrypt (%s) changed the destination", what)
				}
			}
			reject(&c, "the wrapped key of another encryption", w2, ct)
			reject(&c, "the ciphertext of another encryption", w, ct2)
			for i := 0; i < 8*len(w); i++ {
				b := bytes.Clone(w)
				b[i/8] ^= 1 << (i % 8)
				reject(&c, fmt.Sprintf("wrapped key bit %d", i), b, ct)
			}
			for i := 0; i < 8*len(ct); i++ {
				b := bytes.Clone(ct)
				b[i/8] ^= 1 << (i % 8)
				reject(&c, fmt.Sprintf("ciphertext bit %d", i), w, b)
			}
			for i := 0; i < len(w); i++ {
				reject(&c, fmt.Sprintf("wrapped key cut to %d", i), w[:i], ct)
			}
			for i := 0; i < len(ct); i++ {
				reject(&c, fmt.Sprintf("ciphertext cut to %d", i), w, ct[:i])
			}
			reject(&c, "nil wrapped key", nil, ct)
			reject(&c, "nil ciphertext", w, nil)
			reject(&c, "extended ciphertext", w, append(bytes.Clone(ct), 0))
			reject(&c, "extended wrapped key", append(bytes.Clone(w), make([]byte, 8)...), ct)
			for b := 0; b < 256; b += 5 {
				k2 := bytes.Clone(kek)
				k2[b/8] ^= 1 << (b % 8)
				c2, _ := crypto.NewAESCryptor(k2)
				reject(&c2, fmt.Sprintf("another wrapping key (bit %d)", b), w, ct)
			}
			p, _ := dest(v)
			if err := c.Decrypt(p, a, w, ct); err != nil || !sameValue(reflect.ValueOf(p).Elem().Interface(), v) {
				x.Failf("roundtrip", "Decrypt after rejections: %v", err)
			}
			// data keys of other lengths, wrapped correctly: rejected, not a panic
			for _, n := range []int{16, 17, 24, 31, 33, 48, 64} {
				reject(&c, fmt.Sprintf("a data key of %d bytes", n), refWrap(kek, pattern(0, n)), ct)
			}
		}},
		{Name: "history", Shard: 2, Body: func(x *X) {
			// any number of uses in any order on one instance
			d := 4
			if th {
				d = 6
			}
			c, _ := crypto.NewAESCryptor(kek)
			type rec struct {
				v  any
				a  any
				w  []byte
				ct []byte
			}
			var rs []rec
			for i := 0; i < d; i++ {
				op := x.Pick(8)
				if op == 0 {
					break
				}
				x.Op()
				switch {
				case op <= 3:
					v := vals[[]int{0, 2, 13}[op-1]]
					a := []byte(fmt.Sprint("a", i))
					w, ct, err := c.Encrypt(v, a)
					if err != nil {
						x.Failf("encrypt", "%v", err)
					}
					rs = append(rs, rec{v, a, w, ct})
					x.Logf("encrypt #%d", len(rs)-1)
				case op <= 6:
					j := op - 4
					if j >= len(rs) {
						continue
					}
					r := rs[j]
					p, _ := dest(r.v)
					x.Logf("decrypt #%d", j)
					if err := c.Decrypt(p, r.a, r.w, r.ct); err != nil || !sameValue(reflect.ValueOf(p).Elem().Interface(), r.v) {
						x.Failf("history", "decryption of #%d failed: %v", j, err)
					}
				case op == 7:
					if len(rs) < 2 {
						continue
					}
					p, _ := dest(rs[0].v)
					x.Logf("decrypt #0 with the associated value of #1")
					if err := c.Decrypt(p, rs[1].a, rs[0].w, rs[0].ct); err == nil {
						x.Failf("history", "wrong associated value accepted")
					}
				}
			}
			for j, r := range rs {
				p, _ := dest(r.v)
				if err := c.Decrypt(p, r.a, r.w, r.ct); err != nil || !sameValue(reflect.ValueOf(p).Elem().Interface(), r.v) {
					x.Failf("history", "final decryption of #%d failed: %v", j, err)
				}
			}
			x.State("history", strings.Join(x.trace, ","))
		}},
		{Name: "keys", Body: func(x *X) {
			n := x.Pick(80)
			x.Op()
			x.State("keys", n)
			_, err := crypto.NewAESCryptor(make([]byte, n))
			if (err == nil) != (n == 32) {
				x.Failf("keylen", "NewAESCryptor with %d bytes: %v", n, err)
			}
		}},
		{Name: "unsupported", Body: func(x *X) {
			c, _ := crypto.NewAESCryptor(kek)
			bad := []any{make(chan int), func() {}, map[string]any{"f": func() {}}}
			v := bad[x.Pick(len(bad))]
			x.Op()
			x.State("unsupported", fmt.Sprintf("%T", v))
			x.Guard("unsupported", func() {
				if _, _, err := c.Encrypt(v, "a"); err == nil {
					x.Failf("unsupported", "Encrypt accepted a %T", v)
				}
				if _, _, err := c.Encrypt("a", v); err == nil {
					x.Failf("unsupported", "Encrypt accepted associated data of type %T", v)
				}
			})
		}},
	}
}

// k04More are further values of the supported types: extremes, near neighbours, nested and untyped ones.
func k04More(seven *int) []any {
	u, _ := uuid.FromString("01234567-89ab-4def-8123-456789abcdef")
	return []any{0.1, 0.1234567, 0.1234568, 0.123456789012345, 1.0 / 3, 1e-9, 1e-7, 1e20, 1e21, 1e22, 123456789.123456789, -1.5e300,
		math.MaxFloat64, math.SmallestNonzeroFloat64, math.Pi, float32(0.1), float32(math.MaxFloat32), float32(1.0000001),
		int64(math.MinInt64), int64(math.MaxInt64), int8(-128), uint8(255), uint16(65535), int32(math.MinInt32), uint32(math.MaxUint32),
		int64(1<<53 + 1), uint64(1<<63 + 1), false, 0.0, int(0),
		[16]byte{1, 2, 3, 255}, [0]int{}, u, []uuid.UUID{u, {}}, []any{"x", 1.5, nil, true, []any{}, map[string]any{"a": []any{0.30000000000000004}}},
		map[string]any{"n": nil, "f": 2.5000001, "s": "x"}, map[string]float64{"pi": math.Pi, "e": math.E}, map[int]string{1: "a", -2: "b"}, map[string]struct{}{"a": {}, "b": {}},
		[]float64{0.1, 0.2, 0.30000000000000004, 1e100}, [][]byte{{1}, {}, {2, 3}}, []byte{0}, []byte{0, 0}, []bool{true, false}, seven, &k04Inner{"p", []byte("q"), nil},
		[]k04Inner{{"s", []byte{1}, nil}, {"", []byte{}, map[string]int{}}}, k04Struct{}, k04Inner{}, k04Inner{B: []byte{}}, k04Inner{M: map[string]int{}},
		time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Duration(1<<62 + 1),
		"\x00\x01\x7f", "日本語 \U0001F512", "\u2028\u2029", "</script>&amp;", "\"quoted\" \\ back", "null", "0", "[]", "{}", "some bytes", "c29tZSBieXRlcw==", " ", "\t\r\n",
		json.RawMessage(`{"raw":[1,2]}`), json.Number("12345678901234567890"), strings.Repeat("\u00e9", 999), pattern(1, 4097)}
}

func sameValue(a, b any) bool {
	if x, ok := a.([]byte); ok {
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	return reflect.DeepEqual(a, b)
}

// ---- K05 -------------------------------------------------------------------------

func refPwHash(pw string, salt []byte) []byte {
	k, err := pbkdf2.Key(func() hash.Hash { return stdsha3.New256() }, pw, salt, 10000, 32)
	if err != nil {
		panic(err)
	}
	return k
}

func k05(th bool) []*Scenario {
	alphabet := "Az09-_"
	cmp := func(x *X, h *crypto.PasswordHasher, pw string, sh []byte, want bool, what string) {
		x.Op()
		var got bool
		in := bytes.Clone(sh)
		x.Guard("compare", func() { got = h.Compare(pw, sh) })
		if got != want {
			x.Failf("compare", "Compare with %s returned %v", what, got)
		}
		if !bytes.Equal(in, sh) {
			x.Failf("args", "Compare modified the stored hash")
		}
		x.State(what, pw)
	}
	steps := 8
	if th {
		steps = 1
	}
	return []*Scenario{
		{Name: "generate", Shard: 1, Body: func(x *X) {
			n := x.Pick(16)
			_ = n
			rng.Record()
			h := crypto.NewPasswordHasher()
			var pws []string
			var hs [][]byte
			seenSalt := map[string]bool{}
			for i := 0; i < 3; i++ {
				before := len(rng.rec)
				pw, sh, err := h.GeneratePassword()
				x.Op()
				if err != nil {
					x.Failf("generate", "%v", err)
				}
				drawn := rng.rec[before:]
				raw, err := base64.RawURLEncoding.DecodeString(pw)
				if err != nil || len(raw) != 32 || !bytes.Contains(drawn, raw) {
					x.Failf("entropy", "password %q is not the encoding of 32 bytes from the random source", pw)
				}
				if len(sh) != 40 || !bytes.Contains(drawn, sh[:8]) || seenSalt[string(sh[:8])] {
					x.Failf("salt", "the salt is not 8 fresh bytes from the random source (stored %d bytes)", len(sh))
				}
				if len(drawn) < 40 || bytes.Index(drawn, raw) < bytes.Index(drawn, sh[:8])+8 && bytes.Index(drawn, sh[:8]) < bytes.Index(drawn, raw)+32 {
					x.Failf("overlap", "password and salt share random bytes")
				}
				seenSalt[string(sh[:8])] = true
				if want := refPwHash(pw, sh[:8]); !bytes.Equal(sh[8:], want) {
					x.Failf("conformance", "stored hash is not PBKDF2-HMAC-SHA3-256 with 10000 rounds over the stored salt")
				}
				pws, hs = append(pws, pw), append(hs, sh)
			}
			for i := range pws {
				for j := range hs {
					cmp(x, h, pws[i], hs[j], i == j, fmt.Sprintf("password %d against hash %d", i, j))
				}
			}
			// another instance verifies what this one generated
			cmp(x, crypto.NewPasswordHasher(), pws[0], hs[0], true, "another hasher instance")
			x.Out("ok")
		}},
		{Name: "bits", Shard: 1, Body: func(x *X) {
			pos := x.Pick(40)
			pw := "correct horse battery staple"
			salt := seq(8, 100)
			sh := append(bytes.Clone(salt), refPwHash(pw, salt)...)
			h := crypto.NewPasswordHasher()
			cmp(x, h, pw, sh, true, "a hash stored by an earlier release")
			for b := 0; b < 8; b++ {
				c := bytes.Clone(sh)
				c[pos] ^= 1 << b
				cmp(x, h, pw, c, false, fmt.Sprintf("bit %d of the stored hash flipped", 8*pos+b))
			}
			cmp(x, h, pw, sh[:pos], false, fmt.Sprintf("stored hash cut to %d", pos))
			if pos >= 8 {
				cmp(x, h, pw, append(bytes.Clone(sh), make([]byte, pos-7)...), false, fmt.Sprintf("stored hash extended by %d", pos-7))
			}
			cmp(x, h, pw, sh, true, "the same hash again, after altered ones")
		}},
		{Name: "history", Shard: 2, Body: func(x *X) {
			// the answer does not depend on what was compared before
			h := crypto.NewPasswordHasher()
			pws := []string{"first password", "second password"}
			s1, s2 := seq(8, 50), seq(8, 90)
			h1, h2 := refPwHash(pws[0], s1), refPwHash(pws[1], s2)
			stored := [][]byte{append(bytes.Clone(s1), h1...), append(bytes.Clone(s2), h2...), append(bytes.Clone(s1), h2...),
				append(bytes.Clone(s2), refPwHash(pws[0], s2)...)}
			right := [][]bool{{true, false, false, true}, {false, true, false, false}}
			n := 3
			if th {
				n = 4
			}
			for i := 0; i < n; i++ {
				p, s := x.Pick(len(pws)), x.Pick(len(stored))
				if i < n-1 && !right[p][s] && x.Bool() {
					break
				}
				cmp(x, h, pws[p], stored[s], right[p][s], fmt.Sprintf("password %d and stored value %d as comparison %d", p, s, i))
			}
		}},
		{Name: "passwords", Shard: 1, Body: func(x *X) {
			h := crypto.NewPasswordHasher()
			pw, sh, err := h.GeneratePassword()
			if err != nil {
				x.Failf("generate", "%v", err)
			}
			kind := x.Pick(4)
			pos := x.Pick((len(pw) + steps - 1) / steps)
			pos *= steps
			switch kind {
			case 0:
				for _, c := range alphabet {
					if byte(c) == pw[pos] {
						continue
					}
					b := []byte(pw)
					b[pos] = byte(c)
					cmp(x, h, string(b), sh, false, fmt.Sprintf("character %d changed", pos))
				}
				b := []byte(pw)
				if s := strings.ToLower(string(b[pos])); s != string(b[pos]) {
					b[pos] = s[0]
					cmp(x, h, string(b), sh, false, fmt.Sprintf("case of character %d changed", pos))
				}
			case 1:
				cmp(x, h, pw[:pos], sh, false, fmt.Sprintf("password cut to %d", pos))
			case 2:
				// (a suffix of zero bytes is not tried: HMAC pads short keys with zeros, so PBKDF2 cannot tell it)
				cmp(x, h, pw+strings.Repeat(" ", pos+1), sh, false, fmt.Sprintf("password followed by %d spaces", pos+1))
				cmp(x, h, pw+pw[:pos+1], sh, false, fmt.Sprintf("password followed by its first %d characters", pos+1))
				cmp(x, h, pw+"=", sh, false, "padded password")
			case 3:
				cmp(x, h, pw[pos:]+pw[:pos], sh, pos == 0, fmt.Sprintf("password rotated by %d", pos))
				cmp(x, h, pw, sh, true, "the password, after failures")
			}
		}},
		{Name: "encodings", Shard: 2, Body: func(x *X) {
			// other strings that decode to the same bytes, and line ends decoders skip
			h := crypto.NewPasswordHasher()
			pw, sh, err := h.GeneratePassword()
			if err != nil {
				x.Failf("generate", "%v", err)
			}
			var vs []string
			const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_+/="
			for _, pos := range []int{len(pw) - 1, len(pw) - 2, 0} {
				for _, c := range b64 {
					vs = append(vs, pw[:pos]+string(c)+pw[pos+1:])
				}
			}
			for _, ins := range []string{"\n", "\r", "\r\n", " ", "\t", "=", "-", "\x00A", "\u200b", "%"} {
				for _, pos := range []int{0, 1, 4, len(pw) / 2, len(pw) - 1, len(pw)} {
					vs = append(vs, pw[:pos]+ins+pw[pos:])
				}
			}
			if raw, err := base64.RawURLEncoding.DecodeString(pw); err == nil {
				vs = append(vs, string(raw), base64.StdEncoding.EncodeToString(raw), base64.URLEncoding.EncodeToString(raw), hex.EncodeToString(raw), fmt.Sprintf("%X", raw))
			}
			vs = append(vs, strings.ToUpper(pw), strings.ToLower(pw), "\""+pw+"\"", pw+pw, "\xff"+pw, pw+"\xff", "\ufeff"+pw)
			const block = 8 // (the number of variants does not depend on the password)
			first := block * x.Pick((len(vs)+block-1)/block)
			for _, v := range vs[first:min(first+block, len(vs))] {
				if v != pw {
					cmp(x, h, v, sh, false, fmt.Sprintf("the variant %q of %q", v, pw))
				}
			}
		}},
		{Name: "long", Shard: 1, Steps: manySteps, Body: func(x *X) {
			// passwords at HMAC block boundaries; hashes from the reference
			n := []int{0, 1, 8, 43, 64, 127, 128, 135, 136, 137, 200, 1000}[x.Pick(12)]
			pw := string(pattern(3, n))
			salt := seq(8, byte(n))
			sh := append(bytes.Clone(salt), refPwHash(pw, salt)...)
			h := crypto.NewPasswordHasher()
			cmp(x, h, pw, sh, true, fmt.Sprintf("reference hash of a %d byte password", n))
			cmp(x, h, pw+"x", sh, false, fmt.Sprintf("%d byte password extended", n))
		}},
	}
}

// ---- A01 -------------------------------------------------------------------------

func a01(th bool) []*Scenario {
	high := []uint64{0, 1 << 9, 1 << 10, 1 << 31, 1 << 32, 1 << 62, 1 << 63, 0xffffffffffffffff, 0xffffffff00000000, 1<<63 | 1}
	type named struct {
		s    id.Scope
		v    uint64
		name string
	}
	consts := []named{{id.ScopeEncrypt, 1, "encrypt"}, {id.ScopeDecrypt, 2, "decrypt"}, {id.ScopeUpdate, 4, "update"}, {id.ScopeDelete, 8, "delete"},
		{id.ScopeCreateToken, 16, "create token"}, {id.ScopeGetTokenContents, 32, "get token"}, {id.ScopeGetAccessGroups, 64, "get access"},
		{id.ScopeModifyAccessGroups, 128, "modify access"}, {id.ScopeIndex, 256, "index"}}
	return []*Scenario{
		{Name: "pairs", Body: func(x *X) {
			h := high[x.Pick(len(high))]
			a := uint64(x.Pick(512)) | h
			for b := uint64(0); b < 512; b++ {
				for _, hb := range []uint64{0, 1 << 9, 1 << 63, h} {
					bb := b | hb
					x.Op()
					if got, want := id.Scope(a).Contains(id.Scope(bb)), a&bb == bb; got != want {
						x.Failf("contains", "Scope(%#x).Contains(%#x) = %v", a, bb, got)
					}
					if got := id.ScopeUnion(id.Scope(a), id.Scope(bb)); uint64(got) != a|bb {
						x.Failf("union", "ScopeUnion(%#x, %#x) = %#x", a, bb, uint64(got))
					}
				}
			}
			x.State("pairs", a)
		}},
		{Name: "unions", Body: func(x *X) {
			n := x.Pick(7)
			var in []id.Scope
			want := uint64(0)
			for i := 0; i < n; i++ {
				v := []uint64{0, 1, 256, 511, 3, 1 << 63}[x.Pick(6)]
				if n > 4 {
					v = 1 << uint(i+n)
				}
				in = append(in, id.Scope(v))
				want |= v
			}
			orig := append([]id.Scope{}, in...)
			x.Op()
			x.State("unions", fmt.Sprint(in))
			if got := id.ScopeUnion(in...); uint64(got) != want {
				x.Failf("union", "ScopeUnion(%v) = %v", in, got)
			}
			if !reflect.DeepEqual(append([]id.Scope{}, in...), orig) {
				x.Failf("args", "ScopeUnion modified its arguments")
			}
		}},
		{Name: "constants", Solo: true, Body: func(x *X) {
			names := map[string]bool{}
			all := uint64(0)
			for _, c := range consts {
				x.Op()
				x.State(c.name)
				if uint64(c.s) != c.v {
					x.Failf("constants", "scope %q has value %d instead of %d", c.name, uint64(c.s), c.v)
				}
				if c.s.String() != c.name || names[c.s.String()] {
					x.Failf("names", "scope %d is called %q", c.v, c.s.String())
				}
				names[c.s.String()] = true
				all |= c.v
				if !id.ScopeAll.Contains(c.s) || id.ScopeNone.Contains(c.s) {
					x.Failf("constants", "scope %q is not in the full scope or is in the empty one", c.name)
				}
			}
			if uint64(id.ScopeAll) != all || id.ScopeNone != 0 || id.ScopeEnd != 512 {
				x.Failf("constants", "ScopeAll=%d ScopeNone=%d ScopeEnd=%d", uint64(id.ScopeAll), uint64(id.ScopeNone), uint64(id.ScopeEnd))
			}
			for v := uint64(0); v < 2048; v++ {
				if v&(v-1) != 0 || v == 0 || v >= 512 {
					x.Guard("string", func() {
						if names[id.Scope(v).String()] {
							x.Failf("names", "composite scope %d carries the name %q of a single scope", v, id.Scope(v).String())
						}
					})
				}
			}
		}},
		{Name: "identity", Body: func(x *X) {
			names := []string{"", "u", "g1", "g2", "U"}
			me := names[x.Pick(3)]
			own := []id.Scope{0, 1, 511}[x.Pick(3)]
			groups := map[string]id.AccessGroup{}
			for _, g := range names {
				switch x.Pick(3) {
				case 1:
					groups[g] = id.AccessGroup{ID: g, Scopes: 2}
				case 2:
					groups[g] = id.AccessGroup{ID: g, Scopes: 511}
				}
			}
			if x.Bool() && len(groups) == 0 {
				groups = nil
			}
			i := id.Identity{ID: me, Scopes: own, Groups: groups}
			x.Op()
			want := map[string]struct{}{me: {}}
			for g := range groups {
				want[g] = struct{}{}
			}
			x.State("identity", me, own, setOf(want), len(groups))
			x.Guard("ids", func() {
				got := i.GetIDs()
				if setOf(got) != setOf(want) {
					x.Failf("ids", "GetIDs of %v = %s", i, setOf(got))
				}
				delete(got, me)
				got["other"] = struct{}{}
				if setOf(i.GetIDs()) != setOf(want) {
					x.Failf("ids-shared", "modifying the returned IDs changed the identity")
				}
				for _, n := range append(names, "unknown") {
					w := id.ScopeNone
					if n == me {
						w = own
					} else if g, ok := groups[n]; ok {
						w = g.Scopes
					}
					if s := i.GetIDScope(n); s != w {
						x.Failf("idscope", "GetIDScope(%q) of %v = %d, want %d", n, i, s, w)
					}
				}
			})
		}},
	}
}
