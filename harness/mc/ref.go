package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/bits"
	"time"

	"github.com/gofrs/uuid"
)

// This file is an independent implementation of the published formats, written from the standards
// (SP 800-38D via the standard library, SP 800-38F / RFC 5649, FIPS 202, SP 800-185) and from the
// serialised form of the records. It is the oracle for conformance and lets the harness look into,
// and create, sealed records without using the code under test.

// ---- Keccak / cSHAKE / KMAC ----------------------------------------------------

var keccakRC = func() [24]uint64 {
	// LFSR-generated round constants (FIPS 202, 3.2.5)
	var rc [24]uint64
	r := byte(1)
	for i := 0; i < 24; i++ {
		for j := 0; j <= 6; j++ {
			if r&1 == 1 {
				rc[i] |= 1 << ((1 << j) - 1)
			}
			hi := r >> 7
			r <<= 1
			if hi == 1 {
				r ^= 0x71
			}
		}
	}
	return rc
}()

func keccakF(a *[25]uint64) {
	for round := 0; round < 24; round++ {
		var c, d [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
		}
		for i := range a {
			a[i] ^= d[i%5]
		}
		// rho and pi
		var b [25]uint64
		x, y := 1, 0
		b[0] = a[0]
		cur := a[1]
		_ = cur
		for t := 0; t < 24; t++ {
			rot := ((t + 1) * (t + 2) / 2) % 64
			nx, ny := y, (2*x+3*y)%5
			b[nx+5*ny] = bits.RotateLeft64(a[x+5*y], rot)
			x, y = nx, ny
		}
		for y := 0; y < 5; y++ {
			for x := 0; x < 5; x++ {
				a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		a[0] ^= keccakRC[round]
	}
}

func keccakSponge(rate int, suffix byte, msg []byte, out int) []byte {
	var a [25]uint64
	p := append(bytes.Clone(msg), suffix)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	for ; len(p) > 0; p = p[rate:] {
		for i := 0; i < rate/8; i++ {
			a[i] ^= binary.LittleEndian.Uint64(p[8*i:])
		}
		keccakF(&a)
	}
	var r []byte
	for len(r) < out {
		for i := 0; i < rate/8; i++ {
			r = binary.LittleEndian.AppendUint64(r, a[i])
		}
		keccakF(&a)
	}
	return r[:out]
}

func encInt(v uint64) []byte {
	n := 1
	for v>>(8*uint(n)) != 0 && n < 8 {
		n++
	}
	var b []byte
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return b
}
func refLeft(v uint64) []byte  { e := encInt(v); return append([]byte{byte(len(e))}, e...) }
func refRight(v uint64) []byte { e := encInt(v); return append(e, byte(len(e))) }
func refEncStr(s []byte) []byte {
	return append(refLeft(uint64(len(s))*8), s...)
}
func refPad(x []byte, w int) []byte {
	r := append(refLeft(uint64(w)), x...)
	for len(r)%w != 0 {
		r = append(r, 0)
	}
	return r
}

// refKMAC computes KMAC128 (rate 168) or KMAC256 (rate 136), SP 800-185 section 4.3.
func refKMAC(rate int, key, msg []byte, outLen int, custom []byte) []byte {
	in := refPad(append(refEncStr([]byte("KMAC")), refEncStr(custom)...), rate)
	in = append(in, refPad(refEncStr(key), rate)...)
	in = append(in, msg...)
	in = append(in, refRight(uint64(outLen)*8)...)
	return keccakSponge(rate, 0x04, in, outLen)
}

func refSHA3_256(msg []byte) []byte { return keccakSponge(136, 0x06, msg, 32) }

// refPBKDF2 is PBKDF2-HMAC-SHA3-256 for a single 32 byte block.
func refPBKDF2(password, salt []byte, rounds int) []byte {
	const bs = 136
	k := password
	if len(k) > bs {
		k = refSHA3_256(k)
	}
	ipad, opad := bytes.Repeat([]byte{0x36}, bs), bytes.Repeat([]byte{0x5c}, bs)
	for i := range k {
		ipad[i] ^= k[i]
		opad[i] ^= k[i]
	}
	mac := func(m []byte) []byte {
		in := refSHA3_256(append(bytes.Clone(ipad), m...))
		return refSHA3_256(append(bytes.Clone(opad), in...))
	}
	u := mac(append(bytes.Clone(salt), 0, 0, 0, 1))
	t := bytes.Clone(u)
	for i := 1; i < rounds; i++ {
		u = mac(u)
		for j := range t {
			t[j] ^= u[j]
		}
	}
	return t
}

// ---- AES-KWP (RFC 5649) ----------------------------------------------------------

func refWrap(kek, p []byte) []byte {
	blk, err := aes.NewCipher(kek)
	if err != nil {
		panic(err)
	}
	n := (len(p) + 7) / 8
	r := make([][]byte, n+1)
	for i := 1; i <= n; i++ {
		r[i] = make([]byte, 8)
		copy(r[i], p[8*(i-1):])
	}
	a := []byte{0xA6, 0x59, 0x59, 0xA6, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(a[4:], uint32(len(p)))
	if n == 1 {
		b := append(bytes.Clone(a), r[1]...)
		blk.Encrypt(b, b)
		return b
	}
	for j := 0; j <= 5; j++ {
		for i := 1; i <= n; i++ {
			b := append(bytes.Clone(a), r[i]...)
			blk.Encrypt(b, b)
			t := uint64(n*j + i)
			binary.BigEndian.PutUint64(a, binary.BigEndian.Uint64(b)^t)
			copy(r[i], b[8:])
		}
	}
	out := bytes.Clone(a)
	for i := 1; i <= n; i++ {
		out = append(out, r[i]...)
	}
	return out
}

var errRef = errors.New("reference: integrity check failed")

// refWrapRaw applies W to arbitrary 8-byte-aligned input (IV included), to craft malformed wraps.
func refWrapRaw(kek, s []byte) []byte {
	blk, _ := aes.NewCipher(kek)
	n := len(s)/8 - 1
	out := bytes.Clone(s)
	a := bytes.Clone(s[:8])
	for j := 0; j <= 5; j++ {
		for i := 1; i <= n; i++ {
			b := append(bytes.Clone(a), out[8*i:8*i+8]...)
			blk.Encrypt(b, b)
			binary.BigEndian.PutUint64(a, binary.BigEndian.Uint64(b)^uint64(n*j+i))
			copy(out[8*i:], b[8:])
		}
	}
	copy(out, a)
	return out
}

func refUnwrap(kek, c []byte) ([]byte, error) {
	if len(c) < 24 || len(c)%8 != 0 {
		return nil, errRef
	}
	blk, err := aes.NewCipher(kek)
	if err != nil {
		return nil, err
	}
	n := len(c)/8 - 1
	a := bytes.Clone(c[:8])
	r := bytes.Clone(c)
	for j := 5; j >= 0; j-- {
		for i := n; i >= 1; i-- {
			b := make([]byte, 16)
			binary.BigEndian.PutUint64(b, binary.BigEndian.Uint64(a)^uint64(n*j+i))
			copy(b[8:], r[8*i:8*i+8])
			blk.Decrypt(b, b)
			copy(a, b[:8])
			copy(r[8*i:], b[8:])
		}
	}
	if binary.BigEndian.Uint32(a) != 0xA65959A6 {
		return nil, errRef
	}
	m := int(binary.BigEndian.Uint32(a[4:]))
	if m <= 8*(n-1) || m > 8*n {
		return nil, errRef
	}
	for _, b := range r[8+m:] {
		if b != 0 {
			return nil, errRef
		}
	}
	return r[8 : 8+m], nil
}

// ---- AES-256-GCM with trailing nonce -----------------------------------------------

func refGCMSeal(key, nonce, pt, aad []byte) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	g, _ := cipher.NewGCM(blk)
	return append(g.Seal(nil, nonce, pt, aad), nonce...)
}

func refGCMOpen(key, ct, aad []byte) ([]byte, error) {
	if len(ct) < 28 {
		return nil, errRef
	}
	blk, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	g, _ := cipher.NewGCM(blk)
	return g.Open(nil, ct[len(ct)-12:], ct[:len(ct)-12], aad)
}

// ---- sealed records ------------------------------------------------------------------

// Sealed is the union of the serialised fields of all record kinds.
type Sealed struct {
	OID            *uuid.UUID `json:",omitempty"`
	UID            *string    `json:",omitempty"`
	GID            *string    `json:",omitempty"`
	ExpiryTime     *time.Time `json:",omitempty"`
	AssociatedData []byte     `json:",omitempty"`
	Ciphertext     []byte
	WrappedKey     []byte `json:",omitempty"`
}

func parseSealed(b []byte) Sealed {
	var s Sealed
	if err := json.Unmarshal(b, &s); err != nil {
		panic(fmt.Sprintf("stored record is not the expected JSON: %v: %s", err, clip(string(b), 200)))
	}
	return s
}

func tryParseSealed(b []byte) (s Sealed, err error) {
	err = json.Unmarshal(b, &s)
	return
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// refOpen opens a record: value is JSON, aad is the JSON of the associated value.
func refOpen(kek, wrapped, ct, aad []byte) (plainJSON, dek []byte, err error) {
	dek, err = refUnwrap(kek, wrapped)
	if err != nil {
		return nil, nil, err
	}
	plainJSON, err = refGCMOpen(dek, ct, aad)
	return plainJSON, dek, err
}

// refSealJSON seals JSON under a fresh reference key.
func refSealJSON(kek []byte, plainJSON, aad []byte) (wrapped, ct []byte) {
	k := make([]byte, 44)
	rng.Read(k)
	return refWrap(kek, k[:32]), refGCMSeal(k[:32], k[32:], plainJSON, aad)
}

func aadBytes(b []byte) []byte { return mustJSON(b) }

type refAccess struct {
	Groups     map[string]struct{}
	WrappedDEK []byte
}

type refNode struct {
	Identifier  string
	NextCounter uint64
}

type refUser struct {
	SaltAndHash []byte
	Scopes      uint64
	Groups      map[string]struct{}
}

type refGroup struct{ Scopes uint64 }

// readAccess opens a stored access list with the master key.
func readAccess(rec []byte, aek []byte, oid uuid.UUID) (refAccess, error) {
	s, err := tryParseSealed(rec)
	if err != nil {
		return refAccess{}, err
	}
	p, _, err := refOpen(aek, s.WrappedKey, s.Ciphertext, aadBytes(oid.Bytes()))
	if err != nil {
		return refAccess{}, err
	}
	var a refAccess
	if err := json.Unmarshal(p, &a); err != nil {
		return a, err
	}
	return a, nil
}

// readObject opens a stored object with the master key and the wrapped DEK of its access list.
func readObject(rec []byte, kek, wrappedDEK []byte, oid uuid.UUID) (pt, ad []byte, err error) {
	s, err := tryParseSealed(rec)
	if err != nil {
		return nil, nil, err
	}
	aad := append(append([]byte{}, oid.Bytes()...), s.AssociatedData...)
	p, _, err := refOpen(kek, wrappedDEK, s.Ciphertext, aadBytes(aad))
	if err != nil {
		return nil, nil, err
	}
	err = json.Unmarshal(p, &pt)
	return pt, s.AssociatedData, err
}

// refStored reads an object straight from storage: contents and access list as the master keys see
// them. It reports an error when the two records do not fit together.
func refStored(st *Store, oid uuid.UUID) (pt, ad []byte, groups map[string]struct{}, err error) {
	k := testKeys()
	ar, ok := st.m[oidKey(1, oid)]
	if !ok {
		return nil, nil, nil, errors.New("no access record")
	}
	a, err := readAccess(ar, k.AEK, oid)
	if err != nil {
		return nil, nil, nil, fmt.Errorf("access record: %w", err)
	}
	or, ok := st.m[oidKey(0, oid)]
	if !ok {
		return nil, nil, a.Groups, errors.New("no object record")
	}
	pt, ad, err = readObject(or, k.KEK, a.WrappedDEK, oid)
	return pt, ad, a.Groups, err
}

// index labels (KMAC-derived per keyword) and the sealed form of nodes
func refIndexKeys(iek []byte, keyword string) (labelKey, nodeKey []byte) {
	return refKMAC(136, iek, []byte(keyword), 32, []byte("label")), refKMAC(136, iek, []byte(keyword), 32, []byte("id"))
}

func refLabel(labelKey []byte, counter uint64) []byte {
	return refKMAC(136, labelKey, nil, 32, mustJSON(binary.AppendUvarint(nil, counter)))
}

func jsonUnmarshal(b []byte, v any) error { return json.Unmarshal(b, v) }
