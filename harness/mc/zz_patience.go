package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/gofrs/uuid"

	"github.com/cybercryptio/d1-lib/v2/id"
)

// Endurance: one kind of event repeated n times, for every n of a list that straddles the usual limits
// (attempt counters, cache sizes, byte and word boundaries), after which everything must behave as before.

var patience = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 25, 26, 30, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 513, 1000, 1001, 1024, 1025}

func init() {
	rule := " Endurance: every kind of event repeated n times for 45 values of n up to 1025, after which everything is verified as before."
	extend("U01", rule, func(th bool) []*Scenario {
		return []*Scenario{{Name: "endurance", Body: u01Endurance, Shard: 2, Steps: manySteps}}
	})
	extend("D02", rule, func(th bool) []*Scenario {
		return []*Scenario{{Name: "endurance", Body: d02Endurance, Shard: 2, Steps: manySteps}}
	})
	extend("D01", rule, func(th bool) []*Scenario {
		return []*Scenario{{Name: "endurance", Body: d01Endurance, Shard: 2, Steps: manySteps}}
	})
	extend("T01", rule, func(th bool) []*Scenario {
		return []*Scenario{{Name: "endurance", Body: t01Endurance, Shard: 2, Steps: manySteps}}
	})
	extend("X01", rule, func(th bool) []*Scenario {
		return []*Scenario{{Name: "endurance", Body: x01Endurance, Shard: 2, Steps: manySteps}}
	})
}

func u01Endurance(x *X) {
	n, kind := patience[x.Pick(len(patience))], x.Pick(10)
	if n > 300 && kind >= 7 {
		return
	}
	w := newU(x)
	w.newUser(id.ScopeAll)
	w.newUser(id.ScopeDecrypt)
	w.login(0, w.users[0].pw, true)
	w.login(1, w.users[1].pw, true)
	g := w.newGroup(w.toks[0], id.ScopeEncrypt)
	g2 := w.newGroup(w.toks[0], id.ScopeUpdate)
	x.Logf("event %d, %d times", kind, n)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			w.login(0, fmt.Sprint("guess", i), false)
		case 1:
			w.login(0, "", false)
			w.login(1, w.users[0].pw, false)
		case 2:
			w.change(0, fmt.Sprint("guess", i))
		case 3:
			w.login(0, w.users[0].pw, false)
		case 4:
			if _, _, err := w.in().LoginUser(w.ctx, fmt.Sprint("nobody", i), "x"); err == nil {
				x.Failf("login-unknown", "login of an unknown user succeeded")
			}
		case 5:
			if _, err := w.in().GetIdentity(w.ctx, fmt.Sprint("token", i)); err == nil {
				x.Failf("bad-token", "a malformed token resolved")
			}
		case 6:
			w.member(i%2 == 0, w.toks[0], 1, g)
			w.identity(w.toks[1])
		case 7:
			w.newUser(id.ScopeIndex)
		case 8:
			w.newGroup(w.toks[1], id.ScopeIndex)
		case 9:
			w.change(1, w.users[1].pw)
			w.users[1].old = w.users[1].old[len(w.users[1].old)-1:]
		}
	}
	for _, t := range w.toks {
		w.identity(t)
	}
	for i := range w.users {
		w.login(i, w.users[i].pw, false)
		w.login(i, "wrong", false)
	}
	w.member(true, w.toks[0], 1, g2)
	w.member(false, w.toks[1], 0, g2)
	w.change(0, w.users[0].pw)
	w.deleteUser(w.toks[0], 1)
	w.identity(w.toks[1])
	w.login(0, w.users[0].pw, false)
	w.login(1, w.users[1].pw, false)
	x.State(n, kind)
	x.Out("%d", kind)
}

func d02Endurance(x *X) {
	n, kind := patience[x.Pick(len(patience))], x.Pick(4)
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	caller := w.idp.User("caller", id.ScopeAll)
	weak := w.idp.User("weak", id.ScopeAll&^(id.ScopeDecrypt|id.ScopeUpdate|id.ScopeDelete|id.ScopeGetAccessGroups))
	oid, err := w.d.Encrypt(w.ctx, owner, obj("secret", "meta"), "removable", "weak")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	list := setFrom("owner", "removable", "weak")
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			w.decide(w.d, dOps[1+i%7], "no such token", oid, list, "repeated")
		case 1:
			w.decide(w.d, dOps[1+i%7], caller, oid, list, "repeated")
		case 2:
			w.decide(w.d, dOps[1], weak, oid, list, "repeated")
		case 3:
			w.decide(w.d, dOps[1], owner, oid, list, "repeated")
		}
	}
	for _, tok := range []string{caller, weak, "no such token", owner} {
		for _, op := range []int{1, 4, 7} {
			w.decide(w.d, dOps[op], tok, oid, list, "afterwards")
		}
	}
	w.decide(w.d, dOps[5], owner, oid, list, "afterwards")
	x.State(n, kind)
}

func d01Endurance(x *X) {
	n, kind := patience[x.Pick(len(patience))], x.Pick(4)
	w := NewWorld(x)
	tok := w.idp.User("u", id.ScopeAll)
	w.idp.User("v", id.ScopeAll)
	oid, err := w.d.Encrypt(w.ctx, tok, obj("secret", "meta"))
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	last, lastMeta := "secret", "meta"
	var oids []uuid.UUID
	for i := 0; i < n; i++ {
		var err error
		switch kind {
		case 0:
			last, lastMeta = fmt.Sprint("secret", i), strings.Repeat("m", i%40)
			err = w.d.Update(w.ctx, tok, oid, obj(last, lastMeta))
		case 1:
			_, err = w.d.Decrypt(w.ctx, tok, oid)
		case 2:
			err = w.d.AddGroupsToAccess(w.ctx, tok, oid, fmt.Sprint("g", i))
		case 3:
			var o uuid.UUID
			o, err = w.d.Encrypt(w.ctx, tok, obj(fmt.Sprint("other", i), "m"))
			oids = append(oids, o)
		}
		x.Op()
		if err != nil {
			x.Failf("endurance-error", "event %d failed at repetition %d: %v", kind, i, err)
		}
	}
	got, err := w.d.Decrypt(w.ctx, tok, oid)
	checkObj(x, "endurance", got, err, []byte(last), []byte(lastMeta))
	for i, o := range oids {
		got, err := w.d.Decrypt(w.ctx, tok, o)
		checkObj(x, "endurance", got, err, []byte(fmt.Sprint("other", i)), []byte("m"))
	}
	x.State(n, kind)
}

func t01Endurance(x *X) {
	n, kind := patience[x.Pick(len(patience))], x.Pick(3)
	w := NewWorld(x)
	first, err := w.d.CreateToken(w.ctx, []byte("first"))
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			if b, err := w.d.GetTokenContents(w.ctx, &first); err != nil || string(b) != "first" {
				x.Failf("reuse", "use %d of a token: %q, %v", i, b, err)
			}
		case 1:
			t, err := w.d.CreateToken(w.ctx, []byte(fmt.Sprint("token", i)))
			if err != nil {
				x.Failf("create", "%v", err)
			}
			if b, err := w.d.GetTokenContents(w.ctx, &t); err != nil || string(b) != fmt.Sprint("token", i) {
				x.Failf("contents", "token %d: %q, %v", i, b, err)
			}
		case 2:
			t := first
			t.Ciphertext = append([]byte{}, t.Ciphertext...)
			t.Ciphertext[i%len(t.Ciphertext)] ^= byte(1 + i%255)
			if b, err := w.d.GetTokenContents(w.ctx, &t); err == nil || len(b) != 0 {
				x.Failf("forged", "an altered token opens: %q, %v", b, err)
			}
		}
		x.Op()
	}
	if b, err := w.d.GetTokenContents(w.ctx, &first); err != nil || string(b) != "first" {
		x.Failf("afterwards", "the first token: %q, %v", b, err)
	}
	x.State(n, kind)
}

func x01Endurance(x *X) {
	n, kind := patience[x.Pick(len(patience))], x.Pick(5)
	if kind == 0 && n > 260 {
		return // quadratic; the long scenario goes further
	}
	w := NewWorld(x)
	tok := w.idp.User("u", id.ScopeIndex)
	w.idp.User("nobody", 0)
	ix := w.Index(w.st)
	add := func(k, v string) {
		if err := ix.Add(w.ctx, tok, k, v); err != nil {
			x.Failf("endurance-error", "Add(%s, %s): %v", k, v, err)
		}
		x.Op()
	}
	search := func(k string, want ...string) {
		got, err := ix.Search(w.ctx, tok, k)
		x.Op()
		if err != nil || sortedText(got) != sortedText(want) {
			x.Failf("endurance", "Search(%s) after %d events: %d identifiers %.200q, %v; want %d", k, n, len(got), got, err, len(want))
		}
	}
	add("kw", "a")
	add("kw", "b")
	want := []string{"a", "b"}
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			add("kw", fmt.Sprint("id", i))
			want = append(want, fmt.Sprint("id", i))
		case 1:
			search("kw", want...)
		case 2:
			add("kw", "temp")
			if err := ix.Delete(w.ctx, tok, "kw", "temp"); err != nil {
				x.Failf("endurance-error", "Delete: %v", err)
			}
		case 3:
			add(fmt.Sprint("kw", i), "x")
		case 4:
			if err := ix.Delete(w.ctx, tok, "kw", want[0]); err != nil {
				x.Failf("endurance-error", "Delete: %v", err)
			}
			want = append(want[1:len(want):len(want)], want[0])
			add("kw", want[len(want)-1])
		}
	}
	search("kw", want...)
	if kind == 3 {
		for i := 0; i < n; i++ {
			search(fmt.Sprint("kw", i), "x")
		}
	}
	x.State(n, kind)
}

func sortedText(l []string) string {
	c := append([]string{}, l...)
	sort.Strings(c)
	return strings.Join(c, "\x00")
}
