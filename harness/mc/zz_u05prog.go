package main

import (
	"fmt"
	"strings"

	"github.com/cybercryptio/d1-lib/v2/id"
)

// A call that starts after another one has returned sees its effect, whatever else is under way.

func init() {
	extend("U05", " Also every operation against every program of a change followed by a read (operations on different records), judged with the order within the program.", func(th bool) []*Scenario {
		pre := 2
		if th {
			pre = 4
		}
		return []*Scenario{{Name: "programs", Body: u05Programs, Pre: pre, Coarse: true, Shard: 3}}
	})
}

var u05reads = []u05op{
	{"login 2", -1, nil}, {"login 1", -1, nil}, {"identity 2", -1, nil},
	{"identity 0", -1, func(w *uWorld, r *u05res) { u05Identity(w, r, 0) }},
	{"identity 1", -1, func(w *uWorld, r *u05res) { u05Identity(w, r, 1) }},
	{"new group by 1", 1, func(w *uWorld, r *u05res) {
		g, err := w.sa[1].NewGroup(w.ctx, w.toks[1].s, id.ScopeIndex)
		r.gid, r.err = g, idErr(err)
	}},
}

func u05Identity(w *uWorld, r *u05res, n int) {
	i, err := w.sa[0].GetIdentity(w.ctx, w.toks[n].s)
	r.err = idErr(err)
	if err == nil {
		r.ident = identStr(i)
	}
}

// u05prog has the outcomes of the three orders, and the one in which the first operation was authorised
// before the change of the program and took effect after both calls of the program.
type u05prog struct {
	all         map[string]bool
	late, state string
}

var u05progCache = map[string]*u05prog{}

func u05Programs(x *X) {
	ops := append([]u05op{}, u05ops...)
	for _, r := range u05reads {
		if r.run != nil {
			ops = append(ops, r)
		}
	}
	byName := map[string]u05op{}
	for _, o := range ops {
		byName[o.name] = o
	}
	a := ops[x.Pick(len(ops))]
	b := u05ops[x.Pick(13)] // the changes
	c := byName[u05reads[x.Pick(len(u05reads))].name]
	revokes := func(o u05op) bool { return opWord(o.name) == "remove" || opWord(o.name) == "delete" }
	if a.write >= 0 && (a.write == b.write || a.write == c.write || revokes(a) && revokes(b)) {
		return
	}
	if revokes(a) && c.write >= 0 { // revoking the author of the last call
		return
	}
	names := fmt.Sprintf("%s || %s; %s", a.name, b.name, c.name)
	prog := []u05op{a, b, c}
	want := u05progCache[names]
	if want == nil {
		want = &u05prog{all: map[string]bool{}}
		for k, p := range [][]int{{0, 1, 2}, {1, 0, 2}, {1, 2, 0}} {
			w := u05World(x)
			w.st.YieldOn = false
			rs := make([]u05res, 3)
			for _, i := range p {
				prog[i].run(w, &rs[i])
			}
			r, s := w.outcome(rs)
			want.all[r+"|"+s] = true
			f := strings.SplitN(r, ";", 2)
			switch k {
			case 0:
				want.late = f[0] + ";"
				want.state = s
			case 2:
				want.late += f[1]
			}
		}
		u05progCache[names] = want
	}
	w := u05World(x)
	rs := make([]u05res, 3)
	x.Par(func() { a.run(w, &rs[0]); x.Op() }, func() { b.run(w, &rs[1]); x.Op(); c.run(w, &rs[2]); x.Op() })
	r, s := w.outcome(rs)
	x.Logf("%s: %s / %s", names, r, s)
	x.State(names, r, s)
	x.Out("%s", names)
	if want.all[r+"|"+s] {
		return
	}
	words := []string{opWord(a.name), opWord(b.name), opWord(c.name)}
	if r == want.late && s == want.state && a.write >= 0 && revokes(b) {
		x.Failf("late-effect:"+words[0]+"+"+words[1], "%s: the first call was authorised, its caller's authority ended, the third call saw no effect of the first, and then it took effect: %s and %s", names, r, s)
	}
	x.Failf("program:"+strings.Join(words, "+"), "%s gave %s and left %s; one after another they give\n%s", names, r, s, strings.Join(sortedKeys(want.all), "\n"))
}
