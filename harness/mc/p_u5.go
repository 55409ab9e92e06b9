package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/cybercryptio/d1-lib/v2/id"
)

func init() {
	register(&Prop{
		ID: "U05", Level: "model_checking",
		Rule: "All pairs (and selected triples) of user and group operations on the same and on different users and groups, through one and two instances, under all interleavings of their storage calls, and of their statements within the preemption bound; " +
			"results and resulting users, passwords and memberships are compared with those of all sequential orders, executed on the same code. Distinct = distinct outcomes.",
		Assume: []string{"The storage interface has no compare-and-swap: read-modify-write operations on one user lose updates; these are listed, per pair of operations, in known_findings.txt."},
		Scenarios: func(th bool) []*Scenario {
			pre, fpre := 4, 1
			if th {
				pre, fpre = 8, 2
			}
			return []*Scenario{
				{Name: "pairs", Body: func(x *X) { u05Run(x, 2, false) }, Pre: pre, Coarse: true, Shard: 2},
				{Name: "triples", Body: func(x *X) { u05Run(x, 3, false) }, Pre: 2, Coarse: true, Shard: 3},
				{Name: "fine", Body: func(x *X) { u05Run(x, 2, true) }, Pre: fpre, Fine: true, Site: 2, Shard: 2},
			}
		},
	})
}

type u05op struct {
	name  string
	write int // user record it modifies, -1: none
	run   func(w *uWorld, r *u05res)
}

// u05res is what one call returned, in terms that do not depend on random values.
type u05res struct {
	err   string
	pw    string // new password
	uid   string
	gid   string
	tok   string
	ident string
}

func idErr(err error) string {
	// whether a user that vanishes during a call is reported as such or as not authenticated is left open
	for e, n := range map[error]string{id.ErrNotAuthenticated: "not-authenticated", id.ErrNotAuthorized: "not-authorized", id.ErrUserNotFound: "not-authenticated", id.ErrGroupNotFound: "group-not-found", id.ErrUserAlreadyExists: "user-exists", id.ErrGroupAlreadyExists: "group-exists"} {
		if errors.Is(err, e) {
			return n
		}
	}
	if err != nil {
		return "other"
	}
	return "ok"
}

// users: 0 and 1 members of group 0 and 1, 2 of group 2. tokens 0..2 likewise.
var u05ops = []u05op{
	{"add 2 to g0 by 0", 2, func(w *uWorld, r *u05res) {
		r.err = idErr(w.sa[0].AddUserToGroups(w.ctx, w.toks[0].s, w.users[2].uid, w.gids[0]))
	}},
	{"add 2 to g1 by 1", 2, func(w *uWorld, r *u05res) {
		r.err = idErr(w.sa[1].AddUserToGroups(w.ctx, w.toks[1].s, w.users[2].uid, w.gids[1]))
	}},
	{"remove 2 from g2 by 2", 2, func(w *uWorld, r *u05res) {
		r.err = idErr(w.sa[0].RemoveUserFromGroups(w.ctx, w.toks[2].s, w.users[2].uid, w.gids[2]))
	}},
	{"remove 1 from g0 by 0", 1, func(w *uWorld, r *u05res) {
		r.err = idErr(w.sa[0].RemoveUserFromGroups(w.ctx, w.toks[0].s, w.users[1].uid, w.gids[0]))
	}},
	{"remove 0 from g0 by 1", 0, func(w *uWorld, r *u05res) {
		r.err = idErr(w.sa[1].RemoveUserFromGroups(w.ctx, w.toks[1].s, w.users[0].uid, w.gids[0]))
	}},
	{"change password 2", 2, func(w *uWorld, r *u05res) {
		p, err := w.sa[0].ChangeUserPassword(w.ctx, w.users[2].uid, w.users[2].pw)
		r.pw, r.err = p, idErr(err)
	}},
	{"change password 2 again", 2, func(w *uWorld, r *u05res) {
		p, err := w.sa[1].ChangeUserPassword(w.ctx, w.users[2].uid, w.users[2].pw)
		r.pw, r.err = p, idErr(err)
	}},
	{"change password 1", 1, func(w *uWorld, r *u05res) {
		p, err := w.sa[0].ChangeUserPassword(w.ctx, w.users[1].uid, w.users[1].pw)
		r.pw, r.err = p, idErr(err)
	}},
	{"new group by 2", 2, func(w *uWorld, r *u05res) {
		g, err := w.sa[0].NewGroup(w.ctx, w.toks[2].s, id.ScopeDelete)
		r.gid, r.err = g, idErr(err)
	}},
	{"new group by 0", 0, func(w *uWorld, r *u05res) {
		g, err := w.sa[0].NewGroup(w.ctx, w.toks[0].s, id.ScopeIndex)
		r.gid, r.err = g, idErr(err)
	}},
	{"delete 2 by 0", 2, func(w *uWorld, r *u05res) {
		r.err = idErr(w.sa[0].DeleteUser(w.ctx, w.toks[0].s, w.users[2].uid))
	}},
	{"delete 0 by 2", 0, func(w *uWorld, r *u05res) {
		r.err = idErr(w.sa[0].DeleteUser(w.ctx, w.toks[2].s, w.users[0].uid))
	}},
	{"new user", -1, func(w *uWorld, r *u05res) {
		u, p, err := w.sa[0].NewUser(w.ctx, id.ScopeGetAccessGroups)
		r.uid, r.pw, r.err = u, p, idErr(err)
	}},
	{"login 2", -1, func(w *uWorld, r *u05res) {
		t, _, err := w.sa[0].LoginUser(w.ctx, w.users[2].uid, w.users[2].pw)
		r.tok, r.err = t, idErr(err)
	}},
	{"login 1", -1, func(w *uWorld, r *u05res) {
		t, _, err := w.sa[0].LoginUser(w.ctx, w.users[1].uid, w.users[1].pw)
		r.tok, r.err = t, idErr(err)
	}},
	{"identity 2", -1, func(w *uWorld, r *u05res) {
		i, err := w.sa[1].GetIdentity(w.ctx, w.toks[2].s)
		r.err = idErr(err)
		if err == nil {
			r.ident = identStr(i)
		}
	}},
}

func u05World(x *X) *uWorld {
	w := newU(x)
	for i := 0; i < 3; i++ {
		w.newUser(id.Scope(1 << i))
		w.login(i, w.users[i].pw, true)
	}
	w.newGroup(w.toks[0], id.ScopeEncrypt)
	w.newGroup(w.toks[0], id.ScopeDecrypt)
	w.newGroup(w.toks[2], id.ScopeUpdate)
	w.member(true, w.toks[0], 1, w.gids[0], w.gids[1])
	w.st.YieldOn = true
	return w
}

// outcome describes results and resulting state with random values replaced by their origin.
func (w *uWorld) outcome(rs []u05res) (results, state string) {
	x := w.x
	w.st.YieldOn = false
	name := map[string]string{}
	for i, g := range w.gids {
		name[g] = fmt.Sprintf("g%d", i)
	}
	for i, u := range w.users {
		name[u.uid] = fmt.Sprintf("u%d", i)
	}
	pws := [][2]string{}
	for i, r := range rs {
		if r.gid != "" {
			name[r.gid] = fmt.Sprintf("newgroup%d", i)
		}
		if r.uid != "" {
			name[r.uid] = fmt.Sprintf("newuser%d", i)
		}
		if r.pw != "" {
			pws = append(pws, [2]string{fmt.Sprintf("pw%d", i), r.pw})
		}
	}
	norm := func(s string) string {
		for k, v := range name {
			s = strings.ReplaceAll(s, k, v)
		}
		// order of normalised names
		f := strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '[' || r == ']' || r == ',' || r == '{' || r == '}' })
		sort.Strings(f)
		return strings.Join(f, " ")
	}
	var rb, sb strings.Builder
	for i, r := range rs {
		fmt.Fprintf(&rb, "%d:%s", i, r.err)
		if r.ident != "" {
			fmt.Fprintf(&rb, "(%s)", norm(r.ident))
		}
		if r.err == "ok" && r.tok != "" { // a login's token belongs to the right user, or to a deleted one
			i, err := w.sa[0].GetIdentity(w.ctx, r.tok)
			if err == nil {
				fmt.Fprintf(&rb, "(token of %s)", norm(i.ID))
			} else {
				fmt.Fprintf(&rb, "(token: %s)", idErr(err))
			}
		}
		rb.WriteString(";")
	}
	uids := []string{}
	for _, u := range w.users {
		uids = append(uids, u.uid)
	}
	for _, r := range rs {
		if r.uid != "" {
			uids = append(uids, r.uid)
		}
	}
	for _, uid := range uids {
		su := readUser(x, w.st, uid)
		fmt.Fprintf(&sb, "%s exists=%v", norm(uid), su.ok)
		if su.ok {
			fmt.Fprintf(&sb, " scopes=%d groups=%s", su.scopes, norm(strings.ReplaceAll(su.groups, `"`, "")))
		}
		tr := pws
		for i, u := range w.users {
			tr = append(tr, [2]string{fmt.Sprintf("old%d", i), u.pw})
		}
		for _, p := range tr {
			if _, _, err := w.sa[0].LoginUser(w.ctx, uid, p[1]); err == nil {
				fmt.Fprintf(&sb, " opens with %s", p[0])
			}
		}
		sb.WriteString("; ")
	}
	return rb.String(), sb.String()
}

type u05serial struct {
	all    map[string]bool   // results|state
	states map[string]string // state after only a subset of the operations -> which
}

var u05cache = map[string]*u05serial{}

func permutations(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var r [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

func u05Serial(x *X, ops []int) *u05serial {
	k := fmt.Sprint(ops)
	if s, ok := u05cache[k]; ok {
		return s
	}
	s := &u05serial{map[string]bool{}, map[string]string{}}
	for _, p := range permutations(len(ops)) {
		w := u05World(x)
		w.st.YieldOn = false
		rs := make([]u05res, len(ops))
		for _, i := range p {
			u05ops[ops[i]].run(w, &rs[i])
		}
		a, b := w.outcome(rs)
		s.all[a+"|"+b] = true
	}
	for skip := range ops {
		for _, p := range permutations(len(ops)) {
			w := u05World(x)
			w.st.YieldOn = false
			rs := make([]u05res, len(ops))
			for _, i := range p {
				if i != skip {
					u05ops[ops[i]].run(w, &rs[i])
				}
			}
			_, b := w.outcome(rs)
			s.states[b] = u05ops[ops[skip]].name
		}
	}
	u05cache[k] = s
	return s
}

func opWord(s string) string { // the operation without its arguments
	f := strings.Fields(s)
	if f[0] == "new" || f[0] == "change" {
		return f[0] + "-" + f[1]
	}
	return f[0]
}

func u05Run(x *X, n int, fine bool) {
	ops := []int{x.Pick(len(u05ops))}
	for len(ops) < n {
		c := ops[len(ops)-1] + x.Pick(len(u05ops)-ops[len(ops)-1])
		ops = append(ops, c)
	}
	if fine { // statement level: only operations on different users
		a, b := u05ops[ops[0]], u05ops[ops[1]]
		if a.write == b.write && a.write >= 0 {
			return
		}
	}
	if n == 3 { // at most one pair writing the same record, and a third operation
		ws := map[int]int{}
		for _, o := range ops {
			ws[u05ops[o].write]++
		}
		rev := map[int]bool{} // mutual revocations are covered by the pairs
		for _, o := range ops {
			if v := opWord(u05ops[o].name); v == "remove" || v == "delete" {
				rev[u05ops[o].write] = true
			}
		}
		if len(rev) > 1 {
			return
		}
		del := false
		for _, o := range ops {
			del = del || u05ops[o].write == 2 && opWord(u05ops[o].name) == "delete"
		}
		if ws[-1] == 0 || ws[0] > 1 || ws[1] > 1 || ws[2] > 2 || ws[2] == 2 && !del || ops[0] == ops[1] || ops[1] == ops[2] {
			return
		}
	}
	ser := u05Serial(x, ops)
	w := u05World(x)
	rs := make([]u05res, n)
	var fs []func()
	var names []string
	for i := range ops {
		i := i
		names = append(names, u05ops[ops[i]].name)
		fs = append(fs, func() {
			u05ops[ops[i]].run(w, &rs[i])
			x.Op()
		})
	}
	x.Par(fs...)
	x.Logf("%s", strings.Join(names, " || "))
	a, b := w.outcome(rs)
	x.Logf("results %s state %s", a, b)
	x.State(ops, a, b)
	x.Out("%s", strings.Join(names, "||"))
	if ser.all[a+"|"+b] {
		return
	}
	sort.Strings(names)
	// which kind of anomaly
	for i, o := range ops {
		if u05ops[o].name[:6] == "delete" && rs[i].err == "ok" {
			uid := w.users[u05ops[o].write].uid
			if readUser(x, w.st, uid).ok {
				x.Failf("resurrected", "%s reported success and the user exists afterwards; %s", u05ops[o].name, strings.Join(names, " || "))
			}
		}
	}
	allOK := true
	for _, r := range rs {
		allOK = allOK && r.err == "ok"
	}
	writes := map[int][]string{}
	for _, o := range ops {
		if u05ops[o].write >= 0 {
			writes[u05ops[o].write] = append(writes[u05ops[o].write], opWord(u05ops[o].name))
		}
	}
	if lost, ok := ser.states[b]; ok && allOK {
		for _, ws := range writes {
			if len(ws) >= 2 {
				sort.Strings(ws)
				x.Failf("lost-update:"+strings.Join(ws, "+"), "%s: all calls succeeded and the effect of %q is lost: %s", strings.Join(names, " || "), lost, b)
			}
		}
	}
	// two callers revoke each other's authority at the same time
	revokes := func(s string) bool { return s == "remove" || s == "delete" }
	if allOK && len(writes) == 2 && n == 2 && revokes(opWord(names[0])) && revokes(opWord(names[1])) {
		x.Failf("write-skew:"+opWord(names[0])+"+"+opWord(names[1]), "%s: both succeeded although each revokes the other", strings.Join(names, " || "))
	}
	var ws []string
	for _, nm := range names {
		ws = append(ws, opWord(nm))
	}
	x.Failf("nonserial:"+strings.Join(ws, "+"), "%s gave %s and left %s; no sequential order does that", strings.Join(names, " || "), a, b)
}
