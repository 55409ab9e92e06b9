package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/gofrs/uuid"
	"github.com/rs/zerolog"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/key"
	"verif.local/shim/vsched"
)

func init() {
	register(&Prop{
		ID: "L01", Level: "model_checking",
		Rule: "Every operation, succeeding, refused and with each single storage call failing, under loggers with different fields, levels, samplers and failing writers, in the context or as the default logger, whose results, storage calls and everything readable afterwards are compared (same random stream, virtual clock) with those of the same call without a logger; every line's fields are checked, and the caller's logger afterwards. " +
			"All sequences up to the depth sharing one context, nested identity providers, and all pairs of operations sharing one context under all interleavings of their statements and storage calls within the preemption bound. Distinct = distinct (operation, logger, outcome) states.",
		Assume: []string{"Lines are attributed to calls by the thread that writes them.", "zerolog itself is trusted; statements inside it are not scheduling points."},
		Scenarios: func(th bool) []*Scenario {
			d, pre := 2, 1
			if th {
				d, pre = 3, 2
			}
			return []*Scenario{
				{Name: "calls", Body: func(x *X) { l01Calls(x, false) }, Shard: 2},
				{Name: "faults", Body: func(x *X) { l01Calls(x, true) }, Shard: 2, Faults: 1},
				{Name: "sequences", Body: func(x *X) { l01Sequences(x, d) }, Shard: 2},
				{Name: "nested", Body: l01Nested, Shard: 2},
				{Name: "secrets", Body: func(x *X) { l01Secrets(x, d+1, false) }, Shard: 2},
				{Name: "secrets-faults", Body: func(x *X) { l01Secrets(x, d, true) }, Shard: 2, Faults: 1},
				{Name: "pairs", Body: func(x *X) { l01Pairs(x, pre == 2) }, Pre: pre, Fine: true, Site: 2, Shard: 2},
				{Name: "pairs-calls", Body: func(x *X) { l01Pairs(x, true) }, Pre: 2 * pre, Coarse: true, Shard: 2},
				{Name: "nested-pairs", Body: l01NestedPairs, Pre: pre, Fine: true, Site: 2, Shard: 2},
			}
		},
	})
}

// ---- log sink -----------------------------------------------------------------------

type logLine struct {
	tid  int
	text string
}

type sink struct {
	lines []logLine
	id    [64]int // lines of the thread when its caller had been identified, plus one
	io    [64]int // lines of the thread at its first storage call, plus one
	fail  bool
}

func newSink() *sink { return &sink{lines: make([]logLine, 0, 4000)} }

//go:norace
func (s *sink) Write(p []byte) (int, error) {
	if n := len(s.lines); n < cap(s.lines) {
		s.lines = s.lines[:n+1]
		s.lines[n] = logLine{vsched.ThreadID(), string(append([]byte{}, p...))}
	}
	if s.fail {
		return 0, errors.New("the log writer fails")
	}
	return len(p), nil
}

//go:norace
func (s *sink) of(tid int) (r []string) {
	for _, l := range s.lines {
		if l.tid == tid {
			r = append(r, l.text)
		}
	}
	return
}

//go:norace
func (s *sink) count(tid int) (n int) {
	for i := range s.lines {
		if s.lines[i].tid == tid {
			n++
		}
	}
	return
}

//go:norace
func (s *sink) mark(a *[64]int) {
	t := vsched.ThreadID() % 64
	if a[t] == 0 {
		a[t] = s.count(t) + 1
	}
}

//go:norace
func (s *sink) reset() {
	s.lines = s.lines[:0]
	s.id, s.io = [64]int{}, [64]int{}
}

type kv struct{ k, v string }

// fields returns the members of one line in order.
func (x *X) fields(line string) (r []kv) {
	dec := json.NewDecoder(strings.NewReader(line))
	t, err := dec.Token()
	if err != nil || t != json.Delim('{') {
		x.Failf("line", "a log line is not a JSON object: %q", line)
	}
	for dec.More() {
		k, err := dec.Token()
		if err != nil {
			x.Failf("line", "a log line is malformed: %q: %v", line, err)
		}
		var v any
		if err := dec.Decode(&v); err != nil {
			x.Failf("line", "a log line is malformed: %q: %v", line, err)
		}
		r = append(r, kv{k.(string), fmt.Sprint(v)})
	}
	if _, err := dec.Token(); err != nil {
		x.Failf("line", "a log line is malformed: %q: %v", line, err)
	}
	return
}

var lMethods = map[string][]string{
	"Encrypt": {"encrypt"}, "Update": {"update"}, "Decrypt": {"decrypt"}, "Delete": {"delete"}, "GetAccessGroups": {"get access groups"},
	"AddGroupsToAccess": {"add groups to access"}, "RemoveGroupsFromAccess": {"remove groups from access"}, "AuthorizeIdentity": {"authorize identity"},
	"CreateToken": {"create token"}, "GetTokenContents": {"get token contents"},
	"index.Add": {"add"}, "index.AddNew": {"add"}, "index.Search": {"search"}, "index.Delete": {"delete"},
	"NewUser": {"new user", "login user"}, "NewGroup": {"new group"}, "LoginUser": {"login user"}, "ChangeUserPassword": {"change password"},
	"AddUserToGroups": {"add user to group"}, "RemoveUserFromGroups": {"remove user from group"}, "GetIdentity": {"get identity"}, "DeleteUser": {"delete user"},
}

// lCall is what is known about one call.
type lCall struct {
	op   *bOp
	tk   int
	err  error
	oid  string          // own object, "" if it has none, "?" if unknown
	uid  string          // own user, "" if it has none
	also map[string]bool // users the call is about
	tid  int
	nest bool
}

var lUsers = []string{"owner", "stranger", "owner", ""}

func (b *bWorld) lCall(op *bOp, tk int) *lCall {
	c := &lCall{op: op, tk: tk}
	switch op.name {
	case "Delete":
		c.oid = b.oids[1].String()
	case "Update", "Decrypt", "GetAccessGroups", "AddGroupsToAccess", "RemoveGroupsFromAccess", "AuthorizeIdentity":
		c.oid = b.oids[0].String()
	case "Encrypt":
		c.oid = "?"
	}
	switch op.name {
	case "NewGroup", "AddUserToGroups", "RemoveUserFromGroups", "DeleteUser": // resolve their token themselves
		c.nest = true
	}
	if c.oid != "" || strings.HasPrefix(op.name, "index.") {
		c.uid = lUsers[tk]
		return c
	}
	c.also = map[string]bool{}
	if tk < len(b.uids) {
		c.also[b.uids[tk]] = true // the holder of the token
	}
	if len(b.uids) > 1 {
		switch op.name {
		case "LoginUser", "RemoveUserFromGroups":
			c.also[b.uids[0]] = true
		case "ChangeUserPassword", "AddUserToGroups", "DeleteUser":
			c.also[b.uids[1]] = true
		}
	}
	return c
}

// lines checks every line of a call. base are the fields of the caller's logger.
func (s *sink) check(x *X, c *lCall, base []kv) {
	lines := s.of(c.tid)
	what := fmt.Sprintf("%s (%s)", c.op.name, bTokens[c.tk])
	for i, l := range lines {
		f := x.fields(l)
		got := map[string][]string{}
		for _, e := range f {
			got[e.k] = append(got[e.k], e.v)
		}
		for _, e := range base {
			if len(got[e.k]) != 1 || got[e.k][0] != e.v {
				x.Failf("caller-field", "%s: line %d has the caller's field %s as %q: %s", what, i, e.k, got[e.k], l)
			}
		}
		m := got["method"]
		ok := len(m) == 1 || c.nest && len(m) == 2 && m[1] == "get identity"
		own := false
		for _, w := range lMethods[c.op.name] {
			own = own || len(m) > 0 && m[0] == w
		}
		if !ok || !own {
			x.Failf("method", "%s: line %d carries the methods %q: %s", what, i, m, l)
		}
		switch o := got["oid"]; {
		case c.oid == "" && len(o) > 0:
			x.Failf("oid", "%s: line %d carries the object ID %q: %s", what, i, o, l)
		case c.oid == "?":
			if len(o) > 1 {
				x.Failf("oid", "%s: line %d carries the object IDs %q: %s", what, i, o, l)
			} else if len(o) == 1 {
				c.oid = o[0] // all others must be the same
			}
		case c.oid != "":
			if late := s.io[c.tid] > 0 && i+1 >= s.io[c.tid]; len(o) == 1 && o[0] != c.oid || len(o) > 1 || len(o) == 0 && (c.op.name != "Encrypt" || late) {
				x.Failf("oid", "%s: line %d carries the object IDs %q, its own is %s: %s", what, i, o, c.oid, l)
			}
		}
		switch u := got["uid"]; {
		case c.uid == "" && len(u) == 1 && (c.also[u[0]] || c.op.name == "NewUser"):
		case c.uid == "" && len(u) > 0:
			x.Failf("uid", "%s: line %d carries the user ID %q: %s", what, i, u, l)
		case c.uid != "":
			if late := s.id[c.tid] > 0 && i+1 >= s.id[c.tid]; len(u) == 1 && u[0] != c.uid || len(u) > 1 || len(u) == 0 && late && !c.nest {
				x.Failf("uid", "%s: line %d carries the user IDs %q, its own is %s: %s", what, i, u, c.uid, l)
			}
		}
		for k, v := range got {
			if len(v) > 1 && k != "method" {
				x.Failf("repeated", "%s: line %d carries the field %s more than once: %s", what, i, k, l)
			}
		}
	}
}

// secretIn looks for secrets in the lines.
func (s *sink) secretIn(x *X, b *bWorld, what string) {
	k, c := testKeys(), saConfig()
	secrets := [][]byte{k.KEK, k.AEK, k.TEK, k.IEK, c.UEK, c.GEK, c.TEK, []byte("secret 0"), []byte("secret 1"), []byte("token text"),
		[]byte(strings.Repeat("p", 16)), []byte(strings.Repeat("q", 16)), []byte(strings.Repeat("t", 16)), []byte(strings.Repeat("i", 16))}
	for _, p := range append(append(append([]string{}, b.pws...), b.saTok...), b.tokens...) {
		secrets = append(secrets, []byte(p))
	}
	for _, t := range bTokens {
		secrets = append(secrets, []byte(t))
	}
	for _, sec := range secrets {
		for _, e := range encodings(sec) {
			if len(e) < 6 {
				continue
			}
			for _, l := range s.lines {
				if bytes.Contains([]byte(l.text), e) {
					x.Failf("secret", "%s: a log line contains a secret (%q): %s", what, clipB(sec), l.text)
				}
			}
		}
	}
}

// lLoggers are the loggers a caller may have. Each returns the context, the fields of its lines and how to restore.
type lLogger struct {
	name  string
	level zerolog.Level
	make  func(s *sink) zerolog.Logger
	base  []kv
	dflt  bool // installed as the default logger instead
}

func plainLogger(s *sink, fields []kv) zerolog.Logger {
	c := zerolog.New(s).With()
	for _, f := range fields {
		c = c.Str(f.k, f.v)
	}
	return c.Logger()
}

var lOne = []kv{{"app", "caller"}}
var lThree = []kv{{"app", "caller"}, {"request", "17"}, {"remote", "somewhere"}}

func lLong(n int) []kv { return []kv{{"long", strings.Repeat("x", n)}} }

var lLoggers = []lLogger{
	{"no fields", zerolog.DebugLevel, func(s *sink) zerolog.Logger { return zerolog.New(s) }, nil, false},
	{"one field", zerolog.DebugLevel, func(s *sink) zerolog.Logger { return plainLogger(s, lOne) }, lOne, false},
	{"three fields", zerolog.TraceLevel, func(s *sink) zerolog.Logger { return plainLogger(s, lThree).Level(zerolog.TraceLevel) }, lThree, false},
	{"fields of 470 bytes", zerolog.DebugLevel, func(s *sink) zerolog.Logger { return plainLogger(s, lLong(461)) }, lLong(461), false},
	{"fields of 600 bytes", zerolog.DebugLevel, func(s *sink) zerolog.Logger { return plainLogger(s, lLong(591)) }, lLong(591), false},
	{"level info", zerolog.InfoLevel, func(s *sink) zerolog.Logger { return plainLogger(s, lOne).Level(zerolog.InfoLevel) }, lOne, false},
	{"disabled", zerolog.Disabled, func(s *sink) zerolog.Logger { return plainLogger(s, lOne).Level(zerolog.Disabled) }, lOne, false},
	{"sampled", zerolog.DebugLevel, func(s *sink) zerolog.Logger {
		return plainLogger(s, lOne).Sample(&zerolog.BasicSampler{N: 3})
	}, lOne, false},
	{"failing writer", zerolog.DebugLevel, func(s *sink) zerolog.Logger { s.fail = true; return plainLogger(s, lOne) }, lOne, false},
	{"default logger", zerolog.DebugLevel, func(s *sink) zerolog.Logger { return plainLogger(s, lOne) }, lOne, true},
	{"disabled default logger", zerolog.Disabled, func(s *sink) zerolog.Logger { return plainLogger(s, lOne).Level(zerolog.Disabled) }, lOne, true},
	{"updated logger", zerolog.DebugLevel, func(s *sink) zerolog.Logger {
		l := zerolog.New(s)
		l.UpdateContext(func(c zerolog.Context) zerolog.Context { return c.Str("app", "caller") })
		return l
	}, lOne, false},
}

func init() { zerolog.ErrorHandler = func(error) {} }

// install puts the logger where operations find it.
func (l *lLogger) install(x *X, s *sink) (context.Context, *zerolog.Logger) {
	lg := l.make(s)
	if l.dflt {
		zerolog.DefaultContextLogger = &lg
		x.Defer(func() { zerolog.DefaultContextLogger = nil })
		return baseCtx(), &lg
	}
	ctx := lg.WithContext(baseCtx())
	if l.level == zerolog.Disabled { // zerolog does not put disabled loggers into contexts
		return ctx, &lg
	}
	return ctx, zerolog.Ctx(ctx)
}

// callerLine checks that the caller's own logger is what it was.
func (s *sink) callerLine(x *X, what string, lg *zerolog.Logger, l *lLogger) {
	s.reset()
	if lg.GetLevel() != l.level && l.level == zerolog.Disabled {
		x.Failf("caller-level", "%s changed the level of the caller's logger to %v", what, lg.GetLevel())
	}
	e := lg.Level(zerolog.TraceLevel)
	e = e.Sample(nil)
	e.Info().Msg("by the caller")
	if len(s.lines) != 1 {
		x.Failf("caller-logger", "%s: the caller's logger wrote %d lines afterwards", what, len(s.lines))
	}
	want := append(append([]kv{{"level", "info"}}, l.base...), kv{"message", "by the caller"})
	if got := x.fields(s.lines[0].text); fmt.Sprint(got) != fmt.Sprint(want) {
		x.Failf("caller-logger", "%s: the caller's logger afterwards writes %s", what, s.lines[0].text)
	}
	s.reset()
}

func lOps() (r []*bOp) {
	for i := range bOps {
		if lMethods[bOps[i].name] != nil {
			r = append(r, &bOps[i])
		}
	}
	return
}

func (b *bWorld) watch(s *sink) {
	b.p.on = func() { s.mark(&s.io) }
	b.idp.on = func() { s.mark(&s.id) }
}

func l01Calls(x *X, fault bool) {
	ops := lOps()
	op := ops[x.Pick(len(ops))]
	tk := x.Pick(len(bTokens))
	l := &lLoggers[x.Pick(len(lLoggers))]
	n := 16 + x.Pick(3)
	vt := virtualTime(x)
	what := fmt.Sprintf("%s (%s, logger: %s)", op.name, bTokens[tk], l.name)
	x.Logf("%s", what)
	s := newSink()
	type run struct{ res, stored, seen, calls string }
	one := func(logged bool) (r run) {
		resetEnv(x)
		execNumber-- // the same random stream in both runs
		if vt {
			setClock(x, time.Date(2030, 1, 2, 3, 4, 5, 0, time.UTC))
		}
		b := newB(x, "ref", 0)
		b.populate()
		b.st.Quiet = false
		call := b.lCall(op, tk)
		ctx := b.ctx
		var lg *zerolog.Logger
		if logged {
			ctx, lg = l.install(x, s)
			s.reset()
			b.watch(s)
		}
		nb := *b
		nb.ctx, nb.tk = ctx, tk
		b.st.Calls = nil
		b.st.Inject = fault && logged
		var res []any
		x.Guard(op.name, func() { call.err, res = op.run(&nb, n) })
		x.Op()
		b.st.Inject = false
		r.res = fmt.Sprintf("%v %s", call.err, render(res))
		for _, c := range b.st.Calls {
			r.calls += fmt.Sprintf("%s %d/%x:%d;", c.Op, c.Kind, c.ID, len(c.Data)) // access lists are encoded in random order
		}
		if logged {
			if l.level == zerolog.DebugLevel && l.name != "sampled" && len(s.lines) == 0 {
				x.Logf("%s logs nothing", op.name)
			}
			if l.level > zerolog.DebugLevel {
				for _, ln := range s.lines {
					if f := x.fields(ln.text); f[0].k == "level" && f[0].v == "debug" {
						x.Failf("level", "%s wrote a debug line: %s", what, ln.text)
					}
				}
			}
			if op.name == "Encrypt" && call.err == nil {
				call.oid = nb.oids[len(nb.oids)-1].String()
			}
			s.check(x, call, l.base)
			s.secretIn(x, &nb, what)
			x.State(op.name, tk, l.name, n, errName(call.err), len(s.lines))
			if !l.dflt && l.level != zerolog.Disabled && zerolog.Ctx(ctx) != lg {
				x.Failf("caller-ctx", "%s: the caller's context holds another logger afterwards", what)
			}
			s.callerLine(x, what, lg, l)
			zerolog.DefaultContextLogger = nil
		}
		b.p.on, b.idp.on = nil, nil
		for _, k := range strings.Split(b.records(), ";") {
			i := strings.IndexByte(k, '=')
			r.stored += fmt.Sprintf("%s:%d;", k[:i], len(k))
		}
		r.seen = b.observe()
		return
	}
	a := one(true)
	vsched.SetClock(time.Time{})
	if fault {
		return
	}
	c := one(false)
	vsched.SetClock(time.Time{})
	if !vt {
		a.stored, a.calls, a.res, c.stored, c.calls, c.res = "", "", "", "", "", ""
	}
	if a != c {
		x.Failf("result", "%s does not do what it does without a logger:\n%v\n%v", what, a, c)
	}
	x.Out("%s %v", op.name, strings.HasPrefix(a.res, "<nil>"))
}

func l01Sequences(x *X, depth int) {
	ops := lOps()
	l := &lLoggers[[]int{0, 1, 3, 9, 10, 11}[x.Pick(6)]]
	b := newB(x, "ref", 0)
	b.populate()
	s := newSink()
	ctx, lg := l.install(x, s)
	nb := *b
	nb.ctx = ctx
	b.watch(s)
	names := ""
	for i := 0; i < depth; i++ {
		k := x.Pick(2*len(ops) + 1)
		if k == 0 {
			break
		}
		op := ops[(k-1)/2]
		nb.tk = (k - 1) % 2
		s.reset()
		call := nb.lCall(op, nb.tk)
		no := len(nb.oids)
		call.err, _ = op.run(&nb, 2)
		x.Op()
		if op.name == "Encrypt" && call.err == nil && len(nb.oids) > no {
			call.oid = nb.oids[no].String()
		}
		names += op.name + ";"
		x.Logf("%s %v", op.name, call.err)
		s.check(x, call, l.base)
		s.secretIn(x, &nb, names)
		x.State(names, nb.tk, l.name, len(s.lines))
	}
	s.callerLine(x, names, lg, l)
}

// nestedWorld is a D1 instance and an index whose identity provider is the bundled one.
func (b *bWorld) nest() {
	kp := key.NewStatic(testKeys())
	d, err := d1.New(b.ctx, &kp, b.p, b.sa)
	b.must(err)
	ix, err := index.NewSecureIndex(b.ctx, &kp, b.p, b.sa)
	b.must(err)
	b.d, b.ix = &d, &ix
}

type lNest struct {
	name string
	run  func(b *bWorld, ctx context.Context, tok string, oid uuid.UUID) error
}

var lNests = []lNest{
	{"Encrypt", func(b *bWorld, ctx context.Context, tok string, _ uuid.UUID) error {
		_, err := b.d.Encrypt(ctx, tok, obj("pppppppp", "aaaa"))
		return err
	}},
	{"Decrypt", func(b *bWorld, ctx context.Context, tok string, oid uuid.UUID) error {
		_, err := b.d.Decrypt(ctx, tok, oid)
		return err
	}},
	{"Update", func(b *bWorld, ctx context.Context, tok string, oid uuid.UUID) error {
		return b.d.Update(ctx, tok, oid, obj("qqqqqqqq", "bbbb"))
	}},
	{"AuthorizeIdentity", func(b *bWorld, ctx context.Context, tok string, oid uuid.UUID) error {
		return b.d.AuthorizeIdentity(ctx, tok, oid)
	}},
	{"index.Add", func(b *bWorld, ctx context.Context, tok string, oid uuid.UUID) error {
		return b.ix.Add(ctx, tok, "kw"+oid.String(), "iiii")
	}},
	{"index.Search", func(b *bWorld, ctx context.Context, tok string, _ uuid.UUID) error {
		_, err := b.ix.Search(ctx, tok, "kw")
		return err
	}},
	{"GetIdentity", func(b *bWorld, ctx context.Context, tok string, _ uuid.UUID) error {
		_, err := b.sa.GetIdentity(ctx, tok)
		return err
	}},
}

// nestSetup makes users with all scopes, each with an object of its own.
func (b *bWorld) nestSetup(n int) (toks []string, oids []uuid.UUID, uids []string) {
	b.nest()
	for i := 0; i < n; i++ {
		u, pw, err := b.sa.NewUser(b.ctx, id.ScopeAll)
		b.must(err)
		t, _, err := b.sa.LoginUser(b.ctx, u, pw)
		b.must(err)
		_, err = b.sa.NewGroup(b.ctx, t, id.ScopeAll)
		b.must(err)
		o, err := b.d.Encrypt(b.ctx, t, obj("pppppppp", "aaaa"))
		b.must(err)
		toks, oids, uids = append(toks, t), append(oids, o), append(uids, u)
	}
	return
}

func (n *lNest) call(uid string, oid uuid.UUID, tid int) *lCall {
	c := &lCall{op: &bOp{name: n.name}, tid: tid, nest: n.name != "GetIdentity", also: map[string]bool{uid: true}}
	if c.nest {
		c.uid = uid
		if !strings.HasPrefix(n.name, "index.") {
			c.oid = oid.String()
			if n.name == "Encrypt" {
				c.oid = "?"
			}
		}
	}
	return c
}

func l01Nested(x *X) {
	b := newB(x, "ref", 0)
	toks, oids, uids := b.nestSetup(2)
	l := &lLoggers[x.Pick(6)]
	s := newSink()
	ctx, lg := l.install(x, s)
	for i := 0; i < 2; i++ {
		n := &lNests[x.Pick(len(lNests))]
		u := x.Pick(2)
		s.reset()
		err := n.run(b, ctx, toks[u], oids[u])
		x.Op()
		x.Logf("%s by %d: %v", n.name, u, err)
		if err != nil {
			x.Failf("nested", "%s: %v", n.name, err)
		}
		s.check(x, n.call(uids[u], oids[u], 0), l.base)
		x.State(n.name, i, u, l.name, len(s.lines))
	}
	s.callerLine(x, "nested calls", lg, l)
}

func l01NestedPairs(x *X) {
	i := x.Pick(len(lNests))
	j := i + x.Pick(len(lNests)-i)
	l := &lLoggers[[]int{1, 4}[x.Pick(2)]]
	b := newB(x, "ref", 0)
	toks, oids, uids := b.nestSetup(2)
	s := newSink()
	ctx, lg := l.install(x, s)
	ns := []*lNest{&lNests[i], &lNests[j]}
	calls := make([]*lCall, 2)
	var fs []func()
	for k := range ns {
		k := k
		fs = append(fs, func() {
			calls[k] = ns[k].call(uids[k], oids[k], vsched.ThreadID())
			calls[k].err = ns[k].run(b, ctx, toks[k], oids[k])
			x.Op()
		})
	}
	x.Par(fs...)
	for k, c := range calls {
		if c.err != nil {
			x.Failf("nested", "%s: %v", ns[k].name, c.err)
		}
		s.check(x, c, l.base)
	}
	x.State(i, j, l.name, len(s.lines))
	s.callerLine(x, ns[0].name+" || "+ns[1].name, lg, l)
}

func l01Pairs(x *X, all bool) {
	ops := lOps()
	i := x.Pick(len(ops))
	j := i + x.Pick(len(ops)-i)
	l := &lLoggers[1]
	if all {
		l = &lLoggers[[]int{1, 0, 4, 10}[x.Pick(4)]]
	}
	b := newB(x, "ref", 0)
	b.populate()
	s := newSink()
	ctx, lg := l.install(x, s)
	b.watch(s)
	b.st.YieldOn = true
	idx := []int{i, j}
	calls := make([]*lCall, 2)
	views := make([]*bWorld, 2)
	var fs []func()
	for k := range idx {
		k := k
		v := *b
		v.bufs = &bufs{x: x}
		v.ctx, v.tk = ctx, k // owner and stranger
		v.oids = append([]uuid.UUID{}, b.oids...)
		views[k] = &v
		calls[k] = v.lCall(ops[idx[k]], k)
		fs = append(fs, func() {
			calls[k].tid = vsched.ThreadID()
			no := len(v.oids)
			calls[k].err, _ = ops[idx[k]].run(&v, 2)
			if calls[k].op.name == "Encrypt" && len(v.oids) > no {
				calls[k].oid = v.oids[no].String()
			}
			x.Op()
		})
	}
	x.Par(fs...)
	b.st.YieldOn = false
	x.Logf("%s || %s", ops[i].name, ops[j].name)
	for _, c := range calls {
		s.check(x, c, l.base)
	}
	x.State(i, j, l.name, len(s.lines), errName(calls[0].err), errName(calls[1].err))
	x.Out("%s||%s", ops[i].name, ops[j].name)
	b.p.on, b.idp.on = nil, nil
	s.callerLine(x, ops[i].name+" || "+ops[j].name, lg, l)
}
