package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"
	d1io "github.com/cybercryptio/d1-lib/v2/io"
)

func init() {
	register(&Prop{
		ID: "D06", Level: "fault_enumeration",
		Rule: "Every object operation from every state of a short history, with every subset of up to the bound of its storage calls failing before or after taking effect, or the process stopping there, with plain and wrapped provider errors; " +
			"afterwards the object and a bystander are compared with their old and intended states through a fresh instance and directly in storage, and the operation is repeated. States are distinct (operation, fault set, outcome).",
		Assume: []string{"Two storage calls are not atomic together: an Update interrupted between its two writes is a known finding (known_findings.txt)."},
		Scenarios: func(th bool) []*Scenario {
			f := 2
			if th {
				f = 3
			}
			return []*Scenario{
				{Name: "faults", Body: func(x *X) { d06Faults(x, false, th) }, Faults: f, Shard: 3},
				{Name: "crashes", Body: func(x *X) { d06Faults(x, true, th) }, Faults: 1, Shard: 3},
				{Name: "errors", Body: d06Errors},
				{Name: "states", Body: d06States},
				{Name: "partial-read", Body: d06PartialRead},
			}
		},
	})
	register(&Prop{
		ID: "D07", Level: "model_checking",
		Rule: "All sequences of creations, updates and deletions up to the depth in which every generated ID may be made to collide with any earlier one, in every storage shape of the earlier object (whole, object only, access list only, gone), on every provider; " +
			"freshness, version and randomness of the IDs of long creation sequences. States are distinct storage shapes.",
		Scenarios: func(th bool) []*Scenario {
			return []*Scenario{
				{Name: "collide", Body: func(x *X) { d07Collide(x, "ref", 3) }, Shard: 3},
				{Name: "collide-mem", Body: func(x *X) { d07Collide(x, "mem", 3) }, Shard: 3},
				{Name: "collide-bolt", Body: func(x *X) { d07Collide(x, "bolt", 1) }, Shard: 3},
				{Name: "shapes", Body: d07Shapes},
				{Name: "fresh", Body: d07Fresh},
				{Name: "rng-failure", Body: d07Rng},
			}
		},
	})
}

// objState describes an object as seen through an instance by its owner.
func objState(d *d1.D1, ctx context.Context, tok string, oid uuid.UUID) string {
	o, err := d.Decrypt(ctx, tok, oid)
	g, err2 := d.GetAccessGroups(ctx, tok, oid)
	if err != nil {
		return fmt.Sprintf("decrypt: %s; list: %s %s", errName(err), setOf(g), errName(err2))
	}
	return fmt.Sprintf("%q/%q list %s %s", o.Plaintext, o.AssociatedData, setOf(g), errName(err2))
}

var d06Ops = []struct {
	name string
	run  func(d *d1.D1, ctx context.Context, tok string, oid uuid.UUID) opResult
	want func(pt, ad string, list map[string]struct{}) string
}{
	{"Encrypt", dOps[0].run, nil},
	{"Decrypt", dOps[1].run, nil},
	{"Update", dOps[2].run, func(pt, ad string, l map[string]struct{}) string {
		return fmt.Sprintf("%q/%q list %s ok", "updated", "updatedmeta", setOf(l))
	}},
	{"Delete", dOps[3].run, nil},
	{"GetAccessGroups", dOps[4].run, nil},
	{"AddGroupsToAccess", dOps[5].run, func(pt, ad string, l map[string]struct{}) string {
		l = copySet(l)
		l["added"] = struct{}{}
		return fmt.Sprintf("%q/%q list %s ok", pt, ad, setOf(l))
	}},
	{"RemoveGroupsFromAccess", dOps[6].run, func(pt, ad string, l map[string]struct{}) string {
		l = copySet(l)
		delete(l, "removable")
		return fmt.Sprintf("%q/%q list %s ok", pt, ad, setOf(l))
	}},
	{"AuthorizeIdentity", dOps[7].run, nil},
}

const goneState = "decrypt: access-not-found; list: {} access-not-found"
const halfGone = "decrypt: object-not-found; list: "

func d06Faults(x *X, crash, th bool) {
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	member := w.idp.User("member", id.ScopeAll, id.AccessGroup{ID: "grp", Scopes: id.ScopeAll})
	list := setFrom("owner", "grp", "removable")
	pt, ad := "secret", "meta"
	oid, err := w.d.Encrypt(w.ctx, owner, obj(pt, ad), "grp", "removable")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	other, err := w.d.Encrypt(w.ctx, owner, obj("other", "othermeta"), "grp")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	// a short prefix of successful work
	for i := 0; i < 2; i++ {
		switch x.Pick(4) {
		case 0:
			i = 2
		case 1:
			pt, ad = fmt.Sprint("v", i), "meta2"
			err = w.d.Update(w.ctx, member, oid, obj(pt, ad))
		case 2:
			list["x"] = struct{}{}
			err = w.d.AddGroupsToAccess(w.ctx, member, oid, "x")
		case 3:
			delete(list, "removable")
			err = w.d.RemoveGroupsFromAccess(w.ctx, owner, oid, "removable")
		}
		if err != nil {
			x.Failf("setup", "%v", err)
		}
	}
	op := d06Ops[x.Pick(len(d06Ops))]
	tok := []string{owner, member}[x.Pick(2)]
	w.st.Wrap = x.Bool()
	fresh := func() *d1.D1 { return w.Instance(w.st) }
	old := objState(fresh(), w.ctx, owner, oid)
	otherState := objState(fresh(), w.ctx, owner, other)
	warm := x.Bool() // the instance has seen the object just before, and goes on after the failure
	if warm {
		objState(w.d, w.ctx, owner, oid)
		objState(w.d, w.ctx, member, oid)
	}
	before := w.st.Clone()
	intended := old
	if op.want != nil {
		intended = op.want(pt, ad, list)
	}
	if op.name == "Delete" {
		intended = goneState
	}
	d := w.d
	w.st.Crashes = crash
	w.st.Inject = true
	n := len(w.st.Calls)
	var r opResult
	crashed := Crashable(func() { x.Guard(op.name, func() { r = op.run(d, w.ctx, tok, oid) }) })
	w.st.Inject = false
	faulted := len(w.st.Faulted) > 0
	x.Op()
	x.Logf("%s by %s: %v crashed=%v", op.name, tok, r.err, crashed)
	if crashed {
		w.st.Restart()
	}
	if !faulted {
		if r.err != nil {
			x.Failf("clean:"+op.name, "%s failed without any storage failure: %v", op.name, r.err)
		}
	} else if !crashed {
		if r.err == nil {
			x.Failf("swallowed:"+op.name, "%s reported success although storage failed: %v", op.name, w.st.Faulted)
		}
		if !errors.Is(r.err, errInjected) {
			x.Failf("masked:"+op.name, "the error of %s does not carry the storage failure %v: %v", op.name, w.st.Faulted, r.err)
		}
		if notFound(r.err) || errors.Is(r.err, d1.ErrObjectAlreadyExists) || errors.Is(r.err, d1.ErrAccessAlreadyExists) ||
			errors.Is(r.err, d1.ErrNotAuthorized) || errors.Is(r.err, d1.ErrNotAuthenticated) {
			x.Failf("misreported:"+op.name, "%s reports a storage failure as %v", op.name, r.err)
		}
		if !r.zero {
			x.Failf("data:"+op.name, "%s failed but returned data or an ID: %+v", op.name, r)
		}
	}
	if warm && !crashed {
		for _, t := range []string{owner, member} {
			for _, o := range []uuid.UUID{oid, other} {
				if a, b := objState(w.d, w.ctx, t, o), objState(fresh(), w.ctx, t, o); a != b {
					x.Failf("instance:"+op.name, "after a failed %s (%v) the instance that ran it sees %s, another one %s", op.name, w.st.Faulted, a, b)
				}
			}
		}
	}
	// other objects
	if s := objState(fresh(), w.ctx, owner, other); s != otherState {
		x.Failf("bystander:"+op.name, "%s on one object changed another: %s, was %s", op.name, s, otherState)
	}
	for k, v := range before.m {
		if k.id == string(other.Bytes()) && !bytes.Equal(w.st.m[k], v) {
			x.Failf("bystander-bytes:"+op.name, "%s rewrote another object's record", op.name)
		}
	}
	torn := false
	if op.name == "Encrypt" {
		// the new object's records are the only difference
		for k, v := range before.m {
			if !bytes.Equal(w.st.m[k], v) {
				x.Failf("create-overwrites", "Encrypt changed existing record %v", k)
			}
		}
		if s := objState(fresh(), w.ctx, owner, oid); s != old {
			x.Failf("create-state", "Encrypt changed another object: %s", s)
		}
	} else {
		s := objState(fresh(), w.ctx, owner, oid)
		switch {
		case s == old || s == intended:
		case op.name == "Delete" && strings.HasPrefix(s, halfGone) && strings.HasSuffix(s, "ok"):
			// deletion under way: the object is gone for readers and can be deleted completely
		case op.name == "Update" && tornUpdate(w.st, before, oid):
			torn = true
			x.Note("update-torn-between-writes", "Update interrupted between its two writes leaves the object unreadable: %s (%v)", s, w.st.Faulted)
		default:
			x.Failf("state:"+op.name, "after a failed %s (%v) the object is %s; before it was %s, intended %s", op.name, w.st.Faulted, s, old, intended)
		}
		if r.err == nil && !crashed && s != intended {
			x.Failf("success-state:"+op.name, "%s succeeded but the object is %s, want %s", op.name, s, intended)
		}
	}
	for k := range w.st.m {
		if k.id == string(oid.Bytes()) || k.id == string(other.Bytes()) {
			continue
		}
		if op.name != "Encrypt" {
			x.Failf("stray:"+op.name, "%s stored a record under a foreign ID %v", op.name, k)
		}
	}
	x.State(op.name, tok, w.st.Wrap, strings.Join(faultNames(w.st.Faulted), ","), w.st.Shape() == before.Shape(), torn)
	x.Out("%s %s %v %s", op.name, errName(r.err), crashed, strings.Join(faultNames(w.st.Faulted), ","))
	// repeating it on working storage
	if !warm {
		d = fresh()
	}
	x.Guard(op.name, func() { r = op.run(d, w.ctx, tok, oid) })
	x.Op()
	if r.err != nil {
		if !(op.name == "Decrypt" && torn) {
			x.Failf("repeat:"+op.name, "repeating %s on working storage failed: %v (first attempt: %v)", op.name, r.err, w.st.Faulted)
		}
		return
	}
	switch {
	case op.name == "Encrypt":
		if s := objState(fresh(), w.ctx, tok, r.oid); !strings.HasPrefix(s, `"new"/"newmeta"`) {
			x.Failf("repeat-state", "the repeated Encrypt produced %s", s)
		}
	case op.want != nil || op.name == "Delete":
		if s := objState(fresh(), w.ctx, owner, oid); s != intended {
			x.Failf("repeat-state:"+op.name, "after repeating %s the object is %s, want %s", op.name, s, intended)
		}
	}
	_ = n
}

func faultNames(f []string) (r []string) {
	for _, s := range f {
		w := strings.Fields(s)
		kind := w[1][:1]
		r = append(r, w[0]+kind+" "+strings.Join(w[2:], " "))
	}
	return
}

// tornUpdate recognises exactly the known anomaly: the object record is the new one, the access
// record is the one from before.
func tornUpdate(now, before *Store, oid uuid.UUID) bool {
	o, a := oidKey(0, oid), oidKey(1, oid)
	return now.m[o] != nil && !bytes.Equal(now.m[o], before.m[o]) && bytes.Equal(now.m[a], before.m[a]) && len(now.m) == len(before.m)
}

// Error values of every kind come back to the caller.
type customError struct{ code int }

func (c *customError) Error() string { return fmt.Sprint("custom ", c.code) }

type failingProvider struct {
	*Store
	at  int
	n   int
	err error
	ok  bool // the call takes effect
	on  func()
}

func (f *failingProvider) hit() bool {
	f.n++
	if f.n == f.at && f.on != nil {
		f.on()
	}
	return f.n == f.at
}

// failureKinds are the errors a provider may fail with: all of them are failures.
func failureKinds() []error {
	custom := &customError{7}
	return []error{errors.New("disk on fire"), context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, custom,
		fmt.Errorf("layer: %w", custom), fmt.Errorf("not found"), errors.New("already exists"), fmt.Errorf("layer: %w", context.DeadlineExceeded)}
}

func (f *failingProvider) Put(ctx context.Context, id []byte, k d1io.DataType, b []byte) error {
	if f.hit() {
		if f.ok {
			f.Store.Put(ctx, id, k, b)
		}
		return f.err
	}
	return f.Store.Put(ctx, id, k, b)
}
func (f *failingProvider) Get(ctx context.Context, id []byte, k d1io.DataType) ([]byte, error) {
	if f.hit() {
		if f.ok { // data together with an error
			b, _ := f.Store.Get(ctx, id, k)
			return b, f.err
		}
		return nil, f.err
	}
	return f.Store.Get(ctx, id, k)
}
func (f *failingProvider) Update(ctx context.Context, id []byte, k d1io.DataType, b []byte) error {
	if f.hit() {
		if f.ok {
			f.Store.Update(ctx, id, k, b)
		}
		return f.err
	}
	return f.Store.Update(ctx, id, k, b)
}
func (f *failingProvider) Delete(ctx context.Context, id []byte, k d1io.DataType) error {
	if f.hit() {
		if f.ok {
			f.Store.Delete(ctx, id, k)
		}
		return f.err
	}
	return f.Store.Delete(ctx, id, k)
}

func d06Errors(x *X) {
	op := dOps[x.Pick(len(dOps))]
	at := 1 + x.Pick(3)
	errs := append(failureKinds(), d1.ErrNotAuthorized)
	e := errs[x.Pick(len(errs))]
	took := x.Bool()
	cancelled := x.Pick(3) // the caller's context ends with the failure, or before the operation
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	oid, err := w.d.Encrypt(w.ctx, owner, obj("secret", "meta"), "removable")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	ctx, cancel := context.WithCancel(w.ctx)
	f := &failingProvider{Store: w.st, at: at, err: e, ok: took}
	switch cancelled {
	case 1:
		f.on = cancel
	case 2:
		cancel()
	}
	d := w.Instance(f)
	var r opResult
	x.Guard(op.name, func() { r = op.run(d, ctx, owner, oid) })
	cancel()
	x.Op()
	x.Logf("%s with call %d failing with %v: %v", op.name, at, e, r.err)
	x.State(op.name, at, e, took, cancelled)
	if f.n < at {
		if r.err != nil && !(cancelled == 2 && errors.Is(r.err, context.Canceled)) {
			x.Failf("clean", "%s failed without a failing call: %v", op.name, r.err)
		}
		return
	}
	if r.err == nil {
		x.Failf("swallowed:"+op.name, "%s succeeded although its storage call %d failed with %v", op.name, at, e)
	}
	if !errors.Is(r.err, e) {
		x.Failf("masked:"+op.name, "%s reports %v where storage failed with %v", op.name, r.err, e)
	}
	var c *customError
	if errors.As(e, &c) != errors.As(r.err, &c) {
		x.Failf("masked-type:"+op.name, "the failure's type is lost: %v", r.err)
	}
	if !r.zero {
		x.Failf("data:"+op.name, "%s failed but returned data: %+v", op.name, r)
	}
	x.Out("%s %d", op.name, at)
}

// The documented errors appear exactly when storage says so, wrapped or not.
func d06States(x *X) {
	op := dOps[x.Pick(len(dOps))]
	shape := x.Pick(4)
	w := NewWorld(x)
	w.st.Wrap = x.Bool()
	owner := w.idp.User("owner", id.ScopeAll)
	oid, err := w.d.Encrypt(w.ctx, owner, obj("secret", "meta"), "removable")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	if shape&1 != 0 {
		delete(w.st.m, oidKey(0, oid))
	}
	if shape&2 != 0 {
		delete(w.st.m, oidKey(1, oid))
	}
	if op.name == "Encrypt" {
		uuids.forced = []uuid.UUID{oid}
	}
	r := op.run(w.d, w.ctx, owner, oid)
	x.Op()
	want := "ok"
	hasO, hasA := shape&1 == 0, shape&2 == 0
	switch op.name {
	case "Encrypt":
		if hasO {
			want = "object-exists"
		} else if hasA {
			want = "access-exists"
		}
	case "Delete":
	case "Decrypt", "Update":
		if !hasA {
			want = "access-not-found"
		} else if !hasO {
			want = "object-not-found"
		}
	default:
		if !hasA {
			want = "access-not-found"
		}
	}
	x.State(op.name, shape, w.st.Wrap)
	x.Out("%s %d %s", op.name, shape, want)
	// either part may be looked at first: what counts is that a missing part is reported as missing
	got := errName(r.err)
	same := got == want || strings.HasSuffix(want, "-exists") && hasO && hasA && strings.HasSuffix(got, "-exists") ||
		strings.HasSuffix(want, "-not-found") && !hasA && !hasO && strings.HasSuffix(got, "-not-found")
	if !same {
		x.Failf("error:"+op.name, "%s with object stored=%v access stored=%v (wrapped errors: %v) returned %v, want %s", op.name, hasO, hasA, w.st.Wrap, r.err, want)
	}
	if want != "ok" && !r.zero {
		x.Failf("data:"+op.name, "%s failed but returned %+v", op.name, r)
	}
}

// A provider that returns part of the data with its error.
type truncating struct {
	*Store
	n   int
	at  int
	cut int
}

func (t *truncating) Get(ctx context.Context, id []byte, k d1io.DataType) ([]byte, error) {
	b, err := t.Store.Get(ctx, id, k)
	t.n++
	if t.n == t.at && err == nil {
		return b[:len(b)*t.cut/4], errInjected
	}
	return b, err
}

func d06PartialRead(x *X) {
	op := dOps[1+x.Pick(7)]
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	oid, err := w.d.Encrypt(w.ctx, owner, obj("secret", "meta"), "removable")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	t := &truncating{Store: w.st, at: 1 + x.Pick(2), cut: x.Pick(5)}
	before := w.st.Snapshot()
	r := op.run(w.Instance(t), w.ctx, owner, oid)
	x.Op()
	if t.n >= t.at && !errors.Is(r.err, errInjected) {
		x.Failf("swallowed:"+op.name, "%s returned %v although a read failed part way", op.name, r.err)
	}
	if t.n >= t.at && (!r.zero || w.st.Snapshot() != before) {
		x.Failf("effect:"+op.name, "%s failed in a read but changed storage or returned data", op.name)
	}
	x.State(op.name, t.at, t.cut)
}

// ---- D07 ---------------------------------------------------------------------------

func d07Collide(x *X, prov string, depth int) {
	w := NewWorld(x)
	p := makeProvider(x, prov)
	d := w.Instance(p)
	alice := w.idp.User("alice", id.ScopeAll)
	mallory := w.idp.User("mallory", id.ScopeAll)
	type o struct {
		oid  uuid.UUID
		tok  string
		pt   string
		list map[string]struct{}
		gone bool
	}
	var objs []*o
	ctr := 0
	create := func(tok string) {
		ctr++
		n := &o{tok: tok, pt: fmt.Sprint("content", ctr), list: setFrom(tok[2:], "grp")}
		forced := x.Pick(len(objs) + 1)
		if forced > 0 {
			uuids.forced = []uuid.UUID{objs[forced-1].oid}
		}
		calls := uuids.calls
		got, err := d.Encrypt(w.ctx, tok, obj(n.pt, "m"), "grp")
		x.Op()
		uuids.forced = nil
		x.Logf("create by %s colliding with %d: %v", tok, forced-1, err)
		if forced > 0 && !objs[forced-1].gone {
			if err == nil && uuids.calls > calls+1 {
				// it picked another ID instead: fine as long as that is a free one
				for _, old := range objs {
					if old.oid == got && !old.gone {
						x.Failf("reused", "Encrypt returned an ID that is in use")
					}
				}
			} else {
				if !errors.Is(err, d1.ErrObjectAlreadyExists) && !errors.Is(err, d1.ErrAccessAlreadyExists) {
					x.Failf("collision-error", "Encrypt picked an ID in use and returned %v", err)
				}
				if got != uuid.Nil {
					x.Failf("collision-id", "a failed Encrypt returned an ID")
				}
				return
			}
		} else if err != nil {
			x.Failf("create", "Encrypt with a free ID failed: %v", err)
		}
		for _, old := range objs {
			if old.oid == got && !old.gone {
				x.Failf("duplicate", "Encrypt returned an ID twice")
			}
		}
		kept := objs[:0:0]
		for _, old := range objs {
			if old.oid != got {
				kept = append(kept, old)
			}
		}
		n.oid = got
		objs = append(kept, n)
	}
	create(alice)
	for i := 0; i < depth; i++ {
		c := x.Pick(5)
		switch c {
		case 0:
			i = depth
		case 1:
			create(mallory)
		case 2:
			create(alice)
		case 3:
			if err := d.Delete(w.ctx, objs[0].tok, objs[0].oid); err != nil {
				x.Failf("delete", "%v", err)
			}
			objs[0].gone = true
		case 4:
			err := d.Update(w.ctx, objs[0].tok, objs[0].oid, obj("up", "m"))
			if (err == nil) == objs[0].gone {
				x.Failf("update", "%v", err)
			}
			if err == nil {
				objs[0].pt = "up"
			}
		}
	}
	create(mallory)
	st := ""
	for _, ob := range objs {
		if ob.gone {
			gone(x, "gone", w, d, p, ob.oid, ob.tok)
			continue
		}
		got, err := d.Decrypt(w.ctx, ob.tok, ob.oid)
		checkObj(x, "kept", got, err, []byte(ob.pt), []byte("m"))
		wantList(x, "list", p, ob.oid, ob.list)
		other := alice
		if ob.tok == alice {
			other = mallory
		}
		if _, err := d.Decrypt(w.ctx, other, ob.oid); !errors.Is(err, d1.ErrNotAuthorized) {
			x.Failf("foreign", "%s can reach an object of %s: %v", other, ob.tok, err)
		}
		st += ob.tok + ob.pt + ";"
	}
	x.State(prov, st)
	x.Out("%s", st)
}

// Collisions with every partial shape, every creator, every provider.
func d07Shapes(x *X) {
	prov := []string{"ref", "mem", "bolt"}[x.Pick(3)]
	shape := x.Pick(4)
	w := NewWorld(x)
	p := makeProvider(x, prov)
	d := w.Instance(p)
	alice := w.idp.User("alice", id.ScopeAll)
	tok := []string{alice, w.idp.User("mallory", id.ScopeAll)}[x.Pick(2)]
	oid, err := d.Encrypt(w.ctx, alice, obj("secret", "meta"), "grp")
	if err != nil {
		x.Failf("setup", "%v", err)
	}
	if shape&1 != 0 {
		p.Delete(w.ctx, oid.Bytes(), d1io.DataTypeSealedObject)
	}
	if shape&2 != 0 {
		p.Delete(w.ctx, oid.Bytes(), d1io.DataTypeSealedAccess)
	}
	get := func(k d1io.DataType) string {
		b, err := p.Get(w.ctx, oid.Bytes(), k)
		return fmt.Sprintf("%x %v", b, err)
	}
	o, a := get(0), get(1)
	uuids.forced = []uuid.UUID{oid}
	got, err := d.Encrypt(w.ctx, tok, obj("mine", "m"), "evil")
	x.Op()
	x.Logf("%s shape %d: Encrypt by %s returned %v", prov, shape, tok, err)
	x.State(prov, shape, tok)
	x.Out("%d %s", shape, errName(err))
	if shape == 3 {
		if err != nil {
			x.Failf("free", "Encrypt under the ID of a deleted object failed: %v", err)
		}
		r, err := d.Decrypt(w.ctx, tok, got)
		checkObj(x, "free", r, err, []byte("mine"), []byte("m"))
		return
	}
	if err == nil && got != oid {
		return // picked another ID
	}
	if err == nil {
		x.Failf("overwritten", "Encrypt succeeded under an ID in use (shape %d)", shape)
	}
	if got != uuid.Nil || !errors.Is(err, d1.ErrObjectAlreadyExists) && !errors.Is(err, d1.ErrAccessAlreadyExists) {
		x.Failf("error", "Encrypt under an ID in use returned %v %v", got, err)
	}
	if get(1) != a {
		x.Failf("access", "the access list in use was changed by a failed creation")
	}
	if shape&1 == 0 && get(0) != o {
		x.Failf("object", "the object in use was changed by a failed creation")
	}
	if shape == 0 {
		r, err := d.Decrypt(w.ctx, alice, oid)
		checkObj(x, "kept", r, err, []byte("secret"), []byte("meta"))
	} else if r, err := d.Decrypt(w.ctx, tok, oid); err == nil {
		x.Failf("readable", "a failed creation left something readable: %q", r.Plaintext)
	}
	if shape&2 == 0 {
		if err := d.Delete(w.ctx, alice, oid); err != nil {
			x.Failf("delete", "the object can no longer be deleted: %v", err)
		}
	}
}

func d07Fresh(x *X) {
	n := []int{1, 10, 300}[x.Pick(3)]
	uuid.DefaultGenerator = uuid.NewGen()
	w := NewWorld(x)
	d2 := w.Instance(w.st)
	tok := w.idp.User("u", id.ScopeAll)
	rng.Record()
	seen := map[uuid.UUID]bool{}
	for i := 0; i < n; i++ {
		d := w.d
		if i%2 == 1 {
			d = d2
		}
		oid, err := d.Encrypt(w.ctx, tok, obj("same", "same"))
		x.Op()
		if err != nil {
			x.Failf("create", "%v", err)
		}
		if oid.Version() != 4 || oid.Variant() != uuid.VariantRFC4122 {
			x.Failf("version", "object ID %v is not a random version 4 UUID", oid)
		}
		if seen[oid] {
			x.Failf("repeated", "object ID %v was handed out twice", oid)
		}
		seen[oid] = true
		if !drawnUUID(oid) {
			x.Failf("random", "object ID %v does not consist of bytes from the random source", oid)
		}
		if oid.String() == uuid.Nil.String() {
			x.Failf("nil", "nil ID")
		}
		x.State(n, i)
	}
}

// drawnUUID reports whether the free 122 bits of u were drawn in one piece from the random source.
func drawnUUID(u uuid.UUID) bool {
	for i := 0; i+16 <= len(rng.rec); i++ {
		d := rng.rec[i : i+16]
		ok := true
		for j := range d {
			m := byte(0xff)
			switch j {
			case 6:
				m = 0x0f
			case 8:
				m = 0x3f
			}
			if d[j]&m != u[j]&m {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// A failing random source (of the IDs; the standard library ends the process when its own fails): no
// ID, nothing stored, and the next creation works.
func d07Rng(x *X) {
	w := NewWorld(x)
	tok := w.idp.User("u", id.ScopeAll)
	if _, err := w.d.Encrypt(w.ctx, tok, obj("a", "b")); err != nil {
		x.Failf("setup", "%v", err)
	}
	before := w.st.Snapshot()
	uuids.fail = 1 + x.Pick(3)
	calls := uuids.calls
	oid, err := w.d.Encrypt(w.ctx, tok, obj("secret", "meta"), "grp")
	x.Op()
	x.State(uuids.fail)
	if uuids.calls == calls {
		return
	}
	if err != nil {
		if oid != uuid.Nil {
			x.Failf("rng", "a failed Encrypt returned the ID %v", oid)
		}
		if w.st.Snapshot() != before {
			x.Failf("rng-stored", "Encrypt stored something although no ID could be generated")
		}
	} else if uuids.fail > 0 || oid == uuid.Nil {
		x.Failf("rng", "Encrypt succeeded with ID %v although the random source failed", oid)
	}
	uuids.fail = 0
	oid, err = w.d.Encrypt(w.ctx, tok, obj("secret", "meta"))
	if err != nil || oid == uuid.Nil {
		x.Failf("after", "Encrypt after a failure of the random source: %v %v", oid, err)
	}
	_, o := w.st.m[oidKey(0, oid)]
	_, n := w.st.m[oidKey(0, uuid.Nil)]
	if !o || n {
		x.Failf("after-id", "records are stored as %s", w.st.Shape())
	}
}
