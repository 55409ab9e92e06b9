package main

import (
	_ "embed"
	"encoding/json"
	"errors"
	"fmt"
	"os"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
)

// goldenJSON is storage written by the library at the original commit, with the standard test keys.
//
//go:embed golden.json
var goldenJSON []byte

type goldenRec struct {
	Kind io.DataType
	ID   []byte
	Data []byte
}

type goldenData struct {
	Records []goldenRec
	OIDs    []string
	User    string
	Pw      string
	Group   string
	NewPw   string
}

// writeGolden produces golden.json (only run by hand: MC_GOLDEN=FILE).
func writeGolden(x *X, path string) {
	w := NewWorld(x)
	var g goldenData
	owner := w.idp.User("owner", id.ScopeAll)
	idx := w.Index(w.st)
	sa := w.Standalone(w.st)
	must := func(err error) {
		if err != nil {
			x.Failf("golden", "%v", err)
		}
	}
	o1, err := w.d.Encrypt(w.ctx, owner, obj("golden plaintext", "golden associated data"), "team")
	must(err)
	o2, err := w.d.Encrypt(w.ctx, owner, obj("before", "before"))
	must(err)
	must(w.d.Update(w.ctx, owner, o2, obj("after", "")))
	must(w.d.AddGroupsToAccess(w.ctx, owner, o2, "added"))
	for _, s := range []string{"one", "two", "three", "two"} {
		must(idx.Add(w.ctx, owner, "keyword", s))
	}
	must(idx.Delete(w.ctx, owner, "keyword", "one"))
	g.OIDs = []string{o1.String(), o2.String()}
	g.User, g.Pw, err = sa.NewUser(w.ctx, id.ScopeDecrypt|id.ScopeIndex)
	must(err)
	t, _, err := sa.LoginUser(w.ctx, g.User, g.Pw)
	must(err)
	g.Group, err = sa.NewGroup(w.ctx, t, id.ScopeDelete)
	must(err)
	for k, v := range w.st.m {
		g.Records = append(g.Records, goldenRec{k.kind, []byte(k.id), v})
	}
	b, _ := json.MarshalIndent(g, "", " ")
	must(os.WriteFile(path, b, 0o644))
}

func s03Golden(x *X) {
	if p := os.Getenv("MC_GOLDEN"); p != "" {
		writeGolden(x, p)
		return
	}
	part := x.Pick(4)
	var g goldenData
	if err := json.Unmarshal(goldenJSON, &g); err != nil {
		x.Failf("harness", "%v", err)
	}
	w := NewWorld(x)
	owner := w.idp.User("owner", id.ScopeAll)
	for _, r := range g.Records {
		w.st.m[rkey{r.Kind, string(r.ID)}] = r.Data
	}
	x.Op()
	switch part {
	case 0:
		o1, o2 := uuid.Must(uuid.FromString(g.OIDs[0])), uuid.Must(uuid.FromString(g.OIDs[1]))
		got, err := w.d.Decrypt(w.ctx, owner, o1)
		checkObj(x, "golden-object", got, err, []byte("golden plaintext"), []byte("golden associated data"))
		got, err = w.d.Decrypt(w.ctx, owner, o2)
		checkObj(x, "golden-updated", got, err, []byte("after"), []byte(""))
		l, err := w.d.GetAccessGroups(w.ctx, owner, o1)
		if err != nil || setOf(l) != setOf(setFrom("owner", "team")) {
			x.Failf("golden-list", "%v %s", err, setOf(l))
		}
		l, err = w.d.GetAccessGroups(w.ctx, owner, o2)
		if err != nil || setOf(l) != setOf(setFrom("owner", "added")) {
			x.Failf("golden-list", "%v %s", err, setOf(l))
		}
		if err := w.d.AuthorizeIdentity(w.ctx, w.idp.User("stranger", id.ScopeAll), o1); !errors.Is(err, d1.ErrNotAuthorized) {
			x.Failf("golden-auth", "%v", err)
		}
	case 1:
		got, err := w.Index(w.st).Search(w.ctx, owner, "keyword")
		if err != nil || fmt.Sprint(got) != "[two three two]" {
			x.Failf("golden-index", "an index of an earlier release reads as %q %v", got, err)
		}
	case 2:
		sa := w.Standalone(w.st)
		t, _, err := sa.LoginUser(w.ctx, g.User, g.Pw)
		if err != nil {
			x.Failf("golden-login", "a user of an earlier release cannot log in: %v", err)
		}
		ident, err := sa.GetIdentity(w.ctx, t)
		if err != nil || ident.ID != g.User || ident.Scopes != id.ScopeDecrypt|id.ScopeIndex || len(ident.Groups) != 1 || ident.Groups[g.Group].Scopes != id.ScopeDelete {
			x.Failf("golden-identity", "%+v %v", ident, err)
		}
	case 3:
		sa := w.Standalone(w.st)
		if _, _, err := sa.LoginUser(w.ctx, g.User, g.Pw+"x"); !errors.Is(err, id.ErrNotAuthenticated) {
			x.Failf("golden-wrong", "%v", err)
		}
	}
	x.State(part)
	x.Out("%d", part)
}
