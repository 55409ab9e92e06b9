package main

import (
	"errors"
	"fmt"

	"github.com/cybercryptio/d1-lib/v2/id"
)

// Providers may wrap the documented errors. What a caller sees must not depend on that.

func init() {
	extend("U04", " Also every operation on present, unknown and deleted users and groups, on storage that returns the documented errors as they are and on storage that wraps them: the outcomes are the same.", func(bool) []*Scenario {
		return []*Scenario{{Name: "wrapped", Body: u04Wrapped, Shard: 2}}
	})
}

func u04Wrapped(x *X) {
	op, target, lost, second := x.Pick(7), x.Pick(3), x.Bool(), x.Bool()
	run := func(wrap bool) string {
		w := NewWorld(x)
		w.st.Wrap = wrap
		sa := w.Standalone(w.st)
		must := func(err error) {
			if err != nil {
				x.Failf("setup", "%v", err)
			}
		}
		caller, cpw, err := sa.NewUser(w.ctx, id.ScopeAll)
		must(err)
		tok, _, err := sa.LoginUser(w.ctx, caller, cpw)
		must(err)
		gid, err := sa.NewGroup(w.ctx, tok, id.ScopeIndex)
		must(err)
		uid, pw, err := sa.NewUser(w.ctx)
		must(err)
		must(sa.AddUserToGroups(w.ctx, tok, uid, gid))
		utok, _, err := sa.LoginUser(w.ctx, uid, pw)
		must(err)
		switch target {
		case 1:
			uid = "unknown"
		case 2:
			must(sa.DeleteUser(w.ctx, tok, uid))
		}
		if lost {
			must(w.st.Delete(w.ctx, []byte(gid), id.DataTypeSealedGroup))
		}
		x.Op()
		var r string
		for n := 0; n < 1 || second && n < 2; n++ {
			switch op {
			case 0:
				_, _, err = sa.LoginUser(w.ctx, uid, pw)
			case 1:
				_, err = sa.ChangeUserPassword(w.ctx, uid, pw)
			case 2:
				err = sa.AddUserToGroups(w.ctx, tok, uid, gid)
			case 3:
				err = sa.RemoveUserFromGroups(w.ctx, tok, uid, gid)
			case 4:
				err = sa.DeleteUser(w.ctx, tok, uid)
			case 5:
				_, err = sa.GetIdentity(w.ctx, utok)
			case 6:
				_, err = sa.NewGroup(w.ctx, utok, id.ScopeAll)
			}
			r += fmt.Sprint(err == nil)
			for _, e := range []error{id.ErrNotAuthenticated, id.ErrNotAuthorized, id.ErrUserNotFound, id.ErrGroupNotFound} {
				r += fmt.Sprint(" ", errors.Is(err, e))
			}
			r += "; "
		}
		return r
	}
	a, b := run(false), run(true)
	name := []string{"LoginUser", "ChangeUserPassword", "AddUserToGroups", "RemoveUserFromGroups", "DeleteUser", "GetIdentity", "NewGroup"}[op]
	x.State(op, target, lost, second, a)
	x.Out("%s %d %v: %s", name, target, lost, a)
	if a != b {
		x.Failf("wrapped:"+name, "%s (target: %s, group record lost: %v): success, not authenticated, not authorized, user not found, group not found are %swith wrapped errors %s",
			name, []string{"present", "unknown", "deleted"}[target], lost, a, b)
	}
}
