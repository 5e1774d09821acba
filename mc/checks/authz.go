package checks

import (
	"context"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"

	"gofremc/kit"
	"gofremc/wire"

	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() {
	All["A01"] = checkA01
	All["A02"] = checkA02
	All["A03"] = checkA03
	All["A04"] = checkA04
}

// scopeCovers is the documented meaning of scopes.
func scopeCovers(p, o, sep string) bool {
	ps, os := strings.Split(p, sep), strings.Split(o, sep)
	if len(ps) > len(os) {
		return false
	}
	for i, x := range ps {
		if x != "*" && x != os[i] {
			return false
		}
	}
	return len(ps) == len(os) || ps[len(ps)-1] == "*"
}

func subset(a, b auth.Access) bool { return a&^b == 0 }

func scopesOver(alpha []string, sep string, max int) (out []string) {
	for _, w := range words(alpha, max) {
		if len(w) > 0 {
			out = append(out, strings.Join(w, sep))
		}
	}
	return
}

// ---------------------------------------------------------------- A01

type a01Case struct {
	P, O string
	Sep  string
}

func checkA01(r *kit.Run) {
	r.Rule = "one evaluation = one pair of permissions; non-trivial = pairs of scopes, distinct by (outcome vector over all pairs of access sets)"
	alpha := kit.Pick(r, []string{"a", "b", "*", "", "aa"}, []string{"a", "b", "*", "", "aa", "**", "A", "a*"})
	accs := []auth.Access{0, 1, 2, 3, 4, 5, 7, 256, 257, 511, 512, 1 << 31, math.MaxUint32, auth.AccessAll(), auth.AccessRead, auth.AccessApprove}
	if r.Thorough() {
		for i := 0; i < 32; i++ {
			accs = append(accs, 1<<i, 1<<i|1, math.MaxUint32&^(1<<i))
		}
	}
	levels := 3
	r.Bound("all pairs of scopes of up to %d levels over %q, all pairs of %d access sets, with the separators '/', '.' and a multi-byte one; also scopes of up to 5 levels over {a,*}", levels, alpha, len(accs))
	r.Assume = []string{"the all-permissions value implies every permission made of the defined access rights"}
	var all auth.Access
	for _, a := range []auth.Access{auth.AccessRead, auth.AccessCreate, auth.AccessUpdate, auth.AccessDelete, auth.AccessAdd, auth.AccessRemove, auth.AccessDisable, auth.AccessEnable, auth.AccessApprove} {
		all |= a
	}
	check := func(c a01Case) *kit.Failure {
		sc := scopeCovers(c.P, c.O, c.Sep)
		for _, a := range accs {
			p := auth.Permission{Scope: c.P, Access: a}
			for _, b := range accs {
				want := sc && subset(b, a)
				if got := p.Implies(auth.Permission{Scope: c.O, Access: b}); got != want {
					return kit.Failf("implies", "%q:%d implies %q:%d is %v, want %v", c.P, a, c.O, b, got, want)
				}
			}
			if !p.Implies(p) {
				return kit.Failf("self", "%v does not imply itself", p)
			}
			if subset(a, all) && !auth.AllPermissions().Implies(p) {
				return kit.Failf("all", "AllPermissions does not imply %v", p)
			}
		}
		r.AddEvals(len(accs) * len(accs))
		r.Seen(kit.Hash(c.P, c.O))
		return nil
	}
	old := auth.ScopeSeparator
	defer func() { auth.ScopeSeparator = old }()
	r.Bound("scopes of up to 1000 levels and levels of up to 100000 bytes that differ from the covering scope in at most one level; all pairs of the 32 access rights and their complements; every byte as a level")
	kit.Explore(r, "volume", seqOf(func(yield func(a01Case) bool) {
		for _, n := range sizesTo(40, 1000) {
			lv := make([]string, n+1)
			for i := range lv {
				lv[i] = fmt.Sprint("l", i)
			}
			for i := 0; i <= n; i++ {
				if n > 70 && i > 3 && i < n-3 && i != n/2 {
					continue
				}
				o := strings.Join(lv, "/")
				was := lv[i]
				for _, x := range []string{"*", "x", was + "x", strings.ToUpper(was), "", "**"} {
					lv[i] = x
					for _, p := range []string{strings.Join(lv, "/"), strings.Join(lv[:i+1], "/"), strings.Join(lv, "/") + "/*"} {
						if !yield(a01Case{p, o, "/"}) || !yield(a01Case{o, p, "/"}) {
							return
						}
					}
				}
				lv[i] = was
			}
		}
		for _, n := range sizesTo(70, 100000) {
			for _, d := range []string{"", "x"} {
				for k := 0; k < 3; k++ {
					a := []string{textOf(n), textOf(n), textOf(n)}
					o := strings.Join(a, "/")
					a[k] += d
					if !yield(a01Case{strings.Join(a, "/"), o, "/"}) {
						return
					}
				}
			}
		}
		for n := 0; n < 256; n++ {
			for m := 0; m < 256; m++ {
				if !yield(a01Case{"s/" + string([]byte{byte(n)}), "s/" + string([]byte{byte(m)}) + "/t", "/"}) {
					return
				}
			}
		}
	}), func(c a01Case) *kit.Failure {
		want := scopeCovers(c.P, c.O, c.Sep)
		if got := (auth.Permission{Scope: c.P, Access: 1}).Implies(auth.Permission{Scope: c.O, Access: 1}); got != want {
			return kit.Failf("implies", "%.200q implies %.200q is %v, want %v", c.P, c.O, got, want)
		}
		return nil
	})
	var bits []auth.Access
	for i := 0; i < 32; i++ {
		bits = append(bits, 1<<i, math.MaxUint32&^(1<<i), 1<<i-1)
	}
	kit.Explore(r, "rights", seqOf(func(yield func([2]auth.Access) bool) {
		for _, a := range bits {
			for _, b := range bits {
				if !yield([2]auth.Access{a, b}) {
					return
				}
			}
		}
	}), func(c [2]auth.Access) *kit.Failure {
		for _, sc := range []string{"a", "a/b", "a/b/c", "a/*", "*"} {
			p, q := auth.Permission{Scope: sc, Access: c[0]}, auth.Permission{Scope: strings.ReplaceAll(sc, "*", "a"), Access: c[1]}
			if got := p.Implies(q); got != subset(c[1], c[0]) {
				return kit.Failf("implies", "%v implies %v is %v", p, q, got)
			}
		}
		return nil
	})
	for _, sep := range []rune{'/', '.', '\u2192'} {
		auth.ScopeSeparator = sep
		ss := scopesOver(alpha, string(sep), levels)
		if sep != '/' {
			ss = scopesOver([]string{"a", "*", "/"}, string(sep), levels)
		}
		deep := scopesOver([]string{"a", "*"}, string(sep), 5)
		kit.Explore(r, "pairs-"+string(sep), seqOf(func(yield func(a01Case) bool) {
			for _, l := range [][]string{ss, deep} {
				for _, p := range l {
					for _, o := range l {
						if !yield(a01Case{p, o, string(sep)}) {
							return
						}
					}
				}
			}
		}), check)
	}
}

// ---------------------------------------------------------------- A02

type perm struct {
	S string
	A uint32
}

func (p perm) real() auth.Permission { return auth.Permission{Scope: p.S, Access: auth.Access(p.A)} }

func reals(ps []perm) (out []auth.Permission) {
	for _, p := range ps {
		out = append(out, p.real())
	}
	return
}

type roleT struct {
	Name        string
	Allow, Deny []perm
}

func (r roleT) real() auth.Role {
	return auth.Role{Name: r.Name, AllowedPermissions: reals(r.Allow), DeniedPermissions: reals(r.Deny)}
}

func (r roleT) grants(q perm) bool {
	for _, d := range r.Deny {
		if scopeCovers(d.S, q.S, "/") && d.A&q.A != 0 {
			return false
		}
	}
	for _, a := range r.Allow {
		if scopeCovers(a.S, q.S, "/") && q.A&^a.A == 0 {
			return true
		}
	}
	return false
}

type a02Case struct {
	Groups [][]roleT `json:"groups"`
	As     string    `json:"as,omitempty"` // what the user and its groups are called
}

// a02Volume has n things of which the one at the given position (none if it is n) decides.
type a02Volume struct {
	N, At int
	Kind  string
}

func a02VolumeRun(c a02Volume) *kit.Failure {
	q := auth.Permission{Scope: "ask/it", Access: 2}
	fill := func(i int) auth.Permission { return auth.Permission{Scope: fmt.Sprint("ask/", i), Access: 3} }
	list := func() (out []auth.Permission) {
		for i := 0; i < c.N; i++ {
			if i == c.At {
				out = append(out, auth.Permission{Scope: "ask/it", Access: 6})
			} else {
				out = append(out, fill(i))
			}
		}
		return
	}
	others := func() (out []auth.Permission) {
		for i := 0; i < c.N; i++ {
			out = append(out, fill(i))
		}
		return
	}
	hit := c.At < c.N
	wide := []auth.Permission{{Scope: "*", Access: 7}}
	var u auth.User
	var want, wantRole bool
	switch c.Kind {
	case "allow":
		u.Groups, want = []auth.Group{{Roles: []auth.Role{{AllowedPermissions: list()}}}}, hit
	case "deny":
		u.Groups, want = []auth.Group{{Roles: []auth.Role{{AllowedPermissions: wide, DeniedPermissions: list()}}}}, !hit
	case "denyallow":
		u.Groups, want = []auth.Group{{Roles: []auth.Role{{AllowedPermissions: append(others(), q), DeniedPermissions: list()}}}}, !hit
	case "role", "roledeny", "group":
		var rs []auth.Role
		for i := 0; i < c.N; i++ {
			ro := auth.Role{Name: fmt.Sprint("r", i), AllowedPermissions: []auth.Permission{fill(i)}}
			if c.Kind == "roledeny" {
				ro.AllowedPermissions, ro.DeniedPermissions = wide, []auth.Permission{q}
			}
			if i == c.At {
				ro = auth.Role{Name: "it", AllowedPermissions: []auth.Permission{q}}
			}
			rs = append(rs, ro)
		}
		want, wantRole = hit, hit
		if c.Kind == "group" {
			for _, ro := range rs {
				u.Groups = append(u.Groups, auth.Group{Name: ro.Name, Roles: []auth.Role{ro}})
			}
		} else {
			u.Groups = []auth.Group{{}, {Roles: rs}}
		}
	}
	for rep := 0; rep < 2; rep++ {
		if got := u.HasPermission(q); got != want {
			return kit.Failf("volume", "%+v: HasPermission is %v, want %v", c, got, want)
		}
		if got := u.HasRole("it"); got != wantRole {
			return kit.Failf("volume", "%+v: HasRole is %v, want %v", c, got, wantRole)
		}
		for _, g := range u.Groups {
			one := auth.User{Groups: []auth.Group{g}}
			if one.HasPermission(q) != g.HasPermission(q) || one.HasRole("it") != g.HasRole("it") {
				return kit.Failf("volume", "%+v: a user and its only group disagree", c)
			}
		}
	}
	return nil
}

func checkA02(r *kit.Run) {
	r.Rule = "one evaluation = one role, group or user asked for one permission or role; distinct by the vector of answers"
	perms := []perm{{"a", 1}, {"a", 2}, {"a", 3}, {"*", 1}, {"*", 3}, {"a/b", 1}, {"a/b", 3}, {"a/*", 2}, {"*/b", 7}}
	asks := []perm{{"a", 1}, {"a", 2}, {"a", 3}, {"a", 4}, {"b", 1}, {"b", 3}, {"a/b", 1}, {"a/b", 2}, {"a/b", 3}, {"a/c", 1}, {"a/c", 3}, {"c/b", 1}, {"c/b", 7}, {"a/b/c", 1}, {"a/b/c", 2}, {"a/b/c", 3}, {"", 1}}
	names := []string{"r1", "r2", "", "R1", "a"}
	nA, nD := kit.Pick(r, 3, 3), kit.Pick(r, 2, 3)
	var lists func(n int) [][]perm
	lists = func(n int) [][]perm {
		out := [][]perm{nil}
		if n == 0 {
			return out
		}
		for _, l := range lists(n - 1) {
			if len(l) == n-1 {
				for _, p := range perms {
					out = append(out, append(l[:len(l):len(l)], p))
				}
			}
			if len(l) > 0 {
				out = append(out, l)
			}
		}
		return out
	}
	r.Bound("all roles with up to %d allowed and %d denied permissions, in every order, of %d; all groups and users of up to 2 groups x 2 roles out of a set of roles; each asked for %d permissions and %d role names", nA, nD, len(perms), len(asks), len(names))
	r.Assume = []string{"requested scopes contain no wildcard (documented), requested access is not empty"}
	check := func(c a02Case) *kit.Failure {
		var gs []auth.Group
		u := auth.User{Id: or(c.As, "u"), Name: c.As, IdentityPlatform: c.As, Attachment: c.As}
		names := append([]string{c.As}, names...)
		for i, g := range c.Groups {
			rg := auth.Group{Name: or(c.As, fmt.Sprint("g", i))}
			for _, ro := range g {
				rg.Roles = append(rg.Roles, ro.real())
			}
			gs = append(gs, rg)
		}
		u.Groups = gs
		var sig []byte
		var sp auth.SecurityPrincipal = u
		for _, q := range asks {
			any := false
			for i, g := range c.Groups {
				grp := false
				for j, ro := range g {
					w := ro.grants(q)
					if got := gs[i].Roles[j].HasPermission(q.real()); got != w {
						return kit.Failf("role", "role allow %v deny %v: HasPermission(%v) is %v", ro.Allow, ro.Deny, q, got)
					}
					grp = grp || w
				}
				if got := gs[i].HasPermission(q.real()); got != grp {
					return kit.Failf("group", "group %+v: HasPermission(%v) is %v", g, q, got)
				}
				any = any || grp
			}
			if got := sp.HasPermission(q.real()); got != any {
				return kit.Failf("user", "user %+v: HasPermission(%v) is %v", c.Groups, q, got)
			}
			if any {
				sig = append(sig, '1')
			} else {
				sig = append(sig, '0')
			}
		}
		for _, n := range names {
			any := false
			for i, g := range c.Groups {
				grp := false
				for _, ro := range g {
					grp = grp || ro.Name == n
				}
				if got := gs[i].HasRole(n); got != grp {
					return kit.Failf("grouprole", "group %+v: HasRole(%q) is %v", g, n, got)
				}
				any = any || grp
			}
			if got := sp.HasRole(n); got != any {
				return kit.Failf("userrole", "user %+v: HasRole(%q) is %v", c.Groups, n, got)
			}
		}
		r.AddEvals(len(asks) * 3)
		r.Seen(kit.Hash(string(sig)))
		return nil
	}
	la, ld := lists(nA), lists(nD)
	kit.Explore(r, "roles", seqOf(func(yield func(a02Case) bool) {
		for _, a := range la {
			for _, d := range ld {
				if !yield(a02Case{Groups: [][]roleT{{{"r1", a, d}}}}) {
					return
				}
			}
		}
	}), check)
	r.Bound("roles of up to 300 allowed and denied permissions, groups of up to 300 roles and users of up to 300 groups with the deciding one at every position")
	kit.Explore(r, "volume", seqOf(func(yield func(a02Volume) bool) {
		for _, n := range sizesTo(70, 300) {
			for at := 0; at <= n; at++ {
				for _, k := range []string{"allow", "deny", "denyallow", "role", "group", "roledeny"} {
					if !yield(a02Volume{n, at, k}) {
						return
					}
				}
			}
		}
	}), a02VolumeRun)
	r.Bound("%d names of users, groups and roles for roles without permissions, with some, and with denials", len(nameVocab)+len(oddWords))
	kit.Explore(r, "names", seqOf(func(yield func(a02Case) bool) {
		for _, ws := range [][]string{nameVocab, oddWords} {
			for _, w := range ws {
				for _, ro := range []roleT{{w, nil, nil}, {w, []perm{{"a", 1}}, nil}, {w, nil, []perm{{"a", 1}}}, {w, []perm{{"*", 3}}, []perm{{"a", 1}}}} {
					for _, o := range [][]roleT{nil, {{"r1", []perm{{"a/b", 2}}, nil}}} {
						if !yield(a02Case{[][]roleT{append([]roleT{ro}, o...)}, w}) || !yield(a02Case{[][]roleT{o, {ro}}, w}) {
							return
						}
					}
				}
			}
		}
	}), check)
	small := []roleT{
		{"r1", nil, nil}, {"r2", []perm{{"a", 3}}, nil}, {"r1", nil, []perm{{"a", 1}}}, {"r2", []perm{{"*", 3}}, []perm{{"a", 2}}},
		{"", []perm{{"a/b", 1}}, []perm{{"a/b", 2}}}, {"a", []perm{{"a/*", 7}}, nil}, {"r1", []perm{{"*", 7}}, []perm{{"*", 1}}}, {"R1", []perm{{"a", 1}, {"a", 2}}, nil},
	}
	var groups [][]roleT
	for _, w := range indexWords(len(small), 2) {
		var g []roleT
		for _, i := range w {
			g = append(g, small[i])
		}
		groups = append(groups, g)
	}
	kit.Explore(r, "users", seqOf(func(yield func(a02Case) bool) {
		if !yield(a02Case{}) {
			return
		}
		for _, g := range groups {
			if !yield(a02Case{Groups: [][]roleT{g}}) {
				return
			}
			for _, h := range groups {
				if !yield(a02Case{Groups: [][]roleT{g, h}}) {
					return
				}
				if r.Thorough() {
					for _, x := range groups {
						if len(x) < 2 && !yield(a02Case{Groups: [][]roleT{g, h, x}}) {
							return
						}
					}
				}
			}
		}
	}), check)
}

// indexWords are all words of indexes below k of length at most n.
func indexWords(k, n int) [][]int {
	out := [][]int{{}}
	for lo := 0; n > 0; n-- {
		hi := len(out)
		for _, w := range out[lo:hi] {
			for i := 0; i < k; i++ {
				out = append(out, append(w[:len(w):len(w)], i))
			}
		}
		lo = hi
	}
	return out
}

// ---------------------------------------------------------------- A03

// stubPrincipal has exactly the permissions of the given set.
type stubPrincipal struct {
	id  int
	as  string // identity, unless empty
	has map[auth.Permission]bool
}

func (s *stubPrincipal) Identity() string {
	if s.as != "" {
		return s.as
	}
	return fmt.Sprint(s.id)
}
func (s *stubPrincipal) HasRole(string) bool                  { return true }
func (s *stubPrincipal) HasPermission(p auth.Permission) bool { return s.has[p] }
func (s *stubPrincipal) String() string                       { return "p" }

type a03Req struct {
	Who  int // 0: no supplier value, 1: supplier fails, 2+mask: principal with the permissions of mask
	Perm int // index into the permission lists; only used with a supplier function
	PErr bool
	HErr bool
}

type a03Case struct {
	Mode   string // all, any, fnall, fnany
	Perm   int
	Seq    []a03Req
	Twice  bool   // two authorization middlewares on top of each other
	Two    bool   // the same instances guard two handlers, alternating
	Same   bool   // one principal makes all the requests (same identity; the same object while its permissions stay the same)
	Set    int    `json:",omitempty"` // index into a03Sets
	Real   bool   // a User with groups and roles instead of the stub
	Method string `json:",omitempty"`
	Shape  int    `json:",omitempty"` // index into shapes
	As     string `json:",omitempty"` // what the principal, its groups and roles are called
}

// sets of three permissions, none of which implies another
var a03Sets = [][]auth.Permission{
	{{Scope: "x", Access: 1}, {Scope: "y", Access: 2}, {Scope: "z/w", Access: 1}},
	{{Scope: "x", Access: 1}, {Scope: "x", Access: 2}, {Scope: "x", Access: 4}},
	{{Scope: "x/y", Access: 1}, {Scope: "X/y", Access: 1}, {Scope: "x/y", Access: 1 << 31}},
	{{Scope: "", Access: 1}, {Scope: "y", Access: 1}, {Scope: "x/y/z", Access: 1}},
}

var a03Lists = indexWords(3, 3)

var errSupplier = errors.New("principal supplier failed")
var errPerms = errors.New("permissions supplier failed")
var errH = errors.New("handler failed")

// a03Volume requires n permissions; the principal lacks (all) or has (any) the one at the given position, or none.
type a03Volume struct {
	N, At int
	Mode  string
}

func a03VolumeRun(c a03Volume) *kit.Failure {
	var list []auth.Permission
	st := &stubPrincipal{has: map[auth.Permission]bool{}}
	any := strings.HasSuffix(c.Mode, "any")
	for i := 0; i < c.N; i++ {
		p := auth.Permission{Scope: fmt.Sprint("s", i), Access: auth.Access(1 << (i % 32))}
		list = append(list, p)
		st.has[p] = (i == c.At) == any
	}
	want := c.At == c.N
	if any {
		want = c.At < c.N
	}
	fn := func(ctx context.Context, mc path.MatchingContext) ([]auth.Permission, error) {
		return append([]auth.Permission(nil), list...), nil
	}
	stack := []middleware.Middleware{middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) { return st, nil })}
	switch c.Mode {
	case "all":
		stack = append(stack, middleware.AuthorizeAll(list...))
	case "any":
		stack = append(stack, middleware.AuthorizeAny(list...))
	case "fnall":
		stack = append(stack, middleware.Authorize(fn, true))
	case "fnany":
		stack = append(stack, middleware.Authorize(fn, false))
	case "stack":
		for _, p := range list {
			stack = append(stack, middleware.AuthorizeAll(p))
		}
	}
	rg := newRig(stack...)
	for rep := 0; rep < 2; rep++ {
		o := rg.respond(RS{Kind: "text", Body: 1}, "full", mkReq("GET", "/p"))
		if (o.Ran == 1) != want || !want && (len(o.Errs) != 1 || !errors.Is(o.Errs[0], errUnauthorized)) {
			return kit.Failf("volume", "%+v: the handler ran %d times, want %v; errors %v", c, o.Ran, want, o.Errs)
		}
	}
	return nil
}

func a03Run(seen func(uint64) bool) func(c a03Case) *kit.Failure {
	return func(c a03Case) *kit.Failure {
		a03Perms := a03Sets[c.Set]
		lists := make([][]auth.Permission, len(a03Lists))
		for i, l := range a03Lists {
			for _, p := range l {
				lists[i] = append(lists[i], a03Perms[p])
			}
		}
		var cur a03Req
		var prin auth.SecurityPrincipal
		sup := middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
			if cur.Who == 1 {
				return nil, errSupplier
			}
			return prin, nil
		})
		fn := func(ctx context.Context, mc path.MatchingContext) ([]auth.Permission, error) {
			if cur.PErr {
				return nil, errPerms
			}
			return lists[cur.Perm], nil
		}
		var mw middleware.Middleware
		switch c.Mode {
		case "all":
			mw = middleware.AuthorizeAll(lists[c.Perm]...)
		case "any":
			mw = middleware.AuthorizeAny(lists[c.Perm]...)
		case "fnall":
			mw = middleware.Authorize(fn, true)
		case "fnany":
			mw = middleware.Authorize(fn, false)
		}
		stack := []middleware.Middleware{sup, mw}
		if c.Twice {
			stack = append(stack, middleware.AuthorizeAny(a03Perms[0], a03Perms[2]))
		}
		rigs := []*rig{newRig(stack...)}
		if c.Two {
			rigs = append(rigs, newRig(stack...))
		}
		known := map[int]auth.SecurityPrincipal{}
		for i, q := range c.Seq {
			id := i
			if c.Same {
				id = 0
			}
			cur = q
			prin = nil
			mask := 0
			if q.Who >= 2 {
				mask = q.Who - 2
				if c.Same && known[mask] != nil {
					prin = known[mask]
				} else if c.Real {
					var ro auth.Role
					for b := range a03Perms {
						if mask>>b&1 == 1 {
							ro.AllowedPermissions = append(ro.AllowedPermissions, a03Perms[b])
						}
					}
					ro.Name = c.As
					u := &auth.User{Id: fmt.Sprint(id), Name: c.As, IdentityPlatform: c.As, Groups: []auth.Group{{Name: c.As}, {Name: c.As, Roles: []auth.Role{{Name: c.As}, ro}}}}
					if c.As != "" {
						u.Id, u.Attachment = c.As, c.As
					}
					prin = u
				} else {
					st := &stubPrincipal{id: id, as: c.As, has: map[auth.Permission]bool{}}
					for b := range a03Perms {
						st.has[a03Perms[b]] = mask>>b&1 == 1
					}
					prin = st
				}
				known[mask] = prin
			}
			fnMode := strings.HasPrefix(c.Mode, "fn")
			list := a03Lists[c.Perm]
			if fnMode {
				list = a03Lists[q.Perm]
			}
			ok := q.Who >= 2
			n := 0
			for _, p := range list {
				if mask>>p&1 == 1 {
					n++
				}
			}
			if strings.HasSuffix(c.Mode, "all") {
				ok = ok && n == len(list)
			} else {
				ok = ok && n > 0
			}
			if c.Twice {
				ok = ok && mask&5 != 0
			}
			perr := fnMode && q.PErr
			ok = ok && !perr
			rg := rigs[i%len(rigs)]
			var ctxOK bool
			rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				ctxOK = auth.GetSecurityPrincipalFromContext(ctx) == prin
				if q.HErr {
					return nil, errH
				}
				return response.PlainTextHttpResponse(202, "secret"), nil
			}
			rec := wire.New()
			rg.shape = c.Shape
			s := rg.serve(rec, rec.Writer("full"), mkReq(or(c.Method, "GET"), "/p"))
			if s.HasPan {
				return kit.Failf("panic", "request %d panics: %v", i, s.Panic)
			}
			if (s.Ran == 1) != ok || s.Ran > 1 {
				return kit.Failf("ran", "request %d (%+v), required %v (%s): the handler ran %d times, want %v", i, q, list, c.Mode, s.Ran, ok)
			}
			switch {
			case ok && !ctxOK:
				return kit.Failf("principal", "request %d: the handler sees another principal", i)
			case ok && q.HErr:
				if len(s.Errs) != 1 || !errors.Is(s.Errs[0], errH) {
					return kit.Failf("herr", "request %d: the handler's error became %v", i, s.Errs)
				}
			case ok:
				if s.View.Status != 202 || s.View.Body != "secret" || len(s.Errs) > 0 {
					return kit.Failf("resp", "request %d answered %v %v", i, s.View, s.Errs)
				}
			default:
				if s.View.Body != "" || s.View.Status != 500 || len(s.Errs) != 1 {
					return kit.Failf("refuse", "request %d answered %v %v", i, s.View, s.Errs)
				}
				e := s.Errs[0]
				good := errors.Is(e, errUnauthorized)
				if q.Who == 1 {
					good = errors.Is(e, errSupplier)
				} else if perr {
					good = errors.Is(e, errPerms) || good && q.Who == 0
				}
				if !good {
					return kit.Failf("error", "request %d (%+v) failed with %v", i, q, e)
				}
			}
			seen(kit.Hash(c.Mode, c.Perm, q, ok))
		}
		return nil
	}
}

// a03Stack is a stack, outermost first, of suppliers (of nothing, an error, or a principal) and authorizations.
type a03Stack struct{ Words []string }

func who(p auth.SecurityPrincipal) string {
	if p == nil {
		return "nobody"
	}
	return p.Identity()
}

func a03StackRun(seen func(uint64) bool) func(c a03Stack) *kit.Failure {
	need := auth.Permission{Scope: "x", Access: 1}
	return func(c a03Stack) *kit.Failure {
		var mws []middleware.Middleware
		var cur, want auth.SecurityPrincipal
		var wantErr error
		var calls, wantCalls []string
		for i, w := range c.Words {
			var p auth.SecurityPrincipal
			switch w {
			case "holder":
				p = &stubPrincipal{id: i, has: map[auth.Permission]bool{need: true}}
			case "other":
				p = &stubPrincipal{id: i}
			}
			if wantErr == nil && w != "need" && w != "needfn" {
				wantCalls = append(wantCalls, fmt.Sprint(i, " ", who(want)))
			}
			switch {
			case wantErr != nil:
			case w == "fail":
				wantErr = errSupplier
			case w == "need" || w == "needfn":
				if want == nil || !want.HasPermission(need) {
					wantErr = errUnauthorized
				}
			case p != nil:
				want = p
			}
			switch w {
			case "need":
				mws = append(mws, middleware.AuthorizeAll(need))
			case "needfn":
				mws = append(mws, middleware.Authorize(func(context.Context, path.MatchingContext) ([]auth.Permission, error) {
					return []auth.Permission{need}, nil
				}, false))
			default:
				mws = append(mws, middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
					calls = append(calls, fmt.Sprint(i, " ", who(auth.GetSecurityPrincipalFromContext(ctx))))
					if w == "fail" {
						return nil, errSupplier
					}
					return p, nil
				}))
			}
		}
		rg := newRig(mws...)
		rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			cur = auth.GetSecurityPrincipalFromContext(ctx)
			return response.PlainTextHttpResponse(202, "secret"), nil
		}
		for round := 0; round < 2; round++ {
			calls, cur = nil, nil
			rec := wire.New()
			s := rg.serve(rec, rec.Writer("full"), mkReq("GET", "/p"))
			if s.HasPan {
				return kit.Failf("panic", "%v panics: %v", c.Words, s.Panic)
			}
			if (s.Ran == 1) != (wantErr == nil) {
				return kit.Failf("ran", "behind %v the handler ran %d times, errors %v", c.Words, s.Ran, s.Errs)
			}
			if wantErr == nil && cur != want {
				return kit.Failf("principal", "behind %v the handler sees %v, want the innermost principal %v", c.Words, cur, want)
			}
			if wantErr != nil && (len(s.Errs) != 1 || !errors.Is(s.Errs[0], wantErr) || s.View.Body != "") {
				return kit.Failf("error", "behind %v: %v %v, want %v", c.Words, s.Errs, s.View, wantErr)
			}
			if fmt.Sprint(calls) != fmt.Sprint(wantCalls) {
				return kit.Failf("calls", "%v: suppliers called with %v, want %v", c.Words, calls, wantCalls)
			}
		}
		seen(kit.Hash(c.Words))
		return nil
	}
}

func checkA03(r *kit.Run) {
	r.Rule = "one evaluation = one sequence of requests through one instance; distinct by (mode, required, request, outcome)"
	r.Bound("all lists of up to 3 required permissions of 3 (also repeated; 4 sets of 3: distinct scopes, one scope with distinct accesses, letter case, empty and nested scopes), modes all and any, fixed and supplied per request, x every subset of permissions the principal has, no principal, failing suppliers; stacked instances, instances shared by two handlers; requests of different principals and of one principal whose permissions change in between; all sequences of 2 requests (thorough: 3)")
	run := a03Run(r.Seen)
	var reqs []a03Req
	for who := 0; who < 10; who++ {
		for _, pe := range []bool{false, true} {
			for _, he := range []bool{false, true} {
				reqs = append(reqs, a03Req{Who: who, PErr: pe, HErr: he})
			}
		}
	}
	kit.Explore(r, "single", seqOf(func(yield func(a03Case) bool) {
		for _, m := range []string{"all", "any", "fnall", "fnany"} {
			for p := range a03Lists {
				for _, q := range reqs {
					q.Perm = p
					for b := 0; b < 4*len(a03Sets); b++ {
						if !yield(a03Case{Mode: m, Perm: p, Seq: []a03Req{q}, Twice: b&1 > 0, Real: b&2 > 0, Set: b >> 2}) {
							return
						}
					}
				}
			}
		}
	}), run)
	r.Bound("%d names of the principal, its groups and roles for every principal and every mode", len(nameVocab)+len(oddWords))
	kit.Explore(r, "names", seqOf(func(yield func(a03Case) bool) {
		for _, ws := range [][]string{nameVocab, oddWords} {
			for _, w := range ws {
				for _, m := range []string{"all", "any", "fnall", "fnany"} {
					for who := 2; who < 10; who++ {
						for _, p := range []int{1, 5} {
							for b := 0; b < 2; b++ {
								if !yield(a03Case{Mode: m, Perm: p, Seq: []a03Req{{Who: who, Perm: p}}, As: w, Real: b > 0}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}), run)
	r.Bound("%d methods x %d shapes of the request (body, protocol, headers, peer, query) for every principal and every mode", len(rigMethods), len(shapes))
	kit.Explore(r, "shapes", seqOf(func(yield func(a03Case) bool) {
		for _, m := range []string{"all", "any", "fnall", "fnany"} {
			for who := 0; who < 10; who++ {
				for _, p := range []int{1, 5} {
					for _, me := range rigMethods {
						for sh := range shapes {
							if !yield(a03Case{Mode: m, Perm: p, Seq: []a03Req{{Who: who, Perm: p}}, Method: me, Shape: sh}) {
								return
							}
						}
					}
				}
			}
		}
	}), run)
	depth := kit.Pick(r, 5, 6)
	r.Bound("all stacks of up to %d suppliers (of a principal holding or lacking the permission, of none, of an error) and authorizations", depth)
	r.Bound("up to 300 required permissions of which the principal lacks (all) or has (any) the one at every position; up to 70 authorization middlewares on top of each other")
	kit.Explore(r, "volume", seqOf(func(yield func(a03Volume) bool) {
		for _, n := range sizesTo(70, 300) {
			for at := 0; at <= n; at++ {
				for _, m := range []string{"all", "any", "fnall", "fnany", "stack"} {
					if n == 0 || n > 70 && m == "stack" {
						continue
					}
					if !yield(a03Volume{n, at, m}) {
						return
					}
				}
			}
		}
	}), a03VolumeRun)
	kit.Explore(r, "stacks", seqOf(func(yield func(a03Stack) bool) {
		for _, w := range wordsUpToSlices([]string{"none", "fail", "holder", "other", "need", "needfn"}, depth) {
			if !yield(a03Stack{w}) {
				return
			}
		}
	}), a03StackRun(r.Seen))
	lists := []int{0, 1, 2, 4, 5, 6, 9}
	kit.Explore(r, "sequences", seqOf(func(yield func(a03Case) bool) {
		for _, m := range []string{"all", "any", "fnall", "fnany"} {
			ps := []int{5, 7}
			var qs []a03Req
			for who := 0; who < 10; who++ {
				for _, pe := range []bool{false, true} {
					if pe && (m[0] != 'f' || who > 2) {
						continue
					}
					if m[0] != 'f' {
						qs = append(qs, a03Req{Who: who})
						continue
					}
					for _, l := range lists {
						qs = append(qs, a03Req{Who: who, PErr: pe, Perm: l})
					}
				}
			}
			for _, p := range ps {
				if m[0] == 'f' && p != ps[0] {
					continue
				}
				for _, a := range qs {
					for _, b := range qs {
						for k := 0; k < 8; k++ {
							if !yield(a03Case{Mode: m, Perm: p, Seq: []a03Req{a, b}, Two: k&1 > 0, Real: k&2 > 0, Same: k&4 > 0}) {
								return
							}
						}
						if r.Thorough() {
							for _, d := range qs {
								for _, same := range []bool{false, true} {
									if !yield(a03Case{Mode: m, Perm: p, Seq: []a03Req{a, b, d}, Same: same}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}), run)
}

// ---------------------------------------------------------------- A04

type a04Case struct {
	S string
}

type a04Perm struct {
	Scope  string
	Lo, Hi uint64
}

// parsePerm is the documented text form.
func parsePerm(s, sep string) (auth.Permission, bool) {
	i := strings.LastIndex(s, ":")
	if i < 0 {
		return auth.Permission{}, false
	}
	n := uint64(0)
	digits := s[i+1:]
	if digits == "" {
		return auth.Permission{}, false
	}
	for _, d := range []byte(digits) {
		if d < '0' || d > '9' {
			return auth.Permission{}, false
		}
		n = n*10 + uint64(d-'0')
		if n > math.MaxUint32 {
			return auth.Permission{}, false
		}
	}
	if strings.Count(s[:i], sep) > 2 {
		return auth.Permission{}, false
	}
	return auth.Permission{Scope: s[:i], Access: auth.Access(n)}, true
}

func checkA04(r *kit.Run) {
	r.Rule = "texts parsed, and permissions formatted and parsed back; distinct = distinct accepted texts"
	alpha := []string{"a", "/", ":", "*", "0", "7", "-", "_"}
	n := kit.Pick(r, 6, 7)
	check := func(c a04Case) *kit.Failure {
		want, ok := parsePerm(c.S, string(auth.ScopeSeparator))
		got, err := auth.ParsePermission(c.S)
		if ok != (err == nil) || got != want {
			return kit.Failf("parse", "ParsePermission(%q) is %v, %v; want %v, valid %v", c.S, got, err, want, ok)
		}
		if !ok {
			if _, e := auth.NewPermission(c.S, 1); (e == nil) != (strings.Count(c.S, string(auth.ScopeSeparator)) <= 2) {
				return kit.Failf("new", "NewPermission(%q): %v", c.S, e)
			}
			return nil
		}
		back, err := auth.ParsePermission(got.String())
		if err != nil || back != got {
			return kit.Failf("roundtrip", "%v formats as %q and parses as %v, %v", got, got.String(), back, err)
		}
		r.Seen(kit.Hash(c.S))
		return nil
	}
	kit.Explore(r, "texts", seqOf(func(yield func(a04Case) bool) {
		for _, s := range wordsUpTo(alpha, n) {
			if !yield(a04Case{s}) {
				return
			}
		}
		// numbers around the limits and other alphabets
		pre := []string{"a:", "a/b/c:", "a/b/c/d:", ":", "a:b:", "", "é\xff:", "//:", "///:", " : "}
		var nums []string
		for i := 0; i <= 66; i++ {
			for d := -2; d <= 2; d++ {
				v := math.Ldexp(1, i)
				nums = append(nums, strconv.FormatFloat(v+float64(d), 'f', 0, 64))
			}
		}
		nums = append(nums, "18446744073709551616", "4294967297", "00000000000000000000007", "99999999999999999999999999", "1e3", "0x10", "0b1", "0o7", " 1", "1 ", "+1", "-1", "-0", "1_000", "１", "1.0", "")
		for _, p := range pre {
			for _, x := range nums {
				if !yield(a04Case{p + x}) {
					return
				}
			}
		}
	}), check)
	r.Bound("all texts over %q up to length %d, %d special texts; scopes of up to 3 levels x access sets %s", alpha, n, 3500, kit.Pick(r, "0..2^18 and all within 2 of a power of two", "all 2^32"))
	rt := func(c a04Perm) *kit.Failure {
		for v := c.Lo; v < c.Hi; v++ {
			p, err := auth.NewPermission(c.Scope, auth.Access(v))
			if err != nil || p.Scope != c.Scope || uint64(p.Access) != v {
				return kit.Failf("new", "NewPermission(%q, %d) is %v, %v", c.Scope, v, p, err)
			}
			t := p.String()
			q, err := auth.ParsePermission(t)
			if err != nil || q != p {
				return kit.Failf("roundtrip", "%q:%d formats as %q and parses as %v, %v", c.Scope, v, t, q, err)
			}
		}
		r.AddEvals(int(c.Hi - c.Lo))
		return nil
	}
	scopes := append(scopesOver([]string{"a", "*", "", ":", "5", "é", "\xff", "a b"}, "/", 3), "")
	kit.Explore(r, "access", seqOf(func(yield func(a04Perm) bool) {
		for _, s := range scopes {
			for i := 0; i <= 32; i++ {
				lo, hi := uint64(0), uint64(1)<<i+3
				if hi > 3 {
					lo = hi - min(hi, 6)
				}
				if !yield(a04Perm{s, lo, min(hi, 1<<32)}) {
					return
				}
			}
		}
		end, step := uint64(1<<18), uint64(1<<12)
		if r.Thorough() {
			end, step = 1<<32, 1<<20
		}
		for v := uint64(0); v < end; v += step {
			if !yield(a04Perm{"a/b", v, v + step}) {
				return
			}
		}
	}), rt)
	r.Bound("scopes with levels of up to 64 KiB around every power of two, every rune below U+0250 and every byte at the start, inside and at the end of a scope and of the number, up to 300 levels, separators and colons, numbers with up to 300 leading zeros and digits")
	kit.Explore(r, "volume", seqOf(func(yield func(a04Case) bool) {
		for _, n := range sizesTo(40, 1<<16) {
			t := textOf(n)
			for _, x := range []string{t + ":7", t + "/b:7", "a/" + t + ":7", "a/b/" + t + ":7", t + "/" + t + "/" + t + ":4294967295", t + "/" + t + "/" + t + "/:1", t, t + ":", ":" + t, t + ":7 ", t + ":-7"} {
				if !yield(a04Case{x}) {
					return
				}
			}
		}
		for c := 0; c < 0x250; c++ {
			for _, q := range []string{string(rune(c)), string([]byte{byte(c)})} {
				for _, f := range []string{"#:7", "a#:7", "#a:7", "a#b/c:7", "a/#:7", "a/b/#:7", "a:#7", "a:7#", "a:7#7", "a#7", "a/b#c/d:7", "#"} {
					if !yield(a04Case{strings.ReplaceAll(f, "#", q)}) {
						return
					}
				}
			}
		}
		for n := 0; n <= 300; n++ {
			for _, x := range []string{strings.Repeat("a/", n) + "a:7", strings.Repeat("/", n) + ":7", "a" + strings.Repeat(":", n) + "7", "a:" + strings.Repeat("0", n) + "7", "a:" + strings.Repeat("7", n), "a:" + strings.Repeat("0", n) + "4294967296", strings.Repeat("a:", n) + "7"} {
				if !yield(a04Case{x}) {
					return
				}
			}
		}
	}), check)
	old := auth.ScopeSeparator
	defer func() { auth.ScopeSeparator = old }()
	for _, sep := range []rune{'.', '\u2192'} {
		auth.ScopeSeparator = sep
		kit.Explore(r, "separator-"+string(sep), seqOf(func(yield func(a04Case) bool) {
			for _, s := range wordsUpTo([]string{"a", string(sep), ":", "/", "3"}, 6) {
				if !yield(a04Case{s}) {
					return
				}
			}
		}), check)
	}
}

// wordsUpToSlices lists all words of up to n letters.
func wordsUpToSlices(alphabet []string, n int) [][]string {
	out := [][]string{{}}
	for lo := 0; n > 0; n-- {
		hi := len(out)
		for ; lo < hi; lo++ {
			for _, a := range alphabet {
				out = append(out, append(append([]string{}, out[lo]...), a))
			}
		}
	}
	return out
}
