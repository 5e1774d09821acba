package checks

import (
	"context"
	"fmt"
	"iter"
	"net/http"
	"net/url"
	"slices"
	"strings"
	"unicode/utf8"

	"gofremc/kit"
	"gofremc/ref"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"
)

// All maps a property to its check.
var All = map[string]func(*kit.Run){}

var cleanup []func()

// ---------------------------------------------------------------- driving the router

type nopResponse struct{}

func (nopResponse) StatusCode() int               { return 200 }
func (nopResponse) Headers() response.HttpHeaders { return nil }
func (nopResponse) Cookies() response.HttpCookies { return nil }
func (nopResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
	w.WriteHeader(200)
	return nil
}

type nopWriter struct {
	h      http.Header
	status int
	n      int
}

func (w *nopWriter) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}
func (w *nopWriter) Write(b []byte) (int, error) {
	w.n += len(b)
	if w.status == 0 {
		w.status = 200
	}
	return len(b), nil
}
func (w *nopWriter) WriteHeader(c int) {
	if w.status == 0 {
		w.status = c
	}
}

// routes is one router with numbered handlers that record which one ran and what it saw.
type routes struct {
	h     http.Handler
	hit   int
	hits  int
	vars  []string
	names [][]string // names to read per handler
	shape int        // index into shapes
}

func (rt *routes) handler(i int) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		rt.hit = i
		rt.hits++
		rt.vars = rt.vars[:0]
		for _, n := range rt.names[i] {
			rt.vars = append(rt.vars, mc.PathVar(n))
		}
		return nopResponse{}, nil
	}
}

type outcome struct {
	Hit    int // -1: none
	Status int
	Vars   []string
}

func (o outcome) same(p outcome) bool {
	return o.Hit == p.Hit && o.Status == p.Status && strings.Join(o.Vars, "\x00") == strings.Join(p.Vars, "\x00")
}

func (rt *routes) serve(method, p string) (outcome, *kit.Failure) {
	rt.hit, rt.hits = -1, 0
	rt.vars = rt.vars[:0]
	w := nopWriter{}
	rq := &http.Request{Method: method, URL: &url.URL{Path: p}}
	if rt.shape > 0 {
		rq = &http.Request{Method: method, URL: &url.URL{Path: p}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "srv.example", RequestURI: p, RemoteAddr: "192.0.2.1:1234", Body: http.NoBody}
		shapes[rt.shape].f(rq)
	}
	rt.h.ServeHTTP(&w, rq)
	o := outcome{Hit: rt.hit, Status: w.status, Vars: append([]string(nil), rt.vars...)}
	if rt.hits > 1 {
		return o, kit.Failf("multi", "%d handlers ran for %s %q", rt.hits, method, p)
	}
	if rt.hits == 1 && w.status != 200 {
		return o, kit.Failf("status", "handler ran but status is %d for %s %q", w.status, method, p)
	}
	if rt.hits == 0 && w.status != 404 {
		return o, kit.Failf("status", "no handler ran but status is %d (want 404) for %s %q", w.status, method, p)
	}
	return o, nil
}

// tryRegister reports whether the registration was rejected (by a panic).
func tryRegister(f func()) (rejected bool, why any) {
	defer func() {
		if p := recover(); p != nil {
			rejected, why = true, p
		}
	}()
	f()
	return
}

func varNames(p *ref.Pattern) []string {
	var n []string
	for _, s := range p.Segs {
		if s.Name != "" {
			n = append(n, s.Name)
		}
	}
	return append(n, "nosuchvar")
}

func newRoutes(ci bool, pats []*ref.Pattern) (*routes, int, any) {
	r := router.NewRouter(ci, func(error) {})
	rt := &routes{h: r}
	for i, p := range pats {
		rt.names = append(rt.names, varNames(p))
		if rej, why := tryRegister(func() { r.Handle("GET", p.Raw, rt.handler(i)) }); rej {
			return rt, i, why
		}
	}
	return rt, -1, nil
}

// ---------------------------------------------------------------- universes

// universe is a finite set of patterns and paths with all alignments precomputed.
type universe struct {
	ci    bool
	pats  []*ref.Pattern
	index map[string]int
	paths []string
	segs  [][]string
	al    [][][][]int // [pattern][path] -> alignments
	equiv [][]bool
}

func words(alpha []string, maxLen int) [][]string {
	out := [][]string{{}}
	level := [][]string{{}}
	for i := 0; i < maxLen; i++ {
		var next [][]string
		for _, w := range level {
			for _, a := range alpha {
				next = append(next, append(append([]string(nil), w...), a))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

// patternsOver lists all well-formed patterns with segments from the alphabet; variables are renamed by position.
func patternsOver(alpha []string, maxDepth int) []string {
	var out []string
	seen := map[string]bool{}
	for _, w := range words(alpha, maxDepth) {
		ok := true
		segs := append([]string(nil), w...)
		for i := range w {
			if i > 0 && w[i] == "**" && w[i-1] == "**" {
				ok = false
			}
			segs[i] = strings.ReplaceAll(w[i], "#", fmt.Sprint(i))
		}
		p := "/" + strings.Join(segs, "/")
		if ok && !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

func newUniverse(ci bool, pats []string, pathWords [][]string) *universe {
	u := &universe{ci: ci, index: map[string]int{}}
	for _, p := range pats {
		if _, dup := u.index[p]; dup {
			continue
		}
		u.index[p] = len(u.pats)
		u.pats = append(u.pats, ref.MustParse(p, ci))
	}
	for _, w := range pathWords {
		u.segs = append(u.segs, w)
		u.paths = append(u.paths, "/"+strings.Join(w, "/"))
	}
	u.al = make([][][][]int, len(u.pats))
	for i, p := range u.pats {
		u.al[i] = make([][][]int, len(u.paths))
		for j := range u.paths {
			u.al[i][j] = p.Aligns(u.segs[j])
		}
	}
	u.equiv = make([][]bool, len(u.pats))
	for i := range u.pats {
		u.equiv[i] = make([]bool, len(u.pats))
		for j := range u.pats {
			u.equiv[i][j] = i == j || ref.Equivalent(u.pats[i], u.pats[j])
		}
	}
	return u
}

type setCase struct {
	Patterns []string `json:"patterns"`
}

func (u *universe) set(c setCase) (idx []int, pats []*ref.Pattern) {
	for _, s := range c.Patterns {
		i, ok := u.index[s]
		if !ok {
			panic("pattern not in universe: " + s)
		}
		idx = append(idx, i)
		pats = append(pats, u.pats[i])
	}
	return
}

func (u *universe) hasEquiv(idx []int) bool {
	for i := range idx {
		for j := i + 1; j < len(idx); j++ {
			if u.equiv[idx[i]][idx[j]] {
				return true
			}
		}
	}
	return false
}

// tuples enumerates all k-tuples: ordered (all orders of every set) or unordered sets only.
func (u *universe) tuples(k int, ordered, withEquiv bool) iter.Seq[setCase] {
	return func(yield func(setCase) bool) {
		n := len(u.pats)
		cur := make([]int, 0, k)
		var rec func() bool
		rec = func() bool {
			if len(cur) == k {
				c := setCase{}
				for _, i := range cur {
					c.Patterns = append(c.Patterns, u.pats[i].Raw)
				}
				return yield(c)
			}
			from := 0
			if !ordered && len(cur) > 0 {
				from = cur[len(cur)-1] + 1
			}
		next:
			for i := from; i < n; i++ {
				for _, j := range cur {
					if i == j || (!withEquiv && u.equiv[i][j]) {
						continue next
					}
				}
				cur = append(cur, i)
				if !rec() {
					return false
				}
				cur = cur[:len(cur)-1]
			}
			return true
		}
		rec()
	}
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

type space struct {
	name    string
	u       *universe
	k       int
	ordered bool
}

var fullAlpha = []string{"a", "ab", "{x#}", "{v#:^a$}", "{w#:^a.*$}", "a*", "*b", "a?", "?*?", "*", "**"}
var kindAlpha = []string{"a", "{x#}", "{v#:^a$}", "a*", "*", "**"}
var kindAlphaC = []string{"a", "c", "{x#}", "{v#:^[ab]$}", "?", "*", "**"}
var slimAlpha = []string{"a", "{x#}", "*", "**"}
var tinyAlpha = []string{"a", "b", "**"}

func uniqueStrings(l []string) (out []string) {
	for _, s := range l {
		if !slices.Contains(out, s) {
			out = append(out, s)
		}
	}
	return
}

// deepPatterns are patterns and paths close to the segment limit.
func deepUniverse(ci bool) *universe {
	rep := func(s string, n int) []string {
		var o []string
		for i := 0; i < n; i++ {
			o = append(o, strings.ReplaceAll(s, "#", fmt.Sprint(i)))
		}
		return o
	}
	var pats []string
	add := func(parts ...[]string) {
		var all []string
		for _, p := range parts {
			all = append(all, p...)
		}
		if len(all) > 0 {
			pats = append(pats, "/"+strings.Join(all, "/"))
		}
	}
	for _, n := range []int{9, 17, 18, 19} {
		add(rep("a", n))
		add(rep("{x#}", n))
		add(rep("*", n))
		add(rep("a", n-1), []string{"**"})
		add([]string{"**"}, rep("a", n-1))
		add(rep("a", n-1), []string{"b"})
		add([]string{"{p}"}, rep("a", n-1))
		add(rep("a", n/2), []string{"**"}, rep("{x#}", n-n/2-1))
		add(rep("a", n/3), []string{"**"}, rep("a", n/3), []string{"**"}, rep("a", n/4))
	}
	pats = append(pats, "/**", "/a/**", "/**/b", "/**/{l}", "/a/**/b/**")
	var ws [][]string
	for _, n := range []int{1, 2, 8, 9, 10, 16, 17, 18, 19} {
		ws = append(ws, rep("a", n), rep("s#", n), append(rep("a", n-1), "b"), append([]string{"b"}, rep("a", n-1)...))
		if n > 2 {
			ws = append(ws, append(append(rep("a", n/2), "b"), rep("a", n-n/2-1)...))
		}
	}
	return newUniverse(ci, pats, ws)
}

func routingSpaces(r *kit.Run, ordered bool) []space {
	ab4 := words([]string{"a", "b"}, 4)
	ab5 := words([]string{"a", "b"}, 5)
	w3 := words([]string{"a", "b", "ab", "abb"}, 3)
	abc4 := words([]string{"a", "b", "c"}, 4)
	var s []space
	add := func(name string, u *universe, k int) {
		s = append(s, space{name, u, k, ordered})
	}
	single := newUniverse(false, patternsOver(fullAlpha, 4), words([]string{"a", "b", "ab"}, 5))
	add("singles", single, 1)
	add("singles_star", newUniverse(false, patternsOver([]string{"a", "{x#}", "**"}, 7), words([]string{"a", "b"}, kit.Pick(r, 8, 9))), 1)
	add("pairs_d2_full", newUniverse(false, patternsOver(fullAlpha, 2), w3), 2)
	add("pairs_d3_kinds", newUniverse(false, patternsOver(kindAlpha, 3), ab4), 2)
	add("pairs_d4_stars", newUniverse(false, patternsOver(tinyAlpha, 4), ab5), 2)
	add("triples_d2_kinds", newUniverse(false, patternsOver(kindAlpha, 2), words([]string{"a", "b", "ab"}, 3)), 3)
	add("triples_d3_slim", newUniverse(false, patternsOver([]string{"a", "{x#}", "**"}, 3), ab4), 3)
	// many spellings of constraints, names and literals next to the other kinds
	var forms []string
	for _, re := range []string{"a", ".", "^a$", ".*", "^.$", "a|b", "^(a|1)$", "[^a]", "\\d", "^$", "^[a-b]+$", "b*", "A", "a?b$", "^\\w{2}$"} {
		for _, n := range []string{"x", "long_name"} {
			forms = append(forms, "/{"+n+":"+re+"}", "/{"+n+":"+re+"}/b", "/a/{"+n+":"+re+"}")
		}
	}
	for _, f := range []string{"{y}", "{longer-name}", "a", "b", "1", "*", "a*", "?", "**"} {
		forms = append(forms, "/"+f, "/"+f+"/b", "/a/"+f)
	}
	forms = slices.DeleteFunc(forms, func(f string) bool { return !ref.Specified(f) })
	add("forms_pairs", newUniverse(false, uniqueStrings(forms), words([]string{"a", "b", "ab", "1"}, 2)), 2)
	add("forms_triples", newUniverse(false, []string{"/{x:a}", "/{xy:b}", "/{x:.}", "/{x:^a$}/b", "/{z:1|b}/b", "/a/{x:b}", "/a/{x:^.b$}", "/{y}", "/{y}/b", "/a/{y}", "/a", "/a/b", "/?", "/*", "/*/b", "/**", "/a/**", "/**/b"},
		words([]string{"a", "b", "ab", "1"}, 2)), 3)
	add("deep_pairs", deepUniverse(false), 2)
	add("pairs_d3_kindsC", newUniverse(false, patternsOver(kindAlphaC, 3), abc4), 2)
	add("pairs_d3_full", newUniverse(false, patternsOver(fullAlpha, 3), words([]string{"a", "b", "ab"}, 3)), 2)
	add("triples_d3_slim4", newUniverse(false, patternsOver(slimAlpha, 3), ab4), 3)
	add("quads_d2_slim", newUniverse(false, patternsOver(slimAlpha, 2), words([]string{"a", "b"}, 3)), 4)
	add("triples_d4_stars", newUniverse(false, patternsOver([]string{"a", "**"}, 5), words([]string{"a", "b"}, 6)), 3)
	if r.Thorough() {
		add("triples_d3_kinds", newUniverse(false, patternsOver(kindAlpha, 3), ab4), 3)
		add("pairs_d4_kinds", newUniverse(false, patternsOver(kindAlpha, 4), ab5), 2)
		add("quads_d2_kinds", newUniverse(false, patternsOver(kindAlpha, 2), words([]string{"a", "b", "ab"}, 3)), 4)
		add("quints_d2_slim", newUniverse(false, patternsOver(slimAlpha, 2), words([]string{"a", "b"}, 3)), 5)
		add("quads_d3_stars", newUniverse(false, patternsOver([]string{"a", "{x#}", "**"}, 3), ab4), 4)
		add("triples_d2_full", newUniverse(false, patternsOver(fullAlpha, 2), w3), 3)
	}
	return s
}

// forSets runs the oracle on every path of every tuple in every space.
func forSets(r *kit.Run, spaces []space, oracle func(u *universe, idx []int, pi int, o outcome) *kit.Failure) {
	for _, sp := range spaces {
		u := sp.u
		r.Bound("%s: all %s of size %d from %d patterns, each against %d paths", sp.name, map[bool]string{true: "ordered tuples", false: "sets"}[sp.ordered], sp.k, len(u.pats), len(u.paths))
		kit.Explore(r, sp.name, u.tuples(sp.k, sp.ordered, false), func(c setCase) *kit.Failure {
			idx, pats := u.set(c)
			rt, at, why := newRoutes(u.ci, pats)
			if at >= 0 {
				return kit.Failf("rejected", "registration of %q rejected: %v", pats[at].Raw, why)
			}
			for pi, p := range u.paths {
				o, f := rt.serve("GET", p)
				if f == nil {
					f = oracle(u, idx, pi, o)
				}
				if f != nil {
					f.Msg = fmt.Sprintf("patterns %q, GET %s: %s", c.Patterns, p, f.Msg)
					f.Key = fmt.Sprintf("%s %q %s", f.Key, c.Patterns, p)
					return f
				}
				if o.Hit >= 0 {
					r.Seen(kit.Hash(c.Patterns[o.Hit], p, len(c.Patterns)))
				}
			}
			r.AddEvals(len(u.paths))
			return nil
		})
	}
}

// ---------------------------------------------------------------- many siblings, many `**`

type wideCase struct {
	Kind  string `json:"kind"`
	N     int    `json:"n"`
	Order string `json:"order"`
}

// wide gives n patterns of one kind, of which none matches the request path made for another, and these paths.
func (c wideCase) build() (pats []string, paths []string) {
	for i := 0; i < c.N; i++ {
		var p, q string
		kind := c.Kind
		if kind == "mixed" || kind == "mixed_nested" {
			kind = []string{"literal", "constraint", "wild", "nested", "suffix", "star"}[i%6]
		}
		switch kind {
		case "literal":
			p, q = "/p%d", "/p%d"
		case "nested":
			p, q = "/n/{x}/p%d", "/n/v/p%d"
		case "wild":
			p, q = "/w%03d_*", "/w%03d_x"
		case "constraint":
			p, q = "/{v:^c%d$}", "/c%d"
		case "suffix":
			p, q = "/x/{a}/s%d/**", "/x/y/s%d/z/z"
		case "star":
			p, q = "/**/e%d", "/k/k/e%d"
		case "parents":
			p, q = "/p%d/{v}/q", "/p%d/z/q"
		case "cased": // neighbours that differ in case
			p = fmt.Sprintf("/%sag%s", []string{"T", "t"}[i%2], []string{"", "E"}[i/2%2]) + "%d"
			q = p
		case "prefixes":
			p = "/" + strings.Repeat("a", i) + "%d"
			q = p
		}
		p, q = fmt.Sprintf(p, i), fmt.Sprintf(q, i)
		if c.Kind == "mixed_nested" {
			p, q = "/m/m"+p, "/m/m"+q
		}
		pats, paths = append(pats, p), append(paths, q)
	}
	switch c.Order {
	case "down":
		slices.Reverse(pats)
		slices.Reverse(paths)
	case "inside out":
		for i := 0; i+1 < len(pats)/2; i += 2 {
			j := len(pats) - 1 - i
			pats[i], pats[j] = pats[j], pats[i]
			paths[i], paths[j] = paths[j], paths[i]
		}
	}
	return
}

// wideSpace registers many sibling patterns and expects every request to reach its own one (or, if precedence is
// not to be judged, the catch-all).
func wideSpace(r *kit.Run, strict bool) {
	var sizes []int
	for n := 1; n <= 600; n++ {
		if n <= kit.Pick(r, 20, 70) || n >= 126 && n <= 130 || n >= 253 && n <= 259 || n == 64 || n == 300 || n == 520 {
			sizes = append(sizes, n)
		}
	}
	kinds := []string{"literal", "nested", "wild", "constraint", "suffix", "star", "parents", "mixed", "mixed_nested", "cased", "prefixes"}
	r.Bound("wide: %d numbers of sibling patterns from 1 to 520 of %d kinds in 3 registration orders, each requested, with and without catch-all patterns", len(sizes), len(kinds))
	kit.Explore(r, "wide", func(yield func(wideCase) bool) {
		for _, n := range sizes {
			for _, k := range kinds {
				for _, o := range []string{"up", "down", "inside out"} {
					if !yield(wideCase{k, n, o}) {
						return
					}
				}
			}
		}
	}, func(c wideCase) *kit.Failure {
		pats, paths := c.build()
		for _, extra := range [][]string{nil, {"/**"}} {
			var pp []*ref.Pattern
			for _, p := range append(slices.Clone(pats), extra...) {
				pp = append(pp, ref.MustParse(p, false))
			}
			if c.Order == "down" {
				slices.Reverse(pp)
			}
			at := map[string]int{}
			for i, p := range pp {
				at[p.Raw] = i
			}
			rt, rej, why := newRoutes(false, pp)
			if rej >= 0 {
				return kit.Failf(fmt.Sprintf("wide %v", c), "%v: registration of %q rejected: %v", c, pp[rej].Raw, why)
			}
			for i, q := range paths {
				o, f := rt.serve("GET", q)
				if f != nil {
					return f
				}
				if o.Hit != at[pats[i]] && (strict || extra == nil || o.Hit != at["/**"]) {
					return kit.Failf(fmt.Sprintf("wide %v", c), "%v: GET %s dispatched to number %d of %d patterns, want %q", c, q, o.Hit, len(pp), pats[i])
				}
				r.Seen(kit.Hash("wide", pats[i], c.N > 255))
			}
			for _, q := range []string{"/none", "/n/v/none", "/none/none/none"} {
				o, f := rt.serve("GET", q)
				if f != nil {
					return f
				}
				want := -1
				if extra != nil {
					want = at["/**"]
				}
				if o.Hit != want {
					return kit.Failf(fmt.Sprintf("wide %v", c), "%v: GET %s dispatched to number %d, want %d", c, q, o.Hit, want)
				}
			}
			r.AddEvals(len(paths) + 3)
		}
		return nil
	})
}

type longCase struct {
	Unit, Head, Tail string
	K                int
	Other            string
}

// longSpace has patterns that repeat `**` as often as paths have segments, so that branches are longer than any path.
func longSpace(r *kit.Run) {
	units := []string{"/**/a", "/a/**", "/**/{x#}", "/{x#}/**", "/*/**", "/**/a*", "/**/{v#:^a}"}
	r.Bound("long: patterns that repeat %d units with `**` up to 19 times with a head, a tail and a competitor, against all a^n, a^n b, b a^n, (ab)^n up to 20 segments", len(units))
	kit.Explore(r, "long", func(yield func(longCase) bool) {
		for _, u := range units {
			for k := 1; k <= 19; k++ {
				if k > 5 && k != 9 && k != 10 && k < 18 && !r.Thorough() {
					continue
				}
				for _, h := range []string{"", "/a", "/{h}"} {
					for _, t := range []string{"", "/b"} {
						for _, o := range []string{"", "/**/b", "/{h}/a/**"} {
							if strings.HasSuffix(u, "/**") && t == "/**" {
								continue
							}
							if !yield(longCase{u, h, t, k, o}) {
								return
							}
						}
					}
				}
			}
		}
	}, func(c longCase) *kit.Failure {
		s := c.Head
		for i := 0; i < c.K; i++ {
			s += strings.ReplaceAll(c.Unit, "#", fmt.Sprint(i))
		}
		s += c.Tail
		pp := []*ref.Pattern{ref.MustParse(s, false)}
		if c.Other != "" {
			o := ref.MustParse(c.Other, false)
			if ref.Equivalent(o, pp[0]) {
				return nil
			}
			pp = append(pp, o)
		}
		rt, rej, why := newRoutes(false, pp)
		if rej >= 0 {
			return kit.Failf("long "+s, "registration of %q rejected: %v", pp[rej].Raw, why)
		}
		for n := 1; n <= 20; n++ {
			as := make([]string, n)
			for i := range as {
				as[i] = "a"
			}
			for v := 0; v < 4; v++ {
				segs := slices.Clone(as)
				switch v {
				case 1:
					segs[n-1] = "b"
				case 2:
					segs[0] = "b"
				case 3:
					for i := 1; i < n; i += 2 {
						segs[i] = "b"
					}
				}
				p := "/" + strings.Join(segs, "/")
				o, f := rt.serve("GET", p)
				if f != nil {
					return f
				}
				any, ok := false, false
				for i, q := range pp {
					m := n <= ref.MaxSegments && q.Matches(segs)
					any = any || m
					ok = ok || m && o.Hit == i
				}
				if ok != any || o.Hit >= 0 && !any {
					return kit.Failf("long "+s+" "+p, "patterns %q and %q, GET %s: dispatched to %d, matching=%v", s, c.Other, p, o.Hit, any)
				}
				if ok {
					r.Seen(kit.Hash("long", s, n, v))
				}
			}
		}
		r.AddEvals(80)
		return nil
	})
}

func init() {
	All["R01"] = func(r *kit.Run) {
		r.Rule = "one evaluation = one request against one registered pattern set; non-trivial = it was dispatched; distinct by (chosen pattern, path, set size)"
		forSets(r, routingSpaces(r, true), func(u *universe, idx []int, pi int, o outcome) *kit.Failure {
			any := false
			for _, i := range idx {
				any = any || len(u.al[i][pi]) > 0
			}
			if o.Hit < 0 {
				if any {
					return kit.Failf("missed", "404 although a registered pattern matches")
				}
				return nil
			}
			if len(u.al[idx[o.Hit]][pi]) == 0 {
				return kit.Failf("wrong", "dispatched to %q, which does not match", u.pats[idx[o.Hit]].Raw)
			}
			return nil
		})
		wideSpace(r, false)
		longSpace(r)
		wordSpace(r, false)
		// every wildcard text against every word
		for _, al := range [][2]string{{"ab*?", "ab"}, {"aé*?", "aé€"}} {
			pl, wl := kit.Pick(r, 5, 6), kit.Pick(r, 6, 7)
			if al[1] != "ab" {
				pl, wl = kit.Pick(r, 4, 5), kit.Pick(r, 4, 5)
			}
			ws := words(strings.Split(al[1], ""), wl)[1:]
			r.Bound("wildcard: all texts over %q up to %d characters against all words over %q up to %d", al[0], pl, al[1], wl)
			kit.Explore(r, "wildcard_"+al[1], func(yield func(string) bool) {
				for _, w := range words(strings.Split(al[0], ""), pl)[1:] {
					t := strings.Join(w, "")
					if strings.ContainsAny(t, "*?") && !strings.Contains(t, "**") && t != "*" {
						if !yield(t) {
							return
						}
					}
				}
			}, func(t string) *kit.Failure {
				for _, form := range []string{"/%s", "/p/%s/q"} {
					rt, at, why := newRoutes(false, []*ref.Pattern{ref.MustParse(fmt.Sprintf(form, t), false)})
					if at >= 0 {
						return kit.Failf("rejected "+t, "pattern rejected: %v", why)
					}
					for _, w := range ws {
						word := strings.Join(w, "")
						p := fmt.Sprintf(form, word)
						o, f := rt.serve("GET", p)
						if f != nil {
							return f
						}
						want := ref.WildMatch(t, word, false)
						if (o.Hit == 0) != want {
							return kit.Failf("wild "+t+" "+word, "text %q against segment %q: matched=%v, want %v", t, word, o.Hit == 0, want)
						}
						if want {
							r.Seen(kit.Hash("w", t, word))
						}
					}
					r.AddEvals(len(ws))
				}
				return nil
			})
		}
	}
	All["R02"] = func(r *kit.Run) {
		r.Rule = "one evaluation = one request against one set in one registration order, compared with the first order; non-trivial = dispatched with two or more matching patterns; distinct by (set, path)"
		ps := map[int][][]int{2: perms(2), 3: perms(3), 4: perms(4), 5: perms(5)}
		for _, sp := range append(routingSpaces(r, false), orderSpaces(r)...) {
			if sp.k < 2 {
				continue
			}
			u := sp.u
			orders := ps[sp.k]
			r.Bound("%s: all sets of size %d from %d patterns in all %d orders against %d paths", sp.name, sp.k, len(u.pats), len(orders), len(u.paths))
			kit.Explore(r, sp.name, u.tuples(sp.k, false, true), func(c setCase) *kit.Failure {
				idx, pats := u.set(c)
				type res struct {
					rt  *routes
					rej bool
					ord []int
				}
				var all []res
				for _, ord := range orders {
					pp := make([]*ref.Pattern, len(pats))
					for i, j := range ord {
						pp[i] = pats[j]
					}
					rt, at, _ := newRoutes(u.ci, pp)
					all = append(all, res{rt, at >= 0, ord})
				}
				for _, x := range all[1:] {
					if x.rej != all[0].rej {
						return kit.Failf(fmt.Sprintf("rej %q", c.Patterns), "patterns %q are rejected in one order and accepted in another", c.Patterns)
					}
				}
				if all[0].rej {
					return nil
				}
				for pi, p := range u.paths {
					var first outcome
					for xi, x := range all {
						o, f := x.rt.serve("GET", p)
						if f != nil {
							return f
						}
						if o.Hit >= 0 {
							o.Hit = x.ord[o.Hit]
						}
						if xi == 0 {
							first = o
						} else if !o.same(first) {
							return kit.Failf(fmt.Sprintf("order %q %s", c.Patterns, p), "patterns %q, GET %s: order %v gives %+v, order %v gives %+v", c.Patterns, p, all[0].ord, first, x.ord, o)
						}
					}
					n := 0
					for _, i := range idx {
						if len(u.al[i][pi]) > 0 {
							n++
						}
					}
					if n > 1 {
						r.Seen(kit.Hash(strings.Join(c.Patterns, " "), p))
					}
				}
				r.AddEvals(len(u.paths) * len(orders))
				return nil
			})
		}
	}
	All["R03"] = func(r *kit.Run) {
		r.Rule = "one evaluation = one request against one ordered pattern tuple; non-trivial = two or more patterns match; distinct by (matching patterns, path)"
		forSets(r, routingSpaces(r, true), func(u *universe, idx []int, pi int, o outcome) *kit.Failure {
			if o.Hit < 0 || len(u.al[idx[o.Hit]][pi]) == 0 {
				n := 0
				for _, j := range idx {
					if len(u.al[j][pi]) > 0 {
						n++
					}
				}
				if n > 1 {
					return kit.Failf("none", "none of the %d matching patterns was chosen", n)
				}
				return nil // R01's business
			}
			win := idx[o.Hit]
			wa := u.al[win][pi][0]
			for _, j := range idx {
				if j == win || len(u.al[j][pi]) == 0 {
					continue
				}
				if ref.Compare(u.pats[j], u.al[j][pi][0], u.pats[win], wa) < 0 {
					return kit.Failf("less", "dispatched to %q although %q matches and is more specific", u.pats[win].Raw, u.pats[j].Raw)
				}
				r.Seen(kit.Hash(u.pats[j].Raw, u.pats[win].Raw, u.paths[pi]))
			}
			// `**` takes as few segments as the rest of its pattern allows
			want := u.pats[win].Vars(u.segs[pi], wa)
			for k, n := range varNames(u.pats[win]) {
				if o.Vars[k] != want[n] && validVars(u, win, pi, o) {
					return kit.Failf("run", "%q matched with %q, but `**` can take fewer segments: variable %s=%q, want %q", u.pats[win].Raw, o.Vars, n, o.Vars[k], want[n])
				}
			}
			return nil
		})
		wideSpace(r, true)
	}
	All["R04"] = func(r *kit.Run) {
		r.Rule = "one evaluation = one request against one ordered pattern tuple; non-trivial = the dispatched pattern declares variables; distinct by (pattern, path, values)"
		s := routingSpaces(r, true)
		abcd := words([]string{"a", "b", "c"}, 4)
		s = append(s, space{"vars_pairs", newUniverse(false, patternsOver([]string{"a", "{x#}", "{v#:^[ab]$}", "**"}, 3), abcd), 2, true})
		s = append(s, space{"vars_singles", newUniverse(false, patternsOver([]string{"a", "{x#}", "{v#:^[ab]$}", "*", "b*", "**"}, kit.Pick(r, 4, 5)), words([]string{"a", "b", "c"}, 5)), 1, true})
		s = append(s, space{"vars_triples", newUniverse(false, patternsOver([]string{"b", "{x#}", "**"}, 3), words([]string{"b", "c", "d"}, 4)), 3, true})
		s = append(s, space{"vars_values", valueUniverse(), 2, true})
		forSets(r, s, func(u *universe, idx []int, pi int, o outcome) *kit.Failure {
			if o.Hit < 0 || len(u.al[idx[o.Hit]][pi]) == 0 {
				return nil
			}
			win := idx[o.Hit]
			if !validVars(u, win, pi, o) {
				return kit.Failf("vars", "%q: variables %q read %q, no alignment of pattern and path gives that", u.pats[win].Raw, varNames(u.pats[win]), o.Vars)
			}
			if len(o.Vars) > 1 {
				r.Seen(kit.Hash(u.pats[win].Raw, u.paths[pi], strings.Join(o.Vars, "/")))
			}
			return nil
		})
		r04Sizes(r)
		wordSpace(r, true)
	}
}

// valueUniverse has path segments of unusual content and length.
func valueUniverse() *universe {
	vals := []string{"a", ".", "...", "a b", "é", "%2F", "{x0}", "*", "**", "x:y", ";p=1", strings.Repeat("z", 300), "\xff"}
	return newUniverse(false, []string{"/{x0}", "/{x0}/{x1}", "/a/{x1}", "/{x0}/**", "/**/{x1}", "/**/{x1}/**", "/{x0}/**/{x2}", "/{x}/a", "/{a}/{b}/{c}"}, words(vals, 3))
}

func validVars(u *universe, win, pi int, o outcome) bool {
	names := varNames(u.pats[win])
	for _, al := range u.al[win][pi] {
		want := u.pats[win].Vars(u.segs[pi], al)
		ok := true
		for k, n := range names {
			if o.Vars[k] != want[n] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func prefixed(pre string, pats []string) (out []string) {
	for _, p := range pats {
		out = append(out, pre+p)
	}
	return
}

func prefixedWords(k int, ws [][]string) (out [][]string) {
	pre := slices.Repeat([]string{"p"}, k)
	for _, w := range ws {
		out = append(out, append(slices.Clone(pre), w...))
	}
	return
}

// orderSpaces contain overlapping siblings of the same kind, where only the registration order could decide.
func orderSpaces(r *kit.Run) []space {
	al := []string{"a*", "*b", "a?", "{v#:^a}", "{w#:b$}", "{z#:^a}"}
	ws := words([]string{"a", "ab", "b"}, 3)
	s := []space{
		{"overlap_pairs", newUniverse(false, patternsOver(al, 2), ws), 2, false},
		{"overlap_triples", newUniverse(false, patternsOver([]string{"a*", "*b", "{v#:^a}", "{w#:b$}", "a"}, 2), ws), 3, false},
		{"overlap_triples_ci", newUniverse(true, patternsOver([]string{"a*", "A*", "*B", "{v#:^a}", "{w#:b$}"}, 2), words([]string{"a", "aB", "Ab"}, 2)), 3, false},
		{"overlap_names", newUniverse(false, []string{"/{a:^x}/p", "/{z:^x}/q", "/{b:x$}/p", "/{y:x$}/q", "/{c:^xx$}/q", "/{m:x}/r", "/{x}/p", "/{y}/q"}, words([]string{"x", "xx", "p", "q", "r"}, 2)), 3, false},
	}
	// the same far from the root, and with texts that agree in all but their end or their beginning
	for k := 3; k <= 17; k++ {
		if r.Thorough() || k >= 5 && k <= 9 || k >= 15 {
			pre := strings.Repeat("/p", k)
			s = append(s, space{fmt.Sprintf("deep_%d", k), newUniverse(false, prefixed(pre, patternsOver([]string{"a*", "*b", "{v#}", "b"}, min(2, 19-k))), prefixedWords(k, words([]string{"ab", "b"}, 2))), 3, false})
		}
	}
	for _, l := range sizesTo(2, 300) {
		if l > 4 {
			x := textOf(l)
			s = append(s, space{fmt.Sprintf("long_%d", l), newUniverse(false, []string{"/" + x + "a*", "/" + x + "*b", "/" + x + "?b", "/a*" + x, "/*b" + x, "/{v:^" + x + "a}", "/{w:" + x + "ab}", "/{z:" + x + "(ab|b)}"},
				[][]string{{x + "ab"}, {x + "aab"}, {x + "ab" + x}, {"ab" + x}, {"aab" + x}}), 2, false})
		}
	}
	if r.Thorough() {
		s = append(s, space{"overlap_quads", newUniverse(false, patternsOver([]string{"a*", "*b", "{v#:^a}", "a"}, 2), ws), 4, false})
	}
	return s
}

// ---------------------------------------------------------------- R05

func init() {
	All["R05"] = func(r *kit.Run) {
		r.Rule = "one evaluation = one pattern string or one sequence of registrations; non-trivial = rejected, or accepted with later dispatch verified; distinct by case"
		n := kit.Pick(r, 7, 8)
		alpha := strings.Split("/a*{}:", "")
		r.Bound("strings: all strings over / a * { } : up to %d characters", n)
		kit.Explore(r, "strings", func(yield func(string) bool) {
			for _, w := range words(alpha, n) {
				if !yield(strings.Join(w, "")) {
					return
				}
			}
		}, func(s string) *kit.Failure {
			rt := router.NewRouter(false, func(error) {})
			rej, why := tryRegister(func() { rt.Handle("GET", s, okHandler) })
			if rej {
				if _, isErr := why.(error); isErr {
					return kit.Failf("crash "+s, "registration of %q crashed: %v", s, why)
				}
			}
			if !ref.Specified(s) {
				return nil
			}
			p, err := ref.ParsePattern(s, false)
			if rej != (err != nil) {
				return kit.Failf("string "+s, "pattern %q: rejected=%v (%v), want rejected=%v", s, rej, why, err != nil)
			}
			r.Seen(kit.Hash(s))
			if !rej {
				// the same pattern once more, and with a slash more or less, is a duplicate
				alt := s + "/"
				if len(s) > 1 && strings.HasSuffix(s, "/") {
					alt = s[:len(s)-1]
				}
				for _, d := range []string{s, alt} {
					if d == "//" || d == "" {
						continue
					}
					if again, _ := tryRegister(func() { rt.Handle("GET", d, okHandler) }); !again {
						return kit.Failf("dup "+s+" "+d, "%q accepted after the equivalent %q", d, s)
					}
				}
			}
			_ = p
			return nil
		})
		// regular expressions and odd forms
		odd := []string{"/{a:[}", "/{a:(}", "/{a:a(b}", "/{a:^[0-9]+$}", "/{a:\\d}", "/{a:}", "/{:a}", "/{}", "/a{b}", "/{a", "/a}", "/a**", "/**a", "/a**b", "/***", "/**/**", "/**/**/", "/a/**/**/b", "/**/a/**", "//", "/a//b", "a", "", "/", "/a/", "/a//", " /a", "/é/*/ü?", "/{a:a{2}}", "/{a:[a-z]{1,3}}/b"}
		kit.Explore(r, "odd", slicesSeq(odd), func(s string) *kit.Failure {
			rt := router.NewRouter(false, func(error) {})
			rej, why := tryRegister(func() { rt.Handle("GET", s, okHandler) })
			wantBad := false
			switch s {
			case "/{a:a{2}}", "/{a:[a-z]{1,3}}/b", "/a{b}":
				return nil // braces inside: not decided by the property, only the absence of crashes is
			default:
				_, err := ref.ParsePattern(s, false)
				wantBad = err != nil
			}
			r.Seen(kit.Hash("odd", s))
			if rej != wantBad {
				return kit.Failf("odd "+s, "pattern %q: rejected=%v (%v), want %v", s, rej, why, wantBad)
			}
			return nil
		})
		// long patterns: registration ends, and what is accepted is routed by its text
		r.Bound("long: all alternations of a/** up to 19 segments, repeated segments up to 600")
		kit.Explore(r, "long", func(yield func(string) bool) {
			var rec func(segs []string, star bool, max int) bool
			rec = func(segs []string, star bool, max int) bool {
				if len(segs) > 0 && !yield("/"+strings.Join(segs, "/")) {
					return false
				}
				if len(segs) == max {
					return true
				}
				if !rec(append(segs[:len(segs):len(segs)], "a"), false, max) {
					return false
				}
				if !star && !rec(append(segs[:len(segs):len(segs)], "**"), true, max) {
					return false
				}
				return true
			}
			if !rec(nil, false, kit.Pick(r, 14, 19)) {
				return
			}
			for _, unit := range []string{"/a", "/*", "/{x}", "/**/a", "/a*", "/a/**", "/{x:^a$}/**"} {
				for n := 1; n <= 600; n++ {
					if n > 300 && n%16 != 0 && n != 511 && n != 513 {
						continue
					}
					if !yield(strings.Repeat(unit, n)) {
						return
					}
				}
			}
		}, func(s string) *kit.Failure {
			p := ref.MustParse(s, false)
			rt := router.NewRouter(false, func(error) {})
			hit := -1
			h := func(i int) handler.Handler {
				return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
					hit = i
					return nopResponse{}, nil
				}
			}
			rejLong := false
			if rej, why := tryRegister(func() { rt.Handle("GET", s, h(0)) }); rej {
				if len(p.Segs) <= 32 {
					return kit.Failf("long "+s, "well-formed pattern of %d segments rejected: %v", len(p.Segs), why)
				}
				rejLong = true // a limit on the number of segments is fine, mis-routing is not
			}
			n := 0
			for _, seg := range p.Segs {
				if seg.Kind != ref.DoubleStar {
					n++
				}
			}
			for _, k := range []int{0, 1, n, n + 1, 19} {
				hit = -1
				segs := make([]string, k)
				for i := range segs {
					segs[i] = "a"
				}
				if k > 19 {
					continue
				}
				rt.ServeHTTP(&nopWriter{}, &http.Request{Method: "GET", URL: &url.URL{Path: "/" + strings.Join(segs, "/")}})
				want := -1
				if !rejLong && n <= 19 && len(p.Segs) <= 19 && len(p.Aligns(segs)) > 0 {
					want = 0
				}
				if len(p.Segs) > 19 && n <= 19 {
					continue
				}
				if hit != want {
					return kit.Failf(fmt.Sprintf("long %.40s.. %d", s, k), "pattern of %d segments (%.60s...), path of %d segments: hit=%d want %d", len(p.Segs), s, k, hit, want)
				}
			}
			r.Seen(kit.Hash("long", s))
			return nil
		})
		// registration sequences: duplicates exactly when equivalent, and routing survives rejections
		seqAlpha := []string{"/", "/a", "/a/", "/b", "/{x}", "/{y}", "/{x}/", "/{x:^1$}", "/{y:^1$}", "/{x:^2$}", "/*", "/**", "/**/", "/a*", "/a*/", "/a?", "/a/b", "/a/{x}", "/a/{y}", "/a/{x:^1$}", "/a/{z:^1$}", "/a/**", "/a/**/b", "/{q}/b", "/{r}/b", "/{k}/{l:^1$}", "/{m}/{n:^1$}", "/{m}/{n:^1$}/c", "/*/b", "/**/b", "/**/{x}", "/**/{y}/", "/a*/b", "/a?/b", "/**/{x:^1$}/c", "/**/{y:^1$}/c"}
		paths := words([]string{"a", "b", "1"}, 3)
		for _, ci := range []bool{false, true} {
			u := newUniverse(ci, seqAlpha, paths)
			if ci {
				u = newUniverse(ci, append([]string{"/A", "/A/B", "/A*", "/a/B", "/A?/b", "/A/{x}"}, seqAlpha...), paths)
			}
			for k := 1; k <= 3; k++ {
				k := k
				if ci && k == 3 && !r.Thorough() {
					continue
				}
				r.Bound("sequences: all sequences (with repetition) of %d registrations from %d patterns, case-insensitive=%v", k, len(u.pats), ci)
				kit.Explore(r, fmt.Sprintf("sequences_%v_%d", ci, k), seqs(u, k), func(c setCase) *kit.Failure {
					_, pats := u.set(c)
					rr := router.NewRouter(ci, func(error) {})
					rt := &routes{h: rr}
					var live []int
					for i, p := range pats {
						rt.names = append(rt.names, varNames(p))
						want := false
						for _, j := range live {
							want = want || ref.Equivalent(pats[j], p)
						}
						rej, why := tryRegister(func() { rr.Handle("GET", p.Raw, rt.handler(i)) })
						if rej != want {
							return kit.Failf(fmt.Sprintf("seq %q %d", c.Patterns, i), "registering %q: registration %d rejected=%v (%v), want %v", c.Patterns, i, rej, why, want)
						}
						if !rej {
							live = append(live, i)
						}
						if rej {
							r.Seen(kit.Hash(strings.Join(c.Patterns, " ")))
						}
					}
					if len(live) == len(pats) && len(pats) > 1 {
						return nil
					}
					// some registration was rejected: routing equals that of the accepted ones alone
					var lp []*ref.Pattern
					for _, j := range live {
						lp = append(lp, pats[j])
					}
					clean, at, _ := newRoutes(ci, lp)
					if at >= 0 {
						return nil
					}
					for _, p := range u.paths {
						o, f := rt.serve("GET", p)
						if f != nil {
							return f
						}
						q, _ := clean.serve("GET", p)
						if q.Hit >= 0 {
							q.Hit = live[q.Hit]
						}
						if !o.same(q) {
							return kit.Failf(fmt.Sprintf("after %q %s", c.Patterns, p), "after the rejected registration in %q, GET %s gives %+v instead of %+v", c.Patterns, p, o, q)
						}
					}
					r.AddEvals(len(u.paths))
					return nil
				})
			}
		}
	}
}

func seqs(u *universe, k int) iter.Seq[setCase] {
	return func(yield func(setCase) bool) {
		idx := make([]int, k)
		for {
			c := setCase{}
			for _, i := range idx {
				c.Patterns = append(c.Patterns, u.pats[i].Raw)
			}
			if !yield(c) {
				return
			}
			j := k - 1
			for j >= 0 {
				idx[j]++
				if idx[j] < len(u.pats) {
					break
				}
				idx[j] = 0
				j--
			}
			if j < 0 {
				return
			}
		}
	}
}

func slicesSeq[T any](s []T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for _, v := range s {
			if !yield(v) {
				return
			}
		}
	}
}

func okHandler(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
	return nopResponse{}, nil
}

// ---------------------------------------------------------------- R06

func caseVariants(s string) []string {
	// letters outside braces in both cases
	out := []string{""}
	depth := 0
	for _, c := range s {
		if c == '{' {
			depth++
		}
		if c == '}' {
			depth--
		}
		if depth == 0 && c >= 'a' && c <= 'z' {
			up := string(c - 32)
			n := make([]string, 0, 2*len(out))
			for _, o := range out {
				n = append(n, o+string(c), o+up)
			}
			out = n
		} else {
			for i := range out {
				out[i] += string(c)
			}
		}
	}
	return out
}

func init() {
	All["R06"] = func(r *kit.Run) {
		r.Rule = "one evaluation = one request in one letter case against one pattern set in one letter case, case-sensitive or not; non-trivial = dispatched; distinct by (set, path, mode)"
		base := patternsOver([]string{"a", "{x#}", "{v#:^[a-c]$}", "a*", "?b", "*", "**"}, 2)
		base = append(base, "/a/b/c", "/a/**/b", "/ab/{x}/b", "/**/b/{y}", "/a*b/b")
		var pats []string
		for _, b := range base {
			pats = append(pats, caseVariants(b)...)
		}
		paths := words([]string{"a", "A", "b", "aB", "C"}, 3)
		// letters whose case variants are not ASCII or have another length in bytes
		letters := []string{"k", "K", "\u212a", "s", "S", "\u017f", "é", "É", "ß", "ẞ", "σ", "ς", "Σ", "i", "I", "İ", "ı", "Ⱥ", "ⱥ", "ǅ", "Ǆ", "ǆ", "я", "Я", "1"}
		var lp []string
		for _, l := range letters {
			lp = append(lp, "/"+l, "/x"+l+"*", "/?"+l, "/{v}/"+l)
		}
		r06Sizes(r)
		for _, ci := range []bool{true, false} {
			u := newUniverse(ci, lp, nil)
			kit.Explore(r, fmt.Sprintf("letters_%v", ci), u.tuples(1, true, true), func(c setCase) *kit.Failure {
				_, pp := u.set(c)
				rt, at, why := newRoutesMux(ci, pp)
				if at >= 0 {
					return kit.Failf("reject "+c.Patterns[0], "%q rejected: %v", c.Patterns[0], why)
				}
				for _, l := range letters {
					for _, p := range []string{"/" + l, "/x" + l, "/" + l + l, "/X" + l + "y", "/v/" + l} {
						o, f := rt.serve("GET", p)
						if f != nil {
							return f
						}
						if want := pp[0].Match(ref.Normalise(p)); (o.Hit == 0) != want {
							return kit.Failf(fmt.Sprintf("letter %v %s %s", ci, c.Patterns[0], p), "case-insensitive=%v, pattern %q, GET %s: dispatched=%v, want %v", ci, c.Patterns[0], p, o.Hit == 0, want)
						}
						if o.Hit == 0 {
							r.Seen(kit.Hash(ci, c.Patterns[0], p))
						}
					}
				}
				r.AddEvals(5 * len(letters))
				return nil
			})
			u = newUniverse(ci, pats, paths)
			kmax := 2
			for k := 1; k <= kmax; k++ {
				r.Bound("case-insensitive=%v: all sets of size %d from %d patterns against %d paths", ci, k, len(u.pats), len(u.paths))
				kit.Explore(r, fmt.Sprintf("ci_%v_%d", ci, k), u.tuples(k, true, true), func(c setCase) *kit.Failure {
					idx, pp := u.set(c)
					var rt *routes
					var rejected bool
					rt, at, _ := newRoutesMux(ci, pp)
					rejected = at >= 0
					if want := u.hasEquiv(idx); rejected != want {
						return kit.Failf(fmt.Sprintf("dup %v %q", ci, c.Patterns), "case-insensitive=%v: patterns %q rejected=%v, want %v", ci, c.Patterns, rejected, want)
					}
					if rejected {
						return nil
					}
					for pi, p := range u.paths {
						o, f := rt.serve("GET", p)
						if f != nil {
							return f
						}
						ok := o.Hit < 0
						for _, i := range idx {
							if len(u.al[i][pi]) > 0 {
								ok = false
							}
						}
						if o.Hit >= 0 {
							win := idx[o.Hit]
							ok = len(u.al[win][pi]) > 0 && validVars(u, win, pi, o)
							for _, j := range idx {
								if ok && j != win && len(u.al[j][pi]) > 0 && ref.Compare(u.pats[j], u.al[j][pi][0], u.pats[win], u.al[win][pi][0]) < 0 {
									ok = false
								}
							}
							r.Seen(kit.Hash(ci, strings.Join(c.Patterns, " "), p))
						}
						if !ok {
							return kit.Failf(fmt.Sprintf("case %v %q %s", ci, c.Patterns, p), "case-insensitive=%v, patterns %q, GET %s: got %+v", ci, c.Patterns, p, o)
						}
					}
					r.AddEvals(len(u.paths))
					return nil
				})
			}
		}
	}
}

// newRoutesMux is newRoutes through the mux, which owns the configuration flag.
func newRoutesMux(ci bool, pats []*ref.Pattern) (*routes, int, any) {
	m, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: ci, ErrLogFunc: func(error) {}})
	if err != nil {
		panic(err)
	}
	rt := &routes{h: m}
	for i, p := range pats {
		rt.names = append(rt.names, varNames(p))
		if rej, why := tryRegister(func() { m.HandleGet(p.Raw, rt.handler(i)) }); rej {
			return rt, i, why
		}
	}
	return rt, -1, nil
}

// ---------------------------------------------------------------- R07

func depthPatterns(root bool) []*ref.Pattern {
	var out []*ref.Pattern
	if root {
		out = append(out, ref.MustParse("/", false))
	}
	s := ""
	for i := 0; i < ref.MaxSegments; i++ {
		s += fmt.Sprintf("/{s%d}", i)
		out = append(out, ref.MustParse(s, false))
	}
	return out
}

type pathCase struct {
	Path string `json:"path"`
	Gen  string `json:"gen,omitempty"`
}

func (c pathCase) path() string {
	if c.Gen == "" {
		return c.Path
	}
	// Gen: comma separated items: seg lengths or literal tokens
	var sb strings.Builder
	for i, it := range strings.Split(c.Gen, ",") {
		var n int
		if _, err := fmt.Sscanf(it, "%d", &n); err == nil {
			sb.WriteByte('/')
			sb.WriteString(strings.Repeat(string(rune('a'+i%26)), n-1))
			sb.WriteByte(byte('A' + i%26))
		} else {
			sb.WriteString(it)
		}
	}
	return sb.String()
}

func init() {
	All["R07"] = func(r *kit.Run) {
		r.Rule = "one evaluation = one raw request path against routers with one variable pattern per depth (with and without a root handler) and a catch-all; non-trivial = not the plain joined segments; distinct by path"
		n := kit.Pick(r, 8, 10)
		r.Bound("raw: all paths over / a b . of up to %d characters after the leading slash; all prefixes without leading slash for absence of panics", n-1)
		type env struct {
			with, without, catch *routes
			pats                 []*ref.Pattern
		}
		mk := func() *env {
			e := &env{pats: depthPatterns(true)}
			e.with, _, _ = newRoutes(false, e.pats)
			e.without, _, _ = newRoutes(false, e.pats[1:])
			e.catch, _, _ = newRoutes(false, []*ref.Pattern{ref.MustParse("/", false), ref.MustParse("/**", false)})
			return e
		}
		pool := make(chan *env, r.Workers)
		for i := 0; i < r.Workers; i++ {
			pool <- mk()
		}
		check := func(c pathCase) *kit.Failure {
			e := <-pool
			defer func() { pool <- e }()
			p := c.path()
			r.AddEvals(1)
			o, f := e.with.serve("GET", p)
			if f != nil {
				return f
			}
			o2, f := e.without.serve("GET", p)
			if f != nil {
				return f
			}
			o3, f := e.catch.serve("GET", p)
			if f != nil {
				return f
			}
			if p != "" && p[0] != '/' {
				return nil
			}
			short := p
			if len(short) > 60 {
				short = fmt.Sprintf("%s...(%d bytes)", p[:60], len(p))
			}
			segs := ref.Normalise(p)
			if p != "/"+strings.Join(segs, "/") {
				r.Seen(kit.Hash(p))
			}
			depth := ref.MaxDepth(p)
			if len(segs) > ref.MaxSegments {
				if o.Hit >= 0 || o2.Hit >= 0 || o3.Hit >= 0 {
					return kit.Failf("toolong "+short, "path with %d segments was dispatched (%+v %+v %+v), want 404", len(segs), o, o2, o3)
				}
				return nil
			}
			if depth > ref.MaxSegments && o.Hit < 0 && o2.Hit < 0 && o3.Hit < 0 {
				return nil // more segments than the limit before `..` took some away: 404 is fine as well
			}
			if o.Hit != len(segs) {
				return kit.Failf("norm "+short, "path %q: routed as %d segments, want %d %q", short, o.Hit, len(segs), clip(segs))
			}
			for i, s := range segs {
				if o.Vars[i] != s {
					return kit.Failf("seg "+short, "path %q: segment %d reads %.80q, want %.80q", short, i, o.Vars[i], s)
				}
			}
			if o2.Hit != len(segs)-1 {
				return kit.Failf("noroot "+short, "path %q without root handler: routed to %d, want %d", short, o2.Hit, len(segs)-1)
			}
			want3 := 0
			if len(segs) > 0 {
				want3 = 1
			}
			if o3.Hit != want3 {
				return kit.Failf("catch "+short, "path %q with / and /**: routed to %d, want %d", short, o3.Hit, want3)
			}
			return nil
		}
		kit.Explore(r, "raw", func(yield func(pathCase) bool) {
			for _, w := range words([]string{"/", "a", ".", "b"}, n-1) {
				s := strings.Join(w, "")
				if !yield(pathCase{Path: "/" + s}) {
					return
				}
				if len(w) < n-2 && !yield(pathCase{Path: s}) {
					return
				}
			}
		}, check)
		kit.Explore(r, "bytes", func(yield func(pathCase) bool) {
			for b := 0; b < 256; b++ {
				for _, f := range []string{"/%s", "/a%sb", "/%s/x", "/x/%s/", "/..%s", "/%s..", "/.%s/y"} {
					if !yield(pathCase{Path: strings.ReplaceAll(f, "%s", string([]byte{byte(b)}))}) {
						return
					}
				}
			}
		}, check)
		r.Bound("words: %d words that look special in %d paths each", len(pathWords)+len(oddWords), len(wordPaths("w")))
		kit.Explore(r, "words", func(yield func(pathCase) bool) {
			for _, ws := range [][]string{pathWords, oddWords} {
				for _, w := range ws {
					for _, q := range wordPaths(w) {
						if utf8.ValidString(q) && !yield(pathCase{Path: q}) {
							return
						}
					}
				}
			}
		}, check)
		r.Bound("tokens: all sequences of up to %d tokens from a, .., ., empty, long name", kit.Pick(r, 7, 9))
		kit.Explore(r, "tokens", func(yield func(pathCase) bool) {
			for _, w := range words([]string{"/a", "/..", "/", "/.", "/xyz"}, kit.Pick(r, 7, 8)) {
				if !yield(pathCase{Path: strings.Join(w, "")}) {
					return
				}
			}
		}, check)
		r.Bound("counts: 0..300 segments with every combination of prefix and suffix decoration")
		kit.Explore(r, "counts", func(yield func(pathCase) bool) {
			for k := 0; k <= 300; k++ {
				for _, pre := range []string{"", "/", "/..", "/../..", "/x/..", "/./.."} {
					for _, suf := range []string{"", "/", "//", "/..", "/../", "/../..", "/../z", "/.", "/y/..", "/../../y/z/w"} {
						if !yield(pathCase{Path: pre + strings.Repeat("/s", k) + suf}) {
							return
						}
					}
				}
			}
		}, check)
		r.Bound("lengths: up to 3 segments with lengths around 0, 2^8, 2^15, 2^16, 2^17 in all combinations, with dot-dot between")
		kit.Explore(r, "lengths", func(yield func(pathCase) bool) {
			ls := []string{"1", "2", "255", "256", "32767", "32768", "65533", "65534", "65535", "65536", "65537", "131072"}
			for _, a := range ls {
				for _, b := range ls {
					for _, g := range []string{a + "," + b, a + ",/..," + b, "//," + a + ",/.," + b, a + "," + b + ",3"} {
						if !yield(pathCase{Gen: g}) {
							return
						}
					}
				}
				if !yield(pathCase{Gen: a}) {
					return
				}
			}
		}, check)
	}
}

func clip(s []string) []string {
	var o []string
	for _, x := range s {
		if len(x) > 20 {
			x = x[:20] + "..."
		}
		o = append(o, x)
	}
	return o
}

// ---------------------------------------------------------------- R08

type methodCase struct {
	Regs  [][2]string `json:"regs"` // method, pattern
	Mux   bool        `json:"mux"`
	Shape int         `json:"shape,omitempty"` // index into shapes
}

func init() {
	All["R08"] = func(r *kit.Run) {
		r.Rule = "one evaluation = one request against one list of (method, pattern) registrations; non-trivial = dispatched; distinct by (registrations, request)"
		methods := []string{"GET", "POST", "put", "Custom"}
		pats := []string{"/", "/a", "/{x}", "/a/**", "/*/b"}
		reqMethods := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "get", "pUt", "CUSTOM", "TRACE", "X"}
		muxMethods := []string{"GET", "POST", "PUT", "PATCH", "DELETE"}
		paths := []string{"/", "/a", "/b", "/a/b", "/c/b", "/c/d"}
		check := func(c methodCase) *kit.Failure {
			rr := router.NewRouter(false, func(error) {})
			m, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
			rt := &routes{h: rr, shape: c.Shape}
			if c.Mux {
				rt.h = m
			}
			per := map[string][]int{}
			var pp []*ref.Pattern
			for i, g := range c.Regs {
				p := ref.MustParse(g[1], false)
				pp = append(pp, p)
				rt.names = append(rt.names, varNames(p))
				M := strings.ToUpper(g[0])
				want := false
				for _, j := range per[M] {
					want = want || ref.Equivalent(pp[j], p)
				}
				rej, why := tryRegister(func() {
					if !c.Mux {
						rr.Handle(g[0], g[1], rt.handler(i))
						return
					}
					h := rt.handler(i)
					var mw []middleware.Middleware
					switch M {
					case "GET":
						m.HandleGet(g[1], h, mw...)
					case "POST":
						m.HandlePost(g[1], h, mw...)
					case "PUT":
						m.HandlePut(g[1], h, mw...)
					case "PATCH":
						m.HandlePatch(g[1], h, mw...)
					case "DELETE":
						m.HandleDelete(g[1], h, mw...)
					default:
						m.HandleRequest(g[0], g[1], h)
					}
				})
				if rej != want {
					return kit.Failf(fmt.Sprintf("reg %v", c), "registrations %v: number %d rejected=%v (%v), want %v", c.Regs, i, rej, why, want)
				}
				if !rej {
					per[M] = append(per[M], i)
				}
			}
			for _, rm := range reqMethods {
				ids := per[strings.ToUpper(rm)]
				var set []*ref.Pattern
				for _, i := range ids {
					set = append(set, pp[i])
				}
				for _, p := range paths {
					o, f := rt.serve(rm, p)
					if f != nil {
						return f
					}
					_, best := ref.Choice(set, ref.Normalise(p))
					ok := len(best) == 0 && o.Hit < 0
					for _, b := range best {
						ok = ok || ids[b] == o.Hit
					}
					if !ok {
						return kit.Failf(fmt.Sprintf("disp %v %s %s", c, rm, p), "registrations %v: %s %s dispatched to %d", c.Regs, rm, p, o.Hit)
					}
					if o.Hit >= 0 {
						r.Seen(kit.Hash(c.Regs, rm, p))
					}
				}
			}
			r.AddEvals(len(reqMethods) * len(paths))
			return nil
		}
		gen := func(ms []string, mux bool, n int) iter.Seq[methodCase] {
			return func(yield func(methodCase) bool) {
				var all [][2]string
				for _, m := range ms {
					for _, p := range pats {
						all = append(all, [2]string{m, p})
					}
				}
				var rec func(c [][2]string) bool
				rec = func(c [][2]string) bool {
					if !yield(methodCase{Regs: append([][2]string{}, c...), Mux: mux}) {
						return false
					}
					if len(c) == n {
						return true
					}
					for _, a := range all {
						if !rec(append(c[:len(c):len(c)], a)) {
							return false
						}
					}
					return true
				}
				rec(nil)
			}
		}
		r.Bound("%d shapes of the request (protocol, headers, peer, query) x all pairs of registrations", len(shapes))
		kit.Explore(r, "shapes", func(yield func(methodCase) bool) {
			for _, mux := range []bool{false, true} {
				for c := range gen(append(muxMethods, "Custom"), mux, 2) {
					for sh := range shapes {
						if len(c.Regs) == 2 && c.Regs[0][1] > c.Regs[1][1] {
							continue
						}
						c.Shape = sh
						if !yield(c) {
							return
						}
					}
				}
			}
		}, check)
		k := kit.Pick(r, 3, 3)
		r.Bound("all sequences of up to %d registrations over %d methods x %d patterns (router) and %d methods (mux) against %d requests", k, len(methods), len(pats), len(muxMethods), len(reqMethods)*len(paths))
		kit.Explore(r, "router", gen(append(methods, "post"), false, k), check)
		kit.Explore(r, "mux", gen(append(muxMethods, "Custom"), true, kit.Pick(r, 2, 3)), check)
		r08Sizes(r)
		wordSpace(r, false)
	}
}
