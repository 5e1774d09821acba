package checks

import (
	"context"
	"errors"
	"fmt"
	"iter"
	"slices"
	"strings"

	"gofremc/kit"
	"gofremc/ref"
	"gofremc/wire"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() {
	All["M01"] = checkM01
	All["M02"] = checkM02
}

// ---------------------------------------------------------------- M01

// m01Op is one operation on the tree of muxes.
type m01Op struct {
	K string `json:"k"` // add1, add3, clone, derive, reg0, reg2
	M int    `json:"m"` // which mux
}

type m01Case struct {
	Ops []m01Op `json:"ops"`
}

type m01Mux struct {
	m      *gofre.MuxHandler
	prefix string
	common []string
}

type m01Reg struct {
	method, path string
	want         string
}

type m01World struct {
	trace []string
	next  int
	muxes []*m01Mux
	regs  []m01Reg
	logs  []error
}

func (w *m01World) mw(name string) middleware.Middleware {
	return func(h handlerT) handlerT {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			w.trace = append(w.trace, ">"+name)
			resp, err := h(ctx, mc)
			w.trace = append(w.trace, "<"+name)
			return resp, err
		}
	}
}

func (w *m01World) id() string {
	w.next++
	return fmt.Sprint(w.next)
}

func m01Want(names []string, h string) string {
	var t []string
	for _, n := range names {
		t = append(t, ">"+n)
	}
	t = append(t, h)
	for i := len(names) - 1; i >= 0; i-- {
		t = append(t, "<"+names[i])
	}
	return strings.Join(t, " ")
}

var m01Methods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS"}

// handle registers through the method specific function.
func handle(m *gofre.MuxHandler, method, p string, h handlerT, mws ...middleware.Middleware) {
	switch method {
	case "GET":
		m.HandleGet(p, h, mws...)
	case "POST":
		m.HandlePost(p, h, mws...)
	case "PUT":
		m.HandlePut(p, h, mws...)
	case "PATCH":
		m.HandlePatch(p, h, mws...)
	case "DELETE":
		m.HandleDelete(p, h, mws...)
	default:
		m.HandleRequest(method, p, h, mws...)
	}
}

func (w *m01World) register(x *m01Mux, two bool) {
	id := w.id()
	method := m01Methods[w.next%len(m01Methods)]
	p := "/h" + id
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		w.trace = append(w.trace, "H"+id)
		return response.PlainTextHttpResponse(200, "H"+id), nil
	}
	names := append([]string{}, x.common...)
	if two {
		a, b := w.id(), w.id()
		mws := []middleware.Middleware{w.mw(a), nil, w.mw(b)}
		handle(x.m, method, p, h, mws...)
		mws[0], mws[1], mws[2] = w.mw("poison"), w.mw("poison"), w.mw("poison")
		names = append(names, a, b)
	} else {
		handle(x.m, method, p, h)
	}
	w.regs = append(w.regs, m01Reg{method, x.prefix + p, m01Want(names, "H"+id)})
}

func newM01World() *m01World {
	w := &m01World{}
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) { w.logs = append(w.logs, err) }})
	if err != nil {
		panic(err)
	}
	w.muxes = []*m01Mux{{m: m}}
	return w
}

func (w *m01World) apply(op m01Op) {
	x := w.muxes[op.M]
	switch op.K {
	case "add1":
		id := w.id()
		x.m.CommonMiddlewares(w.mw(id))
		x.common = append(x.common[:len(x.common):len(x.common)], id)
	case "add3":
		a, b := w.id(), w.id()
		buf := make([]middleware.Middleware, 3, 8)
		buf[0], buf[1], buf[2] = w.mw(a), nil, w.mw(b)
		x.m.CommonMiddlewares(buf...)
		// the caller goes on using its own slice
		buf[0], buf[1], buf[2] = w.mw("poison"), w.mw("poison"), w.mw("poison")
		_ = append(buf, w.mw("poison"), w.mw("poison"))
		x.common = append(x.common[:len(x.common):len(x.common)], a, b)
	case "clone":
		w.muxes = append(w.muxes, &m01Mux{x.m.Clone(), x.prefix, x.common})
	case "derive":
		p := "/p" + w.id()
		w.muxes = append(w.muxes, &m01Mux{x.m.RouteUsingPathPrefix(p), x.prefix + p, x.common})
	case "reg0":
		w.register(x, false)
	case "reg2":
		w.register(x, true)
	}
}

func (w *m01World) checkAll() *kit.Failure {
	for _, g := range w.regs {
		for _, x := range w.muxes[:1] {
			w.trace = w.trace[:0]
			var nw nopWriter
			x.m.ServeHTTP(&nw, mkReq(g.method, g.path))
			if got := strings.Join(w.trace, " "); got != g.want {
				return kit.Failf("trace", "%s %s ran [%s], want [%s]", g.method, g.path, got, g.want)
			}
		}
	}
	return nil
}

func m01Gen(depth, maxMux int) iter.Seq[m01Case] {
	return func(yield func(m01Case) bool) {
		var rec func(ops []m01Op, n int) bool
		rec = func(ops []m01Op, n int) bool {
			if !yield(m01Case{append([]m01Op{}, ops...)}) {
				return false
			}
			if len(ops) == depth {
				return true
			}
			for i := 0; i < n; i++ {
				for _, k := range []string{"add1", "add3", "clone", "derive", "reg0", "reg2"} {
					nn := n
					if k == "clone" || k == "derive" {
						if n == maxMux {
							continue
						}
						nn++
					}
					if !rec(append(ops[:len(ops):len(ops)], m01Op{k, i}), nn) {
						return false
					}
				}
			}
			return true
		}
		rec(nil, 1)
	}
}

// m01Stack: what each element of one stack does with the request.
type m01Stack struct {
	Common  []string `json:"common"`
	Own     []string `json:"own"`
	Handler string   `json:"handler"`
	Derived bool     `json:"derived"`
}

type m01Key struct{}

var errM01 = errors.New("raised")

// m01Result is what a handler or middleware hands to its caller.
type m01Result struct {
	body string
	err  string
}

func m01StackRun(seen func(uint64) bool) func(c m01Stack) *kit.Failure {
	return func(c m01Stack) *kit.Failure {
		var trace []string
		var logs []error
		text := func(s string) (response.HttpResponse, error) { return response.PlainTextHttpResponse(200, s), nil }
		mk := func(i int, kind string) middleware.Middleware {
			id := fmt.Sprint(i)
			if kind == "nil" {
				return nil
			}
			return func(h handlerT) handlerT {
				return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
					v, _ := ctx.Value(m01Key{}).(string)
					trace = append(trace, ">"+id+"["+v+"]")
					var resp response.HttpResponse
					var err error
					switch kind {
					case "stop":
						resp, err = text("S" + id)
					case "fail":
						err = fmt.Errorf("%w %s", errM01, id)
					case "recover":
						resp, err = h(ctx, mc)
						if err != nil {
							resp, err = text("R" + id + "(" + err.Error() + ")")
						}
					case "raise":
						h(ctx, mc)
						err = fmt.Errorf("%w %s", errM01, id)
					case "ctx":
						resp, err = h(context.WithValue(ctx, m01Key{}, v+id), mc)
					case "swap":
						if resp, err = h(ctx, mc); err == nil {
							resp, err = text("W" + id)
						}
					}
					o := "ok"
					if err != nil {
						o = err.Error()
					}
					trace = append(trace, "<"+id+":"+o)
					return resp, err
				}
			}
		}
		m, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) { logs = append(logs, err) }})
		var common, own []middleware.Middleware
		kinds := append(append([]string{}, c.Common...), c.Own...)
		for i, k := range c.Common {
			common = append(common, mk(i, k))
		}
		for i, k := range c.Own {
			own = append(own, mk(len(c.Common)+i, k))
		}
		m.CommonMiddlewares(common...)
		p := "/x"
		reg := m
		if c.Derived {
			reg, p = m.RouteUsingPathPrefix("/d"), "/d/x"
		}
		reg.HandleGet("/x", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			v, _ := ctx.Value(m01Key{}).(string)
			trace = append(trace, "H["+v+"]")
			if c.Handler == "fail" {
				return nil, errM01
			}
			return text("H")
		}, own...)
		// the model
		var want []string
		var run func(i int, v string) m01Result
		run = func(i int, v string) (r m01Result) {
			if i == len(kinds) {
				want = append(want, "H["+v+"]")
				if c.Handler == "fail" {
					return m01Result{err: errM01.Error()}
				}
				return m01Result{body: "H"}
			}
			id := fmt.Sprint(i)
			if kinds[i] == "nil" {
				return run(i+1, v)
			}
			want = append(want, ">"+id+"["+v+"]")
			switch kinds[i] {
			case "stop":
				r = m01Result{body: "S" + id}
			case "fail":
				r = m01Result{err: errM01.Error() + " " + id}
			case "recover":
				if r = run(i+1, v); r.err != "" {
					r = m01Result{body: "R" + id + "(" + r.err + ")"}
				}
			case "raise":
				run(i+1, v)
				r = m01Result{err: errM01.Error() + " " + id}
			case "ctx":
				r = run(i+1, v+id)
			case "swap":
				if r = run(i+1, v); r.err == "" {
					r = m01Result{body: "W" + id}
				}
			}
			o := "ok"
			if r.err != "" {
				o = r.err
			}
			want = append(want, "<"+id+":"+o)
			return r
		}
		wr := run(0, "")
		for rep := 0; rep < 2; rep++ {
			trace, logs = nil, nil
			rec := wire.New()
			m.ServeHTTP(rec.Writer("full"), mkReq("GET", p))
			rec.End()
			if g, w := strings.Join(trace, " "), strings.Join(want, " "); g != w {
				return kit.Failf("trace", "ran [%s], want [%s]", g, w)
			}
			if wr.err != "" {
				if rec.Status != 500 || len(logs) != 1 || !errors.Is(logs[0], errM01) || !strings.Contains(logs[0].Error(), wr.err) {
					return kit.Failf("result", "status %d, logged %v, want the error %q", rec.Status, logs, wr.err)
				}
			} else if rec.Status != 200 || rec.Body.String() != wr.body || len(logs) > 0 {
				return kit.Failf("result", "answered %v (logged %v), want %q", rec.View(), logs, wr.body)
			}
		}
		seen(kit.Hash(want))
		return nil
	}
}

// m01OAuth: the two endpoints of HandleOAUTH2 get their own middlewares.
type m01OAuth struct {
	Common, Init, Auth int
	Derived            bool
	AddedLater         bool
	Custom             bool
}

func m01OAuthRun(c m01OAuth) *kit.Failure {
	w := newM01World()
	m := w.muxes[0].m
	prefix := ""
	if c.Derived {
		m, prefix = m.RouteUsingPathPrefix("/d"), "/d"
	}
	var common, ini, aut []string
	mk := func(n int, to *[]string) (mws []middleware.Middleware) {
		for i := 0; i < n; i++ {
			id := w.id()
			*to = append(*to, id)
			mws = append(mws, w.mw(id))
			if i == 0 {
				mws = append(mws, nil)
			}
		}
		return
	}
	m.CommonMiddlewares(mk(c.Common, &common)...)
	cfg := oauth.Config{WebsiteUrl: "https://site.example", Providers: []oauth.Provider{&stubProvider{name: "p1"}}}
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		w.trace = append(w.trace, "H")
		return response.PlainTextHttpResponse(200, "H"), nil
	}
	ip, ap := "/oauth/initiate", "/oauth/authorize"
	im, am := mk(c.Init, &ini), mk(c.Auth, &aut)
	if c.Custom {
		ip, ap = "/start", "/cb"
		m.HandleOAUTH2WithCustomPaths(ip, ap, cfg, h, im, am)
	} else {
		m.HandleOAUTH2(cfg, h, im, am)
	}
	if c.AddedLater {
		var x []string
		m.CommonMiddlewares(mk(2, &x)...)
	}
	m.HandleGet("/other", h)
	for _, q := range []struct {
		url  string
		want string
	}{
		{prefix + ip, strings.Replace(m01Want(append(append([]string{}, common...), ini...), "H"), "H ", "", 1)},
		{prefix + ap + "/p1?code=c&state=s", m01Want(append(append([]string{}, common...), aut...), "H")},
	} {
		w.trace = nil
		var nw nopWriter
		w.muxes[0].m.ServeHTTP(&nw, mkReq("GET", q.url))
		got := strings.Join(w.trace, " ")
		if strings.HasSuffix(q.want, "H") && q.url == prefix+ip {
			q.want = ""
		}
		if got != q.want {
			return kit.Failf("oauth", "%s ran [%s], want [%s]", q.url, got, q.want)
		}
	}
	return nil
}

// m01Chain derives n muxes, each from the one before or (Star) all from the first, adding a middleware to each.
type m01Chain struct {
	N           int
	Star        bool
	ParentLater bool // the parent gets one more middleware after the derivation
	Prefix      bool
}

func m01ChainRun(c m01Chain) *kit.Failure {
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	if err != nil {
		return kit.Failf("new", "%v", err)
	}
	var trace []string
	mk := func(id string) middleware.Middleware {
		return func(h handlerT) handlerT {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				trace = append(trace, id)
				return h(ctx, mc)
			}
		}
	}
	type node struct {
		m    *gofre.MuxHandler
		has  []string
		path string
	}
	nodes := []*node{{m: m, path: ""}}
	add := func(x *node, id string) {
		x.m.CommonMiddlewares(mk(id))
		x.has = append(x.has, id)
	}
	add(nodes[0], "root")
	type reg struct{ path, want string }
	var regs []reg
	register := func(x *node, name string) {
		p := fmt.Sprintf("/%s", name)
		x.m.HandleGet(p, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			return nopResponse{}, nil
		})
		regs = append(regs, reg{x.path + p, strings.Join(x.has, " ")})
	}
	for i := 1; i <= c.N; i++ {
		par := nodes[len(nodes)-1]
		if c.Star {
			par = nodes[0]
		}
		x := &node{has: append([]string(nil), par.has...), path: par.path}
		if c.Prefix && strings.Count(par.path, "/") < 15 {
			x.m, x.path = par.m.RouteUsingPathPrefix("/d"), par.path+"/d"
		} else {
			x.m = par.m.Clone()
		}
		add(x, fmt.Sprint("m", i))
		if c.ParentLater {
			add(par, fmt.Sprint("late", i))
		}
		nodes = append(nodes, x)
		register(x, fmt.Sprint("early", i))
	}
	for i, x := range nodes {
		register(x, fmt.Sprint("end", i))
	}
	for _, g := range regs {
		trace = nil
		var nw nopWriter
		m.ServeHTTP(&nw, mkReq("GET", g.path))
		if got := strings.Join(trace, " "); got != g.want {
			return kit.Failf("chain", "%+v: GET %s ran [%.300s], want [%.300s]", c, g.path, got, g.want)
		}
	}
	return nil
}

func checkM01(r *kit.Run) {
	r.Rule = "states = operation sequences that lead to distinct trees of muxes (prefixes, common middlewares, registrations); every registration is requested after every sequence"
	depth, muxes := kit.Pick(r, 6, 7), 3
	r.Bound("all sequences of up to %d operations (CommonMiddlewares with 1, CommonMiddlewares with 3 of which one nil from a slice the caller reuses, Clone, RouteUsingPathPrefix, register without and with 3 own middlewares of which one nil) on a tree of up to %d muxes, then one more registration on every mux; all stacks of up to %d elements doing {pass a context value on, nil, answer, fail, recover, raise, replace}; the OAuth endpoints with 0..2 middlewares each", depth, muxes, kit.Pick(r, 4, 5))
	r.Assume = []string{"RouteUsingPathPrefix with an empty prefix returns the mux itself (pinned by the repository's tests) and is not a derivation"}
	kit.Explore(r, "sequences", m01Gen(depth, muxes), func(c m01Case) *kit.Failure {
		w := newM01World()
		for _, op := range c.Ops {
			w.apply(op)
		}
		for i := range w.muxes {
			w.register(w.muxes[i], false)
		}
		r.AddTransitions(1)
		if f := w.checkAll(); f != nil {
			return f
		}
		var sig []any
		for _, x := range w.muxes {
			sig = append(sig, x.prefix, fmt.Sprint(x.common))
		}
		for _, g := range w.regs {
			sig = append(sig, g.path, g.want)
		}
		if r.Seen(kit.Hash(sig...)) {
			r.AddStates(1)
		}
		return nil
	})
	kinds := []string{"ctx", "nil", "stop", "fail", "recover", "raise", "swap"}
	var stacks [][]string
	for n := 0; n <= kit.Pick(r, 4, 5); n++ {
		for _, w := range words(kinds, n) {
			if len(w) == n {
				stacks = append(stacks, w)
			}
		}
	}
	kit.Explore(r, "stacks", seqOf(func(yield func(m01Stack) bool) {
		for _, s := range stacks {
			for cut := 0; cut <= len(s); cut++ {
				for _, h := range []string{"ok", "fail"} {
					if !yield(m01Stack{s[:cut], s[cut:], h, cut%2 == 1}) {
						return
					}
				}
			}
		}
	}), m01StackRun(r.Seen))
	r.Bound("stacks of up to 300 middlewares with one of another kind at every position; chains of up to 300 derived muxes")
	kit.Explore(r, "volume", seqOf(func(yield func(m01Stack) bool) {
		for _, n := range sizesTo(40, 300) {
			for at := 0; at < n; at++ {
				if n > 70 && at > 3 && at < n-3 && at != n/2 {
					continue
				}
				for _, k := range kinds {
					s := make([]string, n)
					for i := range s {
						s[i] = "ctx"
					}
					s[at] = k
					for _, cut := range []int{0, n / 2, n} {
						if !yield(m01Stack{s[:cut], s[cut:], []string{"ok", "fail"}[at%2], n%2 == 1}) {
							return
						}
					}
				}
			}
		}
	}), m01StackRun(r.Seen))
	kit.Explore(r, "chains", seqOf(func(yield func(m01Chain) bool) {
		for _, n := range sizesTo(20, 300) {
			for k := 0; k < 8; k++ {
				if !yield(m01Chain{n, k&1 > 0, k&2 > 0, k&4 > 0}) {
					return
				}
			}
		}
	}), m01ChainRun)
	kit.Explore(r, "oauth", seqOf(func(yield func(m01OAuth) bool) {
		for a := 0; a < 27; a++ {
			for b := 0; b < 8; b++ {
				if !yield(m01OAuth{a % 3, a / 3 % 3, a / 9, b&1 > 0, b&2 > 0, b&4 > 0}) {
					return
				}
			}
		}
	}), m01OAuthRun)
}

// ---------------------------------------------------------------- M02

type m02Case struct {
	Prefixes []string `json:"prefixes"`
	Path     string   `json:"path"`
	Clone    bool     `json:"clone"`
	Debug    bool     `json:"debug"`
	CI       bool     `json:"ci"`
}

// joinPaths concatenates with single slashes where two parts meet.
func joinPaths(parts []string) string {
	s := ""
	for _, p := range parts {
		switch {
		case p == "":
		case s == "":
			s = p
		case strings.HasSuffix(s, "/") && strings.HasPrefix(p, "/"):
			s += p[1:]
		case !strings.HasSuffix(s, "/") && !strings.HasPrefix(p, "/"):
			s += "/" + p
		default:
			s += p
		}
	}
	return s
}

var debugPaths = []string{"/debug/pprof/", "/debug/pprof", "/debug/pprof/allocs", "/debug/pprof/block", "/debug/pprof/goroutine", "/debug/pprof/heap", "/debug/pprof/mutex",
	"/debug/pprof/threadcreate", "/debug/pprof/cmdline", "/debug/pprof/profile", "/debug/pprof/symbol", "/debug/pprof/trace", "/debug/vars"}

// debugShows is a text that only the endpoint's own answer contains.
var debugShows = map[string]string{"/debug/pprof/": "goroutine", "/debug/pprof/allocs": "heap profile: ", "/debug/pprof/block": "--- contention:", "/debug/pprof/goroutine": "goroutine profile: total", "/debug/pprof/heap": "heap profile: ",
	"/debug/pprof/mutex": "--- mutex:", "/debug/pprof/threadcreate": "threadcreate profile: total", "/debug/pprof/symbol": "num_symbols", "/debug/vars": `"memstats"`}

// m02Texts: prefixes and paths made of texts that other notations give a meaning to.
func m02Texts(r *kit.Run) {
	texts := []string{".", "..", "...", "~", "a b", "\u00e9", "a.b", "*", "**", "?", "a*", "{q}", "{q:^a$}", "{q:.}", "a:b", ":a", "-", "_", "%41", "%2F", "+", "&", ";", "a;b", "=", "\\", "@", "$", "()", "a,b", "|", "^", "!", "'", "\"", "<a>", "#", "api", "v1", "index.html", "0", "A", "\ufeff", strings.Repeat("n", 300)}
	shapes := [][]string{{"/T"}, {"T/"}, {"/T/"}, {"/T/b"}, {"/a/T"}, {"/a/T/b"}, {"/a/T/b/"}, {"/a", "T"}, {"/T", "/T"}, {"/T/T"}, {"/a/", "/T/", "/b"}, {"/T", ""}, {"/", "T"}}
	paths := []string{"", "/", "/x", "x", "T", "/T/x", "/x/T", "/x/T/"}
	r.Bound("texts: %d texts with a meaning in other notations at every place of %d chains of prefixes x %d registered paths, case-sensitive and not, requested with all sequences of up to 4 of {the text, the text in the other case, a, b, x}", len(texts), len(shapes), len(paths))
	type tc struct {
		Text     string
		Prefixes []string
		Path     string
		CI       bool
	}
	kit.Explore(r, "texts", seqOf(func(yield func(tc) bool) {
		for _, t := range texts {
			for _, sh := range shapes {
				var ps []string
				for _, p := range sh {
					ps = append(ps, strings.ReplaceAll(p, "T", t))
				}
				for _, p := range paths {
					for _, ci := range []bool{false, true} {
						if !yield(tc{t, ps, strings.ReplaceAll(p, "T", t), ci}) {
							return
						}
					}
				}
			}
		}
	}), func(c tc) *kit.Failure {
		full := joinPaths(append(slices.Clone(c.Prefixes), c.Path))
		m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}, CaseInsensitivePathMatch: c.CI})
		if err != nil {
			return kit.Failf("new", "%v", err)
		}
		d := m
		for _, p := range c.Prefixes {
			d = d.RouteUsingPathPrefix(p)
		}
		hits := 0
		rej, why := tryRegister(func() {
			d.HandleGet(c.Path, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				hits++
				return nopResponse{}, nil
			})
		})
		pat, err := ref.ParsePattern(full, c.CI)
		if err != nil {
			return nil // R05
		}
		if rej {
			return kit.Failf("rejected", "prefixes %q path %q: registration panics: %v", c.Prefixes, c.Path, why)
		}
		alpha := []string{"a", "b", "x"}
		if c.Text != ".." {
			alpha = append(alpha, c.Text)
			if o := strings.ToUpper(c.Text); o != c.Text {
				alpha = append(alpha, o)
			}
		}
		for _, p := range words(alpha, 4) {
			hits = 0
			rq := mkReq("GET", "/")
			rq.URL.Path = "/" + strings.Join(p, "/")
			var nw nopWriter
			m.ServeHTTP(&nw, rq)
			if want := pat.Match(p); want != (hits == 1) || hits > 1 {
				return kit.Failf("reach", "prefixes %.100q path %.100q: GET %.100q reached the handler %d times, want %v (%.100s)", c.Prefixes, c.Path, rq.URL.Path, hits, want, full)
			}
		}
		r.Seen(kit.Hash("texts", full, c.CI))
		return nil
	})
}

func checkM02(r *kit.Run) {
	r.Rule = "one evaluation = one (chain of prefixes, registered path) probed with every URL; non-trivial = distinct resulting paths"
	alpha := []string{"", "/", "/a", "a", "/a/", "/b", "b/", "/a/b", "/{v}", "/A"}
	paths := []string{"", "/", "/a", "a", "/x/", "x", "/{w}", "/x/a", "/a/a", "/**", "a*"}
	depth := kit.Pick(r, 3, 4)
	probes := words([]string{"a", "b", "x", "A"}, 4)
	for _, w := range words([]string{"a", "x"}, 7) {
		if len(w) > 4 {
			probes = append(probes, w)
		}
	}
	r.Bound("all chains of up to %d prefixes of %q, cloned or not, x %d registered paths, each requested with all %d URLs over {a,b,x,A} up to 4 and {a,x} up to 7 segments; the debug endpoints below all chains of up to 2", depth, alpha, len(paths), len(probes))
	r.Assume = []string{"a chain whose concatenation does not begin with a slash is rejected at registration (R05) and not considered"}
	check := func(c m02Case) *kit.Failure {
		full := joinPaths(append(append([]string{}, c.Prefixes...), c.Path))
		m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}, CaseInsensitivePathMatch: c.CI})
		if err != nil {
			return kit.Failf("new", "%v", err)
		}
		d := m
		for _, p := range c.Prefixes {
			if c.Clone {
				d = d.Clone()
			}
			d = d.RouteUsingPathPrefix(p)
		}
		if c.Debug {
			return m02Debug(c, m, d)
		}
		hits, v, w := 0, "", ""
		rej, why := tryRegister(func() {
			d.HandleGet(c.Path, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				hits++
				v, w = mc.PathVar("v"), mc.PathVar("w")
				return nopResponse{}, nil
			})
		})
		pat, err := ref.ParsePattern(full, c.CI)
		if err != nil {
			return nil // R05
		}
		if rej {
			return kit.Failf("rejected", "prefixes %q path %q: registration panics: %v", c.Prefixes, c.Path, why)
		}
		for _, p := range probes {
			hits = 0
			u := "/" + strings.Join(p, "/")
			var nw nopWriter
			m.ServeHTTP(&nw, mkReq("GET", u))
			if want := pat.Match(p); want != (hits == 1) || hits > 1 {
				return kit.Failf("reach", "prefixes %q path %q: GET %s reached the handler %d times, want %v (%s)", c.Prefixes, c.Path, u, hits, want, full)
			}
			if hits == 1 {
				ok := false
				for _, al := range pat.Aligns(p) {
					vars := pat.Vars(p, al)
					ok = ok || (vars["v"] == v || strings.Count(full, "{v}") > 1) && vars["w"] == w
				}
				if !ok {
					return kit.Failf("vars", "prefixes %q path %q: GET %s has v=%q w=%q", c.Prefixes, c.Path, u, v, w)
				}
			}
		}
		r.Seen(kit.Hash(full, c.CI))
		return nil
	}
	var chains [][]string
	for _, w := range words(alpha, depth) {
		chains = append(chains, w)
	}
	kit.Explore(r, "prefixes", seqOf(func(yield func(m02Case) bool) {
		for _, ch := range chains {
			for _, p := range paths {
				for k := 0; k < 2; k++ {
					if k == 1 && len(ch) > 2 {
						continue
					}
					if !yield(m02Case{Prefixes: ch, Path: p, Clone: len(ch)%2 == k, CI: k == 1}) {
						return
					}
				}
			}
		}
	}), check)
	m02Texts(r)
	r.Bound("chains of up to 18 prefixes and prefixes of up to 70000 bytes; up to 300 muxes derived from one")
	type deep struct {
		N, Len   int
		Same, CI bool
		Star     bool
	}
	kit.Explore(r, "volume", seqOf(func(yield func(deep) bool) {
		for n := 0; n <= 18; n++ {
			for k := 0; k < 4; k++ {
				for _, l := range []int{0, 1, 100} {
					if !yield(deep{n, l, k&1 > 0, k&2 > 0, false}) {
						return
					}
				}
			}
		}
		for _, l := range sizesTo(70, 70000) {
			if !yield(deep{2, l, true, false, false}) || !yield(deep{3, l, false, true, false}) {
				return
			}
		}
		for _, n := range sizesTo(20, 300) {
			if !yield(deep{n, 3, false, false, true}) {
				return
			}
		}
	}), func(c deep) *kit.Failure {
		m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}, CaseInsensitivePathMatch: c.CI})
		if err != nil {
			return kit.Failf("new", "%v", err)
		}
		hit := -1
		full := ""
		var all []string
		d := m
		for i := 0; i <= c.N; i++ {
			d.HandleGet("/end", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				hit = i
				return nopResponse{}, nil
			})
			all = append(all, full+"/end")
			p := "/" + textOf(c.Len)
			if !c.Same || c.Len == 0 {
				p += fmt.Sprint("p", i)
			}
			if c.Star {
				d, full = m.RouteUsingPathPrefix(p), p
			} else {
				d, full = d.RouteUsingPathPrefix(p), full+p
			}
		}
		for i, u := range all {
			for _, x := range []struct {
				u    string
				want int
			}{{u, i}, {u + "/", i}, {u + "x", -1}, {"/x" + u, -1}, {u + "/end", -1}} {
				hit = -1
				var nw nopWriter
				m.ServeHTTP(&nw, mkReq("GET", x.u))
				if hit != x.want {
					return kit.Failf("volume", "%+v: GET %.300s reached the handler of mux %d, want %d", c, x.u, hit, x.want)
				}
			}
		}
		return nil
	})
	kit.Explore(r, "debug", seqOf(func(yield func(m02Case) bool) {
		for _, ch := range words([]string{"", "/", "/a", "/a/", "/b", "/b/a"}, 2) {
			for k := 0; k < 2; k++ {
				if !yield(m02Case{Prefixes: ch, Debug: true, Clone: k == 1}) {
					return
				}
			}
		}
	}), check)
}

func m02Debug(c m02Case, m, d *gofre.MuxHandler) *kit.Failure {
	d.EnableDebugEndpoints()
	base := joinPaths(append(append([]string{}, c.Prefixes...), "/"))
	if base == "" {
		base = "/"
	}
	for _, b := range []string{"/", "/a/", "/b/", "/a/a/", "/b/a/", "/a/b/a/", "/b/a/a/", "/a/b/", "/b/b/", "/b/a/b/a/", "/b/a/b/", "/b/b/a/"} {
		for _, p := range debugPaths {
			u := b + p[1:]
			rec := wire.New()
			// the profile and trace endpoints end with their client
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			rq := mkReq("GET", u+"?seconds=5").WithContext(ctx)
			m.ServeHTTP(rec.Writer("full"), rq)
			rec.End()
			if want := b == base; want != (rec.Status != 404) {
				return kit.Failf("debug", "prefixes %q: GET %s answered %d", c.Prefixes, u, rec.Status)
			}
			if b == base && debugShows[p] != "" {
				rec := wire.New()
				m.ServeHTTP(rec.Writer("full"), mkReq("GET", u+"?debug=1"))
				rec.End()
				if !strings.Contains(rec.Body.String(), debugShows[p]) || rec.Status != 200 {
					return kit.Failf("debug", "prefixes %q: GET %s does not show the endpoint's data (%d, %.60q)", c.Prefixes, u, rec.Status, rec.Body.String())
				}
			}
		}
	}
	return nil
}
