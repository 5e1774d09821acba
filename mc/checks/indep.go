package checks

import (
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"html/template"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"gofremc/kit"
	"gofremc/wire"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { All["X01"] = checkX01 }

// ---------------------------------------------------------------- routes of two muxes

type x01Case struct {
	Shared bool     `json:",omitempty"` // both muxes are made from one configuration
	Ops    []string // mux digit, then r<pattern index>, m (common middleware)
}

var x01Patterns = []string{"/p", "/P", "/{v}", "/p/q", "/p/{v:^q$}"}
var x01Requests = []string{"/p", "/P", "/z", "/p/q", "/P/q", "/p/Q", "/Z/"}

type x01Mux struct {
	m    *gofre.MuxHandler
	ci   bool
	tags []string
	rts  map[string]string // pattern -> what its handler answers
	logs *[]string
}

func (x *x01Mux) answer(p string) (string, bool) {
	fold := func(s string) string {
		if x.ci {
			return strings.ToLower(s)
		}
		return s
	}
	for _, pat := range []string{"/p", "/P", "/p/q"} {
		if a, ok := x.rts[pat]; ok && fold(pat) == fold(strings.TrimSuffix(p, "/")) {
			return a, true
		}
	}
	if a, ok := x.rts["/p/{v:^q$}"]; ok && fold(p) == "/p/q" {
		return a + "=" + p[3:], true
	}
	if a, ok := x.rts["/{v}"]; ok && strings.Count(strings.TrimSuffix(p, "/"), "/") == 1 {
		return a + "=" + strings.Trim(p, "/"), true
	}
	return "", false
}

func (c x01Case) run(seen func(uint64) bool) *kit.Failure {
	var muxes []*x01Mux
	var shared *gofre.Config
	var sharedLogs []string
	for k := 0; k < 2; k++ {
		x := &x01Mux{ci: k == 1 && !c.Shared, rts: map[string]string{}, logs: new([]string)}
		cfg := shared
		if cfg == nil {
			if c.Shared {
				x.logs = &sharedLogs
			}
			logs := x.logs
			cfg = &gofre.Config{CaseInsensitivePathMatch: x.ci, ErrLogFunc: func(err error) { *logs = append(*logs, err.Error()) }}
			if c.Shared {
				shared = cfg
			}
		}
		if c.Shared {
			x.logs = &sharedLogs
		}
		m, err := gofre.NewMuxHandler(cfg)
		if err != nil {
			return kit.Failf("new", "%v", err)
		}
		x.m = m
		m.HandlePost("/fail", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			return nil, fmt.Errorf("failure of mux %d", k)
		})
		muxes = append(muxes, x)
	}
	for step, op := range c.Ops {
		k := int(op[0] - '0')
		x := muxes[k]
		switch op[1] {
		case 'm':
			tag := fmt.Sprintf("m%d", step)
			x.m.CommonMiddlewares(func(h handler.Handler) handler.Handler {
				return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
					rs, err := h(ctx, mc)
					if err == nil {
						rs.Headers().Set("X-Tags", tag+" "+rs.Headers()["X-Tags"])
					}
					return rs, err
				}
			})
			x.tags = append(x.tags, tag)
		case 'r':
			pat := x01Patterns[op[2]-'0']
			id := fmt.Sprintf("mux %d step %d", k, step)
			tags := strings.Join(x.tags, " ")
			rej, why := tryRegister(func() {
				x.m.HandleGet(pat, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
					s := id
					if v := mc.PathVar("v"); v != "" {
						s += "=" + v
					}
					return response.PlainTextHttpResponseOK(s), nil
				})
			})
			dup := false
			for q := range x.rts {
				dup = dup || q == pat || x.ci && strings.EqualFold(q, pat)
			}
			if rej != dup {
				return kit.Failf("register", "step %d: the registration of %q on mux %d: rejected %v (%v), want %v", step, pat, k, rej, why, dup)
			}
			if !dup {
				x.rts[pat] = id
				x.rts[pat+" tags"] = tags
			}
		}
		for j, y := range muxes {
			for _, q := range x01Requests {
				want, ok := y.answer(q)
				rec := wire.New()
				y.m.ServeHTTP(rec.Writer("full"), newReq("GET", q))
				rec.End()
				if v := rec.View(); ok != (v.Status == 200) || v.Body != want {
					return kit.Failf("route", "after step %d (%s): GET %s on mux %d gives %d %q, want %v %q", step, op, q, j, v.Status, v.Body, ok, want)
				}
				if ok {
					tags := ""
					for pat, a := range y.rts {
						if a == strings.SplitN(want, "=", 2)[0] {
							tags = y.rts[pat+" tags"]
						}
					}
					if got := rec.Sent.Get("X-Tags"); strings.TrimSpace(got) != strings.TrimSpace(tags) {
						return kit.Failf("tags", "after step %d (%s): GET %s on mux %d runs the middlewares %q, want %q", step, op, q, j, got, tags)
					}
					seen(kit.Hash("x01", j, q, tags != ""))
				}
			}
			*muxes[0].logs, *muxes[1].logs = nil, nil
			rec := wire.New()
			y.m.ServeHTTP(rec.Writer("full"), newReq("POST", "/fail"))
			if l := *y.logs; len(l) != 1 || !strings.Contains(l[0], fmt.Sprintf("failure of mux %d", j)) {
				return kit.Failf("log", "after step %d: the failure of mux %d is logged as %q", step, j, l)
			}
			if !c.Shared && len(*muxes[1-j].logs) > 0 {
				return kit.Failf("log", "after step %d: the failure of mux %d is logged by the other: %q", step, j, *muxes[1-j].logs)
			}
		}
	}
	return nil
}

func newReq(method, target string) *http.Request {
	rq, err := http.NewRequest(method, "http://site.example"+target, nil)
	if err != nil {
		panic(err)
	}
	rq.RequestURI = target
	rq.RemoteAddr = "192.0.2.1:1"
	return rq
}

// ---------------------------------------------------------------- resources of two muxes

type x01Res struct {
	Templates string // "0", "1": directory, "own"
	Assets    string // "0", "1"
	Map       string
	Ctx       string
}

type x01ResCase struct {
	A, B  x01Res
	Order []int // 0..3: page of A, page of B, asset of A, asset of B
	Late  bool  `json:",omitempty"` // B is made after the first request
	Twice bool  `json:",omitempty"` // two requests for each
}

func (c x01ResCase) run(dir string, seen func(uint64) bool) *kit.Failure {
	var muxes [2]*gofre.MuxHandler
	cfg := [2]x01Res{c.A, c.B}
	build := func(k int) *kit.Failure {
		v := cfg[k]
		rc := &gofre.ResourcesConfig{AssetsDirPath: filepath.Join(dir, v.Assets, "assets"), AssetsMappingPath: v.Map, TemplatesPathPattern: filepath.Join(dir, v.Templates, "t", "*.html")}
		if v.Templates == "own" {
			rc.Template = template.Must(template.New("page.html").Parse(fmt.Sprintf("own %d {{.}}", k)))
		}
		m, err := gofre.NewMuxHandler(&gofre.Config{ResourcesConfig: rc, ContextPath: v.Ctx, ErrLogFunc: func(error) {}})
		if err != nil {
			return kit.Failf("new", "mux %d: %v", k, err)
		}
		m.HandleGet("/page", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			return response.TemplateHttpResponseOK(m.ExecutableTemplate(), "page.html", "<x>"), nil
		})
		muxes[k] = m
		return nil
	}
	if f := build(0); f != nil {
		return f
	}
	if !c.Late {
		if f := build(1); f != nil {
			return f
		}
	}
	order := c.Order
	if c.Twice {
		order = append(slices.Clone(order), order...)
	}
	for i, o := range order {
		k := o % 2
		if muxes[k] == nil || i == 1 && muxes[1] == nil {
			if f := build(1); f != nil {
				return f
			}
		}
		v := cfg[k]
		target, want := "/page", fmt.Sprintf("page %s &lt;x&gt;", v.Templates)
		if v.Templates == "own" {
			want = fmt.Sprintf("own %d &lt;x&gt;", k)
		}
		if o >= 2 {
			target, want = strings.TrimSuffix(v.Ctx, "/")+"/"+v.Map+"/f.txt", "asset "+v.Assets
		}
		rec := wire.New()
		muxes[k].ServeHTTP(rec.Writer("full"), newReq("GET", target))
		rec.End()
		if w := rec.View(); w.Status != 200 || w.Body != want {
			return kit.Failf("resource", "request %d: GET %s on mux %d gives %d %.100q, want %q", i, target, k, w.Status, w.Body, want)
		}
		seen(kit.Hash("x01r", cfg[k], o))
	}
	return nil
}

// ---------------------------------------------------------------- instances of one middleware

type x01MwCase struct {
	Kind string
	Same bool  // the two instances sit on two routes of one mux instead of on two muxes
	Seq  []int // which instance the requests go to, in order
}

var x01Kinds = []string{"security", "cors", "csrf", "compress", "dump", "err", "principal", "authz", "csrfnames"}

func (c x01MwCase) run(seen func(uint64) bool) *kit.Failure {
	type inst struct {
		mws   []middleware.Middleware
		rq    func(rq *http.Request)
		judge func(rec *wire.Rec) string
		ran   int
		who   string
	}
	var in [2]*inst
	for k := range in {
		x := &inst{rq: func(*http.Request) {}}
		in[k] = x
		expect := func(h, want string) func(*wire.Rec) string {
			return func(rec *wire.Rec) string {
				if got := rec.Sent.Get(h); got != want {
					return fmt.Sprintf("%s is %q, want %q", h, got, want)
				}
				return ""
			}
		}
		switch c.Kind {
		case "security":
			x.mws = []middleware.Middleware{middleware.SecurityHeaders(middleware.SecurityHeadersConfig{
				STS:          middleware.ShStrictTransportSecurityConfig{Enabled: true, MaxAgeSeconds: 5 + k},
				ClickJacking: middleware.ShClickJackingConfig{Enabled: true, XFrameOption: middleware.XFrameOptionAllowFrom, XFrameOptionHeaderValue: "ALLOW-FROM", XFrameAllowFromUri: fmt.Sprintf("https://%d.example", k)}})}
			x.rq = func(rq *http.Request) { rq.URL.Scheme = "https" }
			x.judge = func(rec *wire.Rec) string {
				return expect("Strict-Transport-Security", fmt.Sprintf("max-age=%d", 5+k))(rec) + expect("X-Frame-Options", fmt.Sprintf("ALLOW-FROM https://%d.example", k))(rec)
			}
		case "cors":
			x.mws = []middleware.Middleware{middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{fmt.Sprintf("https://%d.example", k)}, AllowedHttpMethods: []string{"POST"}, ExposedHeaders: []string{fmt.Sprintf("X-%d", k)}})}
			x.rq = func(rq *http.Request) {
				rq.Header.Set("Origin", fmt.Sprintf("https://%d.example", k))
				rq.Header.Set("Content-Type", "text/plain")
			}
			x.judge = func(rec *wire.Rec) string {
				return expect("Access-Control-Allow-Origin", fmt.Sprintf("https://%d.example", k))(rec) + expect("Access-Control-Expose-Headers", fmt.Sprintf("X-%d", k))(rec)
			}
		case "csrf", "csrfnames":
			ca := cache.NewInMemory()
			ca.Add(fmt.Sprintf("NONCE%d", k), 1<<60)
			head := "X-Csrf-Token"
			if c.Kind == "csrf" {
				x.mws = []middleware.Middleware{middleware.CSRFPrevention(ca)}
			} else {
				head = fmt.Sprintf("X-Nonce-%d", k)
				x.mws = []middleware.Middleware{middleware.CSRFPreventionWithCustomParamAndHeaderName(ca, fmt.Sprintf("_n%d", k), head)}
			}
			n := 0
			x.rq = func(rq *http.Request) {
				n++
				// the first request has the right nonce, the second that of the other instance, the third none
				switch n {
				case 1:
					rq.Header.Set(head, fmt.Sprintf("NONCE%d", k))
				case 2:
					rq.Header.Set(head, fmt.Sprintf("NONCE%d", 1-k))
				}
			}
			x.judge = func(rec *wire.Rec) string {
				if (x.ran == 1) != (n == 1) {
					return fmt.Sprintf("the handler ran %d times for the request number %d", x.ran, n)
				}
				return ""
			}
		case "compress":
			level := []int{1, 9}[k]
			x.mws = []middleware.Middleware{middleware.CompressResponse(level)}
			x.rq = func(rq *http.Request) { rq.Header.Set("Accept-Encoding", "gzip") }
			var ref bytes.Buffer
			g, _ := gzip.NewWriterLevel(&ref, level)
			g.Write([]byte(x01Text))
			g.Close()
			x.judge = func(rec *wire.Rec) string {
				body, err := wire.Decode("gzip", rec.View().Body)
				if err != nil || body != x01Text {
					return fmt.Sprintf("the body is %.50q, %v", body, err)
				}
				if len(rec.View().Body) != ref.Len() {
					return fmt.Sprintf("the body has %d bytes, with its own level it has %d", len(rec.View().Body), ref.Len())
				}
				return ""
			}
		case "dump":
			dumps := 0
			x.mws = []middleware.Middleware{middleware.RequestDumper(func(string) { dumps++; x.who = "dumped" })}
			n := 0
			x.rq = func(*http.Request) { n++ }
			x.judge = func(rec *wire.Rec) string {
				if dumps == 0 || in[1-k].who != "" {
					return "the dump went to the other logger"
				}
				x.who = ""
				return ""
			}
		case "err":
			x.mws = []middleware.Middleware{middleware.ErrResponse(func(code int, err error) response.HttpResponse {
				return response.PlainTextHttpResponse(code, fmt.Sprintf("instance %d: %v", k, err))
			})}
			x.judge = func(rec *wire.Rec) string {
				if v := rec.View(); !strings.HasPrefix(v.Body, fmt.Sprintf("instance %d", k)) {
					return fmt.Sprintf("the error is answered with %q", v.Body)
				}
				return ""
			}
		case "principal":
			x.mws = []middleware.Middleware{middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
				return &stubPrincipal{id: k}, nil
			})}
			x.judge = func(rec *wire.Rec) string {
				if x.who != fmt.Sprint(k) {
					return fmt.Sprintf("the principal is %q", x.who)
				}
				return ""
			}
		case "authz":
			pm := auth.Permission{Scope: "a", Access: 1}
			own := auth.Permission{Scope: fmt.Sprint("s", k), Access: 1}
			x.mws = []middleware.Middleware{middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
				return &stubPrincipal{id: k, has: map[auth.Permission]bool{pm: true, {Scope: "s0", Access: 1}: true}}, nil
			}), middleware.AuthorizeAll(pm, own)}
			x.judge = func(rec *wire.Rec) string {
				if (x.ran == 1) != (k == 0) {
					return fmt.Sprintf("the handler ran %d times", x.ran)
				}
				return ""
			}
		}
	}
	var muxes [2]*gofre.MuxHandler
	for k := range muxes {
		if k == 1 && c.Same {
			muxes[1] = muxes[0]
		} else {
			m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
			if err != nil {
				return kit.Failf("new", "%v", err)
			}
			muxes[k] = m
		}
		x := in[k]
		muxes[k].HandlePost(fmt.Sprintf("/p%d", k), func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			x.ran++
			if c.Kind == "err" {
				return nil, errors.New("failed")
			}
			if sp := auth.GetSecurityPrincipalFromContext(ctx); sp != nil && c.Kind == "principal" {
				x.who = sp.Identity()
			}
			return response.PlainTextHttpResponseOK(x01Text), nil
		}, x.mws...)
	}
	for i, k := range c.Seq {
		x := in[k]
		x.ran = 0
		rq := newReq("POST", fmt.Sprintf("/p%d", k))
		x.rq(rq)
		rec := wire.New()
		muxes[k].ServeHTTP(rec.Writer("full"), rq)
		rec.End()
		if m := x.judge(rec); m != "" {
			return kit.Failf("instance", "%s: request %d goes to instance %d: %s", c.Kind, i, k, m)
		}
		seen(kit.Hash("x01m", c.Kind, k, i))
	}
	return nil
}

var x01Text = strings.Repeat("The quick brown fox jumps over the lazy dog, and then over another one. ", 40) + textOf(3000)

func checkX01(r *kit.Run) {
	r.Rule = "distinct = (mux, request, kind of answer)"
	r.Assume = []string{"the muxes of one process, each with a configuration, caches and files of its own unless said otherwise"}
	var ops []string
	for k := 0; k < 2; k++ {
		for i := range x01Patterns {
			ops = append(ops, fmt.Sprintf("%dr%d", k, i))
		}
		ops = append(ops, fmt.Sprintf("%dm", k))
	}
	n := kit.Pick(r, 4, 5)
	r.Bound("routes: all sequences of up to %d of %d operations {register one of %d patterns, add a common middleware} on two muxes (case-sensitive and not, or made from one configuration), after each of which both muxes get %d requests and a failing one", n, len(ops), len(x01Patterns), len(x01Requests))
	kit.Explore(r, "routes", seqOf(func(yield func(x01Case) bool) {
		for _, w := range wordsUpToSlices(ops, n) {
			for _, sh := range []bool{false, true} {
				if sh && len(w) == n {
					continue
				}
				if !yield(x01Case{Shared: sh, Ops: w}) {
					return
				}
			}
		}
	}), func(c x01Case) *kit.Failure { return c.run(r.Seen) })

	dir, err := os.MkdirTemp("", "mcindep")
	if err != nil {
		r.T.Fatal(err)
	}
	defer os.RemoveAll(dir)
	cleanup = append(cleanup, func() { os.RemoveAll(dir) })
	for _, d := range []string{"0", "1"} {
		for f, c := range map[string]string{"t/page.html": "page " + d + " {{.}}", "assets/f.txt": "asset " + d} {
			os.MkdirAll(filepath.Dir(filepath.Join(dir, d, f)), 0o755)
			if err := os.WriteFile(filepath.Join(dir, d, f), []byte(c), 0o644); err != nil {
				r.T.Fatal(err)
			}
		}
	}
	var res []x01Res
	for _, t := range []string{"0", "1", "own"} {
		for _, a := range []string{"0", "1"} {
			for _, m := range []string{"assets", "static"} {
				for _, ctx := range []string{"/", "/app"} {
					res = append(res, x01Res{t, a, m, ctx})
				}
			}
		}
	}
	r.Bound("resources: all pairs of %d resource configurations over two directories with files of the same names x all orders of requests for a page and an asset of each, once and twice, the second mux made before or after the first request", len(res))
	kit.Explore(r, "resources", seqOf(func(yield func(x01ResCase) bool) {
		for _, a := range res {
			for _, b := range res {
				for _, p := range perms(4) {
					for _, v := range []int{0, 1, 2, 3} {
						if !yield(x01ResCase{A: a, B: b, Order: p, Late: v&1 > 0, Twice: v&2 > 0}) {
							return
						}
					}
				}
			}
		}
	}), func(c x01ResCase) *kit.Failure { return c.run(dir, r.Seen) })

	k := kit.Pick(r, 6, 10)
	r.Bound("instances: two instances of each of %d middlewares with different settings, on two muxes and on two routes of one mux, x all sequences of up to %d requests", len(x01Kinds), k)
	kit.Explore(r, "instances", seqOf(func(yield func(x01MwCase) bool) {
		for _, kind := range x01Kinds {
			for n := 1; n <= k; n++ {
				for bits := 0; bits < 1<<n; bits++ {
					var seq []int
					for i := 0; i < n; i++ {
						seq = append(seq, bits>>i&1)
					}
					for _, same := range []bool{false, true} {
						if !yield(x01MwCase{Kind: kind, Same: same, Seq: seq}) {
							return
						}
					}
				}
			}
		}
	}), func(c x01MwCase) *kit.Failure { return c.run(r.Seen) })
}
