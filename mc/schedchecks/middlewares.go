package schedchecks

import (
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"strings"

	"gofremc/kit"
	"gofremc/vsched"

	"github.com/ixtendio/gofre/auth"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { all["L03"] = checkL03 }

type l03Req struct {
	Method, What string // what the handler does
	TLS          bool
	Hdr          [][2]string
	User         string
}

var l03Reqs = []l03Req{
	{Method: "GET", What: "text", TLS: true, User: "alice", Hdr: [][2]string{{"Accept-Encoding", "gzip"}}},
	{Method: "GET", What: "cookies", User: "bob", Hdr: [][2]string{{"Origin", "https://a.example"}, {"Accept-Encoding", "deflate"}}},
	{Method: "OPTIONS", What: "text", User: "alice", Hdr: [][2]string{{"Origin", "https://b.example"}, {"Access-Control-Request-Method", "PUT"}, {"Access-Control-Request-Headers", "X-A"}}},
	{Method: "GET", What: "json", TLS: true, User: "none", Hdr: [][2]string{{"Origin", "https://evil.example"}}},
	{Method: "GET", What: "bad", User: "alice"},
	{Method: "GET", What: "boom", TLS: true, User: "bob", Hdr: [][2]string{{"Accept-Encoding", "gzip"}}},
	{Method: "POST", What: "text", User: "alice", Hdr: [][2]string{{"Content-Type", "text/plain"}}},
	{Method: "GET", What: "stream", User: "bob", Hdr: [][2]string{{"Accept-Encoding", "gzip"}, {"Origin", "https://a.example"}}},
	{Method: "GET", What: "redirect", User: "carol", TLS: true},
	{Method: "GET", What: "hijackerr", User: "alice"},
	{Method: "GET", What: "wfault", User: "alice", Hdr: [][2]string{{"Accept-Encoding", "gzip"}}},
}

type l03Stack struct {
	Name string
	Mk   func(dump func(string)) []middleware.Middleware
}

var l03Perm = auth.Permission{Scope: "docs", Access: auth.AccessRead}

func l03Supplier() middleware.Middleware {
	users := map[string]auth.User{
		"alice": {Id: "alice", Groups: []auth.Group{{Name: "g", Roles: []auth.Role{{Name: "r", AllowedPermissions: []auth.Permission{{Scope: "z", Access: auth.AccessDelete}, {Scope: "*", Access: auth.AccessRead}}}, {Name: "a"}}}, {Name: "a", Roles: []auth.Role{{Name: "b"}}}}},
		"bob":   {Id: "bob", Groups: []auth.Group{{Name: "g", Roles: []auth.Role{{Name: "r", AllowedPermissions: []auth.Permission{{Scope: "docs", Access: auth.AccessRead | auth.AccessUpdate}}, DeniedPermissions: []auth.Permission{{Scope: "docs", Access: auth.AccessUpdate}}}}}}},
		"carol": {Id: "carol", Groups: []auth.Group{{Name: "g", Roles: []auth.Role{{Name: "r", DeniedPermissions: []auth.Permission{{Scope: "docs", Access: auth.AccessRead}}}}}}},
	}
	return middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
		vsched.Y()
		u, ok := users[mc.R.Header.Get("X-User")]
		if !ok {
			return nil, gerrors.ErrWrongCredentials
		}
		return &u, nil
	})
}

func l03Security() middleware.Middleware {
	return middleware.SecurityHeaders(middleware.SecurityHeadersConfig{
		STS:                         middleware.ShStrictTransportSecurityConfig{Enabled: true, MaxAgeSeconds: 31536000, IncludeSubDomains: true, Preload: true},
		ClickJacking:                middleware.ShClickJackingConfig{Enabled: true, XFrameOption: middleware.XFrameOptionAllowFrom, XFrameOptionHeaderValue: "ALLOW-FROM", XFrameAllowFromUri: "https://frame.example"},
		BlockContentSniffingEnabled: true, XSSProtectionEnabled: true})
}

func l03Cors(any bool) middleware.Middleware {
	c := middleware.CorsConfig{AnyOriginAllowed: any, PreflightMaxAgeSeconds: 5, ExposedHeaders: append(make([]string, 0, 8), "X-2", "x-1", "X-2"), AllowedHttpMethods: append(make([]string, 0, 8), "PUT", "POST", "GET"), AllowedHttpHeaders: append(make([]string, 0, 8), "X-B", "x-a"), AllowedOrigins: append(make([]string, 0, 8), "https://b.example", "https://a.example")}
	if !any {
		c.SupportsCredentials = true
	}
	return middleware.Cors(c)
}

var l03Stacks = []l03Stack{
	{"security", func(func(string)) []middleware.Middleware { return []middleware.Middleware{l03Security()} }},
	{"cors-any", func(func(string)) []middleware.Middleware { return []middleware.Middleware{l03Cors(true)} }},
	{"cors-list", func(func(string)) []middleware.Middleware { return []middleware.Middleware{l03Cors(false)} }},
	{"csrf", func(func(string)) []middleware.Middleware {
		return []middleware.Middleware{middleware.CSRFPrevention(newCache("inmem"))}
	}},
	{"compress", func(func(string)) []middleware.Middleware {
		return []middleware.Middleware{middleware.CompressResponse(1)}
	}},
	{"authz-all", func(func(string)) []middleware.Middleware {
		return []middleware.Middleware{l03Supplier(), middleware.AuthorizeAll(l03Perm)}
	}},
	{"authz-any", func(func(string)) []middleware.Middleware {
		return []middleware.Middleware{l03Supplier(), middleware.AuthorizeAny(auth.Permission{Scope: "x", Access: auth.AccessDelete}, l03Perm, auth.Permission{Scope: "docs", Access: auth.AccessUpdate})}
	}},
	{"authz-supplied", func(func(string)) []middleware.Middleware {
		return []middleware.Middleware{l03Supplier(), middleware.Authorize(func(ctx context.Context, mc path.MatchingContext) ([]auth.Permission, error) {
			vsched.Y()
			return []auth.Permission{l03Perm, {Scope: "docs/" + mc.R.Method, Access: auth.AccessRead}}, nil
		}, false)}
	}},
	{"errors", func(func(string)) []middleware.Middleware {
		return []middleware.Middleware{middleware.ErrJsonResponse()}
	}},
	{"panic", func(func(string)) []middleware.Middleware {
		return []middleware.Middleware{middleware.PanicRecover()}
	}},
	{"dump", func(d func(string)) []middleware.Middleware {
		return []middleware.Middleware{middleware.RequestDumper(d)}
	}},
	{"plain", func(d func(string)) []middleware.Middleware {
		return l03All(d)
	}},
	{"all", func(d func(string)) []middleware.Middleware {
		a := l03All(d)
		return append(append(a[:2:2], middleware.CompressResponse(-1)), a[2:]...)
	}},
}

func l03All(d func(string)) []middleware.Middleware {
	return []middleware.Middleware{middleware.ErrJsonResponse(), middleware.PanicRecover(), l03Security(), l03Cors(false), middleware.RequestDumper(d), middleware.CSRFPrevention(newCache("inmem")), l03Supplier(), middleware.AuthorizeAll(l03Perm)}
}

type l03Key struct{}

var l03Stamp = regexp.MustCompile(`"(start|end)TimeMs":\d+`)
var l03Trace = regexp.MustCompile(`(?s)recover from panic.*`)
var l03Payload = map[string]any{"a": 1, "b": []string{"x", "y"}}

// l03Handler serves every request; it reads what the middlewares put into the context and writes it back.
func l03Handler(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
	vsched.Y()
	tag := mc.R.Method
	if p := auth.GetSecurityPrincipalFromContext(ctx); p != nil {
		tag += " user " + p.Identity()
	}
	if n := middleware.GetCSRFNonceFromContext(ctx); n != "" {
		tag += fmt.Sprintf(" nonce %d", len(n))
	}
	hd := func() response.HttpHeaders {
		h := response.NewHttpHeaders()
		h.Set("X-Own", tag)
		h.Set("Vary", "X-Own")
		vsched.Y()
		return h
	}
	switch mc.R.URL.Path {
	case "/text":
		return response.PlainTextHttpResponseWithHeaders(200, strings.Repeat(tag, 20), hd()), nil
	case "/cookies":
		return response.HtmlResponseWithHeadersAndCookies(201, "<p>"+tag, hd(), response.NewHttpCookie(&http.Cookie{Name: "c1", Value: tag}, &http.Cookie{Name: "c2", Value: "v"})), nil
	case "/json":
		return response.JsonHttpResponseOK(l03Payload), nil
	case "/bad":
		return nil, gerrors.NewBadRequestWithMessage("bad " + tag)
	case "/boom":
		panic(tag)
	case "/stream":
		return response.StreamHttpResponse("text/x", strings.NewReader(strings.Repeat(tag, 3))), nil
	case "/redirect":
		r := response.RedirectHttpResponse("/to/" + url.PathEscape(tag))
		r.Headers().Set("X-Own", tag)
		return r, nil
	case "/hijackerr":
		return response.NewHttpHijackConnectionResponse(nil), nil
	}
	return response.RawWriterHttpResponse("text/r", func(w writerT) error {
		vsched.Y()
		_, err := w.Write([]byte(tag + "raw"))
		return err
	}), nil
}

type l03Out struct {
	text  string
	dumps []string
}

func l03Serve(h handler.Handler, q l03Req) (o l03Out) {
	w := newWriter()
	w.faults = q.What == "wfault"
	rq := (&http.Request{Method: q.Method, URL: &url.URL{Path: "/" + q.What}, Header: http.Header{"X-User": {q.User}}, Host: "h", Proto: "HTTP/1.1"}).WithContext(context.WithValue(context.Background(), l03Key{}, &o))
	for _, kv := range q.Hdr {
		rq.Header.Add(kv[0], kv[1])
	}
	if q.TLS {
		rq.TLS = &tls.ConnectionState{}
	}
	mc := path.MatchingContext{R: rq}
	func() {
		defer func() {
			if p := recover(); p != nil {
				o.text = fmt.Sprintf("panic %v", p)
			}
		}()
		resp, err := h(rq.Context(), mc)
		if err != nil {
			o.text = "error " + err.Error()
			return
		}
		err = resp.Write(w, mc)
		o.text = fmt.Sprintf("%s err=%v", w, err)
	}()
	if strings.Contains(o.text, "recover from panic") {
		o.text = l03Trace.ReplaceAllString(o.text, "recovered")
	}
	return o
}

func l03Build(st l03Stack, dumps *dumpList) handler.Handler {
	mws := st.Mk(func(s string) { vsched.Y(); dumps.add(s) })
	h := handler.Handler(l03Handler)
	for i := len(mws) - 1; i >= 0; i-- {
		h = mws[i](h)
	}
	return h
}

// dumpList is kept out of the race detector's sight like logList.
type dumpList struct {
	a [32]string
	n int
}

//go:norace
func (l *dumpList) add(s string) {
	if l.n < len(l.a) {
		l.a[l.n] = s
		l.n++
	}
}

//go:norace
func (l *dumpList) sorted() []string {
	var out []string
	for i := 0; i < l.n; i++ {
		s := l03Stamp.ReplaceAllString(l.a[i], "")
		if strings.Contains(s, "cookies") { // order of a map
			var b []byte
			b = append(b, s...)
			sortBytes(b)
			s = string(b)
		}
		out = append(out, s)
	}
	sortStrings(out)
	return out
}

func sortBytes(b []byte) {
	var n [256]int
	for _, c := range b {
		n[c]++
	}
	i := 0
	for c := range n {
		for k := 0; k < n[c]; k++ {
			b[i] = byte(c)
			i++
		}
	}
}

type l03Alone struct {
	text  string
	dumps []string
}

var l03Want map[string][]l03Alone

func l03Scenario(st l03Stack, threads [][]int, bound, fine int) scenario {
	return scenario{Name: fmt.Sprint(st.Name, threads, "bound", bound, fine), Bound: bound, Fine: fine, New: func() program {
		var dumps dumpList
		h := l03Build(st, &dumps)
		outs := make([][]l03Out, len(threads))
		var fs []func()
		for t, p := range threads {
			fs = append(fs, func() {
				for _, i := range p {
					outs[t] = append(outs[t], l03Serve(h, l03Reqs[i]))
				}
			})
		}
		return program{Threads: fs, Check: func(res *vsched.Result) (string, *kit.Failure) {
			var want []string
			for t, p := range threads {
				for k, i := range p {
					a := l03Want[st.Name][i]
					if outs[t][k].text != a.text {
						b, _ := json.Marshal(l03Reqs[i])
						return "", kit.Failf("alone", "request %s behind %s led to\n  %s\nalone to\n  %s", b, st.Name, outs[t][k].text, a.text)
					}
					want = append(want, a.dumps...)
				}
			}
			sortStrings(want)
			if got := dumps.sorted(); fmt.Sprint(got) != fmt.Sprint(want) {
				return "", kit.Failf("dumps", "dumped %q, want %q", got, want)
			}
			return fmt.Sprint(threads), nil
		}}
	}}
}

func checkL03(r *kit.Run) {
	l03Want = map[string][]l03Alone{}
	for _, st := range l03Stacks {
		for _, q := range l03Reqs {
			vsched.ResetPools()
			var d dumpList
			o := l03Serve(l03Build(st, &d), q)
			l03Want[st.Name] = append(l03Want[st.Name], l03Alone{o.text, d.sorted()})
			if os := envDebug(); os {
				fmt.Println(st.Name, q.What, o.text, d.sorted())
			}
		}
	}
	r.Rule = "one trace = one schedule of concurrent requests through one shared middleware stack, each outcome compared with the same request alone; states = nodes of the schedule tree"
	r.Assume = append(r.Assume, "the header and cookie pools are replaced by ones that recycle as much as possible")
	var scs []scenario
	n := len(l03Reqs)
	for _, st := range l03Stacks {
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				p := [][]int{{i}, {j}}
				switch {
				case r.Thorough() && st.Name == "all":
					scs = append(scs, l03Scenario(st, p, 1, 1))
				case r.Thorough() && st.Name == "plain":
					scs = append(scs, l03Scenario(st, p, 1, 1), l03Scenario(st, p, 2, 0))
				case r.Thorough():
					scs = append(scs, l03Scenario(st, p, 2, 1))
				case st.Name == "all":
					scs = append(scs, l03Scenario(st, p, 1, 0))
				case st.Name == "plain":
					scs = append(scs, l03Scenario(st, p, 1, 1))
				default:
					scs = append(scs, l03Scenario(st, p, 1, 1), l03Scenario(st, p, 2, 0))
				}
			}
		}
	}
	small := len(l03Stacks) - 2
	if r.Thorough() {
		r.Bound("%d single middleware stacks x all pairs of %d requests concurrently, up to 2 preemptions, at most one of them inside a function", small, n)
		r.Bound("the stack of all middlewares without compression x all these pairs, up to 1 preemption anywhere or 2 at function entries and synchronising operations; with compression up to 1 preemption")
	} else {
		r.Bound("%d single middleware stacks x all pairs of %d requests concurrently, up to 1 preemption anywhere, or 2 at function entries and synchronising operations", small, n)
		r.Bound("the stack of all middlewares x all these pairs, up to 1 preemption (with compression: at function entries and synchronising operations)")
	}
	if r.Thorough() {
		r.Bound("%d middleware stacks x all pairs of %d requests concurrently, up to 2 preemptions, at most one of them inside a function", len(l03Stacks), n)
	} else {
		r.Bound("%d middleware stacks x all pairs of %d requests concurrently, up to 1 preemption anywhere, or 2 at function entries and synchronising operations (1 there for the stack of all middlewares with compression)", len(l03Stacks), n)
	}
	if r.Thorough() {
		for _, st := range l03Stacks {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					scs = append(scs, l03Scenario(st, [][]int{{i, j}, {j}}, 2, 0))
				}
			}
			for _, t := range [][][]int{{{0}, {1}, {2}}, {{0}, {0}, {0}}, {{7}, {5}, {8}}, {{10}, {1}, {7}}, {{4}, {6}, {3}}} {
				scs = append(scs, l03Scenario(st, t, 2, 0))
			}
		}
		r.Bound("clients with two requests against one, and triples, up to 2 preemptions at function entries and synchronising operations")
	}
	runSched(r, "stacks", scs, kit.Pick(r, []int{0}, []int{0, 1}))
}
