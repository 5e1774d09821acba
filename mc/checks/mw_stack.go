package checks

import (
	"bytes"
	"compress/gzip"
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"maps"
	"net"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"slices"
	"sort"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"gofremc/kit"
	"gofremc/wire"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/cache"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() {
	All["M07"] = checkM07
	All["M08"] = checkM08
	All["L02"] = checkL02
}

// ---------------------------------------------------------------- M07

type m07Case struct {
	S       RS
	Method  string
	Target  string
	Hdrs    [][2]string
	Body    string
	Fail    string // "", err, panic
	Writer  string
	Twice   bool
	Wants   string // what the handler reads: nothing, body, form
	Host    string
	TLS     bool
	Chunked bool
}

type m07Seen struct {
	method, uri, url, host, proto, body, form string
	header                                    http.Header
	cookies                                   string
	formNil, ctx                              bool
	bodyErr                                   error
}

type m07Key struct{}

func m07Serve(c m07Case, wrap bool) (served, *m07Seen, []string) {
	var dumps []string
	var mws []middleware.Middleware
	if wrap {
		d := middleware.RequestDumper(func(v string) { dumps = append(dumps, v) })
		mws = append(mws, d)
		if c.Twice {
			mws = append(mws, d)
		}
	}
	rg := newRig(mws...)
	seen := &m07Seen{}
	rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		q := mc.R
		seen.method, seen.uri, seen.url, seen.host, seen.proto = q.Method, q.RequestURI, q.URL.String(), q.Host, q.Proto
		seen.header = q.Header.Clone()
		seen.formNil = q.Form == nil && q.PostForm == nil && q.MultipartForm == nil
		seen.ctx = ctx.Value(m07Key{}) == "v" && q.Context().Value(m07Key{}) == "v"
		for _, k := range q.Cookies() {
			seen.cookies += k.String() + ";"
		}
		switch c.Wants {
		case "body":
			b, err := io.ReadAll(q.Body)
			seen.body, seen.bodyErr = string(b), err
		case "form":
			seen.form = q.FormValue("a") + "|" + q.FormValue("b")
		}
		switch c.Fail {
		case "err":
			return nil, errH
		case "panic":
			panic("p")
		}
		return c.S.build(), nil
	}
	rq := c.request()
	rec := wire.New()
	return rg.serve(rec, rec.Writer(c.Writer), rq), seen, dumps
}

// request makes a fresh request of the case.
func (c m07Case) request() *http.Request {
	rq, err := http.NewRequest(c.Method, "http://srv.example"+c.Target, strings.NewReader(c.Body))
	if err != nil {
		panic(err)
	}
	rq.RequestURI = c.Target
	rq.RemoteAddr = "10.1.2.3:4567"
	if c.Host != "" {
		rq.Host = c.Host
	}
	if c.TLS {
		rq.TLS = &tls.ConnectionState{}
	}
	if c.Chunked {
		rq.ContentLength, rq.TransferEncoding = -1, []string{"chunked"}
	}
	if c.S.Kind == "sse" {
		rq.Proto, rq.ProtoMajor, rq.ProtoMinor = "HTTP/2.0", 2, 0
	}
	for _, h := range c.Hdrs {
		rq.Header.Add(h[0], h[1])
	}
	return rq.WithContext(context.WithValue(context.Background(), m07Key{}, "v"))
}

func lossy(s string) string { return strings.ToValidUTF8(s, "\ufffd") }

// utf8Loss replaces every invalid byte by U+FFFD as encoding/json does.
func utf8Loss(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		b.WriteRune(r)
		i += n
	}
	return b.String()
}

func m07Run(r *kit.Run) func(c m07Case) *kit.Failure {
	return func(c m07Case) *kit.Failure {
		a, sa, dumps := m07Serve(c, true)
		b, sb, _ := m07Serve(c, false)
		if a.HasPan != b.HasPan || a.HasPan && a.Panic != b.Panic {
			return kit.Failf("panic", "with the dumper panic %v, without %v", a.Panic, b.Panic)
		}
		if a.Ran != b.Ran {
			return kit.Failf("ran", "the handler ran %d times, without the dumper %d", a.Ran, b.Ran)
		}
		if x, y := fmt.Sprintf("%+v", *sa), fmt.Sprintf("%+v", *sb); x != y {
			return kit.Failf("request", "the handler sees %s, without the dumper %s", x, y)
		}
		if d := wire.Diff(a.View, b.View); d != "" {
			return kit.Failf("client", "%s %d: %s", c.S.Kind, c.S.Status, d)
		}
		if fmt.Sprint(a.Rec.Log) != fmt.Sprint(b.Rec.Log) || a.Rec.Hijacks != b.Rec.Hijacks || fmt.Sprint(a.Rec.Flushes) != fmt.Sprint(b.Rec.Flushes) {
			return kit.Failf("traffic", "%s: the writer saw %v, without the dumper %v", c.S.Kind, a.Rec.Log, b.Rec.Log)
		}
		if len(a.Errs) != len(b.Errs) {
			return kit.Failf("errors", "logged %v, without the dumper %v", a.Errs, b.Errs)
		}
		if c.Fail == "err" {
			if len(a.Errs) != 1 || !errors.Is(a.Errs[0], errH) {
				return kit.Failf("errors", "the handler's error became %v", a.Errs)
			}
		}
		if c.Fail != "" {
			return nil // what is dumped for a failed request is left open
		}
		n := 1
		if c.Twice {
			n = 2
		}
		if len(dumps) != n {
			return kit.Failf("dumps", "%d dumps", len(dumps))
		}
		for _, d := range dumps {
			if f := m07Dump(c, d, b); f != nil {
				return f
			}
		}
		r.Seen(kit.Hash(c.S, c.Method, c.Target, c.Hdrs))
		return nil
	}
}

// m07Dump checks one dump against the request and the response.
func m07Dump(c m07Case, d string, bare served) *kit.Failure {
	var v struct {
		Request struct {
			Method   string              `json:"method"`
			URL      string              `json:"url"`
			URI      string              `json:"requestURI"`
			Proto    string              `json:"protocolVersion"`
			Remote   string              `json:"remoteAddress"`
			Host     string              `json:"host"`
			Length   *int64              `json:"contentLength"`
			Secure   *bool               `json:"isSecure"`
			Transfer []string            `json:"transferEncoding"`
			Header   map[string][]string `json:"header"`
			Cookies  []string            `json:"cookies"`
		} `json:"request"`
		Response struct {
			Status  int               `json:"statusCode"`
			Header  map[string]string `json:"header"`
			Cookies []string          `json:"cookies"`
		} `json:"response"`
		Start int64 `json:"startTimeMs"`
		End   int64 `json:"endTimeMs"`
	}
	if !json.Valid([]byte(d)) || !utf8.ValidString(d) {
		return kit.Failf("json", "the dump is not JSON: %q", d)
	}
	if err := json.Unmarshal([]byte(d), &v); err != nil {
		return kit.Failf("json", "the dump has another shape: %v in %s", err, d)
	}
	host := "srv.example"
	if c.Host != "" {
		host = c.Host
	}
	if v.Request.Method != c.Method || v.Request.URL != "http://srv.example"+c.Target || v.Request.Host != utf8Loss(host) {
		return kit.Failf("dumpreq", "the dump shows the request %s", d)
	}
	rq := c.request()
	if v.Request.URI != c.Target || v.Request.Proto != rq.Proto || v.Request.Remote != rq.RemoteAddr || v.Request.Length == nil || *v.Request.Length != rq.ContentLength ||
		v.Request.Secure == nil || *v.Request.Secure != (rq.TLS != nil) || fmt.Sprint(v.Request.Transfer) != fmt.Sprint(rq.TransferEncoding) {
		return kit.Failf("dumpreq", "the dump shows the request %s", d)
	}
	now := time.Now().UnixMilli()
	if near := func(t int64) bool { return t > now-3600_000 && t < now+3600_000 }; !near(v.Start) || !near(v.End) { // the clock may be set meanwhile
		return kit.Failf("dumptime", "the dump shows the times %d to %d, now it is %d", v.Start, v.End, now)
	}
	// what is sent, not how it is quoted
	names := func(l []string) (n []string) {
		for _, x := range l {
			k, v, _ := strings.Cut(x, "=")
			n = append(n, k+"="+strings.Trim(v, "\""))
		}
		sort.Strings(n)
		return n
	}
	var sent []string
	for _, k := range rq.Cookies() {
		sent = append(sent, k.Name+"="+k.Value)
	}
	if fmt.Sprint(names(v.Request.Cookies)) != fmt.Sprint(names(sent)) {
		return kit.Failf("dumpcookies", "the dump shows the request cookies %q, want %q", v.Request.Cookies, sent)
	}
	want := map[string][]string{}
	for _, h := range c.Hdrs {
		k := http.CanonicalHeaderKey(h[0])
		want[k] = append(want[k], utf8Loss(h[1]))
	}
	if fmt.Sprint(want) != fmt.Sprint(v.Request.Header) {
		return kit.Failf("dumpreq", "the dump shows the request headers %v, want %v", v.Request.Header, want)
	}
	if isAdaptor(c.S.Kind) || c.S.Kind == "hijack" {
		return nil // these write their own status and headers
	}
	if v.Response.Status != bare.Rec.Status {
		return kit.Failf("dumpstatus", "the dump shows status %d, the client gets %d", v.Response.Status, bare.Rec.Status)
	}
	for k, x := range hdrOf(c.S.Hdr) {
		if x == "LEN" {
			continue
		}
		found := false
		for g, y := range v.Response.Header {
			found = found || http.CanonicalHeaderKey(g) == http.CanonicalHeaderKey(k) && y == x
		}
		if !found {
			return kit.Failf("dumpresp", "the dump shows the response headers %v, want %s: %s", v.Response.Header, k, x)
		}
	}
	got := append([]string{}, v.Response.Cookies...)
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(bare.View.Cookies) {
		return kit.Failf("dumpcookies", "the dump shows the response cookies %q, the client gets %q", got, bare.View.Cookies)
	}
	for k, x := range v.Response.Header {
		if g := bare.Rec.Sent.Get(k); g != x {
			return kit.Failf("dumpresp", "the dump shows the response header %s: %q, the client gets %q", k, x, g)
		}
	}
	return nil
}

func checkM07(r *kit.Run) {
	r.Rule = "one evaluation = one request served with and without the dumper; distinct by (response, request)"
	r.Bound("all %d response kinds x statuses x %d header sets x %d cookie sets x bodies x writers; all methods x targets x header sets x request bodies x {unread, read, parsed as form}; failing and panicking handlers; two dumpers", len(allKinds), len(hdrVariants), len(ckVariants))
	r.Assume = []string{"status and headers in the dump are those of the response object: adapted handlers and hijacked connections, which write their own, are excluded", "invalid UTF-8 appears as U+FFFD in the dump", "what is dumped for failed requests is left open"}
	run := m07Run(r)
	kit.Explore(r, "responses", seqOf(func(yield func(m07Case) bool) {
		for _, k := range allKinds {
			for _, st := range []int{200, 201, 204, 304, 404, 500} {
				if !statusFree(k) && st != 200 {
					continue
				}
				for h := range hdrVariants {
					for ck := range ckVariants {
						for _, b := range []int{0, 1, 2, 3} {
							for _, late := range []bool{false, true} {
								for _, w := range wire.Kinds {
									for _, f := range []string{"", "err", "panic"} {
										if f != "" && (h > 0 || ck > 0 || b > 0) {
											continue
										}
										if !yield(m07Case{S: RS{Kind: k, Status: st, Hdr: h, Ck: ck, Body: b, Late: late}, Method: "GET", Target: "/p", Writer: w, Fail: f, Twice: b == 3}) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}), run)
	r.Bound("the request behind the dumper, alone and twice, x %d shapes of the request x methods x ways of reading the body x 3 media types", len(shapes))
	r.Bound("%d headers in the request and in the response x 3 response kinds x methods, also unusual ones", len(headerVocab)+len(requestVocab))
	kit.Explore(r, "vocabulary", seqOf(func(yield func(m07Case) bool) {
		for _, me := range append([]string{"GET", "POST"}, methodVocab...) {
			for _, k := range []string{"text", "json", "stream"} {
				for i := range headerVocab {
					if me != "GET" && me != "POST" && i > 3 {
						break
					}
					if !yield(m07Case{S: RS{Kind: k, Status: 200, Hdr: vocab + i, Ck: 2, Body: 1}, Method: me, Target: "/p?a=1", Hdrs: headerVocab[i : i+1], Writer: "full"}) {
						return
					}
				}
				for i := range requestVocab {
					if !yield(m07Case{S: RS{Kind: k, Status: 200, Hdr: 1, Body: 1}, Method: me, Target: "/p?a=1", Hdrs: requestVocab[i : i+1], Body: "a=1", Wants: "body", Writer: "full"}) {
						return
					}
				}
			}
		}
		for _, w := range oddWords {
			for _, k := range []string{"text", "json", "html"} {
				if !yield(m07Case{S: RS{Kind: k, Status: 200, Body: vocab + slices.Index(oddWords, w)}, Method: "POST", Target: "/p?a=" + url.QueryEscape(w) + "&" + url.QueryEscape(w) + "=1", Body: w, Wants: "body", Writer: "full"}) {
					return
				}
			}
		}
	}), run)
	kit.Explore(r, "request", seqOf(func(yield func(m08Echo) bool) {
		d := slices.Index(m08Names, "dump")
		for _, st := range [][]int{{d}, {d, d}} {
			for sh := range shapes {
				for _, me := range []string{"GET", "POST", "PUT", "DELETE"} {
					for _, reads := range []string{"body", "form", "chunks"} {
						for ct := range m08Types {
							if !yield(m08Echo{Stack: st, Shape: sh, Method: me, Reads: reads, Type: ct, Len: 20 + (sh+ct)%2}) {
								return
							}
						}
					}
				}
			}
		}
	}), func(c m08Echo) *kit.Failure { return c.run(r.Seen) })
	r.Bound("requests and responses with up to 1001 headers, cookies and query parameters, values of up to 65537 bytes, bodies of up to 262145 bytes")
	kit.Explore(r, "sizes", seqOf(func(yield func(m07Case) bool) {
		for _, n := range sizesTo(20, 65537) {
			base := m07Case{S: RS{Kind: "text", Status: 200, Hdr: 2, Ck: 2, Body: 1}, Method: "POST", Target: "/p", Writer: "full", Wants: "body"}
			var cases []m07Case
			add := func(f func(c *m07Case)) {
				c := base
				f(&c)
				cases = append(cases, c)
			}
			add(func(c *m07Case) { c.Target = "/p?q=" + textOf(n) })
			add(func(c *m07Case) { c.Hdrs = [][2]string{{"X-Long", textOf(n)}} })
			add(func(c *m07Case) { c.Hdrs = [][2]string{{"Cookie", "long=" + textOf(n) + "; b=2"}} })
			add(func(c *m07Case) { c.S.Hdr = sizedValue + n })
			add(func(c *m07Case) { c.S.Ck = sizedValue + n })
			add(func(c *m07Case) { c.S.Body = sized + 4*n })
			add(func(c *m07Case) { c.Body = textOf(4 * n) })
			add(func(c *m07Case) { c.Body, c.Wants = textOf(4*n), "" })
			add(func(c *m07Case) { c.Body, c.Chunked = textOf(4*n), true })
			if n <= 1001 {
				add(func(c *m07Case) { c.S.Hdr = sized + n })
				add(func(c *m07Case) { c.S.Ck = sized + n })
				add(func(c *m07Case) {
					for i := 0; i < n; i++ {
						c.Hdrs = append(c.Hdrs, [2]string{fmt.Sprint("X-H", i/2), fmt.Sprint("v", i)})
					}
				})
				add(func(c *m07Case) {
					for i := 0; i < n; i++ {
						c.Hdrs = append(c.Hdrs, [2]string{"Cookie", fmt.Sprintf("c%d=%d", i, i)})
					}
				})
				add(func(c *m07Case) {
					c.Target += "?x=1"
					for i := 0; i < n; i++ {
						c.Target += fmt.Sprintf("&q%d=%d", i, i)
					}
				})
			}
			for _, c := range cases {
				if !yield(c) {
					return
				}
			}
		}
	}), run)
	targets := []string{"/p", "/p?", "/p?a=1&b=2&a=3", "/p?a=%zz", "/p/../p?x=%00", "/p/?q=é"}
	hdrs := [][][2]string{
		nil, {{"X-A", "1"}, {"X-A", "2"}, {"x-lower", ""}}, {{"Cookie", "a=1; b=\"q\"; a=2; bad cookie;;=x"}, {"Cookie", "c=3"}}, {{"Cookie", "one=only"}}, {{"X-Bin", "\xff\xfe\x00\n"}, {"X-Uni", "é\u2028<>&\""}},
		{{"Content-Type", "application/x-www-form-urlencoded"}, {"Accept-Encoding", "gzip"}}, {{"Content-Type", "multipart/form-data; boundary=B"}}, {{"Origin", "https://o.example"}, {"Authorization", "Bearer secret"}},
	}
	bodiesIn := []string{"", "a=1&b=2", "--B\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nv\r\n--B--\r\n", strings.Repeat("z", 70000)}
	kit.Explore(r, "requests", seqOf(func(yield func(m07Case) bool) {
		n := 0
		for _, m := range rigMethods {
			for _, tg := range targets {
				for _, h := range hdrs {
					for _, b := range bodiesIn {
						for _, w := range []string{"", "body", "form"} {
							for _, k := range []string{"text", "redirect302", "adaptor"} {
								for _, host := range []string{"", "h\xffst:80"} {
									n++
									for _, ck := range []int{2, 3, 5} {
										if ck != 2 && (m != "GET" || h != nil && h[0][0] != "Cookie") {
											continue
										}
										if !yield(m07Case{TLS: n%3 == 1, Chunked: n%2 == 1 && b != "", S: RS{Kind: k, Status: 200, Hdr: 2, Ck: ck, Body: 1}, Method: m, Target: tg, Hdrs: h, Body: b, Wants: w, Writer: "full", Host: host}) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}), run)
}

// ---------------------------------------------------------------- M08

type m08Case struct {
	Stack  []int
	S      RS
	AE     string
	Method string
	Origin bool
}

var m08Names = []string{"security", "cors", "compress", "dump", "err", "panic", "csrf", "authz"}

func m08Stack(idx []int) (mws []middleware.Middleware, dumps *int) {
	dumps = new(int)
	for _, i := range idx {
		switch m08Names[i] {
		case "security":
			mws = append(mws, middleware.SecurityHeaders(middleware.SecurityHeadersConfig{
				STS:                         middleware.ShStrictTransportSecurityConfig{Enabled: true, MaxAgeSeconds: 5},
				ClickJacking:                middleware.ShClickJackingConfig{Enabled: true, XFrameOption: middleware.XFrameOptionDeny, XFrameOptionHeaderValue: "DENY"},
				BlockContentSniffingEnabled: true, XSSProtectionEnabled: true}))
		case "cors":
			mws = append(mws, middleware.Cors(middleware.CorsConfig{AnyOriginAllowed: true, AllowedHttpMethods: []string{"GET", "POST"}, ExposedHeaders: []string{"X-Exp"}}))
		case "compress":
			mws = append(mws, middleware.CompressResponse(-1))
		case "dump":
			mws = append(mws, middleware.RequestDumper(func(string) { *dumps++ }))
		case "err":
			mws = append(mws, middleware.ErrJsonResponse())
		case "panic":
			mws = append(mws, middleware.PanicRecover())
		case "csrf":
			ca := cache.NewInMemory()
			ca.Add("NONCE", 1<<60)
			mws = append(mws, middleware.CSRFPrevention(ca))
		case "authz":
			pm := auth.Permission{Scope: "a", Access: 1}
			mws = append(mws, middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
				return &stubPrincipal{has: map[auth.Permission]bool{pm: true}}, nil
			}), middleware.AuthorizeAll(pm))
		}
	}
	return
}

func m08Run(r *kit.Run) func(c m08Case) *kit.Failure {
	return func(c m08Case) *kit.Failure {
		serve := func(mws []middleware.Middleware) served {
			rg := newRig(mws...)
			rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				return c.S.build(), nil
			}
			rec := wire.New()
			rec.Strict = true
			rq := c.S.reqFor(c.Method)
			if c.Method == "POST" {
				rq.Header.Set("X-Csrf-Token", "NONCE")
				rq.Header.Set("Content-Type", "text/plain")
			}
			if c.AE != "" {
				rq.Header.Set("Accept-Encoding", c.AE)
			}
			if c.Origin {
				rq.Header.Set("Origin", "https://other.example")
			}
			rq.URL.Scheme = "https"
			return rg.serve(rec, rec.Writer("full"), rq)
		}
		mws, dumps := m08Stack(c.Stack)
		a, b := serve(mws), serve(nil)
		if a.HasPan {
			return kit.Failf("panic", "panic %v", a.Panic)
		}
		if a.Ran != 1 || len(a.Errs) > len(b.Errs) {
			return kit.Failf("ran", "the handler ran %d times, logged %v", a.Ran, a.Errs)
		}
		has := map[string]bool{}
		for _, i := range c.Stack {
			has[m08Names[i]] = true
		}
		ga, gb := a.View, b.View
		expect := map[string]string{}
		if has["security"] && c.S.Kind != "hijack" {
			expect["Strict-Transport-Security"] = "max-age=5"
			expect["X-Frame-Options"] = "DENY"
			expect["X-Content-Type-Options"] = "nosniff"
			expect["X-Xss-Protection"] = "1; mode=block"
		}
		if has["cors"] && c.Origin && c.S.Kind != "hijack" {
			expect["Access-Control-Allow-Origin"] = "*"
			expect["Access-Control-Expose-Headers"] = "X-Exp"
		}
		for k, v := range expect {
			if ga.Headers[k] != v {
				return kit.Failf("header", "%s is %q, want %q", k, ga.Headers[k], v)
			}
		}
		if has["dump"] && *dumps != 1 {
			return kit.Failf("dump", "%d dumps", *dumps)
		}
		// what the middlewares add is compared above
		drop := map[string]bool{}
		if has["security"] {
			drop["X-Content-Type-Options"] = true
		}
		for k := range expect {
			drop[k] = true
		}
		if has["cors"] {
			for k := range ga.Headers {
				if strings.HasPrefix(k, "Access-Control-") {
					drop[k] = true
				}
			}
			if gb.Headers["Vary"] != ga.Headers["Vary"] && varyHas(ga.Headers["Vary"], gb.Headers["Vary"]) {
				drop["Vary"] = true
			}
		}
		for k := range drop {
			delete(ga.Headers, k)
			delete(gb.Headers, k)
		}
		if has["compress"] {
			x, y := *a.Rec, *b.Rec
			x.Sent, y.Sent = x.Sent.Clone(), y.Sent.Clone()
			for k := range drop {
				x.Sent.Del(k)
				y.Sent.Del(k)
			}
			return compareCompressed(c.AE, -1, &x, &y)
		}
		if d := wire.Diff(ga, gb); d != "" {
			return kit.Failf("diff", "%s", d)
		}
		if a.Rec.Hijacks != b.Rec.Hijacks || len(a.Rec.Flushes) < len(b.Rec.Flushes) || a.Rec.Refused > b.Rec.Refused {
			return kit.Failf("traffic", "hijacks %d/%d flushes %d/%d", a.Rec.Hijacks, b.Rec.Hijacks, len(a.Rec.Flushes), len(b.Rec.Flushes))
		}
		r.Seen(kit.Hash(c.Stack, c.S.Kind))
		return nil
	}
}

// arrangements are all ordered selections of up to n of k elements.
func arrangements(k, n int) (out [][]int) {
	var rec func(w []int)
	rec = func(w []int) {
		out = append(out, append([]int{}, w...))
		if len(w) == n {
			return
		}
	next:
		for i := 0; i < k; i++ {
			for _, x := range w {
				if x == i {
					continue next
				}
			}
			rec(append(w, i))
		}
	}
	rec(nil)
	return
}

func checkM08(r *kit.Run) {
	n := kit.Pick(r, 3, 5)
	r.Rule = "one evaluation = one ordered stack around one response; distinct by (stack, kind)"
	r.Bound("all ordered selections of up to %d of the 8 built-in middlewares %v x %d response kinds x headers, cookies, bodies x Accept-Encoding; all orders of all 8 for text, redirect and adapted responses (thorough)", n, m08Names, len(allKinds))
	r.Assume = []string{"the principal supplier precedes the authorization it serves"}
	run := m08Run(r)
	kit.Explore(r, "stacks", seqOf(func(yield func(m08Case) bool) {
		for _, st := range arrangements(8, n) {
			for _, k := range allKinds {
				for v := 0; v < 6; v++ {
					if len(st) > 3 && v != 1 && v != 3 {
						continue
					}
					s := RS{Kind: k, Status: []int{0, 201, 404, 204, 200, 500}[v], Hdr: []int{0, 5, 2, 7, 10, 8}[v], Ck: []int{0, 3, 2, 2, 4, 1}[v], Body: []int{1, 3, 2, 0, 1, 2}[v], Late: v == 2}
					if !statusFree(k) {
						s.Status = 0
					}
					if !yield(m08Case{Stack: st, S: s, AE: []string{"", "gzip", "deflate", "gzip", "br", "gzip"}[v], Method: []string{"GET", "POST"}[v%2], Origin: v != 0 && v != 3}) {
						return
					}
				}
			}
		}
		if r.Thorough() {
			for _, st := range arrangements(8, 8) {
				if len(st) == 8 {
					for _, k := range []string{"text", "redirect302", "adaptor"} {
						s := RS{Kind: k, Status: 201, Hdr: 5, Ck: 3, Body: 3}
						if !statusFree(k) {
							s.Status = 0
						}
						if !yield(m08Case{Stack: st, S: s, AE: "gzip", Method: "GET", Origin: true}) {
							return
						}
					}
				}
			}
		}
	}), run)
	r.Bound("the stack of all 8 in 4 orders and each alone x 4 response kinds x bodies of up to 1 MiB around every power of two, up to 300 headers and cookies, values of up to 64 KiB")
	kit.Explore(r, "volume", seqOf(func(yield func(m08Case) bool) {
		stacks := [][]int{{0, 1, 2, 3, 4, 5, 6, 7}, {7, 6, 5, 4, 3, 2, 1, 0}, {5, 4, 2, 3, 0, 6, 1, 7}, {2, 0, 4, 6, 1, 3, 5, 7}}
		for i := range m08Names {
			stacks = append(stacks, []int{i})
		}
		for _, st := range stacks {
			for _, k := range []string{"text", "redirect302", "adaptor", "html"} {
				for _, ae := range []string{"", "gzip"} {
					for _, n := range sizesTo(20, 1<<20) {
						if !yield(m08Case{Stack: st, S: RS{Kind: k, Body: sized + n, Hdr: 2, Ck: 2}, AE: ae, Method: "GET", Origin: true}) {
							return
						}
					}
					for _, n := range sizesTo(20, 300) {
						if !yield(m08Case{Stack: st, S: RS{Kind: k, Body: 1, Hdr: sized + n, Ck: 2}, AE: ae, Method: "GET", Origin: true}) || !yield(m08Case{Stack: st, S: RS{Kind: k, Body: 1, Hdr: 2, Ck: sized + n}, AE: ae, Method: "POST", Origin: true}) {
							return
						}
					}
					for _, n := range sizesTo(4, 1<<16) {
						if !yield(m08Case{Stack: st, S: RS{Kind: k, Body: 1, Hdr: sizedValue + n, Ck: 2}, AE: ae, Method: "GET", Origin: true}) {
							return
						}
					}
				}
			}
		}
	}), run)
	r.Bound("all ordered selections of up to 2 and all rotations of all 8 x %d shapes of the request x {body, form, multipart, cookies and headers read by the handler and echoed} x 3 media types x sizes of the body up to 64 KiB", len(shapes))
	kit.Explore(r, "echo", seqOf(func(yield func(m08Echo) bool) {
		stacks := arrangements(8, 2)
		for i := 0; i < 8; i++ {
			st := []int{}
			for k := 0; k < 8; k++ {
				st = append(st, (i+k)%8)
			}
			stacks = append(stacks, st)
		}
		for _, st := range stacks {
			for sh := range shapes {
				for _, me := range []string{"GET", "POST"} {
					for _, reads := range []string{"body", "form", "chunks"} {
						for ct := range m08Types {
							if !yield(m08Echo{Stack: st, Shape: sh, Method: me, Reads: reads, Type: ct, Len: 20 + (sh+ct)%2}) {
								return
							}
						}
					}
				}
			}
			if len(st) != 2 {
				for _, n := range sizesTo(8, 1<<16) {
					for _, reads := range []string{"body", "form", "chunks"} {
						for ct := range m08Types {
							if !yield(m08Echo{Stack: st, Method: "POST", Reads: reads, Type: ct, Len: n}) {
								return
							}
						}
					}
				}
			}
		}
	}), func(c m08Echo) *kit.Failure { return c.run(r.Seen) })
	en := kit.Pick(r, 3, 4)
	r.Bound("all ordered selections of up to %d and all rotations of all 8 and of all 7 without error translation and recovery x %d errors and panics of the handler x 2 methods", en, m03Few)
	kit.Explore(r, "failures", seqOf(func(yield func(m08Fail) bool) {
		stacks := arrangements(8, en)
		for i := 0; i < 8; i++ {
			var all, some []int
			for k := 0; k < 8; k++ {
				x := (i + k) % 8
				all = append(all, x)
				if m08Names[x] != "err" && m08Names[x] != "panic" {
					some = append(some, x)
				}
			}
			stacks = append(stacks, all, some)
		}
		for _, st := range stacks {
			for e := range m03Evs[:m03Few] {
				for _, me := range []string{"GET", "POST"} {
					if !yield(m08Fail{st, e, me}) {
						return
					}
				}
			}
		}
	}), func(c m08Fail) *kit.Failure { return c.run(r.Seen) })
}

// m08Fail is a failing handler in a stack; what surrounds the stack has to see the failure, unless a middleware turned it into something else.
type m08Fail struct {
	Stack  []int
	Event  int
	Method string
}

func (c m08Fail) run(seen func(uint64) bool) *kit.Failure {
	ev := m03Evs[c.Event]
	mws, _ := m08Stack(c.Stack)
	var outErr error
	var outResp response.HttpResponse
	returned := false
	mws = append([]middleware.Middleware{func(h handlerT) handlerT {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			outResp, outErr = h(ctx, mc)
			returned = true
			return outResp, outErr
		}
	}}, mws...)
	rg := newRig(mws...)
	rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if ev.panics != nil {
			ev.panics()
		}
		if ev.err != nil {
			return nil, ev.err
		}
		return response.PlainTextHttpResponseOK("fine"), nil
	}
	rec := wire.New()
	rq := RS{Kind: "text"}.reqFor(c.Method)
	rq.Header.Set("Origin", "https://other.example")
	rq.URL.Scheme = "https"
	if c.Method == "POST" {
		rq.Header.Set("X-Csrf-Token", "NONCE")
		rq.Header.Set("Content-Type", "text/plain")
	}
	s := rg.serve(rec, rec.Writer("full"), rq)
	if s.Ran != 1 {
		return kit.Failf("ran", "the handler ran %d times", s.Ran)
	}
	const okS, errS, panS, respS = 0, 1, 2, 3
	state, status, own := okS, []int{500}, false
	if ev.panics != nil {
		state = panS
	} else if ev.err != nil {
		state, status, own = errS, ev.status, true
	}
	for i := len(c.Stack) - 1; i >= 0; i-- {
		switch m08Names[c.Stack[i]] {
		case "panic":
			if state == panS {
				state = errS
			}
		case "err":
			if state == errS {
				state = respS
			}
		}
	}
	if state != panS && (s.HasPan || !returned) {
		return kit.Failf("escaped", "event %s: panic %v", ev.Name, s.Panic)
	}
	switch state {
	case panS:
		if !s.HasPan || returned {
			return kit.Failf("swallowed", "event %s: a panic without recovery above it was swallowed: %v", ev.Name, s.View)
		}
	case errS:
		if outErr == nil {
			return kit.Failf("swallowed", "event %s: the error does not reach what surrounds the stack, which got %v", ev.Name, outResp)
		}
		if own && !sameError(outErr, ev.err) && !isError(outErr, ev.err) {
			return kit.Failf("changed", "event %s: the error became %v", ev.Name, outErr)
		}
		if len(s.Errs) != 1 || s.View.Status != 500 {
			return kit.Failf("uncaught", "event %s: the client got %v, logged %v", ev.Name, s.View, s.Errs)
		}
	default:
		if outErr != nil || outResp == nil || len(s.Errs) > 0 {
			return kit.Failf("error", "event %s: error %v around the stack, logged %v", ev.Name, outErr, s.Errs)
		}
		ok := state == okS && s.View.Status == 200
		if state == respS {
			for _, st := range status {
				ok = ok || st == s.View.Status
			}
		}
		if !ok {
			return kit.Failf("status", "event %s is answered with %d, want %v", ev.Name, s.View.Status, status)
		}
	}
	seen(kit.Hash("failures", c.Stack, ev.Name))
	return nil
}

func isError(err, target error) bool {
	return reflect.TypeOf(target).Comparable() && errors.Is(err, target)
}

// m08Echo is a request that the handler answers with what it sees of it.
type m08Echo struct {
	Stack     []int
	Shape     int
	Method    string
	Reads     string
	Type, Len int
}

var m08Types = []string{"text/plain", "application/x-www-form-urlencoded", "multipart/form-data; boundary=B"}

func (c m08Echo) run(seen func(uint64) bool) *kit.Failure {
	serve := func(mws []middleware.Middleware) served {
		rg := newRig(mws...)
		rg.shape = c.Shape
		rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			q := mc.R
			var b strings.Builder
			fmt.Fprintf(&b, "%s %s %s %s %s %s %d %v %v tls=%v close=%v pattern=%s\n", q.Method, q.URL, q.RequestURI, q.Host, q.Proto, q.RemoteAddr, q.ContentLength, q.TransferEncoding, q.Trailer, q.TLS != nil, q.Close, mc.PathVar("none"))
			for _, k := range slices.Sorted(maps.Keys(q.Header)) {
				fmt.Fprintf(&b, "%q: %q\n", k, q.Header[k])
			}
			for _, k := range q.Cookies() {
				fmt.Fprintf(&b, "%q=%q\n", k.Name, k.Value)
			}
			fmt.Fprintf(&b, "%v %v %v\n", ctx.Err(), ctx.Value(m07Key{}), q.Context().Err())
			switch c.Reads {
			case "form":
				fmt.Fprintf(&b, "%q %q %q", q.FormValue("a"), q.PostFormValue("b"), q.URL.Query())
			case "body":
				x, err := io.ReadAll(q.Body)
				fmt.Fprintf(&b, "%q %v", x, err)
			case "chunks":
				for buf := make([]byte, 7); ; {
					n, err := q.Body.Read(buf)
					fmt.Fprintf(&b, "%q ", buf[:n])
					if err != nil {
						fmt.Fprintf(&b, "%v %v", err, q.Body.Close())
						break
					}
				}
			}
			return response.PlainTextHttpResponseOK(b.String()), nil
		}
		v := textOf(c.Len)
		body := []string{v, "a=" + v + "&b=1%20", "--B\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n" + v + "\r\n--B--\r\n"}[c.Type]
		rq := mkReq(c.Method, "/p?a=query&c=d", "Content-Type", m08Types[c.Type], "X-Csrf-Token", "NONCE", "Cookie", "s=1; t=2", "Accept-Encoding", []string{"br, zstd", "gzip"}[c.Len%2])
		rq = rq.WithContext(context.WithValue(context.Background(), m07Key{}, "v"))
		rq.Body, rq.ContentLength = io.NopCloser(strings.NewReader(body)), int64(len(body))
		rec := wire.New()
		return rg.serve(rec, rec.Writer("full"), rq)
	}
	mws, _ := m08Stack(c.Stack)
	a, b := serve(mws), serve(nil)
	if a.HasPan || len(a.Errs) > 0 || a.Ran != 1 {
		return kit.Failf("echo", "the handler ran %d times; panic %v, logged %v", a.Ran, a.Panic, a.Errs)
	}
	got, want := a.Rec.Body.String(), b.Rec.Body.String()
	if a.Rec.Sent.Get("Content-Encoding") == "gzip" {
		z, err := gzip.NewReader(strings.NewReader(got))
		if err != nil {
			return kit.Failf("echo", "not compressed: %v", err)
		}
		plain, err := io.ReadAll(z)
		if err != nil {
			return kit.Failf("echo", "not compressed: %v", err)
		}
		got = string(plain)
	}
	if got != want {
		k := 0
		for k < len(got) && k < len(want) && got[k] == want[k] {
			k++
		}
		k = max(0, k-40)
		return kit.Failf("echo", "behind %v the handler sees ...%.200q instead of ...%.200q", c.Stack, got[k:], want[k:])
	}
	seen(kit.Hash("echo", c.Stack, c.Shape, c.Method, c.Reads))
	return nil
}

// ---------------------------------------------------------------- L02

type l02Req struct {
	Out   string // ok, err, werr (error wrapped in a custom type), panic, notfound, method, badresp
	Kind  string
	Fail  int // write that fails
	Frac  int
	Var   int
	Ctx   string // "", gone: the request context is cancelled before, leaves: it is cancelled while the handler runs, late: its deadline has passed
	E     int    // Out "other": index into l02Errs, from vocab on into errorVocab
	FailE int    `json:",omitempty"` // what the failing write reports: 0 an own error, n the n-th of errorVocab
	Shape int    `json:",omitempty"` // index into shapes
}

// l02Errs are errors a framework might be tempted to treat as something else than a failure.
var l02Errs = []error{context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, http.ErrAbortHandler, http.ErrHandlerTimeout, http.ErrBodyReadAfterClose, net.ErrClosed, syscall.EPIPE, syscall.ECONNRESET,
	os.ErrDeadlineExceeded, os.ErrNotExist, errAccessDenied, errUnauthorized, gerrors.ErrWrongCredentials, gerrors.NewBadRequestWithMessage("b"), gerrors.NewObjectNotFoundWithMessage("n"), fmt.Errorf("wrapped: %w", context.Canceled), errors.Join(errH, io.EOF), &l02Err{9}, errors.New("")}

type l02Case struct {
	Seq []l02Req
	Mws []int
}

type l02Err struct{ n int }

func (e *l02Err) Error() string { return fmt.Sprint("custom ", e.n) }

func l02Error(i int) error {
	if i >= vocab {
		return errorVocab[i-vocab]
	}
	return l02Errs[i]
}

func l02Run(r *kit.Run) func(c l02Case) *kit.Failure {
	return func(c l02Case) *kit.Failure {
		var logs []error
		m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) { logs = append(logs, err) }})
		if err != nil {
			return kit.Failf("new", "%v", err)
		}
		var cur l02Req
		var leave func()
		cust := &l02Err{7}
		mws, _ := m08Stack(c.Mws)
		gotVars := ""
		m.CommonMiddlewares(mws...)
		h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			gotVars = mc.PathVar("x") + "," + mc.PathVar("y")
			switch cur.Out {
			case "err":
				return nil, errH
			case "custom":
				return response.PlainTextHttpResponse(200, "must not be sent"), cust
			case "panic":
				panic(errH)
			case "other":
				if cur.Ctx == "leaves" {
					leave()
				}
				return nil, l02Error(cur.E)
			}
			return RS{Kind: cur.Kind, Status: 200, Hdr: 2, Ck: 2, Body: 3}.build(), nil
		}
		m.HandleGet("/{x}/t/{y}", h)
		m.HandleGet("/**/z/{x}", h)
		m.HandlePost("/p/{y}", h)
		for i, q := range c.Seq {
			cur = q
			gotVars, logs = "", nil
			v := fmt.Sprint(q.Var)
			method, url, want := "GET", "/a"+v+"/t/b"+v, "a"+v+",b"+v
			switch q.Var % 3 {
			case 1:
				url, want = "/q"+v+"/w/z/c"+v, "c"+v+","
			case 2:
				method, url, want = "POST", "/p/d"+v, ",d"+v
			}
			switch q.Out {
			case "notfound":
				url, want = "/a"+v+"/t/b/c/d", ""
			case "method":
				method, want = "PUT", ""
			case "long":
				url, want = strings.Repeat("/s", 25), ""
			}
			rec := wire.New()
			rec.Strict = true
			rec.FailAt, rec.FailFrac = q.Fail, q.Frac
			broken := wire.ErrBroken
			if q.FailE > 0 {
				broken = errorVocab[q.FailE-1]
				rec.FailErr = broken
			}
			rq := RS{Kind: q.Kind}.reqFor(method)
			rq.URL.Path, rq.RequestURI = url, url
			rq.Header.Set("Accept-Encoding", "gzip")
			rq.Header.Set("X-Csrf-Token", "NONCE")
			shapes[q.Shape].f(rq)
			pan := any(nil)
			ctx, cancel := context.WithCancel(context.Background())
			leave = cancel
			switch q.Ctx {
			case "gone":
				cancel()
			case "late":
				cancel()
				ctx, cancel = context.WithDeadline(context.Background(), time.Unix(1, 0))
			}
			if q.Ctx != "" {
				rq = rq.WithContext(ctx)
			}
			func() {
				defer cancel()
				defer func() { pan = recover() }()
				m.ServeHTTP(rec.Writer("full"), rq)
				rec.End()
			}()
			if (pan != nil) != (q.Out == "panic") || pan != nil && pan != any(errH) {
				return kit.Failf("panic", "request %d %+v: panic %v", i, q, pan)
			}
			if gotVars != want {
				return kit.Failf("vars", "request %d %+v of %+v: %s %s saw %q, want %q", i, q, c.Seq, method, url, gotVars, want)
			}
			switch q.Out {
			case "panic":
				if len(logs) > 0 || rec.Body.Len() > 0 {
					return kit.Failf("paniclog", "request %d: logged %v, wrote %v", i, logs, rec.View())
				}
			case "err", "custom", "other":
				if rec.Status != 500 || rec.Body.Len() > 0 || len(rec.Sent["Set-Cookie"]) > 0 || rec.Sent.Get("X-A") != "" {
					return kit.Failf("err", "request %d: an error became %v", i, rec.View())
				}
				var ce *l02Err
				if len(logs) != 1 || q.Out == "err" && !errors.Is(logs[0], errH) || q.Out == "custom" && !(errors.As(logs[0], &ce) && ce == cust) || q.Out == "other" && !errors.Is(logs[0], l02Error(q.E)) {
					return kit.Failf("log", "request %d: logged %v", i, logs)
				}
			case "notfound", "method", "long":
				if rec.Status != 404 || len(logs) > 0 {
					return kit.Failf("notfound", "request %d: %v, logged %v", i, rec.View(), logs)
				}
			default:
				if rec.Failed > 0 {
					silent := isRedirect(q.Kind) || isAdaptor(q.Kind) || q.Kind == "sse"
					if len(logs) > 1 || len(logs) == 0 && !silent || len(logs) == 1 && !errors.Is(logs[0], broken) {
						return kit.Failf("writelog", "request %d %+v: write %d failed, logged %v", i, q, q.Fail, logs)
					}
				} else {
					if len(logs) > 0 {
						return kit.Failf("oklog", "request %d %+v: logged %v", i, q, logs)
					}
					if len(c.Mws) == 0 && q.Kind != "hijack" {
						s := RS{Kind: q.Kind, Status: 200, Hdr: 2, Ck: 2, Body: 3}
						if wv, ok := s.want(); ok {
							if d := wire.Diff(s.normalise(rec.View()), wv); d != "" {
								return kit.Failf("damaged", "request %d %+v: %s", i, q, d)
							}
						}
					}
				}
			}
			r.Seen(kit.Hash(q, len(logs), rec.Status))
		}
		return nil
	}
}

func checkL02(r *kit.Run) {
	depth := kit.Pick(r, 4, 5)
	r.Rule = "one evaluation = one sequence of requests on one mux; distinct by (request, outcome)"
	r.Bound("all sequences of up to %d requests over {success, error, custom error with a response, panic, unknown path, unknown method, too many segments, broken connection} on three routes; all pairs of (22 returned errors x request context alive, cancelled before or during the handler, past its deadline x route) and of these with every other outcome; every response kind with every write failing (completely or partially) followed by every outcome, bare and behind compression and other middlewares", depth)
	r.Assume = []string{"redirects, adapted handlers and event streams do not report write errors (they write through net/http or end)"}
	run := l02Run(r)
	outs := []l02Req{{Out: "ok", Kind: "text"}, {Out: "ok", Kind: "json"}, {Out: "err"}, {Out: "custom"}, {Out: "panic"}, {Out: "notfound"}, {Out: "method"}, {Out: "long"}, {Out: "ok", Kind: "text", Fail: 1}, {Out: "ok", Kind: "stream", Fail: 2, Frac: 1}}
	kit.Explore(r, "sequences", seqOf(func(yield func(l02Case) bool) {
		for _, w := range indexWords(len(outs), depth) {
			if len(w) == 0 {
				continue
			}
			for k := 0; k < 2; k++ {
				c := l02Case{}
				for i, x := range w {
					q := outs[x]
					q.Var = i*(k+1) + k
					c.Seq = append(c.Seq, q)
				}
				if !yield(c) {
					return
				}
			}
		}
	}), run)
	r.Bound("%d shapes of the request (body, protocol, headers, peer, query) x every outcome x three routes x no middleware and security headers, compression, dump", len(shapes))
	kit.Explore(r, "shapes", seqOf(func(yield func(l02Case) bool) {
		for sh := range shapes {
			for _, q := range outs {
				for _, mws := range [][]int{nil, {0}, {2}, {3}} {
					if mws != nil && (q.Out == "panic" || q.Out == "err" || q.Out == "custom") {
						continue
					}
					for v := 0; v < 3; v++ {
						q.Shape, q.Var = sh, v
						if !yield(l02Case{Seq: []l02Req{q, {Out: "ok", Kind: "text", Var: 2}}, Mws: mws}) {
							return
						}
					}
				}
			}
		}
	}), run)
	kit.Explore(r, "errors", seqOf(func(yield func(l02Case) bool) {
		var all []l02Req
		for e := range l02Errs {
			for _, cx := range []string{"", "gone", "leaves", "late"} {
				for v := 0; v < 3; v++ {
					all = append(all, l02Req{Out: "other", E: e, Ctx: cx, Var: v})
				}
			}
		}
		for _, a := range all {
			for _, mws := range [][]int{nil, {3}} {
				for _, b := range append(append([]l02Req(nil), outs...), all...) {
					if b.Out == "other" && mws != nil || b.Out == "panic" && mws != nil {
						continue
					}
					if !yield(l02Case{Seq: []l02Req{a, b, {Out: "ok", Kind: "text", Var: 2}}, Mws: mws}) {
						return
					}
				}
			}
		}
	}), run)
	r.Bound("%d errors of the standard library and errors that resemble them, returned by the handler (the request context alive, cancelled or past its deadline) and reported by the connection for every response kind", len(errorVocab))
	kit.Explore(r, "vocabulary", seqOf(func(yield func(l02Case) bool) {
		for e := range errorVocab {
			for v := 0; v < 3; v++ {
				for _, cx := range []string{"", "gone", "leaves", "late"} {
					if !yield(l02Case{Seq: []l02Req{{Out: "other", E: vocab + e, Ctx: cx, Var: v}, {Out: "ok", Kind: "text", Var: v}}}) {
						return
					}
				}
				for _, k := range allKinds {
					for _, fr := range []int{0, 1} {
						for at := 1; at <= 2; at++ {
							if k == "hijack" {
								continue
							}
							if !yield(l02Case{Seq: []l02Req{{Out: "ok", Kind: k, Fail: at, Frac: fr, FailE: e + 1, Var: v}, {Out: "ok", Kind: "text", Var: v}}}) {
								return
							}
						}
					}
				}
			}
		}
	}), run)
	most := kit.Pick(r, 1100, 5000)
	r.Bound("every outcome up to %d times in a row, then a success", most)
	kit.Explore(r, "volume", seqOf(func(yield func(l02Case) bool) {
		for _, o := range append(append([]l02Req(nil), outs...), l02Req{Out: "ok", Kind: "stream", Fail: 1}, l02Req{Out: "ok", Kind: "json", Fail: 1}, l02Req{Out: "ok", Kind: "hijack"}) {
			for _, n := range []int{10, 40, 70, 150, 300, 600, most} {
				var seq []l02Req
				for i := 0; i < n; i++ {
					o.Var = i % 7
					seq = append(seq, o)
				}
				if !yield(l02Case{Seq: append(seq, l02Req{Out: "ok", Kind: "text", Var: 1}, l02Req{Out: "ok", Kind: "html", Var: 2}, l02Req{Out: "ok", Kind: "json", Var: 3})}) {
					return
				}
			}
		}
	}), run)
	kit.Explore(r, "faults", seqOf(func(yield func(l02Case) bool) {
		for _, k := range allKinds {
			for n := 0; n <= 8; n++ {
				for fr := 0; fr < 2; fr++ {
					for _, mws := range [][]int{nil, {2}, {0, 2}, {4, 2, 3}, {2, 0, 1}, {3}, {7, 6, 2}} {
						for _, after := range append([]l02Req{{Out: "ok", Kind: k, Fail: n, Frac: fr}}, outs...) {
							after.Var = 3
							if after.Out == "panic" || after.Out == "err" || after.Out == "custom" {
								if len(mws) > 1 {
									continue
								}
							}
							if !yield(l02Case{Seq: []l02Req{{Out: "ok", Kind: k, Fail: n, Frac: fr}, after, {Out: "ok", Kind: k, Var: 1}}, Mws: mws}) {
								return
							}
						}
					}
				}
			}
		}
	}), run)
}

var _ = bytes.NewReader
