package checks

import (
	"context"
	"crypto/tls"
	"fmt"
	"net/http"
	"strings"

	"gofremc/kit"
	"gofremc/wire"

	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() {
	All["M04"] = checkM04
	All["M05"] = checkM05
}

// ---------------------------------------------------------------- M04

type m04Req struct {
	Secure string // "", "tls", "https", "HTTPS", "http", "tls+<scheme>"
	S      RS
	Err    bool
	Method string `json:",omitempty"`
	Shape  int    `json:",omitempty"`
	Host   string `json:",omitempty"`
	More   int    `json:",omitempty"` // further request header: the n-th of requestVocab
}

type m04Case struct {
	STS, Sub, Pre bool
	MaxAge        int
	Click         bool
	Option        int    // 0 deny 1 sameorigin 2 allow-from
	URI           string `json:",omitempty"` // for allow-from
	Sniff, XSS    bool
	Seq           []m04Req
	SecondHandler bool              // one instance wraps two handlers, the requests alternate
	Preset        map[string]string // headers the handler itself gives its response
}

var xfo = []struct {
	opt  middleware.XFrameOption
	text string
}{{middleware.XFrameOptionDeny, "DENY"}, {middleware.XFrameOptionSameOrigin, "SAMEORIGIN"}, {middleware.XFrameOptionAllowFrom, "ALLOW-FROM"}}

func (c m04Case) uri() string {
	if c.URI != "" {
		return c.URI
	}
	return "https://frame.example/"
}

func m04Run(seen func(uint64) bool) func(c m04Case) *kit.Failure {
	return func(c m04Case) *kit.Failure {
		cfg := middleware.SecurityHeadersConfig{
			STS:                         middleware.ShStrictTransportSecurityConfig{Enabled: c.STS, MaxAgeSeconds: c.MaxAge, IncludeSubDomains: c.Sub, Preload: c.Pre},
			ClickJacking:                middleware.ShClickJackingConfig{Enabled: c.Click, XFrameOption: xfo[c.Option].opt, XFrameOptionHeaderValue: xfo[c.Option].text, XFrameAllowFromUri: c.uri()},
			BlockContentSniffingEnabled: c.Sniff, XSSProtectionEnabled: c.XSS,
		}
		mw := middleware.SecurityHeaders(cfg)
		rigs := []*rig{newRig(mw)}
		if c.SecondHandler {
			rigs = append(rigs, newRig(mw))
		}
		for i, q := range c.Seq {
			rg := rigs[i%len(rigs)]
			rg.shape = q.Shape
			rq := q.S.reqFor(or(q.Method, "GET"))
			switch q.Secure {
			case "tls":
				rq.TLS = &tls.ConnectionState{}
			case "tls+http", "tls+HTTP", "tls+https":
				rq.TLS = &tls.ConnectionState{}
				rq.URL.Scheme = q.Secure[4:]
			case "https", "HTTPS", "http", "ws":
				rq.URL.Scheme = q.Secure
			}
			if q.Host != "" {
				rq.Host = q.Host
			}
			if q.More > 0 {
				rq.Header.Set(requestVocab[q.More-1][0], requestVocab[q.More-1][1])
			}
			if q.Err {
				rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
					return nil, errSource
				}
				rec := wire.New()
				s := rg.serve(rec, rec.Writer("full"), rq)
				if s.HasPan || s.View.Status != 500 || len(s.Errs) != 1 {
					return kit.Failf("err", "request %d: an error became %v (panic %v)", i, s.View, s.Panic)
				}
				continue
			}
			rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				resp := q.S.build()
				for k, v := range c.Preset {
					resp.Headers().Set(k, v)
				}
				return resp, nil
			}
			rec := wire.New()
			s := rg.serve(rec, rec.Writer("full"), rq)
			if s.HasPan {
				return kit.Failf("panic", "request %d, response %s: panic %v", i, q.S.Kind, s.Panic)
			}
			if len(s.Errs) > 0 {
				return kit.Failf("logged", "request %d logged %v", i, s.Errs)
			}
			if q.S.Kind == "hijack" {
				if s.Rec.Hijacks != 1 {
					return kit.Failf("hijack", "request %d: the connection was not handed over", i)
				}
				continue
			}
			want, _ := q.S.want()
			for k, v := range c.Preset {
				want.Headers[k] = v
			}
			if c.STS && (strings.HasPrefix(q.Secure, "tls") || strings.EqualFold(q.Secure, "https")) {
				v := fmt.Sprintf("max-age=%d", c.MaxAge)
				if c.Sub {
					v += ";includeSubDomains"
				}
				if c.Pre {
					v += ";preload"
				}
				want.Headers["Strict-Transport-Security"] = v
			}
			if c.Click {
				v := xfo[c.Option].text
				if c.Option == 2 {
					v += " " + c.uri()
				}
				want.Headers["X-Frame-Options"] = v
			}
			got := q.S.normalise(s.View)
			if c.Sniff {
				want.Headers["X-Content-Type-Options"] = "nosniff"
				got.Headers["X-Content-Type-Options"] = s.Rec.Sent.Get("X-Content-Type-Options")
			}
			if _, preset := c.Preset["X-Content-Type-Options"]; preset && !c.Sniff {
				delete(got.Headers, "X-Content-Type-Options")
				delete(want.Headers, "X-Content-Type-Options") // which responses carry it on their own is left open
			}
			if c.XSS {
				want.Headers["X-Xss-Protection"] = "1; mode=block"
			}
			hsts(want.Headers)
			hsts(got.Headers)
			if d := wire.Diff(got, want); d != "" {
				return kit.Failf("diff", "request %d (%s, secure %q): %s", i, q.S.Kind, q.Secure, d)
			}
			seen(kit.Hash(fmt.Sprint(want.Headers)))
		}
		return nil
	}
}

// hsts makes the value independent of the optional white space after a semicolon
func hsts(h map[string]string) {
	if v, ok := h["Strict-Transport-Security"]; ok {
		h["Strict-Transport-Security"] = strings.ReplaceAll(v, "; ", ";")
	}
}

func checkM04(r *kit.Run) {
	r.Rule = "distinct = header sets delivered"
	r.Bound("all configurations (2^3 HSTS flags x 3 max ages x 4 frame settings x 2 x 2) x all sequences of up to %d requests over {insecure, TLS, https URL} (single requests: also http URLs with and without TLS) x response kinds and failing handlers, through one instance", kit.Pick(r, 2, 3))
	r.Assume = []string{"headers appear with the values the configuration spells out; white space after `;` in the HSTS value is left open"}
	run := m04Run(r.Seen)
	cfgs := func(yield func(c m04Case) bool) {
		for i := 0; i < 8; i++ {
			for _, age := range []int{0, 1, 31536000} {
				for cl := 0; cl < 4; cl++ {
					for j := 0; j < 4; j++ {
						c := m04Case{STS: i&1 > 0, Sub: i&2 > 0, Pre: i&4 > 0, MaxAge: age, Click: cl > 0, Option: max(cl-1, 0), Sniff: j&1 > 0, XSS: j&2 > 0}
						if !yield(c) {
							return
						}
					}
				}
			}
		}
	}
	secs := []string{"", "tls", "https", "HTTPS", "http", "tls+http", "tls+HTTP", "tls+https"}
	kit.Explore(r, "kinds", seqOf(func(yield func(m04Case) bool) {
		cfgs(func(c m04Case) bool {
			for _, k := range allKinds {
				for _, h := range []int{0, 2, 4, 5} {
					for _, sec := range secs {
						for _, late := range []bool{false, true} {
							c := c
							c.Seq = []m04Req{{Secure: sec, S: RS{Kind: k, Hdr: h, Ck: 2, Body: 1, Late: late}}}
							if !yield(c) {
								return false
							}
						}
					}
				}
			}
			return true
		})
	}), run)
	r.Bound("sizes: ages around every power of two up to 2^62, URIs of up to 5000 characters, bodies around every power of two up to 70000")
	kit.Explore(r, "sizes", seqOf(func(yield func(m04Case) bool) {
		put := func(age int, uri string, n int) bool {
			for i := 0; i < 8; i++ {
				if !yield(m04Case{STS: true, Sub: i&1 > 0, Pre: i&2 > 0, MaxAge: age, Click: true, Option: 2, URI: uri, Sniff: i&4 > 0, XSS: i&4 > 0,
					Seq: []m04Req{{Secure: "tls", S: RS{Kind: "text", Body: sized + n}}, {S: RS{Kind: "text", Body: 1}}, {Secure: "https", S: RS{Kind: "json", Body: 1}}}}) {
					return false
				}
			}
			return true
		}
		for k := 3; k <= 62; k++ {
			for _, d := range []int{-1, 0, 1} {
				if !put(1<<k+d, "", 0) {
					return
				}
			}
		}
		for _, n := range sizesTo(20, 5000) {
			if !put(1, "https://"+textOf(n)+"/?a=b;c", 1) {
				return
			}
		}
		for _, n := range sizesTo(3, 70000) {
			if !put(1, "", n) {
				return
			}
		}
	}), run)
	names := []string{"Strict-Transport-Security", "X-Frame-Options", "X-Content-Type-Options", "X-Xss-Protection"}
	kit.Explore(r, "preset", seqOf(func(yield func(m04Case) bool) {
		cfgs(func(c m04Case) bool {
			for set := 1; set < 1<<len(names); set++ {
				for _, v := range []string{"other", "SAMEORIGIN", ""} {
					for _, k := range []string{"text", "json", "redirect302"} {
						for _, sec := range []string{"", "tls"} {
							c := c
							c.Preset = map[string]string{}
							for i, n := range names {
								if set>>i&1 > 0 {
									c.Preset[n] = v
								}
							}
							q := m04Req{Secure: sec, S: RS{Kind: k, Body: 1}}
							c.Seq = []m04Req{q, q}
							if !yield(c) {
								return false
							}
						}
					}
				}
			}
			return true
		})
	}), run)
	r.Bound("all configurations x %d shapes of the request (body, protocol, headers, peer, query) x 3 methods x 3 response kinds", len(shapes))
	kit.Explore(r, "shapes", seqOf(func(yield func(m04Case) bool) {
		cfgs(func(c m04Case) bool {
			for sh := range shapes {
				if shapes[sh].name == "TLS" {
					continue
				}
				for _, sec := range []string{"", "tls"} {
					for _, me := range []string{"GET", "POST", "OPTIONS"} {
						for _, k := range []string{"text", "json", "redirect302"} {
							c := c
							c.Seq = []m04Req{{Secure: sec, S: RS{Kind: k, Hdr: 2, Ck: 2, Body: 1}, Method: me, Shape: sh}}
							if !yield(c) {
								return false
							}
						}
					}
				}
			}
			return true
		})
	}), run)
	r.Bound("all configurations x %d response headers, %d request headers, %d hosts, %d methods", len(headerVocab), len(requestVocab), len(hostVocab), len(methodVocab))
	kit.Explore(r, "vocabulary", seqOf(func(yield func(m04Case) bool) {
		cfgs(func(c m04Case) bool {
			if c.MaxAge != 1 {
				return true
			}
			one := func(q m04Req) bool {
				for _, sec := range []string{"", "tls"} {
					c := c
					q.Secure = sec
					c.Seq = []m04Req{q}
					if !yield(c) {
						return false
					}
				}
				return true
			}
			for i := range headerVocab {
				switch headerVocab[i][0] {
				case "X-Content-Type-Options", "X-Frame-Options", "X-Xss-Protection", "Strict-Transport-Security":
					continue // see the space preset
				}
				if !one(m04Req{S: RS{Kind: "text", Hdr: vocab + i, Body: 1}}) || !one(m04Req{S: RS{Kind: "stream", Hdr: vocab + i, Body: 1}}) {
					return false
				}
			}
			for i := range requestVocab {
				if !one(m04Req{S: RS{Kind: "text", Body: 1}, More: i + 1}) {
					return false
				}
			}
			for _, h := range hostVocab {
				if !one(m04Req{S: RS{Kind: "text", Body: 1}, Host: h}) {
					return false
				}
			}
			for _, m := range methodVocab {
				if !one(m04Req{S: RS{Kind: "text", Body: 1}, Method: m}) {
					return false
				}
			}
			return true
		})
	}), run)
	kit.Explore(r, "sequences", seqOf(func(yield func(m04Case) bool) {
		var alpha []m04Req
		for _, sec := range []string{"", "tls", "https"} {
			alpha = append(alpha, m04Req{Secure: sec, S: RS{Kind: "text", Body: 1}})
			alpha = append(alpha, m04Req{Secure: sec, Err: true, S: RS{Kind: "text"}})
			alpha = append(alpha, m04Req{Secure: sec, S: RS{Kind: "redirect302", Ck: 2}})
			if r.Thorough() {
				alpha = append(alpha, m04Req{Secure: sec, S: RS{Kind: "adaptor", Hdr: 2}}, m04Req{Secure: sec, S: RS{Kind: "hijack"}}, m04Req{Secure: sec, S: RS{Kind: "json", Hdr: 4, Status: 404}})
			}
		}
		depth := 3
		cfgs(func(c m04Case) bool {
			ok := true
			var rec func(seq []m04Req)
			rec = func(seq []m04Req) {
				if !ok {
					return
				}
				if len(seq) > 1 {
					for _, two := range []bool{false, true} {
						c := c
						c.SecondHandler = two
						c.Seq = append([]m04Req(nil), seq...)
						if !yield(c) {
							ok = false
							return
						}
					}
				}
				if len(seq) == depth || len(seq) == 2 && !r.Thorough() && (c.MaxAge == 0 || c.Option == 1) {
					return
				}
				for _, a := range alpha {
					rec(append(seq, a))
				}
			}
			rec(nil)
			return ok
		})
	}), run)
}

// ---------------------------------------------------------------- M05

type m05Cfg struct {
	Any, Cred bool
	MaxAge    int
	Expose    []string
	Methods   []string
	Headers   []string
	Origins   []string
}

type m05Case struct {
	C      m05Cfg
	Method string
	Origin *string
	ACRM   *string
	ACRH   *string
	CT     string
	Abs    string // scheme://host of an absolute request URL
	Host   string `json:",omitempty"` // Host header, default srv.example, "-" for none
	TLS    bool   `json:",omitempty"`
	Vary   string
	Kind   string
	Shape  int               `json:",omitempty"` // index into shapes
	More   map[string]string `json:",omitempty"` // further headers of the request
}

func m05Run(seen func(uint64) bool) func(c m05Case) *kit.Failure {
	return func(c m05Case) *kit.Failure {
		mw := middleware.Cors(middleware.CorsConfig{AnyOriginAllowed: c.C.Any, SupportsCredentials: c.C.Cred, PreflightMaxAgeSeconds: c.C.MaxAge, ExposedHeaders: c.C.Expose,
			AllowedHttpMethods: c.C.Methods, AllowedHttpHeaders: c.C.Headers, AllowedOrigins: c.C.Origins})
		var rqErr error
		probe := func(h func(context.Context, path.MatchingContext) (response.HttpResponse, error)) func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				r, err := h(ctx, mc)
				rqErr = err
				return r, err
			}
		}
		rg := newRig(func(h handlerT) handlerT { return probe(h) }, mw)
		rs := RS{Kind: c.Kind, Body: 1, Ck: 2}
		rq := rs.reqFor(c.Method)
		if c.Origin != nil {
			rq.Header.Set("Origin", *c.Origin)
		}
		if c.ACRM != nil {
			rq.Header.Set("Access-Control-Request-Method", *c.ACRM)
		}
		if c.ACRH != nil {
			rq.Header.Set("Access-Control-Request-Headers", *c.ACRH)
		}
		if c.CT != "" {
			rq.Header.Set("Content-Type", c.CT)
		}
		if c.Abs != "" {
			sch, host, _ := strings.Cut(c.Abs, "://")
			rq.URL.Scheme, rq.URL.Host = sch, host
		}
		if c.Host != "" {
			rq.Host = strings.TrimPrefix(c.Host, "-")
		}
		if c.TLS {
			rq.TLS = &tls.ConnectionState{}
		}
		for k, v := range c.More {
			rq.Header.Set(k, v)
		}
		rg.shape = c.Shape
		rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			resp := rs.build()
			if c.Vary != "" {
				resp.Headers().Set("Vary", c.Vary)
			}
			return resp, nil
		}
		// another request through the same instance must not matter
		other := rs.reqFor("GET", "Origin", "https://a.example")
		before := wire.New()
		rg.serve(before, before.Writer("full"), other)
		rqErr = nil
		rec := wire.New()
		s := rg.serve(rec, rec.Writer("full"), rq)
		if s.HasPan {
			return kit.Failf("panic", "panic %v", s.Panic)
		}
		verdict := corsOracle(c)
		refused := rqErr != nil
		acPresent := ""
		for k := range s.View.Headers {
			if strings.HasPrefix(k, "Access-Control-") {
				acPresent = k
			}
		}
		if refused {
			if rqErr != errAccessDenied {
				return kit.Failf("err", "refused with %v", rqErr)
			}
			if acPresent != "" {
				return kit.Failf("leak", "a refused request carries %s", acPresent)
			}
		}
		switch verdict {
		case "free":
			return nil
		case "refuse":
			if !refused {
				return kit.Failf("allowed", "the request has to be refused but was answered with %v", s.View)
			}
			seen(kit.Hash("refuse", len(c.C.Origins), c.Method))
			return nil
		}
		if refused {
			return kit.Failf("refused", "the request is allowed but was refused")
		}
		want, _ := rs.want()
		got := rs.normalise(s.View)
		gv := got.Headers["Vary"]
		if verdict == "same" {
			// not a cross-origin request: nothing but the access-control headers and Vary may be added, no refusal
			for k := range got.Headers {
				if strings.HasPrefix(k, "Access-Control-") || k == "Vary" {
					delete(got.Headers, k)
				}
			}
			delete(want.Headers, "Vary")
			if d := wire.Diff(got, want); d != "" {
				return kit.Failf("diff", "%s", d)
			}
			if c.Vary != "" && !varyHas(gv, c.Vary) {
				return kit.Failf("vary", "Vary is %q, the handler set %q", gv, c.Vary)
			}
			return nil
		}
		vary := []string{}
		if c.C.Any {
			want.Headers["Access-Control-Allow-Origin"] = "*"
		} else {
			want.Headers["Access-Control-Allow-Origin"] = *c.Origin
			vary = append(vary, "Origin")
		}
		if c.C.Cred {
			want.Headers["Access-Control-Allow-Credentials"] = "true"
		}
		if len(c.C.Expose) > 0 {
			want.Headers["Access-Control-Expose-Headers"] = strings.Join(c.C.Expose, ",")
		}
		if verdict == "preflight" || c.Method == "OPTIONS" {
			if c.C.MaxAge > 0 {
				want.Headers["Access-Control-Max-Age"] = fmt.Sprint(c.C.MaxAge)
			}
			if len(c.C.Methods) > 0 {
				want.Headers["Access-Control-Allow-Methods"] = strings.Join(c.C.Methods, ",")
			}
			if len(c.C.Headers) > 0 {
				want.Headers["Access-Control-Allow-Headers"] = strings.Join(c.C.Headers, ",")
			}
		}
		for _, k := range []string{"Access-Control-Expose-Headers", "Access-Control-Allow-Methods", "Access-Control-Allow-Headers"} {
			if v, ok := got.Headers[k]; ok {
				got.Headers[k] = strings.ReplaceAll(v, ", ", ",")
			}
		}
		delete(got.Headers, "Vary")
		delete(want.Headers, "Vary")
		if d := wire.Diff(got, want); d != "" {
			return kit.Failf("diff", "%s: %s", verdict, d)
		}
		for _, v := range strings.Split(c.Vary, ",") {
			if v = strings.TrimSpace(v); v != "" {
				vary = append(vary, v)
			}
		}
		for _, v := range vary {
			if !varyHas(gv, v) {
				return kit.Failf("vary", "Vary is %q, it has to name %q", gv, v)
			}
		}
		seen(kit.Hash(verdict, fmt.Sprint(want.Headers), gv))
		return nil
	}
}

func varyHas(v, names string) bool {
	have := map[string]bool{}
	for _, x := range strings.Split(v, ",") {
		have[strings.ToLower(strings.TrimSpace(x))] = true
	}
	if have["*"] {
		return true
	}
	for _, n := range strings.Split(names, ",") {
		if n = strings.ToLower(strings.TrimSpace(n)); n != "" && !have[n] {
			return false
		}
	}
	return true
}

// own is the server's own origin as far as the request tells it.
func (c m05Case) own() string {
	if c.Abs != "" {
		return c.Abs
	}
	h := c.Host
	switch h {
	case "-":
		return ""
	case "":
		h = "srv.example"
	}
	if c.TLS {
		return "https://" + h
	}
	return "http://" + h
}

// corsOracle states the policy: "simple" and "preflight" are allowed cross-origin requests, "same" is a
// request without or with the server's own origin, "free" is left open by the property.
func corsOracle(c m05Case) string {
	if c.Origin == nil {
		return "same"
	}
	o := *c.Origin
	near := false
	switch originClass(o) {
	case "bad":
		return "refuse"
	case "free":
		return "free"
	case "near":
		near = true
	}
	if own := c.own(); own != "" && sameOrigin(own, o) == "same" {
		if near {
			return "free"
		}
		return "same"
	}
	originOK := c.C.Any
	for _, a := range c.C.Origins {
		originOK = originOK || a == o
	}
	if !originOK {
		return "refuse"
	}
	if near {
		return "free"
	}
	allowed := func(m string) bool {
		for _, a := range c.C.Methods {
			if strings.EqualFold(a, m) {
				return true
			}
		}
		return false
	}
	if c.Method == "OPTIONS" && c.ACRM != nil {
		m := strings.TrimSpace(*c.ACRM)
		if m == "" || !allowed(m) {
			return "refuse"
		}
		if c.ACRH != nil {
			for _, h := range strings.Split(*c.ACRH, ",") {
				h = strings.TrimSpace(h)
				if h == "" {
					continue
				}
				ok := false
				for _, a := range c.C.Headers {
					ok = ok || strings.EqualFold(a, h)
				}
				if !ok {
					return "refuse"
				}
			}
		}
		return "preflight"
	}
	if !allowed(c.Method) {
		return "refuse"
	}
	if c.Method == "POST" && strings.TrimSpace(strings.Split(c.CT, ";")[0]) == "" {
		return "free" // a POST without a content type: browsers always send one
	}
	return "simple"
}

func originClass(o string) string {
	switch o {
	case "", "not a url", "example.com", "https://a.example/%20", "%", "://x", "a b://x", "/path", "ht tp://x", "https://a.example:port", "/", "//a.example", "https":
		return "bad"
	case "null", "file:///x", "https://a.example", "https://b.example:8443", "http://a.example", "https://srv.example", "http://srv.example", "http://srv.example:80", "https://srv.example:443", "https://srv.example:8443", "https://A.example":
		return "good"
	}
	for _, n := range originVocab {
		if o == n {
			return "near"
		}
	}
	for _, n := range nearOrigins {
		if o == n {
			return "near"
		}
	}
	return "free"
}

// nearOrigins resemble allowed ones; with a list of allowed origins each has to be refused, what becomes of
// those that are no serialised origins when any origin is allowed is left open.
var nearOrigins = []string{"https://a.example.evil.com", "https://evil.com/https://a.example", "https://a.exampl", "https://xa.example", "https://x.a.example", "https://a.example:8443", "https://a.example:44",
	"https://b.example", "https://b.example:84430", "https://b.example:844", "https://a.example@evil.com", "https://a.example/", "https://a.example?x", "https://a.example,https://b.example:8443", "https://a.example https://b.example:8443",
	"ttps://a.example", "httpss://a.example", "https://", "https:", "nul", "nullx", "file:///", "file:///xy", "*", "https://*", "https://srv.example.evil.com", "https://srv.exampl", "https://xsrv.example", "http://srv.example:8"}

// sameOrigin compares serialised origins with default ports.
func sameOrigin(a, b string) string {
	norm := func(s string) string {
		sch, host, ok := strings.Cut(s, "://")
		if !ok {
			return s
		}
		if !strings.Contains(host, ":") {
			switch sch {
			case "http", "ws":
				host += ":80"
			case "https", "wss":
				host += ":443"
			}
		}
		return sch + "://" + host
	}
	if norm(a) == norm(b) {
		return "same"
	}
	return "cross"
}

func sp(s string) *string { return &s }

// originNamers are headers in which proxies and browsers tell where a request was sent to or comes from.
func originNamers(origin string) map[string]string {
	sch, host, _ := strings.Cut(origin, "://")
	name, port, _ := strings.Cut(host, ":")
	return map[string]string{"X-Forwarded-Host": host, "X-Forwarded-Server": name, "X-Original-Host": host, "X-Host": host, "X-Forwarded-Proto": sch, "X-Forwarded-Port": or(port, "443"), "X-Forwarded-Scheme": sch,
		"Forwarded": "for=127.0.0.1;host=" + host + ";proto=" + sch, "X-Original-Url": origin + "/p", "X-Rewrite-Url": origin + "/p", "Referer": origin + "/p", "Sec-Fetch-Site": "same-origin", "X-Requested-With": "XMLHttpRequest",
		"Cookie": "origin=" + origin, "Authorization": "Bearer x", "Host": host, "X-Origin": origin, "Content-Location": origin}
}

func checkM05(r *kit.Run) {
	r.Rule = "distinct = (verdict, headers delivered)"
	r.Assume = []string{"the request headers have canonical names, as net/http delivers them", "what non cross-origin requests are answered with beyond not being refused and being otherwise unchanged is left open, as are POST requests without a content type"}
	methods := [][]string{nil, {"GET"}, {"GET", "POST", "OPTIONS"}, {"put", "Delete", "OPTIONS"}}
	headers := [][]string{nil, {"X-One"}, {"x-one", "X-Two", "Content-Type"}}
	origins := [][]string{nil, {"https://a.example"}, {"https://b.example:8443", "https://a.example", "null", "file:///x"}}
	reqOrigins := []*string{nil, sp(""), sp("https://a.example"), sp("https://b.example:8443"), sp("http://a.example"), sp("null"), sp("file:///x"), sp("not a url"), sp("example.com"), sp("https://a.example/%20"), sp("%"), sp("://x"), sp("https://srv.example"), sp("http://srv.example"), sp("https://srv.example:443"), sp("http://srv.example:80"), sp("https://srv.example:8443"), sp("https://A.example"), sp("/path"), sp("https://a.example:port"), sp("/"), sp("//a.example"), sp("a.example:443"), sp("https")}
	firstNear := len(reqOrigins)
	for i := range nearOrigins {
		reqOrigins = append(reqOrigins, &nearOrigins[i])
	}
	acrm := []*string{nil, sp(""), sp("GET"), sp("get"), sp(" PUT "), sp("PATCH"), sp("GE"), sp("GETX"), sp("POST,GET")}
	acrh := []*string{nil, sp(""), sp("X-One"), sp("x-one, X-TWO"), sp("X-Three"), sp("X-One,,X-Two,"), sp("X-One, X-Evil"), sp("X-On"), sp("X-OneX"), sp("One"), sp("X-One X-Two")}
	abs := []string{"", "https://srv.example", "http://srv.example", "https://srv.example:8443", "http://srv.example:80"}
	cts := []string{"", "text/plain", "application/json", "Text/Plain; charset=utf-8", "multipart/form-data; boundary=x", "application/x-www-form-urlencoded"}
	r.Bound("%d configurations x 9 methods x %d origins x %d requested methods x %d requested header lists x %d content types x %d absolute request URLs and 6 Host headers with and without TLS x 11 Vary values x response kinds (each dimension fully crossed with the configuration; request dimensions crossed as far as they interact)", 2*2*2*2*len(methods)*len(headers)*len(origins), len(reqOrigins), len(acrm), len(acrh), len(cts), len(abs))
	run := m05Run(r.Seen)
	cfgs := func(yield func(m05Cfg) bool) {
		for i := 0; i < 4; i++ {
			for _, age := range []int{0, 600} {
				for _, ex := range [][]string{nil, {"X-E", "X-F"}} {
					for _, m := range methods {
						for _, h := range headers {
							for _, o := range origins {
								if !yield(m05Cfg{Any: i&1 > 0, Cred: i&2 > 0, MaxAge: age, Expose: ex, Methods: m, Headers: h, Origins: o}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
	all := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "TRACE", "OPTIONS"}
	kit.Explore(r, "product", seqOf(func(yield func(m05Case) bool) {
		cfgs(func(c m05Cfg) bool {
			for i, o := range reqOrigins {
				if i >= firstNear && (c.MaxAge > 0 || len(c.Expose) > 0) && !r.Thorough() {
					break
				}
				for _, m := range all {
					switch m {
					case "OPTIONS":
						for _, rm := range acrm {
							for _, rh := range acrh {
								if !yield(m05Case{C: c, Method: m, Origin: o, ACRM: rm, ACRH: rh, Kind: "text"}) {
									return false
								}
							}
						}
					case "POST":
						for _, ct := range cts {
							if !yield(m05Case{C: c, Method: m, Origin: o, CT: ct, Kind: "text"}) {
								return false
							}
						}
					default:
						for _, rm := range []*string{nil, sp("PATCH")} {
							if !yield(m05Case{C: c, Method: m, Origin: o, ACRM: rm, Kind: "text"}) {
								return false
							}
						}
					}
				}
			}
			return true
		})
	}), run)
	r.Bound("up to 300 allowed origins, methods and headers and as many requested headers, with the deciding one at every position")
	kit.Explore(r, "volume", seqOf(func(yield func(m05Case) bool) {
		for _, n := range sizesTo(40, 300) {
			for at := 0; at <= n; at++ {
				if n > 70 && at > 3 && at < n-3 && at != n/2 {
					continue
				}
				var os, ms, hs []string
				for i := 0; i < n; i++ {
					os, ms, hs = append(os, fmt.Sprintf("https://o%d.example", i)), append(ms, fmt.Sprint("VERB", i)), append(hs, fmt.Sprint("X-N", i))
				}
				with := func(l []string, x string) []string {
					l = append([]string(nil), l...)
					if at < n {
						l[at] = x
					}
					return l
				}
				for _, any := range []bool{false, true} {
					cfg := m05Cfg{Any: any, Methods: []string{"GET", "PUT", "OPTIONS"}, Headers: []string{"X-One"}, Origins: []string{"https://a.example"}, MaxAge: 5, Cred: true}
					a, b, d, e := cfg, cfg, cfg, cfg
					a.Origins, b.Methods, d.Headers, e.Expose = with(os, "https://a.example"), with(ms, "PUT"), with(hs, "X-One"), hs
					reqH := strings.Join(with(hs, "x-one"), ", ")
					reqBad := strings.Join(with(hs, "X-Evil"), ",")
					full := cfg
					full.Headers = append(append([]string(nil), hs...), "X-One")
					for _, c := range []m05Case{
						{C: a, Method: "GET"}, {C: a, Method: "OPTIONS", ACRM: sp("PUT")}, {C: b, Method: "PUT"}, {C: b, Method: "OPTIONS", ACRM: sp("PUT")},
						{C: d, Method: "OPTIONS", ACRM: sp("PUT"), ACRH: sp("X-One")}, {C: d, Method: "OPTIONS", ACRM: sp("PUT"), ACRH: &reqH},
						{C: full, Method: "OPTIONS", ACRM: sp("PUT"), ACRH: &reqH}, {C: full, Method: "OPTIONS", ACRM: sp("PUT"), ACRH: &reqBad}, {C: e, Method: "GET"},
					} {
						c.Origin, c.Kind = sp("https://a.example"), "text"
						if !yield(c) {
							return
						}
					}
				}
			}
		}
	}), run)
	r.Bound("%d shapes of the request x origins x methods; %d headers in which proxies and browsers name the host or the origin, each alone and all together, x origins x methods x own origin", len(shapes), len(originNamers("")))
	kit.Explore(r, "shapes", seqOf(func(yield func(m05Case) bool) {
		for _, any := range []bool{false, true} {
			for _, o := range origins {
				c := m05Cfg{Any: any, Cred: !any, MaxAge: 5, Methods: []string{"GET", "PUT", "POST", "OPTIONS"}, Headers: []string{"X-One", "x-a"}, Origins: o}
				for _, ro := range []*string{nil, sp(""), sp("https://a.example"), sp("https://evil.example"), sp("http://srv.example"), sp("https://srv.example"), sp("null"), sp("https://evil.example:8443")} {
					for _, m := range []string{"GET", "POST", "PUT", "DELETE", "OPTIONS"} {
						base := m05Case{C: c, Method: m, Origin: ro, CT: "text/plain", Kind: "text"}
						if m == "OPTIONS" {
							base.ACRM = sp("PUT")
						}
						for sh := range shapes {
							switch shapes[sh].name {
							case "own origin", "other origin", "TLS", "localhost", "HTTP/1.0", "JSON body", "preflight":
								continue // they change what the answer depends on
							}
							k := base
							k.Shape = sh
							if !yield(k) {
								return
							}
						}
						if ro == nil {
							continue
						}
						for _, tls := range []bool{false, true} {
							all := map[string]string{}
							for h, v := range originNamers(*ro) {
								k := base
								k.TLS, k.More = tls, map[string]string{h: v}
								all[h] = v
								if !yield(k) {
									return
								}
							}
							k := base
							k.TLS, k.More = tls, all
							if !yield(k) {
								return
							}
						}
					}
				}
			}
		}
	}), run)
	r.Bound("%d well-known origins, %d requested methods, %d requested headers, %d further request headers, %d content types", len(originVocab), len(methodVocab), len(headerVocab)+len(requestVocab), len(requestVocab), len(headerVocab))
	kit.Explore(r, "vocabulary", seqOf(func(yield func(m05Case) bool) {
		for _, any := range []bool{false, true} {
			for _, ms := range [][]string{nil, {"GET"}, {"GET", "POST"}, {"HEAD", "PUT"}} {
				for _, hs := range headers {
					c := m05Cfg{Any: any, Cred: true, MaxAge: 5, Methods: ms, Headers: hs, Origins: []string{"https://a.example", "https://b.example:8443"}}
					evil, good := sp("https://evil.example"), sp("https://a.example")
					for i := range originVocab {
						for _, m := range []string{"GET", "POST", "OPTIONS"} {
							k := m05Case{C: c, Method: m, Origin: &originVocab[i], CT: "text/plain", Kind: "text"}
							if m == "OPTIONS" {
								k.ACRM = sp("GET")
							}
							if !yield(k) {
								return
							}
						}
					}
					for _, o := range []*string{good, evil} {
						for i := range methodVocab {
							if !yield(m05Case{C: c, Method: "OPTIONS", Origin: o, ACRM: &methodVocab[i], Kind: "text"}) || !yield(m05Case{C: c, Method: methodVocab[i], Origin: o, Kind: "text"}) {
								return
							}
						}
						for _, m := range all {
							if !yield(m05Case{C: c, Method: "OPTIONS", Origin: o, ACRM: sp(m), Kind: "text"}) {
								return
							}
						}
						for _, l := range [][][2]string{headerVocab, requestVocab} {
							for _, h := range l {
								if !yield(m05Case{C: c, Method: "OPTIONS", Origin: o, ACRM: sp("GET"), ACRH: sp(h[0]), Kind: "text"}) || !yield(m05Case{C: c, Method: "OPTIONS", Origin: o, ACRM: sp("GET"), ACRH: sp(strings.ToLower(h[0]) + ", x-one"), Kind: "text"}) {
									return
								}
							}
						}
						for _, h := range requestVocab {
							switch h[0] {
							case "Origin", "Host", "Content-Type":
								continue
							}
							if strings.HasPrefix(h[0], "Access-Control-") {
								continue
							}
							for _, m := range []string{"GET", "PUT"} {
								if !yield(m05Case{C: c, Method: m, Origin: o, More: map[string]string{h[0]: h[1]}, Kind: "text"}) {
									return
								}
							}
						}
						for _, h := range headerVocab {
							if h[0] == "Content-Type" && !yield(m05Case{C: c, Method: "POST", Origin: o, CT: h[1], Kind: "text"}) {
								return
							}
						}
					}
				}
			}
		}
	}), run)
	kit.Explore(r, "same-origin", seqOf(func(yield func(m05Case) bool) {
		for _, any := range []bool{false, true} {
			for _, o := range origins {
				for _, ms := range methods {
					for _, ro := range reqOrigins {
						for _, a := range abs {
							for _, m := range all {
								if !yield(m05Case{C: m05Cfg{Any: any, Methods: ms, Origins: o}, Method: m, Origin: ro, Abs: a, ACRM: sp("GET"), CT: "text/plain", Kind: "text"}) {
									return
								}
							}
						}
						for _, h := range []string{"-", "srv.example", "srv.example:80", "srv.example:443", "srv.example:8443", "a.example"} {
							for _, tls := range []bool{false, true} {
								for _, m := range all {
									if !yield(m05Case{C: m05Cfg{Any: any, Methods: ms, Origins: o}, Method: m, Origin: ro, Host: h, TLS: tls, ACRM: sp("GET"), CT: "text/plain", Kind: "text"}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}), run)
	kit.Explore(r, "vary-and-kinds", seqOf(func(yield func(m05Case) bool) {
		for i := 0; i < 4; i++ {
			c := m05Cfg{Any: i&1 > 0, Cred: i&2 > 0, MaxAge: 5, Methods: []string{"GET", "OPTIONS"}, Headers: []string{"X-One"}, Origins: []string{"https://a.example"}}
			for _, k := range allKinds {
				if k == "hijack" {
					continue
				}
				for _, v := range []string{"", "Accept", "Accept-Language, Cookie", "*", "origin", "Accept,*", "X-Origin-Zone", "Original, Accept", "Access-Control-Request-Headers-Digest,X-Access-Control-Request-Method", "Accept, ORIGIN", "Access-Control-Request-Method"} {
					for _, m := range []string{"GET", "OPTIONS"} {
						for _, rm := range []*string{nil, sp("GET")} {
							for _, o := range []*string{nil, sp("https://a.example"), sp("https://srv.example")} {
								if !yield(m05Case{C: c, Method: m, Origin: o, ACRM: rm, Vary: v, Kind: k}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}), run)
}

var _ = http.MethodGet
