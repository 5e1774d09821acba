package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"iter"
	"net/http"
	"net/url"
	"slices"
	"strconv"
	"strings"
	"testing/iotest"
	"time"

	"gofremc/kit"
	"gofremc/wire"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() {
	All["O01"] = checkO01
	All["O02"] = checkO02
	All["O03"] = checkO03
	All["O04"] = checkO04
}

// ---------------------------------------------------------------- O01

type o01Op struct {
	K     string `json:"k"`           // init, cb, tick
	Site  int    `json:"s,omitempty"` // which of two applications
	Prov  string `json:"p,omitempty"`
	State int    `json:"n,omitempty"` // >0 n-th state issued by any site; 0 none; -1 unknown; -2 first state with a changed letter; -3 cut
	Err   string `json:"e,omitempty"`
	Code  string `json:"c,omitempty"`
	Fail  string `json:"f,omitempty"`    // cache, token, user, handler
	Tick  int    `json:"t,omitempty"`    // minutes
	Shape int    `json:"sh,omitempty"`   // index into shapes
	Near  int    `json:"near,omitempty"` // the n-th text close to the state is presented instead
}

type o01Case struct {
	Ops    []o01Op `json:"ops"`
	User   bool    `json:"user,omitempty"`
	One    bool    `json:"one,omitempty"` // a single provider configured
	Prefix string  `json:"prefix,omitempty"`
	Custom bool    `json:"custom,omitempty"`
}

type faultCache struct {
	cache.Cache
	fail bool
}

var errCache = errors.New("cache down")
var errToken = errors.New("token refused")
var errUser = errors.New("user refused")

func (f *faultCache) Add(k string, d time.Duration) error {
	if f.fail {
		return errCache
	}
	return f.Cache.Add(k, d)
}

type o01State struct {
	val     string
	site    int
	expires time.Time
	used    bool
}

func o01Run(r *kit.Run) func(c o01Case) *kit.Failure {
	return func(c o01Case) *kit.Failure {
		return bubble(r.T, func() *kit.Failure {
			var logs []error
			m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) { logs = append(logs, err) }})
			if err != nil {
				return kit.Failf("new", "%v", err)
			}
			const life = 10 * time.Minute
			var fcs []*faultCache
			var provs [][]*stubProvider
			var ran []string
			hfail := false
			ip, ap := "/oauth/initiate", "/oauth/authorize"
			for site := 0; site < 2; site++ {
				fc := &faultCache{Cache: cache.NewInMemory()}
				fcs = append(fcs, fc)
				ps := []*stubProvider{{name: "p1"}}
				if !c.One {
					ps = append(ps, &stubProvider{name: "p2"})
				}
				provs = append(provs, ps)
				cfg := oauth.Config{WebsiteUrl: "https://site.example", FetchUserDetails: c.User, CacheConfig: oauth.CacheConfig{Cache: fc, KeyExpirationTime: life}}
				for _, p := range ps {
					p.token = oauth.AccessToken{AccessToken: fmt.Sprint("tok-", p.name, site), TokenType: "Bearer"}
					p.user = auth.User{Id: fmt.Sprint("user-", p.name, site), IdentityPlatform: p.name}
					cfg.Providers = append(cfg.Providers, p)
				}
				h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
					u := "none"
					if sp := auth.GetSecurityPrincipalFromContext(ctx); sp != nil {
						u = sp.Identity()
					}
					ran = append(ran, fmt.Sprintf("%d %s %s", site, oauth.GetAccessTokenFromContext(ctx).AccessToken, u))
					if hfail {
						return nil, errH
					}
					return response.PlainTextHttpResponse(200, "in"), nil
				}
				d := m.RouteUsingPathPrefix(c.Prefix + fmt.Sprintf("/s%d", site))
				if c.Custom {
					ip, ap = "/go", "/back/to"
					d.HandleOAUTH2WithCustomPaths(ip, ap, cfg, h, nil, nil)
				} else {
					d.HandleOAUTH2(cfg, h, nil, nil)
				}
			}
			var states []o01State
			var sig []any
			for i, op := range c.Ops {
				if op.K == "tick" {
					time.Sleep(time.Duration(op.Tick) * time.Minute)
					continue
				}
				base := c.Prefix + fmt.Sprintf("/s%d", op.Site)
				ps := provs[op.Site]
				known := op.Prov == "p1" || op.Prov == "p2" && !c.One
				for _, l := range provs {
					for _, p := range l {
						p.calls, p.tokenErr, p.userErr = nil, nil, nil
						if op.Fail == "token" {
							p.tokenErr = errToken
						}
						if op.Fail == "user" {
							p.userErr = errUser
						}
					}
				}
				fcs[op.Site].fail = op.Fail == "cache" && op.K == "init"
				hfail = op.Fail == "handler"
				ran, logs = nil, nil
				rec := wire.New()
				if op.K == "init" {
					u := base + ip
					if op.Prov != "" {
						u += "?provider=" + url.QueryEscape(op.Prov)
					}
					rq := mkReq("GET", u)
					shapes[op.Shape].f(rq)
					m.ServeHTTP(rec.Writer("full"), rq)
					rec.End()
					want := (known || c.One) && op.Fail != "cache"
					if !want {
						if rec.Status != 500 || len(logs) != 1 {
							return kit.Failf("init", "step %d %+v: answered %v, logged %v, want an error", i, op, rec.View(), logs)
						}
						continue
					}
					loc, err := url.Parse(rec.Sent.Get("Location"))
					name := op.Prov
					if c.One {
						name = "p1"
					}
					if err != nil || rec.Status/100 != 3 || len(logs) > 0 || loc.Host != name+".example" {
						return kit.Failf("init", "step %d %+v: answered %v, logged %v", i, op, rec.View(), logs)
					}
					s := loc.Query().Get("state")
					if s == "" {
						return kit.Failf("init", "step %d: no state in %v", i, loc)
					}
					for _, o := range states {
						if o.val == s {
							return kit.Failf("state", "step %d: state %s issued twice", i, s)
						}
					}
					states = append(states, o01State{val: s, site: op.Site, expires: time.Now().Add(life)})
					continue
				}
				sv := ""
				valid, used := false, false
				if op.State > 0 && op.State <= len(states) {
					st := &states[op.State-1]
					sv = st.val
					valid = st.site == op.Site && time.Now().Before(st.expires)
					used = st.used
				} else if op.State == -1 || op.State > 0 {
					sv = "unknownstate"
				} else if len(states) > 0 && op.State == -2 {
					sv = strings.ToUpper(states[0].val)
					if sv == states[0].val {
						sv += "A"
					}
				} else if len(states) > 0 && op.State == -3 {
					sv = states[0].val[:len(states[0].val)-1]
				}
				if op.Near > 0 {
					l := nearTexts(sv)
					sv, valid = l[(op.Near-1)%len(l)], false
				}
				q := url.Values{}
				if op.State != 0 {
					q.Set("state", sv)
				}
				if op.Code != "" {
					q.Set("code", op.Code)
				}
				if op.Err != "" {
					q.Set("error", strings.TrimSuffix(op.Err, "-"))
				}
				rq := mkReq("GET", base+ap+"/"+url.PathEscape(op.Prov)+"?"+q.Encode())
				shapes[op.Shape].f(rq)
				m.ServeHTTP(rec.Writer("full"), rq)
				rec.End()
				isErr := op.Err != "" && op.Err != "-"
				want := known && valid && !isErr && op.Fail != "token" && !(op.Fail == "user" && c.User)
				if want && used && len(ran) == 0 {
					want = false // whether a state may be used again is left open
				}
				if (len(ran) == 1) != want || len(ran) > 1 {
					return kit.Failf("callback", "step %d %+v (%d states issued): the handler ran %d times, want %v", i, op, len(states), len(ran), want)
				}
				if !want {
					if rec.Status != 500 || rec.Body.Len() > 0 || len(logs) != 1 {
						return kit.Failf("refuse", "step %d %+v: answered %v, logged %v, want an error", i, op, rec.View(), logs)
					}
					continue
				}
				states[op.State-1].used = true
				user := "none"
				if c.User {
					user = fmt.Sprint("user-", op.Prov, op.Site)
				}
				if w := fmt.Sprintf("%d tok-%s%d %s", op.Site, op.Prov, op.Site, user); ran[0] != w {
					return kit.Failf("context", "step %d %+v: the handler sees %q, want %q", i, op, ran[0], w)
				}
				for _, p := range ps {
					if p.name == op.Prov {
						w := "token https://site.example" + base + ap + "/" + p.name + " " + op.Code
						if c.User {
							w += "|user " + p.token.AccessToken
						}
						if g := strings.Join(p.calls, "|"); g != w {
							return kit.Failf("calls", "step %d: the provider was asked %q, want %q", i, g, w)
						}
					} else if len(p.calls) > 0 {
						return kit.Failf("calls", "step %d: the other provider was asked %q", i, p.calls)
					}
				}
				if hfail {
					if len(logs) != 1 || !errors.Is(logs[0], errH) {
						return kit.Failf("herr", "step %d: the handler's error became %v", i, logs)
					}
				} else if rec.Status != 200 || rec.Body.String() != "in" || len(logs) > 0 {
					return kit.Failf("answer", "step %d: %v %v", i, rec.View(), logs)
				}
				sig = append(sig, op.Site, op.Prov, op.State, i)
			}
			r.Seen(kit.Hash(sig...))
			return nil
		})
	}
}

func o01Histories(depth int) iter.Seq[o01Case] {
	return func(yield func(o01Case) bool) {
		var rec func(ops []o01Op, issued int) bool
		rec = func(ops []o01Op, issued int) bool {
			if len(ops) > 0 && ops[len(ops)-1].K == "cb" {
				for k := 0; k < 2; k++ {
					if !yield(o01Case{Ops: append([]o01Op{}, ops...), User: k == 1}) {
						return false
					}
				}
			}
			if len(ops) == depth {
				return true
			}
			next := func(o o01Op, n int) bool { return rec(append(ops[:len(ops):len(ops)], o), n) }
			ok := next(o01Op{K: "init", Prov: "p1"}, issued+1) &&
				next(o01Op{K: "init", Prov: "p2", Site: 1}, issued+1) &&
				next(o01Op{K: "init", Prov: "p2", Fail: "cache"}, issued) &&
				next(o01Op{K: "tick", Tick: 9}, issued) &&
				next(o01Op{K: "tick", Tick: 10}, issued) &&
				next(o01Op{K: "cb", Prov: "p1", State: -1, Code: "c"}, issued)
			for n := 1; ok && n <= issued; n++ {
				ok = next(o01Op{K: "cb", Prov: "p1", State: n, Code: "c1"}, issued) &&
					next(o01Op{K: "cb", Prov: "p2", State: n, Code: "c2", Site: 1}, issued) &&
					next(o01Op{K: "cb", Prov: "p1", State: n, Fail: "token"}, issued) &&
					next(o01Op{K: "cb", Prov: "p2", State: n, Fail: "user", Code: "c3"}, issued)
			}
			return ok
		}
		rec(nil, 0)
	}
}

func checkO01(r *kit.Run) {
	depth := kit.Pick(r, 6, 7)
	r.Rule = "one evaluation = one history of initiations, callbacks and passing time on two applications under a virtual clock; distinct by the sequence of admitted callbacks"
	r.Bound("all single callbacks after two initiations: provider {p1,p2,unknown} x state {issued, of the other application, expired, unknown, changed, cut, none} x error {absent, empty, set} x code x {all succeed, token fails, user fails, handler fails} x user details x one/two providers x prefixes x custom paths; all histories of up to %d steps", depth)
	r.Assume = []string{"whether a state may be used twice is left open", "a state issued for one provider is accepted at another provider of the same configuration"}
	run := o01Run(r)
	kit.Explore(r, "callbacks", seqOf(func(yield func(o01Case) bool) {
		for _, one := range []bool{false, true} {
			for _, p := range []string{"p1", "p2", "px", "P1"} {
				for _, st := range []int{1, 2, 3, -1, -2, -3, 0} {
					for _, e := range []string{"", "-", "access_denied"} {
						for _, code := range []string{"", "c o&d=e"} {
							for _, f := range []string{"", "token", "user", "handler"} {
								for k := 0; k < 8; k++ {
									pre := []string{"", "/pre"}[k>>1&1]
									ops := []o01Op{{K: "init", Prov: "p1"}, {K: "init", Prov: "p1", Site: 1}, {K: "tick", Tick: 9}, {K: "init", Prov: "p2"}, {K: "cb", Prov: p, State: st, Err: e, Code: code, Fail: f}, {K: "tick", Tick: 1}, {K: "cb", Prov: p, State: st, Err: e, Code: code, Fail: f}}
									if !yield(o01Case{Ops: ops, User: k&1 > 0, One: one, Prefix: pre, Custom: k&4 > 0}) {
										return
									}
								}
							}
						}
					}
				}
			}
			for _, p := range []string{"", "p1", "p2", "px", "P1"} {
				for _, f := range []string{"", "cache"} {
					if !yield(o01Case{Ops: []o01Op{{K: "init", Prov: p, Fail: f}, {K: "init", Prov: p, Site: 1}, {K: "cb", Prov: "p1", State: 1}}, One: one}) {
						return
					}
				}
			}
		}
	}), run)
	r.Bound("%d shapes of the request (body, protocol, headers, peer, query) x initiation and callback with every state and error", len(shapes))
	kit.Explore(r, "shapes", seqOf(func(yield func(o01Case) bool) {
		for sh := range shapes {
			for _, st := range []int{1, 2, 3, -1, -2, -3, 0} {
				for _, e := range []string{"", "access_denied"} {
					for _, f := range []string{"", "token", "user", "handler"} {
						for k := 0; k < 4; k++ {
							ops := []o01Op{{K: "init", Prov: "p1"}, {K: "init", Prov: "p1", Site: 1}, {K: "init", Prov: "p2", Shape: sh}, {K: "cb", Prov: "p1", State: st, Err: e, Code: "c", Fail: f, Shape: sh}}
							if !yield(o01Case{Ops: ops, User: k&1 > 0, Prefix: []string{"", "/pre"}[k>>1]}) {
								return
							}
						}
					}
				}
			}
		}
	}), run)
	r.Bound("texts close to an issued state, texts close to a provider's name, %d texts as error, state and provider", len(oddWords))
	kit.Explore(r, "vocabulary", seqOf(func(yield func(o01Case) bool) {
		put := func(cb o01Op) bool {
			for k := 0; k < 2; k++ {
				if !yield(o01Case{Ops: []o01Op{{K: "init", Prov: "p1"}, {K: "init", Prov: "p1", Site: 1}, cb, {K: "cb", Prov: "p1", State: 1, Code: "c"}}, User: k == 1}) {
					return false
				}
			}
			return true
		}
		for i := 1; i <= 230; i++ {
			if !put(o01Op{K: "cb", Prov: "p1", State: 1, Near: i, Code: "c"}) {
				return
			}
		}
		for _, w := range append(oddWords[:len(oddWords):len(oddWords)], "access_denied", "invalid_request", "unauthorized_client", "unsupported_response_type", "invalid_scope", "server_error", "temporarily_unavailable", "interaction_required", "login_required", "account_selection_required", "consent_required", "invalid_request_uri", "registration_not_supported", "redirect_uri_mismatch", "application_suspended", "admin_policy_enforced", "org_internal", "immediate_failed", "ok", "OK", "success", "warning") {
			if w != "" && w != "-" && !strings.HasSuffix(w, "-") && !put(o01Op{K: "cb", Prov: "p1", State: 1, Err: w, Code: "c"}) {
				return
			}
			if !put(o01Op{K: "cb", Prov: "p1", State: 1, Code: w}) {
				return
			}
		}
		for _, w := range append(nearTexts("p1"), oddWords...) {
			if w == "." || w == ".." || strings.Contains(w, "/") || w == "" || w == "p2" {
				continue
			}
			if !put(o01Op{K: "cb", Prov: w, State: 1, Code: "c"}) || !put(o01Op{K: "init", Prov: w}) {
				return
			}
		}
	}), run)
	most := kit.Pick(r, 1100, 4200)
	r.Bound("up to %d flows begun at once, each of which is then completed, in the order of their beginning and in reverse", most)
	kit.Explore(r, "volume", seqOf(func(yield func(o01Case) bool) {
		for _, n := range sizesTo(20, most) {
			for k := 0; k < 2; k++ {
				c := o01Case{User: true}
				for i := 0; i < n; i++ {
					c.Ops = append(c.Ops, o01Op{K: "init", Prov: "p1"})
				}
				for i := 1; i <= n; i++ {
					st := i
					if k == 1 {
						st = n + 1 - i
					}
					c.Ops = append(c.Ops, o01Op{K: "cb", Prov: "p1", State: st, Code: fmt.Sprint("c", i)})
				}
				c.Ops = append(c.Ops, o01Op{K: "cb", Prov: "p1", State: -1, Code: "c"})
				if !yield(c) {
					return
				}
			}
		}
	}), run)
	kit.Explore(r, "histories", o01Histories(depth), run)
}

// ---------------------------------------------------------------- O02

// scenario is what the provider's endpoint answers.
type scenario struct {
	Status   int
	Body     string
	Cut      bool // the connection breaks after the body
	Down     bool
	Location string
	Cookie   bool
	Drip     bool   `json:",omitempty"` // the body arrives byte by byte
	Length   bool   `json:",omitempty"` // the length of the body is announced
	CType    string `json:",omitempty"` // Content-Type of the answer

	reqs []string
	open int // bodies not closed yet
}

type scenarioKey struct{}

// roundTripper answers from the scenario in the request's context.
type roundTripper struct{}

type cutBody struct {
	io.Reader
	err    error
	sc     *scenario
	closed bool
}

func (c *cutBody) Read(p []byte) (int, error) {
	if c.closed {
		return 0, http.ErrBodyReadAfterClose
	}
	n, err := c.Reader.Read(p)
	if err == io.EOF && c.err != nil {
		return n, c.err
	}
	return n, err
}
func (c *cutBody) Close() error {
	c.closed = true
	if c.sc != nil {
		c.sc.open--
		c.sc = nil
	}
	return nil
}

var errConn = errors.New("connection refused")

func (roundTripper) RoundTrip(rq *http.Request) (*http.Response, error) {
	sc := rq.Context().Value(scenarioKey{}).(*scenario)
	body := ""
	if rq.Body != nil {
		b, _ := io.ReadAll(rq.Body)
		rq.Body.Close()
		body = string(b)
	}
	var hs []string
	for _, h := range []string{"Authorization", "Accept", "Content-Type"} {
		hs = append(hs, h+"="+rq.Header.Get(h))
	}
	sc.reqs = append(sc.reqs, rq.Method+" "+rq.URL.String()+"\n"+strings.Join(hs, ";")+"\n"+body)
	if sc.Down {
		return nil, errConn
	}
	resp := &http.Response{StatusCode: sc.Status, Status: strconv.Itoa(sc.Status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: rq, ContentLength: -1}
	if sc.Location != "" && len(sc.reqs) == 1 {
		resp.Header.Set("Location", sc.Location)
	}
	cb := &cutBody{Reader: strings.NewReader(sc.Body), sc: sc}
	if sc.Drip {
		cb.Reader = iotest.OneByteReader(cb.Reader)
	}
	if sc.Length {
		resp.ContentLength = int64(len(sc.Body))
		resp.Header.Set("Content-Length", fmt.Sprint(len(sc.Body)))
	}
	if sc.CType != "" {
		resp.Header.Set("Content-Type", sc.CType)
	}
	sc.open++
	if sc.Cut {
		cb.err = io.ErrUnexpectedEOF
	}
	resp.Body = cb
	return resp, nil
}

func stubHttp() func() {
	old := oauth.HttpClient
	oauth.HttpClient = &http.Client{Transport: roundTripper{}}
	return func() { oauth.HttpClient = old }
}

type o02Case struct {
	Provider string
	User     bool
	S        scenario
	// what the answer says; "" for absent or mistyped
	Token, Type, Id, Name string
	Scope, Refresh        *string
	Expires               int
	HasExpires            bool
	Open                  bool // the body is not plain JSON of that shape: any answer without panic, but no half token
}

func provider(name string) oauth.Provider {
	if name == "github" {
		return oauth.GitHubProvider{ClientId: "cid", ClientSecret: "sec"}
	}
	return oauth.GoogleProvider{ClientId: "cid", ClientSecret: "sec"}
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func o02Run(r *kit.Run) func(c o02Case) *kit.Failure {
	return func(c o02Case) (fail *kit.Failure) {
		defer func() {
			if p := recover(); p != nil {
				fail = kit.Failf("panic", "%s user=%v answer %d %q: panic %v", c.Provider, c.User, c.S.Status, c.S.Body, p)
			}
		}()
		p := provider(c.Provider)
		sc := c.S
		ctx := context.WithValue(context.Background(), scenarioKey{}, &sc)
		defer func() {
			if fail == nil && sc.open != 0 {
				fail = kit.Failf("leak", "%s user=%v answer %d %q: the body of the answer is never closed, its connection leaks", c.Provider, c.User, c.S.Status, c.S.Body)
			}
		}()
		good := c.S.Status/100 == 2 && !c.S.Down
		if c.User {
			u, err := p.FetchAuthenticatedUser(ctx, oauth.AccessToken{AccessToken: "tok"})
			if err != nil && !(u.Id == "" && u.Name == "" && u.IdentityPlatform == "" && u.Groups == nil && u.Attachment == nil) {
				return kit.Failf("half", "%d %q: an error and the user %+v", c.S.Status, c.S.Body, u)
			}
			if err == nil && u.Id == "" {
				return kit.Failf("anonymous", "%d %q: a user without identity", c.S.Status, c.S.Body)
			}
			if c.Open {
				return nil
			}
			good = good && c.Id != ""
			if good != (err == nil) {
				return kit.Failf("user", "%s %d %q: user %+v, err %v", c.Provider, c.S.Status, c.S.Body, u, err)
			}
			if good && (u.Id != c.Id || u.Name != c.Name || u.IdentityPlatform != p.Name() || u.Groups != nil || u.Attachment != nil) {
				return kit.Failf("user", "%s %d %q: user %+v", c.Provider, c.S.Status, c.S.Body, u)
			}
			if good && len(sc.reqs) == 1 {
				if q := sc.reqs[0]; !strings.Contains(q, "Authorization=Bearer tok;") || !strings.HasPrefix(q, "GET ") {
					return kit.Failf("request", "asked for the user with %q", q)
				}
			}
			if good {
				r.Seen(kit.Hash(c.Provider, c.S.Body))
			}
			return nil
		}
		t, err := p.FetchAccessToken(ctx, "https://site.example/cb", "code")
		if err != nil && !(t.AccessToken == "" && t.TokenType == "" && t.Scopes == nil && t.RefreshToken == "" && t.ExpiresInSeconds == 0) {
			return kit.Failf("half", "%d %q: an error and the token %+v", c.S.Status, c.S.Body, t)
		}
		if err == nil && (t.AccessToken == "" || t.TokenType == "") {
			return kit.Failf("incomplete", "%s %d %q: the incomplete token %+v", c.Provider, c.S.Status, c.S.Body, t)
		}
		if c.Open {
			return nil
		}
		good = good && c.Token != "" && c.Type != ""
		if good != (err == nil) {
			return kit.Failf("token", "%s %d %q: token %+v, err %v", c.Provider, c.S.Status, c.S.Body, t, err)
		}
		if !good {
			return nil
		}
		ok := t.AccessToken == c.Token && t.TokenType == c.Type
		if c.Scope != nil && *c.Scope != "" {
			sep := " "
			if c.Provider == "github" {
				sep = ","
			}
			ok = ok && sameStrings(t.Scopes, strings.Split(*c.Scope, sep))
		} else {
			ok = ok && strings.Join(t.Scopes, "") == ""
		}
		if c.Provider == "google" {
			if c.Refresh != nil {
				ok = ok && t.RefreshToken == *c.Refresh
			} else {
				ok = ok && t.RefreshToken == ""
			}
			ok = ok && t.ExpiresInSeconds == c.Expires
		} else {
			ok = ok && t.RefreshToken == "" && t.ExpiresInSeconds == 0
		}
		if !ok {
			return kit.Failf("token", "%s %q: token %+v", c.Provider, c.S.Body, t)
		}
		r.Seen(kit.Hash(c.Provider, c.S.Body))
		return nil
	}
}

// extraFields are fields of answers that none of the providers reads.
var extraFields = []string{`"id_token":"x"`, `"email_verified":false`, `"verified_email":false`, `"verified_email":true`, `"type":"Organization"`, `"type":"Bot"`, `"site_admin":true`, `"suspended_at":"2020-01-01"`, `"error_description":"d"`, `"error_uri":"u"`, `"message":"Bad credentials"`, `"documentation_url":"u"`, `"status":"401"`, `"status":401`, `"code":500`, `"token":"t"`, `"user":{"id":"x"}`, `"data":{"email":"x"}`, `"Email":"other@x.example"`, `"ACCESS_TOKEN":"other"`, `"accessToken":"other"`, `"tokenType":"other"`, `"sub":"s"`, `"hd":"x.example"`, `"node_id":"n"`, `"given_name":"g"`, `"display_name":"d"`, `"emails":["x"]`, `"scopes":["x"]`, `"refresh_token_expires_in":5`, `"created_at":0`, `"two_factor_authentication":false`, `"preferred_username":"u"`, `"picture":"p"`, `"locale":"de"`, `"active":false`, `"disabled":true`, `"revoked":true`, `"expired":true`}

// jval is a JSON value; str is its text if it is a string.
type jval struct {
	js  string
	str *string
}

func checkO02(r *kit.Run) {
	defer stubHttp()()
	r.Rule = "one evaluation = one answer of an endpoint; distinct by accepted bodies"
	statuses := []int{200, 201, 204, 299, 300, 302, 304, 400, 401, 404, 429, 500, 503, 599}
	vals := []jval{{}, {`"v"`, sp("v")}, {`""`, sp("")}, {`null`, nil}, {`7`, nil}, {`true`, nil}, {`["x"]`, nil}, {`{"a":1}`, nil}, {`"a b,c"`, sp("a b,c")}, {`"\u00e9\n\u0000"`, sp("\u00e9\n\x00")}}
	r.Bound("both providers x token and user endpoint x %d statuses x every field absent or one of %d JSON values (strings, null, number, boolean, array, object), pairwise complete per endpoint; every truncation of good bodies, broken connections at every byte, no connection, non-JSON bodies, redirects", len(statuses), len(vals)-1)
	r.Assume = []string{"an empty string is not a token, token type or identity", "what follows the first JSON value of a body, and duplicate keys, is left open"}
	run := o02Run(r)
	obj := func(kv ...any) string {
		var f []string
		for i := 0; i < len(kv); i += 2 {
			if v := kv[i+1].(jval); v.js != "" {
				f = append(f, strconv.Quote(kv[i].(string))+":"+v.js)
			}
		}
		return "{" + strings.Join(f, ",") + "}"
	}
	str := func(v jval) string {
		if v.str == nil {
			return ""
		}
		return *v.str
	}
	kit.Explore(r, "token-fields", seqOf(func(yield func(o02Case) bool) {
		for _, p := range []string{"github", "google"} {
			for si, st := range statuses {
				for _, at := range vals {
					for _, tt := range vals {
						for _, sc := range vals {
							for xi, x := range vals {
								if si > 0 && xi > 3 && !r.Thorough() {
									continue
								}
								c := o02Case{Provider: p, S: scenario{Status: st}, Token: str(at), Type: str(tt), Scope: sc.str}
								if p == "github" {
									c.S.Body = obj("access_token", at, "token_type", tt, "scope", sc, "error", x)
								} else {
									c.S.Body = obj("access_token", at, "token_type", tt, "scope", sc, "refresh_token", x)
									c.Refresh = x.str
								}
								if !yield(c) {
									return
								}
								if p == "google" && xi < 8 {
									ex := []jval{{js: "3599"}, {js: "0"}, {js: `"3599"`}, {js: "null"}, {js: "[]"}, {js: "1"}, {js: "2147483648"}, {js: "1e3"}}[xi]
									c.S.Body = obj("access_token", at, "expires_in", ex, "token_type", tt, "scope", sc, "error", vals[7])
									c.Refresh = nil
									c.Expires = []int{3599, 0, 0, 0, 0, 1, 2147483648, 1000}[xi]
									if !yield(c) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}), run)
	kit.Explore(r, "user-fields", seqOf(func(yield func(o02Case) bool) {
		for _, p := range []string{"github", "google"} {
			second := map[string]string{"github": "login", "google": "id"}[p]
			for _, st := range statuses {
				for _, em := range vals {
					for _, lo := range vals {
						for _, na := range vals {
							c := o02Case{Provider: p, User: true, S: scenario{Status: st, Body: obj("name", na, "email", em, second, lo, "other", vals[7])}, Id: str(em), Name: str(na)}
							if c.Id == "" {
								c.Id = str(lo)
							}
							if !yield(c) {
								return
							}
						}
					}
				}
			}
		}
	}), run)
	r.Bound("%d texts in every field that is used, beside %d fields that are not", len(oddWords), len(extraFields))
	kit.Explore(r, "vocabulary", seqOf(func(yield func(o02Case) bool) {
		js := func(s string) jval { return jval{mustJSON(s), &s} }
		v := js("v")
		for _, p := range []string{"github", "google"} {
			second := map[string]string{"github": "login", "google": "id"}[p]
			for _, w := range oddWords {
				x := js(w)
				for k := 0; k < 5; k++ {
					f := []jval{v, v, v, v}
					if k < 4 {
						f[k] = x
					} else {
						f = []jval{x, x, x, x}
					}
					c := o02Case{Provider: p, Token: str(f[0]), Type: str(f[1]), Scope: f[2].str, S: scenario{Status: 200, Body: obj("access_token", f[0], "token_type", f[1], "scope", f[2], "refresh_token", f[3])}}
					if p == "google" {
						c.Refresh = f[3].str
					}
					if !yield(c) {
						return
					}
				}
				for k := 0; k < 6; k++ {
					f := [][]jval{{x, v, v}, {{}, x, v}, {js(""), x, v}, {v, v, x}, {x, x, x}, {x, {}, {}}}[k]
					c := o02Case{Provider: p, User: true, Id: str(f[0]), Name: str(f[2]), S: scenario{Status: 200, Body: obj("email", f[0], second, f[1], "name", f[2])}}
					if c.Id == "" {
						c.Id = str(f[1])
					}
					if !yield(c) {
						return
					}
				}
			}
			for _, e := range extraFields {
				for _, st := range []int{200, 201, 400, 401, 403} {
					if !yield(o02Case{Provider: p, Token: "tok", Type: "Bearer", S: scenario{Status: st, Body: "{" + e + `,"access_token":"tok","token_type":"Bearer"}`}}) ||
						!yield(o02Case{Provider: p, Token: "tok", Type: "Bearer", S: scenario{Status: st, Body: `{"access_token":"tok","token_type":"Bearer",` + e + "}"}}) ||
						!yield(o02Case{Provider: p, S: scenario{Status: st, Body: "{" + e + "}"}}) ||
						!yield(o02Case{Provider: p, User: true, Id: "a@b.example", Name: "n", S: scenario{Status: st, Body: `{"email":"a@b.example","name":"n",` + e + "}"}}) ||
						!yield(o02Case{Provider: p, User: true, Id: "l", Name: "n", S: scenario{Status: st, Body: `{"` + second + `":"l","name":"n",` + e + "}"}}) ||
						!yield(o02Case{Provider: p, User: true, S: scenario{Status: st, Body: "{" + e + "}"}}) {
						return
					}
				}
			}
		}
	}), run)
	goodBody := map[bool]string{
		false: `{"access_token":"tok","token_type":"Bearer","scope":"a b","expires_in":5,"refresh_token":"r"}`,
		true:  `{"email":"e@x.example","login":"l","id":"i","name":"n"}`,
	}
	big := kit.Pick(r, 1<<20, 1<<23)
	r.Bound("all statuses 200 to 999; tokens, identities and surrounding data of up to %d bytes, up to 1001 scopes, nesting up to 1001 levels; answers arriving byte by byte, with and without announced length and %d content types", big, 6)
	kit.Explore(r, "deliveries", seqOf(func(yield func(o02Case) bool) {
		for _, p := range []string{"github", "google"} {
			token := func(tok, typ, scope, pre, post string) o02Case {
				c := o02Case{Provider: p, Token: tok, Type: typ, S: scenario{Status: 200, Body: pre + obj("access_token", jval{js: mustJSON(tok)}, "token_type", jval{js: mustJSON(typ)}) + post}}
				if scope != "" {
					c.Scope = &scope
					c.S.Body = pre + obj("scope", jval{js: mustJSON(scope)}, "access_token", jval{js: mustJSON(tok)}, "token_type", jval{js: mustJSON(typ)}) + post
				}
				return c
			}
			second := map[string]string{"github": "login", "google": "id"}[p]
			user := func(id, name, extra string, mail bool) o02Case {
				k := second
				if mail {
					k = "email"
				}
				body := obj(k, jval{js: mustJSON(id)}, "name", jval{js: mustJSON(name)})
				if extra != "" {
					body = obj("extra", jval{js: extra}, k, jval{js: mustJSON(id)}, "name", jval{js: mustJSON(name)})
				}
				return o02Case{Provider: p, User: true, Id: id, Name: name, S: scenario{Status: 200, Body: body}}
			}
			var cases []o02Case
			for st := 200; st < 1000; st++ {
				a, b := token("tok", "Bearer", "a", "", ""), user("i", "n", "", true)
				a.S.Status, b.S.Status = st, st
				cases = append(cases, a, b)
			}
			for _, d := range []scenario{{}, {Drip: true}, {Length: true}, {Drip: true, Length: true}} {
				for _, ct := range []string{"", "application/json", "application/json; charset=utf-8", "text/plain", "text/html", "application/octet-stream"} {
					for _, n := range []int{0, 10, 600, 5000, 70000} {
						for _, c := range []o02Case{token("t"+textOf(n), "Bearer", "", "", ""), token("tok", "mac", "a,b c", "  \n\t", " \n"), user("i"+textOf(n), "n", "", true), user("i", "n"+textOf(n), `{"x":[1,2,{"y":null}]}`, false), token("", "Bearer", "", "", ""), user("", "n", "", true)} {
							c.S.Drip, c.S.Length, c.S.CType = d.Drip, d.Length, ct
							cases = append(cases, c)
						}
					}
				}
			}
			for _, c := range cases {
				if !yield(c) {
					return
				}
			}
			for _, n := range sizesTo(70, big) {
				x := textOf(n)
				sc := ""
				if n > 0 && n <= 1001 {
					l := make([]string, n)
					for i := range l {
						l[i] = fmt.Sprint("s", i)
					}
					sc = strings.Join(l, map[string]string{"github": ",", "google": " "}[p])
				}
				deep := `""`
				if n <= 1001 {
					deep = strings.Repeat("[", n) + strings.Repeat("]", n)
					if n == 0 {
						deep = "0"
					}
				}
				for _, c := range []o02Case{token("t"+x, "Bearer", "", "", ""), token("tok", "t"+x, sc, "", ""), token("tok", "Bearer", "s"+x, "", ""), token("tok", "Bearer", sc, strings.Repeat(" ", n), strings.Repeat("\n", n)),
					user("i"+x, "n", "", true), user("i", x, "", false), user("i", "n", mustJSON(x), true), user("i", "n", deep, false)} {
					if !yield(c) {
						return
					}
				}
			}
		}
	}), run)
	kit.Explore(r, "broken", seqOf(func(yield func(o02Case) bool) {
		for _, p := range []string{"github", "google"} {
			for _, user := range []bool{false, true} {
				g := goodBody[user]
				for _, st := range statuses {
					for n := 0; n <= len(g); n++ {
						for _, cut := range []bool{false, true} {
							c := o02Case{Provider: p, User: user, S: scenario{Status: st, Body: g[:n], Cut: cut}, Open: n == len(g)}
							if !yield(c) {
								return
							}
						}
					}
					for _, b := range []string{"", " ", "null", "[]", `"x"`, "7", "true", "<html>", "access_token=x&token_type=y", "{", "[{}]", `{"access_token":{"a":"b"}}`, "\xff", `{"a":"` + strings.Repeat("x", 100000), strings.Repeat("[", 20000)} {
						if !yield(o02Case{Provider: p, User: user, S: scenario{Status: st, Body: b}}) {
							return
						}
					}
					for _, b := range []string{g + "x", g + g, "\ufeff" + g, `{"access_token":"x","access_token":null,"token_type":"t","email":"x","email":7}`} {
						if !yield(o02Case{Provider: p, User: user, S: scenario{Status: st, Body: b}, Open: true}) {
							return
						}
					}
					for _, loc := range []string{"https://elsewhere.example/", "::bad", "/x"} {
						if !yield(o02Case{Provider: p, User: user, S: scenario{Status: st, Body: g, Location: loc}, Open: true}) {
							return
						}
					}
				}
				if !yield(o02Case{Provider: p, User: user, S: scenario{Down: true}}) {
					return
				}
			}
		}
	}), run)
}

// ---------------------------------------------------------------- O03

type o03Case struct {
	Provider   string
	ClientId   string
	Scopes     int // 0 nil, 1 empty, 2.. lists; capacity is always larger than length
	Opt        int // bits for the optional settings
	Text       string
	State, URI string
	UserInfo   bool
	Repeat     int
	Prompts    []string `json:",omitempty"` // instead of those that belong to Opt
}

var o03Scopes = [][]string{nil, {}, {"repo"}, {"a", "b c"}, {"user"}, {"openid", "x", "y"}, {""}}

// o03List is a list of scopes; from sized on the index gives its length.
func o03List(i int) (l []string) {
	if i >= vocab {
		return []string{"a", oddWords[i-vocab], "z"}
	}
	if i < sized {
		return o03Scopes[i]
	}
	for k := 0; k < i-sized; k++ {
		l = append(l, fmt.Sprint("scope", k))
	}
	return l
}

func o03Build(c o03Case) (p oauth.Provider, scopes []string, want url.Values, endpoint string, optional []string) {
	if c.Scopes > 0 {
		buf := make([]string, len(o03List(c.Scopes)), len(o03List(c.Scopes))+6)
		copy(buf, o03List(c.Scopes))
		scopes = buf
		full := buf[:cap(buf)]
		for i := len(buf); i < cap(buf); i++ {
			full[i] = "spare"
		}
	}
	list := append([]string{}, o03List(c.Scopes)...)
	want = url.Values{"client_id": {c.ClientId}, "state": {c.State}, "redirect_uri": {c.URI}}
	if c.Provider == "github" {
		g := oauth.GitHubProvider{ClientId: c.ClientId, ClientSecret: "very-secret", Scopes: scopes, AllowSignup: c.Opt&1 > 0}
		want.Set("allow_signup", fmt.Sprint(c.Opt&1 > 0))
		if c.Opt&2 > 0 {
			g.Login = c.Text
			if c.Text != "" {
				want.Set("login", c.Text)
			}
		}
		if c.UserInfo {
			list = append(list, "user")
		}
		want.Set("scope", strings.Join(list, " "))
		return g, scopes, want, "https://github.com/login/oauth/authorize", []string{"response_type"}
	}
	g := oauth.GoogleProvider{ClientId: c.ClientId, ClientSecret: "very-secret", Scopes: scopes, AccessTypeOffline: c.Opt&1 > 0, IncludeGrantedScopes: c.Opt&4 > 0}
	want.Set("response_type", "code")
	want.Set("include_granted_scopes", fmt.Sprint(c.Opt&4 > 0))
	if c.Opt&1 > 0 {
		want.Set("access_type", "offline")
	}
	if c.Opt&2 > 0 {
		g.LoginHint = c.Text
		if c.Text != "" {
			want.Set("login_hint", c.Text)
		}
	}
	if c.Prompts != nil {
		g.Prompts = c.Prompts
		want.Set("prompt", strings.Join(g.Prompts, " "))
	} else if c.Opt&8 > 0 {
		g.Prompts = []string{"consent"}
		if c.Opt&2 > 0 {
			g.Prompts = []string{"consent", "select_account"}
		}
		want.Set("prompt", strings.Join(g.Prompts, " "))
	}
	if c.UserInfo {
		list = append(list, "openid", "https://www.googleapis.com/auth/userinfo.email", "https://www.googleapis.com/auth/userinfo.profile")
	}
	want.Set("scope", strings.Join(list, " "))
	return g, scopes, want, "https://accounts.google.com/o/oauth2/v2/auth", nil
}

func o03Compare(loc string, want url.Values, endpoint string) *kit.Failure {
	u, err := url.Parse(loc)
	if err != nil {
		return kit.Failf("url", "%q: %v", loc, err)
	}
	q, err := url.ParseQuery(u.RawQuery)
	if err != nil {
		return kit.Failf("url", "%q: %v", loc, err)
	}
	u.RawQuery = ""
	if u.String() != endpoint {
		return kit.Failf("endpoint", "redirects to %q", u)
	}
	if strings.Contains(loc, "very-secret") {
		return kit.Failf("secret", "the client secret is sent to the browser: %s", loc)
	}
	for k, v := range want {
		g := q[k]
		if len(g) == 0 && v[0] == "" && k == "scope" {
			continue
		}
		if !sameStrings(g, v) {
			return kit.Failf("param", "%s is %q, want %q in %s", k, g, v, loc)
		}
	}
	for _, k := range []string{"login", "login_hint", "access_type", "prompt", "scope"} {
		if _, ok := want[k]; !ok && q.Has(k) {
			return kit.Failf("param", "%s is %q although not configured", k, q[k])
		}
	}
	return nil
}

// o03Flow checks the whole way: initiation, redirect URI, callback.
type o03Flow struct {
	Provider string
	Prefix   string
	Custom   bool
	Website  string
	Two      bool
	UserInfo bool
	Scopes   int
}

func checkO03(r *kit.Run) {
	r.Rule = "one evaluation = one provider configuration and request; distinct by the resulting URL"
	r.Bound("both providers x all combinations of the optional settings x %d scope lists (nil, empty, with spare capacity) x special texts x user details on and off, three consecutive requests with alternating user details on one configuration; the whole flow through a mux for prefixes, custom paths and website URLs", len(o03Scopes))
	r.Bound("up to 300 scopes, texts of up to 20000 bytes and every byte value")
	kit.Explore(r, "urls", seqOf(func(yield func(o03Case) bool) {
		for _, p := range []string{"github", "google"} {
			for _, n := range sizesTo(40, 300) {
				for k := 0; k < 2; k++ {
					if !yield(o03Case{Provider: p, ClientId: "id", Scopes: sized + n, Opt: 15, Text: "x", State: "s", URI: "https://site.example/cb", UserInfo: k == 1, Repeat: 4}) {
						return
					}
				}
			}
			for _, n := range sizesTo(70, 20000) {
				for k := 0; k < 4; k++ {
					c := o03Case{Provider: p, ClientId: "id", Scopes: 3, Opt: 15, Text: "x", State: "s", URI: "https://site.example/cb", UserInfo: true, Repeat: 2}
					*[]*string{&c.ClientId, &c.Text, &c.State, &c.URI}[k] += textOf(n)
					if !yield(c) {
						return
					}
				}
			}
			for n := 0; n < 256; n++ {
				x := "a" + string([]byte{byte(n)}) + "b"
				if !yield(o03Case{Provider: p, ClientId: x, Scopes: 2, Opt: 15, Text: x + "t", State: x + "s", URI: "https://site.example/" + x, Repeat: 2}) {
					return
				}
			}
		}
		for _, p := range []string{"github", "google"} {
			for i, w := range oddWords {
				for k := 0; k < 10; k++ {
					c := o03Case{Provider: p, ClientId: "id", Scopes: 3, Opt: 15, Text: "x", State: "s", URI: "https://site.example/cb", UserInfo: k > 4, Repeat: 2}
					switch k % 5 {
					case 0:
						c.ClientId = w
					case 1:
						c.Text = w
					case 2:
						c.State = w
					case 3:
						c.URI = w
					case 4:
						c.Scopes = vocab + i
					}
					if !yield(c) {
						return
					}
				}
			}
		}
		prompts := []string{"none", "consent", "select_account", "login", "Consent"}
		var rec func(l []string) bool
		rec = func(l []string) bool {
			if len(l) > 0 && !yield(o03Case{Provider: "google", ClientId: "id", Scopes: 2, Opt: 1, State: "s", URI: "https://site.example/cb", Repeat: 2, Prompts: slices.Clone(l)}) {
				return false
			}
			for _, x := range prompts {
				if len(l) < 4 && !rec(append(l[:len(l):len(l)], x)) {
					return false
				}
			}
			return true
		}
		if !rec(nil) {
			return
		}
		texts := []string{"", "x", "a b&c=d", "é%20#?/", "\x00\n"}
		for _, p := range []string{"github", "google"} {
			for sc := range o03Scopes {
				for opt := 0; opt < 16; opt++ {
					for ti, tx := range texts {
						for k := 0; k < 2; k++ {
							for rep := 1; rep <= 3; rep++ {
								c := o03Case{Provider: p, ClientId: "id" + tx, Scopes: sc, Opt: opt, Text: tx, State: "st" + texts[(ti+1)%len(texts)], URI: "https://site.example/cb" + texts[(ti+2)%len(texts)], UserInfo: k == 1, Repeat: rep}
								if !yield(c) {
									return
								}
							}
						}
					}
				}
			}
		}
	}), func(c o03Case) *kit.Failure {
		p, scopes, _, _, _ := o03Build(c)
		for i := 0; i < c.Repeat; i++ {
			d := c
			d.UserInfo = c.UserInfo != (i%2 == 1)
			d.State = fmt.Sprint(c.State, i)
			_, _, want, ep, _ := o03Build(d)
			u := p.InitiateUrl(d.URI, d.State, d.UserInfo)
			if f := o03Compare(u, want, ep); f != nil {
				f.Msg = fmt.Sprintf("call %d: %s", i, f.Msg)
				return f
			}
			r.Seen(kit.Hash(u))
			for j, s := range scopes[:cap(scopes)] {
				w := "spare"
				if j < len(scopes) {
					w = o03List(c.Scopes)[j]
				}
				if s != w {
					return kit.Failf("modified", "the memory of the configured scopes was modified: %q", scopes[:cap(scopes)])
				}
			}
		}
		if strings.Join(oauth.GitHubUserInfoProfileScopes, " ") != "user" || len(oauth.GoogleUserInfoScopes) != 3 || oauth.GoogleUserInfoScopes[0] != "openid" {
			return kit.Failf("modified", "the user info scopes were modified")
		}
		return nil
	})
	defer stubHttp()()
	kit.Explore(r, "flows", seqOf(func(yield func(o03Flow) bool) {
		for _, p := range []string{"github", "google"} {
			for _, pre := range []string{"", "/", "/a", "/a/b/", "/{t}"} {
				for k := 0; k < 8; k++ {
					for _, web := range []string{"https://site.example", "http://localhost:8080"} {
						for sc := range o03Scopes {
							if !yield(o03Flow{p, pre, k&1 > 0, web, k&2 > 0, k&4 > 0, sc}) {
								return
							}
						}
					}
				}
			}
		}
	}), func(c o03Flow) *kit.Failure {
		if strings.Contains(c.Prefix, "{") {
			return nil // a prefix with a variable has no single callback URL
		}
		var logs []error
		m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) { logs = append(logs, err) }})
		if err != nil {
			return kit.Failf("new", "%v", err)
		}
		oc := o03Case{Provider: c.Provider, ClientId: "cid", Scopes: c.Scopes, UserInfo: c.UserInfo}
		p, _, want, ep, _ := o03Build(oc)
		other := "google"
		if c.Provider == "google" {
			other = "github"
		}
		cfg := oauth.Config{WebsiteUrl: c.Website, Providers: []oauth.Provider{p}, FetchUserDetails: c.UserInfo, CacheConfig: oauth.CacheConfig{Cache: cache.NewInMemory(), KeyExpirationTime: time.Hour}}
		if c.Two {
			cfg.Providers = []oauth.Provider{provider(other), p}
		}
		ran := 0
		h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			ran++
			return response.PlainTextHttpResponse(200, oauth.GetAccessTokenFromContext(ctx).AccessToken), nil
		}
		d := m.RouteUsingPathPrefix(c.Prefix)
		ini := "/oauth/initiate"
		if c.Custom {
			ini = "/in/it"
			d.HandleOAUTH2WithCustomPaths(ini, "/cb/to", cfg, h, nil, nil)
		} else {
			d.HandleOAUTH2(cfg, h, nil, nil)
		}
		rec := wire.New()
		m.ServeHTTP(rec.Writer("full"), mkReq("GET", joinPaths([]string{c.Prefix, ini})+"?provider="+c.Provider))
		rec.End()
		loc, err := url.Parse(rec.Sent.Get("Location"))
		if err != nil || rec.Status/100 != 3 {
			return kit.Failf("init", "%v %v", rec.View(), logs)
		}
		st, ru := loc.Query().Get("state"), loc.Query().Get("redirect_uri")
		want.Set("state", st)
		want.Set("redirect_uri", ru)
		if f := o03Compare(rec.Sent.Get("Location"), want, ep); f != nil {
			return f
		}
		if st == "" || !strings.HasPrefix(ru, c.Website+"/") {
			return kit.Failf("redirect", "state %q, redirect URI %q", st, ru)
		}
		sc := &scenario{Status: 200, Body: `{"access_token":"tok","token_type":"Bearer","email":"e"}`}
		rq := mkReq("GET", strings.TrimPrefix(ru, c.Website)+"?state="+url.QueryEscape(st)+"&code=co%20de")
		rec = wire.New()
		m.ServeHTTP(rec.Writer("full"), rq.WithContext(context.WithValue(context.Background(), scenarioKey{}, sc)))
		rec.End()
		if ran != 1 || rec.Body.String() != "tok" {
			return kit.Failf("callback", "the redirect URI %q answered %v, logged %v", ru, rec.View(), logs)
		}
		if c.Provider == "google" {
			if !strings.Contains(sc.reqs[0], mustJSON(ru)) {
				return kit.Failf("mismatch", "the code was exchanged with a redirect URI other than %q: %s", ru, sc.reqs[0])
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- O04

type o04Case struct {
	Provider, Id, Secret, Code, URI string
}

// checkO04: the endpoint reads the code exchange with the standard library's parsers.
func checkO04(r *kit.Run) {
	defer stubHttp()()
	texts := []string{"", "x", "a b", "a&code=z", "é\u20ac", "100%+1", "\"quoted\\\"", "<script>", "line\nbreak", "=;#/?", "4%2Fx+y", "%2541", " lead and trail ", "\\u0041", strings.Repeat("long", 1000)}
	r.Rule = "one evaluation = one code exchange read by a standard endpoint"
	r.Bound("both providers x all combinations of client id, secret and code over %d texts x 3 redirect URIs; complete flows with every code in three encodings of the callback URL, behind prefixes and websites", len(texts))
	r.Bound("texts of up to 20000 bytes and of every byte of ASCII and every character up to U+07FF")
	kit.Explore(r, "exchange", seqOf(func(yield func(o04Case) bool) {
		for _, p := range []string{"github", "google"} {
			for _, n := range sizesTo(70, 20000) {
				for k := 0; k < 4; k++ {
					c := o04Case{p, "id", "sec", "code", "https://site.example/cb"}
					*[]*string{&c.Id, &c.Secret, &c.Code, &c.URI}[k] += textOf(n)
					if !yield(c) {
						return
					}
				}
			}
			for n := 0; n < 0x800; n++ {
				x := "a" + string(rune(n)) + "b"
				if !yield(o04Case{p, x + "i", x + "s", x + "c", "https://site.example/cb"}) {
					return
				}
			}
		}
		for _, p := range []string{"github", "google"} {
			for _, a := range texts {
				for _, b := range texts {
					for _, c := range texts {
						for _, u := range []string{"https://site.example/cb/" + p, "http://localhost:8080/a?b=c&d=é", ""} {
							if !yield(o04Case{p, a, b, c, u}) {
								return
							}
						}
					}
				}
			}
		}
	}), func(c o04Case) *kit.Failure {
		var p oauth.Provider = oauth.GitHubProvider{ClientId: c.Id, ClientSecret: c.Secret, Scopes: []string{"s"}}
		endpoint := "https://github.com/login/oauth/access_token"
		if c.Provider == "google" {
			p = oauth.GoogleProvider{ClientId: c.Id, ClientSecret: c.Secret, Scopes: []string{"s"}}
			endpoint = "https://oauth2.googleapis.com/token"
		}
		sc := &scenario{Status: 200, Body: `{"access_token":"tok","token_type":"Bearer"}`}
		if _, err := p.FetchAccessToken(context.WithValue(context.Background(), scenarioKey{}, sc), c.URI, c.Code); err != nil || len(sc.reqs) != 1 {
			return kit.Failf("fetch", "%d requests, %v", len(sc.reqs), err)
		}
		parts := strings.SplitN(sc.reqs[0], "\n", 3)
		if parts[0] != "POST "+endpoint {
			return kit.Failf("endpoint", "the code was sent with %s", parts[0])
		}
		hs := map[string]string{}
		for _, h := range strings.SplitN(parts[1], ";", 3) {
			k, v, _ := strings.Cut(h, "=")
			hs[k] = v
		}
		if hs["Accept"] != "application/json" {
			return kit.Failf("accept", "Accept is %q: the answer need not be JSON", hs["Accept"])
		}
		got := map[string]string{}
		if strings.HasPrefix(hs["Content-Type"], "application/json") {
			if err := json.Unmarshal([]byte(parts[2]), &got); err != nil {
				return kit.Failf("body", "%v: %s", err, parts[2])
			}
		} else {
			rq, _ := http.NewRequest("POST", endpoint, strings.NewReader(parts[2]))
			if hs["Content-Type"] != "" {
				rq.Header.Set("Content-Type", hs["Content-Type"])
			}
			if err := rq.ParseForm(); err != nil {
				return kit.Failf("body", "%v: %s", err, parts[2])
			}
			for k, v := range rq.PostForm {
				if len(v) != 1 {
					return kit.Failf("body", "%s is sent %d times", k, len(v))
				}
				got[k] = v[0]
			}
		}
		want := map[string]string{"client_id": c.Id, "client_secret": c.Secret, "code": c.Code}
		if c.Provider == "google" {
			want["redirect_uri"], want["grant_type"] = c.URI, "authorization_code"
		}
		for k, v := range want {
			if g, ok := got[k]; g != v || !ok {
				return kit.Failf("field", "the endpoint reads %s=%q (present %v), configured is %q; content type %q, body %q", k, g, ok, v, hs["Content-Type"], parts[2])
			}
		}
		if v, ok := got["redirect_uri"]; ok && v != c.URI {
			return kit.Failf("field", "redirect_uri is %q, want %q", v, c.URI)
		}
		r.Seen(kit.Hash(parts[2]))
		return nil
	})
	// the whole flow: the code of the callback URL is what the provider receives
	kit.Explore(r, "flow", seqOf(func(yield func(o04Flow) bool) {
		for _, p := range []string{"github", "google"} {
			for _, c := range append(texts, "a%20b", "+", "%", "%zz", "co de", "x/y", "x?y", "x#y") {
				if c == "" {
					continue
				}
				for esc := 0; esc < 3; esc++ {
					for order := 0; order < 2; order++ {
						for _, pre := range []string{"", "/p", "/p/q"} {
							for _, site := range []string{"https://site.example", "http://localhost:8080", "https://site.example/app"} {
								if (pre != "" || site != "https://site.example") && len(c) > 100 {
									continue
								}
								if !yield(o04Flow{p, c, esc, order == 1, pre, site}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}), func(c o04Flow) *kit.Failure {
		var logs []error
		m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) { logs = append(logs, err) }})
		if err != nil {
			return kit.Failf("new", "%v", err)
		}
		ran := 0
		sub := m
		for _, s := range strings.Split(c.Prefix, "/")[min(1, len(c.Prefix)):] {
			if s != "" {
				sub = sub.RouteUsingPathPrefix("/" + s)
			}
		}
		sub.HandleOAUTH2(oauth.Config{WebsiteUrl: c.Site, Providers: []oauth.Provider{provider(c.Provider)}, CacheConfig: oauth.CacheConfig{Cache: cache.NewInMemory(), KeyExpirationTime: time.Hour}},
			func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				ran++
				return response.PlainTextHttpResponse(200, oauth.GetAccessTokenFromContext(ctx).AccessToken), nil
			}, nil, nil)
		rec := wire.New()
		m.ServeHTTP(rec.Writer("full"), mkReq("GET", c.Prefix+"/oauth/initiate?provider="+c.Provider))
		rec.End()
		loc, err := url.Parse(rec.Sent.Get("Location"))
		if err != nil || rec.Status/100 != 3 {
			return kit.Failf("init", "%v %v", rec.View(), logs)
		}
		st, ru := loc.Query().Get("state"), loc.Query().Get("redirect_uri")
		code := url.QueryEscape(c.Code)
		switch c.Esc {
		case 1:
			code = strings.ReplaceAll(code, "+", "%20")
		case 2: // every byte escaped
			code = ""
			for i := 0; i < len(c.Code); i++ {
				code += fmt.Sprintf("%%%02x", c.Code[i])
			}
		}
		q := "?state=" + url.QueryEscape(st) + "&code=" + code
		if c.CodeFirst {
			q = "?code=" + code + "&state=" + url.QueryEscape(st)
		}
		sc := &scenario{Status: 200, Body: `{"access_token":"tok","token_type":"Bearer"}`}
		rq := mkReq("GET", strings.TrimPrefix(ru, c.Site)+q)
		rec = wire.New()
		m.ServeHTTP(rec.Writer("full"), rq.WithContext(context.WithValue(context.Background(), scenarioKey{}, sc)))
		rec.End()
		if ran != 1 || rec.Body.String() != "tok" || len(sc.reqs) != 1 {
			return kit.Failf("callback", "the callback with the code %q answered %v, logged %v", c.Code, rec.View(), logs)
		}
		parts := strings.SplitN(sc.reqs[0], "\n", 3)
		got := map[string]string{}
		if strings.Contains(parts[1], "Content-Type=application/json") {
			if err := json.Unmarshal([]byte(parts[2]), &got); err != nil {
				return kit.Failf("body", "%v: %s", err, parts[2])
			}
		} else {
			vs, err := url.ParseQuery(parts[2])
			if err != nil {
				return kit.Failf("body", "%v: %s", err, parts[2])
			}
			got["code"], got["redirect_uri"] = vs.Get("code"), vs.Get("redirect_uri")
		}
		if got["code"] != c.Code {
			return kit.Failf("flow", "the provider receives the code %q, the callback carried %q", got["code"], c.Code)
		}
		if v, ok := got["redirect_uri"]; ok && v != "" && v != ru {
			return kit.Failf("flow", "the provider receives redirect_uri %q, the initiation carried %q", v, ru)
		}
		return nil
	})
}

type o04Flow struct {
	Provider, Code string
	Esc            int
	CodeFirst      bool
	Prefix, Site   string
}
