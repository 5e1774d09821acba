package schedchecks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"gofremc/kit"
	"gofremc/vsched"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { all["O03"] = checkO03 }

// o03Net answers the requests of the providers: the token and the user are derived from the code.
type o03Net struct{}

func (o03Net) RoundTrip(rq *http.Request) (*http.Response, error) {
	vsched.Y()
	body := ""
	if rq.Body != nil {
		b, err := io.ReadAll(rq.Body)
		if err != nil {
			return nil, err
		}
		rq.Body.Close()
		body = string(b)
	}
	js := ""
	if rq.Method == "POST" {
		code := ""
		for _, c := range []string{"codeA", "codeB", "codeC"} {
			if strings.Contains(body, c) || strings.Contains(rq.URL.RawQuery, c) {
				code += c
			}
		}
		if code == "" {
			return nil, errors.New("no code")
		}
		js = `{"access_token":"tok-` + code + `","token_type":"Bearer","scope":"s-` + code + `","expires_in":5}`
	} else {
		a := strings.TrimPrefix(rq.Header.Get("Authorization"), "Bearer ")
		js = `{"email":"` + a + `","login":"` + a + `","id":7,"name":"N ` + a + `"}`
	}
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(js)), Request: rq}, nil
}

// o03Make returns the providers and the memory of their configured scopes.
func o03Make() (ps []oauth.Provider, mem [][]string) {
	for range 2 {
		s := append(make([]string, 0, 8), "a", "b")
		f := s[:cap(s)]
		for i := 2; i < len(f); i++ {
			f[i] = "spare"
		}
		mem = append(mem, f)
	}
	return []oauth.Provider{
		oauth.GitHubProvider{ClientId: "gid", ClientSecret: "gsec", Login: "me", AllowSignup: true, Scopes: mem[0][:2]},
		oauth.GoogleProvider{ClientId: "Gid", ClientSecret: "Gsec", LoginHint: "me", AccessTypeOffline: true, Prompts: []string{"consent", "select_account"}, Scopes: mem[1][:2]},
	}, mem
}

type o03Slot struct{ token, user string }
type o03SlotKey struct{}

// threads: each letter is a request: i/I initiation with GitHub/Google, f/F the whole flow, x a callback with an unknown state,
// e a callback with an error of the provider
func o03Scenario(kind string, user bool, threads []string, bound, fine int) scenario {
	return scenario{Name: fmt.Sprint(kind, user, threads, bound, fine), Bound: bound, Fine: fine, New: func() program {
		oauth.HttpClient = &http.Client{Transport: o03Net{}}
		var logs logList
		m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) { logs.add(err) }})
		if err != nil {
			panic(err)
		}
		ps, mem := o03Make()
		ca := newCache(kind)
		cfg := oauth.Config{WebsiteUrl: "https://w.example", Providers: ps, FetchUserDetails: user, CacheConfig: oauth.CacheConfig{Cache: ca, KeyExpirationTime: time.Hour}}
		pm := m.RouteUsingPathPrefix("/pre")
		pm.HandleOAUTH2(cfg, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			s := ctx.Value(o03SlotKey{}).(*o03Slot)
			t := oauth.GetAccessTokenFromContext(ctx)
			s.token = t.AccessToken + strings.Join(t.Scopes, ",")
			if p := auth.GetSecurityPrincipalFromContext(ctx); p != nil {
				s.user = p.Identity()
			}
			return response.PlainTextHttpResponseOK("in"), nil
		}, nil, nil)
		get := func(target string, s *o03Slot) *plainWriter {
			u, err := url.ParseRequestURI(target)
			if err != nil {
				panic(err)
			}
			w := newWriter()
			rq := &http.Request{Method: "GET", URL: u, Header: http.Header{}, Host: "w.example", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
			m.ServeHTTP(w, rq.WithContext(context.WithValue(context.Background(), o03SlotKey{}, s)))
			return w
		}
		type outcome struct {
			loc, state string
			code       int
			slot       o03Slot
			op         byte
		}
		outs := make([][]outcome, len(threads))
		var fs []func()
		for t, p := range threads {
			fs = append(fs, func() {
				for i := 0; i < len(p); i++ {
					o := outcome{op: p[i]}
					name := "github"
					if p[i] < 'a' {
						name = "google"
					}
					switch p[i] {
					case 'i', 'I', 'f', 'F':
						w := get("/pre/oauth/initiate?provider="+name, &o.slot)
						o.code, o.loc = w.code, w.h.Get("Location")
						u, err := url.Parse(o.loc)
						if err != nil {
							break
						}
						o.state = u.Query().Get("state")
						if p[i] == 'f' || p[i] == 'F' {
							cb := strings.TrimPrefix(u.Query().Get("redirect_uri"), "https://w.example")
							o.code = get(cb+"?state="+o.state+"&code=code"+string(rune('A'+t)), &o.slot).code
						}
					case 'x':
						o.code = get("/pre/oauth/authorize/github?state=none&code=codeA", &o.slot).code
					case 'e':
						o.code = get("/pre/oauth/authorize/google?error=access_denied&state=none", &o.slot).code
					}
					outs[t] = append(outs[t], o)
				}
			})
		}
		return program{Threads: fs, Check: func(res *vsched.Result) (string, *kit.Failure) {
			fresh, _ := o03Make()
			states := map[string]bool{}
			for t := range outs {
				for _, o := range outs[t] {
					wantSlot := o03Slot{}
					switch o.op {
					case 'i', 'I', 'f', 'F':
						p := fresh[0]
						if o.op < 'a' {
							p = fresh[1]
						}
						if want := p.InitiateUrl("https://w.example/pre/oauth/authorize/"+p.Name(), o.state, user); o.loc != want {
							return "", kit.Failf("initiate", "client %d was redirected to\n  %s\nalone to\n  %s", t, o.loc, want)
						}
						if o.state == "" || states[o.state] || !ca.Contains(o.state) {
							return "", kit.Failf("state", "state %q: issued before %v, accepted %v", o.state, states[o.state], ca.Contains(o.state))
						}
						states[o.state] = true
						if o.op == 'f' || o.op == 'F' {
							c := "code" + string(rune('A'+t))
							wantSlot.token = "tok-" + c + "s-" + c
							if user {
								wantSlot.user = "tok-" + c
							}
						}
					}
					if o.slot.token != wantSlot.token || (o.slot.user == "") != (wantSlot.user == "") || !strings.Contains(o.slot.user, wantSlot.user) && o.slot.user != "7" {
						return "", kit.Failf("token", "client %d got %+v, want %+v (status %d)", t, o.slot, wantSlot, o.code)
					}
				}
			}
			for _, f := range mem {
				if f[0] != "a" || f[1] != "b" || f[2] != "spare" {
					return "", kit.Failf("modified", "the memory of the configured scopes was modified: %q", f)
				}
			}
			return fmt.Sprint(threads), nil
		}}
	}}
}

func checkO03(r *kit.Run) {
	r.Rule = "one trace = one schedule of concurrent OAuth initiations and callbacks through one mux, each outcome compared with the same request alone; states = nodes of the schedule tree"
	r.Assume = append(r.Assume, "the provider's endpoints are replaced by a transport that answers at once")
	var scs []scenario
	for _, kind := range kit.Pick(r, []string{"inmem"}, []string{"inmem", "safe"}) {
		for _, user := range []bool{false, true} {
			for _, th := range [][]string{{"i", "i"}, {"i", "I"}, {"I", "I"}, {"f", "i"}, {"f", "f"}, {"F", "f"}, {"F", "F"}, {"x", "f"}, {"e", "F"}, {"ii", "I"}} {
				scs = append(scs, o03Scenario(kind, user, th, kit.Pick(r, 1, 2), 1))
				if !r.Thorough() {
					scs = append(scs, o03Scenario(kind, user, th, 2, 0))
				}
			}
			for _, th := range [][]string{{"i", "i", "i"}, {"f", "I", "x"}, {"f", "f", "f"}} {
				scs = append(scs, o03Scenario(kind, user, th, kit.Pick(r, 1, 2), 0))
			}
		}
	}
	if r.Thorough() {
		r.Bound("pairs of clients with up to 2 requests, up to 2 preemptions, at most one inside a function; triples up to 2 preemptions at function entries and synchronising operations")
	} else {
		r.Bound("pairs of clients with up to 2 requests, up to 1 preemption anywhere or 2 at function entries and synchronising operations; triples up to 1 preemption")
	}
	runSched(r, "oauth", scs, []int{0})
}
