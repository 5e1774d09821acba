package schedchecks

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"gofremc/kit"
	"gofremc/vsched"

	"github.com/ixtendio/gofre/cache"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { all["C02"] = checkC02 }

// safeCache is linearizable and offers a scheduling point around each operation, like a remote cache would.
type safeCache struct {
	mu vsched.Mutex
	m  map[string]time.Time
}

func (c *safeCache) Add(k string, d time.Duration) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.m[k] = time.Now().Add(d)
	return nil
}
func (c *safeCache) Remove(k string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.m, k)
}
func (c *safeCache) Contains(k string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	t, ok := c.m[k]
	return ok && time.Now().Before(t)
}

// valCache is the same with an unhashable dynamic type: nothing may use a cache as a map key.
type valCache struct {
	c   *safeCache
	pad []int
}

func (c valCache) Add(k string, d time.Duration) error { return c.c.Add(k, d) }
func (c valCache) Remove(k string)                     { c.c.Remove(k) }
func (c valCache) Contains(k string) bool              { return c.c.Contains(k) }

func newCache(kind string) cache.Cache {
	switch kind {
	case "inmem":
		return cache.NewInMemory()
	case "val":
		return valCache{c: &safeCache{m: map[string]time.Time{}}}
	}
	return &safeCache{m: map[string]time.Time{}}
}

// c02Req: a thread's requests. Nonce: 0..9 the n-th nonce issued in the setup, 'x' unknown, 'e' expired, 'g' a GET request.
func c02Scenario(kind string, instances int, place string, threads []string, bound int) scenario {
	return scenario{Name: fmt.Sprintf("%s/%d/%s/%s", kind, instances, place, strings.Join(threads, "|")), Bound: bound, Fine: bound, New: func() program {
		ca := newCache(kind)
		type outcome struct {
			nonce byte
			ran   bool
			err   error
			fresh string
		}
		outs := make([][]outcome, len(threads))
		mk := func() middleware.Middleware { return middleware.CSRFPrevention(ca) }
		one := mk()
		handlers := make([]handler.Handler, 3)
		type slotKey struct{}
		inner := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			o := ctx.Value(slotKey{}).(*outcome)
			o.ran = true
			o.fresh = middleware.GetCSRFNonceFromContext(ctx)
			return response.PlainTextHttpResponseOK("x"), nil
		}
		for i := range handlers {
			if instances > 1 {
				handlers[i] = mk()(inner)
			} else {
				handlers[i] = one(inner)
			}
		}
		send := func(h handler.Handler, method string, nonce string) (o outcome) {
			rq := &http.Request{Method: method, Header: http.Header{}, URL: &url.URL{Path: "/p"}, Host: "h"}
			switch {
			case nonce == "":
			case place == "header":
				rq.Header.Set(middleware.CSRFRestNonceHeaderName, nonce)
			default:
				rq.URL.RawQuery = middleware.CSRFNonceRequestParamName + "=" + nonce
			}
			_, o.err = h(context.WithValue(context.Background(), slotKey{}, &o), path.MatchingContext{R: rq})
			return o
		}
		var nonces []string
		for i := 0; i < 3; i++ {
			nonces = append(nonces, send(handlers[0], "GET", "").fresh)
		}
		ca.Add("EXPIRED", -time.Second)
		var fs []func()
		for t, p := range threads {
			fs = append(fs, func() {
				for i := 0; i < len(p); i++ {
					var o outcome
					switch p[i] {
					case 'g':
						o = send(handlers[t%3], "GET", "")
					case 'x':
						o = send(handlers[t%3], "POST", "UNKNOWN")
					case 'e':
						o = send(handlers[t%3], "DELETE", "EXPIRED")
					default:
						o = send(handlers[t%3], []string{"POST", "PUT", "DELETE"}[t%3], nonces[p[i]-'0'])
					}
					o.nonce = p[i]
					outs[t] = append(outs[t], o)
				}
			})
		}
		return program{Threads: fs, Check: func(res *vsched.Result) (string, *kit.Failure) {
			passed := map[byte]int{}
			shown := map[byte]int{}
			fresh := map[string]bool{}
			var sb strings.Builder
			for t := range outs {
				for _, o := range outs[t] {
					fmt.Fprintf(&sb, "%c%v ", o.nonce, o.ran)
					shown[o.nonce]++
					if o.ran != (o.err == nil) {
						return "", kit.Failf("outcome", "request with nonce %c: handler ran %v, error %v", o.nonce, o.ran, o.err)
					}
					if o.ran {
						passed[o.nonce]++
						if o.fresh == "" || fresh[o.fresh] {
							return "", kit.Failf("fresh", "nonce %q issued twice", o.fresh)
						}
						fresh[o.fresh] = true
					} else if !errors.Is(o.err, gerrors.ErrAccessDenied) {
						return "", kit.Failf("error", "refused with %v", o.err)
					}
				}
				sb.WriteByte('|')
			}
			for n, k := range shown {
				want := 1
				switch n {
				case 'g':
					want = k
				case 'x', 'e':
					want = 0
				}
				if passed[n] != want {
					return "", kit.Failf("once", "%d requests presented nonce %c at the same time and %d reached the handler, want %d", k, n, passed[n], want)
				}
				if n <= '9' && ca.Contains(nonces[n-'0']) {
					return "", kit.Failf("used", "nonce %c is still accepted after its use", n)
				}
			}
			for f := range fresh {
				if !ca.Contains(f) {
					return "", kit.Failf("lost", "a nonce issued meanwhile is not accepted")
				}
			}
			for i, n := range nonces {
				if shown[byte('0'+i)] == 0 && !ca.Contains(n) {
					return "", kit.Failf("lost", "a nonce nobody used is not accepted any more")
				}
			}
			return sb.String(), nil
		}}
	}}
}

func checkC02(r *kit.Run) {
	r.Rule = "one trace = one schedule of 2-3 concurrent clients presenting nonces; states = nodes of the schedule tree; one distinct outcome = (scenario, who passed)"
	bound := kit.Pick(r, 2, 3)
	var scs []scenario
	for _, kind := range []string{"inmem", "safe", "val"} {
		for _, inst := range []int{1, 2} {
			for _, place := range []string{"header", "query"} {
				for _, th := range [][]string{{"0", "0"}, {"0", "1"}, {"0g", "0"}, {"01", "10"}, {"00", "0"}, {"x", "0"}, {"e", "e"}, {"g", "g"}, {"g0", "1g"}} {
					scs = append(scs, c02Scenario(kind, inst, place, th, bound))
				}
				for _, th := range [][]string{{"0", "0", "0"}, {"0", "1", "0"}, {"0", "1", "2"}, {"g", "0", "0"}} {
					b := 2
					if place == "query" && !r.Thorough() {
						b = 1
					}
					scs = append(scs, c02Scenario(kind, inst, place, th, b))
				}
			}
		}
	}
	r.Bound("2 clients with up to 2 requests each (same, different, unknown, expired nonces, safe requests), up to %d preemptions; 3 clients with one request, up to 2 preemptions; in-memory cache and two linearizable harness caches, one and several middleware instances, header and query parameter", bound)
	r.Assume = append(r.Assume, "scheduling points are the statements of the framework and the operations of the cache; memory accesses between them are covered by the race detector")
	runSched(r, "clients", scs, []int{0})
}
