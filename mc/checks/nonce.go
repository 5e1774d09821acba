package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"iter"
	"math"
	"mime/multipart"
	"net/http"
	"net/url"
	"slices"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"gofremc/kit"
	"gofremc/wire"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() {
	All["C01"] = checkC01
	All["K01"] = checkK01
}

// bubble runs f under the virtual clock of testing/synctest.
func bubble(t *testing.T, f func() *kit.Failure) (fail *kit.Failure) {
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if p := recover(); p != nil {
				fail = kit.Failf("panic", "panic: %v", p)
			}
		}()
		fail = f()
	})
	return fail
}

// ---------------------------------------------------------------- C01

// c01Op is a request or the passing of time.
type c01Op struct {
	Method string `json:"m,omitempty"` // "" lets time pass
	Tick   int    `json:"t,omitempty"` // minutes
	Where  string `json:"w,omitempty"` // header, query, form, multipart, header+form, header+query, none
	Nonce  int    `json:"n,omitempty"` // >0: the n-th nonce issued, 0: none, -1: unknown, -2: empty, -3: first nonce in lower case, -4: padded
	Other  int    `json:"o,omitempty"` // the nonce in the second place for combined placements
	Route  int    `json:"r,omitempty"`
	HErr   bool   `json:"e,omitempty"`
	Out    string `json:"out,omitempty"`   // what the handler does: panic, late (lets 61 minutes pass), resperr (its response fails), nil (no response)
	Store  bool   `json:"store,omitempty"` // the cache cannot store keys during this request
	Shape  int    `json:"sh,omitempty"`    // index into shapes
	Near   int    `json:"near,omitempty"`  // the n-th text close to the nonce is presented instead
	Pad    int    `json:"pad,omitempty"`   // length of another field before the nonce
	Times  int    `json:"times,omitempty"` // the step is repeated, with the next nonce each time
}

type c01Case struct {
	Ops    []c01Op `json:"ops"`
	Custom bool    `json:"custom,omitempty"`
	Exp    int     `json:"exp,omitempty"`    // minutes of the nonce expiry (0: 60)
	Caches int     `json:"caches,omitempty"` // 0: one instance on two routes, 1: two instances sharing a cache
}

func safeMethod(m string) bool { return m == "GET" || m == "HEAD" || m == "TRACE" || m == "OPTIONS" }

// storeCache is a cache whose additions may fail.
type storeCache struct {
	*cache.InMemory
	fail bool
}

var errStore = errors.New("the cache is full")

func (s *storeCache) Add(k string, d time.Duration) error {
	if s.fail {
		return errStore
	}
	return s.InMemory.Add(k, d)
}

type c01Nonce struct {
	val     string
	expires time.Time
	used    bool
}

func c01Request(c c01Case, op c01Op, nonces []c01Nonce) (*http.Request, string) {
	text := func(n int) string {
		switch {
		case n > 0 && n <= len(nonces):
			return nonces[n-1].val
		case n > 0:
			return "00000000000000000000000000000000"
		case n == -1:
			return "0123456789ABCDEF0123456789ABCDEF"
		case n == -3 && len(nonces) > 0:
			return strings.ToLower(nonces[0].val)
		case n == -4 && len(nonces) > 0:
			return nonces[0].val + "x"
		}
		return ""
	}
	if op.Near > 0 {
		plain := text
		text = func(n int) string {
			if op.Near > vocab {
				return guessVocab()[op.Near-vocab-1]
			}
			if v := plain(n); len(v) > 1 && op.Near <= len(nearTexts(v)) {
				return nearTexts(v)[op.Near-1]
			}
			return "near"
		}
	}
	header, param := middleware.CSRFRestNonceHeaderName, middleware.CSRFNonceRequestParamName
	if c.Custom {
		header, param = "X-My-Nonce", "my nonce&"
	}
	v, o := text(op.Nonce), text(op.Other)
	target := "/p"
	if op.Route == 1 {
		target = "/q"
	}
	var body []byte
	ct := ""
	set := ""
	shown := "" // the nonce the request presents
	for _, w := range strings.Split(op.Where, "+") {
		x := v
		if set != "" {
			x = o
		}
		switch w {
		case "header":
			set = x
			shown = x
		case "query":
			target += "?a=1&pad=" + textOf(op.Pad) + "&" + url.QueryEscape(param) + "=" + url.QueryEscape(x) + "&b=2"
			if shown == "" {
				shown = x
			}
		case "form":
			body = []byte("x=1&pad=" + textOf(op.Pad) + "&" + url.QueryEscape(param) + "=" + url.QueryEscape(x))
			ct = "application/x-www-form-urlencoded"
			if shown == "" {
				shown = x
			}
		case "multipart":
			var b bytes.Buffer
			mw := multipart.NewWriter(&b)
			mw.WriteField("x", "1")
			mw.WriteField("pad", textOf(op.Pad))
			mw.WriteField(param, x)
			mw.Close()
			body, ct = b.Bytes(), mw.FormDataContentType()
			if shown == "" {
				shown = x
			}
		case "json":
			body, ct = []byte(`{"`+param+`":"`+x+`"}`), "application/json"
		case "cookie":
			// not a place where a nonce is looked for
		}
		if w == "header" {
			continue
		}
	}
	if body == nil {
		body = []byte("body")
	}
	rq, err := http.NewRequest("POST", "http://srv.example"+target, bytes.NewReader(body))
	if err != nil {
		panic(err)
	}
	rq.Method = op.Method
	rq.RequestURI = target
	if ct != "" {
		rq.Header.Set("Content-Type", ct)
	}
	if set != "" || strings.Contains(op.Where, "header") {
		rq.Header.Set(header, set)
	}
	if op.Where == "cookie" {
		rq.AddCookie(&http.Cookie{Name: param, Value: v})
	}
	return rq, shown
}

func c01Run(t *testing.T, seen func(uint64) bool) func(c c01Case) *kit.Failure {
	return func(c c01Case) *kit.Failure {
		return bubble(t, func() *kit.Failure {
			ca := &storeCache{InMemory: cache.NewInMemory()}
			expiry := time.Hour
			if c.Exp > 0 {
				expiry = time.Duration(c.Exp) * time.Minute
			}
			mk := func() middleware.Middleware {
				if c.Custom {
					return middleware.CSRFPreventionWithCustomParamAndHeaderName(ca, "my nonce&", "X-My-Nonce")
				}
				return middleware.CSRFPrevention(ca)
			}
			rg := newRig()
			mw := mk()
			mw2 := mw
			if c.Caches == 1 {
				mw2 = mk()
			}
			h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				rg.ran++
				return rg.h(ctx, mc)
			}
			var logged []error
			mux, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) { logged = append(logged, err) }})
			if err != nil {
				return kit.Failf("mux", "%v", err)
			}
			rg = &rig{mux: mux}
			ms := append([]string{"PURGE", "post"}, rigMethods...)
			for _, op := range c.Ops {
				if op.Method != "" && !slices.Contains(ms, op.Method) {
					ms = append(ms, op.Method)
				}
			}
			for _, m := range ms {
				func() {
					defer func() { recover() }()
					rg.mux.HandleRequest(m, "/c/p", h, mw)
				}()
				func() {
					defer func() { recover() }()
					rg.mux.HandleRequest(m, "/c/q", h, mw2)
				}()
			}
			var nonces []c01Nonce
			var sig []any
			ops := c.Ops
			for i := range ops {
				if ops[i].Times != 0 {
					ops = expandOps(ops)
					break
				}
			}
			for i, op := range ops {
				if op.Method == "" {
					time.Sleep(time.Duration(op.Tick) * time.Minute)
					continue
				}
				rq, shown := c01Request(c, op, nonces)
				rq.URL.Path = "/c" + rq.URL.Path
				wantBody := "body"
				if op.Shape > 0 {
					shapes[op.Shape].f(rq)
					if b := shapes[op.Shape].body; b != "=" {
						wantBody = b
					}
				}
				ok := safeMethod(op.Method)
				use := -1
				if !ok {
					for k := range nonces {
						if nonces[k].val == shown && !nonces[k].used && time.Now().Before(nonces[k].expires) {
							ok, use = true, k
						}
					}
				}
				got, bodyErr := "", false
				rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
					got = middleware.GetCSRFNonceFromContext(ctx)
					if !strings.Contains(op.Where, "form") && !strings.Contains(op.Where, "multipart") {
						var b bytes.Buffer
						b.ReadFrom(mc.R.Body)
						bodyErr = b.String() != wantBody && op.Where != "json"
					} else if mc.R.FormValue("x") != "1" && (op.Method == "POST" || op.Method == "PUT" || op.Method == "PATCH") {
						bodyErr = true
					}
					if op.HErr {
						return nil, errH
					}
					switch op.Out {
					case "panic":
						panic("handler panics")
					case "late":
						time.Sleep(61 * time.Minute)
					case "nil":
						return nil, nil
					case "resperr":
						return response.StreamHttpResponse("a/b", &chunkReader{err: errSource}), nil
					}
					return response.PlainTextHttpResponse(200, "done"), nil
				}
				rec := wire.New()
				logged, rg.ran = nil, 0
				ca.fail = op.Store
				start := time.Now()
				func() {
					defer func() {
						if p := recover(); p != nil && op.Out != "panic" && op.Out != "nil" {
							panic(p)
						}
					}()
					rg.mux.ServeHTTP(rec.Writer("full"), rq)
					rec.End()
				}()
				if op.Store && ok {
					// the nonce presented counts as used up, or not: left open
					if rg.ran != 0 || len(logged) != 1 || !errors.Is(logged[0], errStore) {
						return kit.Failf("store", "step %d %+v: the fresh nonce cannot be stored, yet the handler ran %d times, errors %v", i, op, rg.ran, logged)
					}
					if use >= 0 && !ca.Contains(nonces[use].val) {
						nonces[use].used = true
					}
					continue
				}
				if (rg.ran == 1) != ok || rg.ran > 1 {
					return kit.Failf("pass", "step %d %+v (of %d nonces issued): the handler ran %d times, want %v", i, op, len(nonces), rg.ran, ok)
				}
				if !ok {
					if rec.Status != 500 || rec.Body.Len() > 0 {
						return kit.Failf("refuse", "step %d %+v answered %v", i, op, rec.View())
					}
					if len(logged) != 1 || !errors.Is(logged[0], errAccessDenied) {
						return kit.Failf("refuse", "step %d %+v failed with %v", i, op, logged)
					}
					continue
				}
				if use >= 0 {
					nonces[use].used = true
				}
				if bodyErr {
					return kit.Failf("body", "step %d %+v: the handler does not see the request's body", i, op)
				}
				if got == "" {
					return kit.Failf("fresh", "step %d %+v: the handler sees no nonce", i, op)
				}
				for _, n := range nonces {
					if n.val == got {
						return kit.Failf("fresh", "step %d %+v: the handler sees nonce %s again", i, op, got)
					}
				}
				nonces = append(nonces, c01Nonce{val: got, expires: start.Add(expiry)})
				sig = append(sig, op.Where, use)
			}
			seen(kit.Hash(sig...))
			return nil
		})
	}
}

// guessVocab are words that a guard is tempted to accept: those that code, tests and people use as placeholders.
var guessVocab = sync.OnceValue(func() (out []string) {
	for _, ws := range [][]string{oddWords, nameVocab, {"csrf", "nonce", "nocheck", "Fetch", "fetch", "bypass", "skip", "disable", "disabled", "valid", "ok", "dummy", "mock", "fake", "xyz", "abc", "123", "1234567890", "changeme", "00000000000000000000000000000000", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", "XMLHttpRequest", "NONCE", "_csrf", "X-Csrf-Token"}} {
		for _, w := range ws {
			if w != "" {
				out = append(out, w)
			}
		}
	}
	return
})

func checkC01(r *kit.Run) {
	r.Rule = "one evaluation = one history of requests and passing time under a virtual clock; distinct by the sequence of (placement, nonce used) of passing requests"
	depth := kit.Pick(r, 5, 6)
	r.Bound("all histories of up to %d steps over {safe request, unsafe request with each nonce issued so far / unknown / none, passing of 59, 60 and 30 minutes, failing handler} on two routes sharing an instance or a cache; all %s after one or two issues: 12 methods x 11 placements x nonces, default and custom names; every outcome of the handler (error, panic, no response, failing response, outliving the nonces) and failing cache, followed by any nonce again; histories one step shorter with 4 other configured expiry times", depth, "requests and repeated requests")
	r.Assume = []string{"the nonce expiry is the documented 1 hour", "when form body and query carry different values either may count (not generated)", "bodies of methods other than POST, PUT and PATCH are not forms (net/http)"}
	run := c01Run(r.T, r.Seen)
	methods := []string{"GET", "HEAD", "TRACE", "OPTIONS", "POST", "PUT", "PATCH", "DELETE", "PURGE", "post", "Get", "head"}
	places := []string{"none", "header", "query", "form", "multipart", "header+query", "header+form", "header+multipart", "json", "cookie"}
	kit.Explore(r, "placements", seqOf(func(yield func(c01Case) bool) {
		for _, m := range methods {
			for _, p := range places {
				if (strings.Contains(p, "form") || strings.Contains(p, "multipart")) && m != "POST" && m != "PUT" && m != "PATCH" {
					continue
				}
				for _, n := range []int{0, 1, 2, -1, -2, -3, -4} {
					others := []int{0}
					if strings.Contains(p, "+") {
						others = []int{1, 2, -1, -2}
					}
					for _, o := range others {
						for _, custom := range []bool{false, true} {
							for _, again := range []int{0, 1, 2} {
								ops := []c01Op{{Method: "GET"}, {Method: "GET", Route: 1}}
								x := c01Op{Method: m, Where: p, Nonce: n, Other: o}
								ops = append(ops, x)
								if again == 1 {
									ops = append(ops, x)
								} else if again == 2 {
									x.Route = 1
									ops = append(ops, x)
								}
								if !yield(c01Case{Ops: ops, Custom: custom}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}), run)
	r.Bound("%d methods x %d shapes of the request (body, protocol, headers, peer, query) x {no nonce, in the header, in the query} x {live, used, unknown}", len(methods), len(shapes))
	kit.Explore(r, "shapes", seqOf(func(yield func(c01Case) bool) {
		for _, m := range methods {
			for _, p := range []string{"none", "header", "query"} {
				for _, n := range []int{0, 1, -1} {
					for sh := range shapes {
						x := c01Op{Method: m, Where: p, Nonce: n, Shape: sh}
						if p == "none" && n != 0 || p != "none" && n == 0 {
							continue
						}
						if !yield(c01Case{Ops: []c01Op{{Method: "GET"}, x, x}}) {
							return
						}
						if !yield(c01Case{Ops: []c01Op{{Method: "GET", Shape: sh}, {Method: "POST", Where: p, Nonce: n}, x}}) {
							return
						}
					}
				}
			}
		}
	}), run)
	nears := len(nearTexts("0123456789ABCDEF0123456789ABCDEF")) + 40
	r.Bound("%d further methods, with every nonce in the header and the query; up to %d texts close to a live nonce (blanks, quotes, case, one character more, less or changed) in every place", len(methodVocab), nears)
	r.Bound("%d texts presented as nonces that were never issued, in every place", len(guessVocab()))
	kit.Explore(r, "vocabulary", seqOf(func(yield func(c01Case) bool) {
		for _, m := range methodVocab {
			for _, p := range []string{"none", "header", "query"} {
				for _, n := range []int{0, 1, -1} {
					x := c01Op{Method: m, Where: p, Nonce: n}
					if !yield(c01Case{Ops: []c01Op{{Method: "GET"}, x, x}}) {
						return
					}
				}
			}
		}
		for i := range guessVocab() {
			for _, p := range []string{"header", "query", "form", "multipart"} {
				for _, custom := range []bool{false, true} {
					if !yield(c01Case{Ops: []c01Op{{Method: "GET"}, {Method: "POST", Where: p, Nonce: 1, Near: vocab + i + 1}, {Method: "PUT", Where: p, Nonce: 1}}, Custom: custom}) {
						return
					}
				}
			}
		}
		for i := 1; i <= nears; i++ {
			for _, p := range []string{"header", "query", "form", "multipart"} {
				for _, custom := range []bool{false, true} {
					x := c01Op{Method: "POST", Where: p, Nonce: 1, Near: i}
					if !yield(c01Case{Ops: []c01Op{{Method: "GET"}, x, {Method: "PUT", Where: p, Nonce: 1}, x}, Custom: custom}) {
						return
					}
				}
			}
		}
	}), run)
	most := kit.Pick(r, 2100, 8200)
	r.Bound("up to %d nonces outstanding at once, each of which is then presented twice, in the order they were issued and in reverse; nonces behind up to 1 MB of other form and query data", most)
	kit.Explore(r, "volume", seqOf(func(yield func(c01Case) bool) {
		for _, n := range sizesTo(20, most) {
			if n == 0 {
				continue
			}
			for k := 0; k < 4; k++ {
				if n > 300 && k&1 > 0 {
					continue
				}
				all := c01Op{Method: "POST", Where: "header", Nonce: 1, Times: n}
				if k&2 > 0 {
					all.Nonce, all.Times = n, -n
				}
				if !yield(c01Case{Ops: []c01Op{{Method: "GET", Times: n}, all, all}, Caches: k & 1}) {
					return
				}
			}
		}
		for _, n := range sizesTo(50, 1<<20) {
			for _, w := range []string{"form", "multipart", "query"} {
				if w == "query" && n > 1<<16 {
					continue
				}
				x := c01Op{Method: "POST", Where: w, Nonce: 1, Pad: n}
				if !yield(c01Case{Ops: []c01Op{{Method: "GET"}, x, x}}) {
					return
				}
			}
		}
	}), run)
	kit.Explore(r, "outcomes", seqOf(func(yield func(c01Case) bool) {
		pl := []string{"header", "query", "form", "multipart"}
		for _, m := range []string{"GET", "POST", "DELETE", "PURGE"} {
			for _, p := range pl {
				for _, out := range []string{"", "err", "panic", "late", "nil", "resperr", "store"} {
					for _, m2 := range []string{"POST", "PATCH", "DELETE"} {
						for _, p2 := range pl {
							if (p == "form" || p == "multipart") && m != "POST" || (p2 == "form" || p2 == "multipart") && m2 == "DELETE" {
								continue
							}
							for n := 1; n <= 3; n++ {
								for b := 0; b < 8; b++ {
									x := c01Op{Method: m, Where: p, Nonce: 1, HErr: out == "err", Store: out == "store"}
									if out != "err" && out != "store" {
										x.Out = out
									}
									y := c01Op{Method: m2, Where: p2, Nonce: n, Route: b & 1}
									z := c01Op{Method: "POST", Where: "header", Nonce: 1 + n%3}
									if !yield(c01Case{Ops: []c01Op{{Method: "GET"}, {Method: "GET", Route: 1}, x, y, z}, Custom: b&2 > 0, Caches: b >> 2}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}), run)
	kit.Explore(r, "histories", c01Histories(depth), run)
	for _, exp := range []int{1, 30, 31, 119} {
		middleware.CSRFExpirationTime = time.Duration(exp) * time.Minute
		kit.Explore(r, fmt.Sprintf("expiry-%d", exp), seqOf(func(yield func(c01Case) bool) {
			for c := range c01Histories(depth - 1) {
				c.Exp = exp
				if !yield(c) {
					return
				}
			}
		}), run)
	}
	middleware.CSRFExpirationTime = time.Hour
}

// expandOps writes repeated steps out; a negative number goes through the nonces backwards.
func expandOps(ops []c01Op) (out []c01Op) {
	for _, op := range ops {
		n, step := op.Times, 1
		if n < 0 {
			n, step = -n, -1
		}
		op.Times = 0
		if n == 0 {
			n = 1
		}
		for ; n > 0; n-- {
			out = append(out, op)
			if op.Nonce > 0 {
				op.Nonce += step
			}
		}
	}
	return out
}

func c01Histories(depth int) iter.Seq[c01Case] {
	return func(yield func(c01Case) bool) {
		var rec func(ops []c01Op, issued int) bool
		rec = func(ops []c01Op, issued int) bool {
			if len(ops) > 0 && ops[len(ops)-1].Method != "" {
				for k := 0; k < 2; k++ {
					if !yield(c01Case{Ops: append([]c01Op{}, ops...), Caches: k}) {
						return false
					}
				}
			}
			if len(ops) == depth {
				return true
			}
			next := func(o c01Op, n int) bool { return rec(append(ops[:len(ops):len(ops)], o), n) }
			for _, t := range []int{30, 59, 60} {
				if !next(c01Op{Tick: t}, issued) {
					return false
				}
			}
			if !next(c01Op{Method: "GET"}, issued+1) || !next(c01Op{Method: "OPTIONS", Where: "header", Nonce: 1, Route: 1}, issued+1) {
				return false
			}
			for n := -1; n <= issued; n++ {
				for rt := 0; rt < 2; rt++ {
					if !next(c01Op{Method: "POST", Where: []string{"header", "form"}[(n+2)%2], Nonce: n, Route: rt, HErr: rt == 1 && n%2 == 1}, issued+1) {
						return false
					}
				}
			}
			return next(c01Op{Method: "DELETE", Where: "query", Nonce: 1}, issued+1)
		}
		rec(nil, 0)
	}
}

// ---------------------------------------------------------------- K01

type k01Op struct {
	K string `json:"k"` // add, remove, tick
	X string `json:"x,omitempty"`
	D int    `json:"d,omitempty"` // seconds (add: expiration in half seconds)
}

type k01Case struct {
	Ops []k01Op `json:"ops"`
}

func checkK01(r *kit.Run) {
	r.Rule = "states = distinct contents (keys with remaining times) of the cache reached; transitions = operations executed"
	keys := []string{"a", "b", "", "A", "ab", "a\x00"}
	depth := kit.Pick(r, 5, 7)
	var ops []k01Op
	for _, k := range []string{"a", "b"} {
		for _, d := range []int{0, 2, 4, -2} {
			ops = append(ops, k01Op{"add", k, d})
		}
		ops = append(ops, k01Op{K: "remove", X: k})
	}
	ops = append(ops, k01Op{"add", "", 3}, k01Op{K: "tick", D: 1}, k01Op{K: "tick", D: 2}, k01Op{K: "tick", D: 3})
	r.Bound("all sequences of up to %d operations of %d (add with 4 durations, remove, passing time to, before and after expiry) on 3 keys; all keys looked up twice after every operation; a separate cache filled in parallel", depth, len(ops))
	check := func(c k01Case) *kit.Failure {
		return bubble(r.T, func() *kit.Failure {
			var real cache.Cache = cache.NewInMemory()
			second := cache.NewInMemory()
			model := map[string]time.Time{}
			for i, op := range c.Ops {
				switch op.K {
				case "add":
					d := time.Duration(op.D) * 500 * time.Millisecond
					if err := real.Add(op.X, d); err != nil {
						return kit.Failf("add", "Add failed: %v", err)
					}
					model[op.X] = time.Now().Add(d)
					second.Remove(op.X)
				case "remove":
					real.Remove(op.X)
					delete(model, op.X)
					second.Add(op.X, time.Hour)
				case "tick":
					time.Sleep(time.Duration(op.D) * 500 * time.Millisecond)
				}
				for rep := 0; rep < 2; rep++ {
					for _, k := range keys {
						e, found := model[k]
						want := found && time.Now().Before(e)
						if got := real.Contains(k); got != want {
							return kit.Failf("contains", "after step %d of %v key %q is contained=%v, want %v", i, c.Ops, k, got, want)
						}
					}
				}
				var sig []any
				for _, k := range keys {
					if e, ok := model[k]; ok && time.Now().Before(e) {
						sig = append(sig, k, time.Until(e))
					}
				}
				r.AddTransitions(1)
				if r.Seen(kit.Hash(fmt.Sprint(sig...))) {
					r.AddStates(1)
				}
			}
			return nil
		})
	}
	type extreme struct{ D, After time.Duration }
	kit.Explore(r, "extremes", seqOf(func(yield func(extreme) bool) {
		ds := []time.Duration{math.MinInt64, -1, 0, 1, time.Millisecond, time.Hour, 1<<32 - 1, 1 << 32, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64}
		for _, d := range ds {
			for _, a := range ds {
				for k := time.Duration(-2); k <= 2; k++ {
					if a >= 0 && a < 1<<60 && a+k >= 0 && !yield(extreme{d, a + k}) {
						return
					}
				}
			}
		}
	}), func(c extreme) *kit.Failure {
		return bubble(r.T, func() *kit.Failure {
			ca := cache.NewInMemory()
			ca.Add("k", c.D)
			time.Sleep(c.After)
			if got := ca.Contains("k"); got != (c.After < c.D) {
				return kit.Failf("extreme", "added for %d ns, after %d ns contained=%v", c.D, c.After, got)
			}
			return nil
		})
	})
	near := []string{"ab", "ab ", " ab", "ab\t", "ab\n", "ab\r\n", "AB", "Ab", "a b", "ab\x00", "\x00ab", "ab/", "/ab", "ab.", "a%62", "%61b", "ab?x", "ab#", "aab", "abb", "a", "b", "ab=", "ab==", "ab+", "a+b", "a-b", "a_b", "ba", "abab", "ab\ufeff", "\ufeffab", "a\u00adb", "a\u200bb", "\u00e9", "e\u0301", "e", "\u017f", "s", "S", "\u212a", "k", "K", "\u0130", "i", "I", "\u00df", "ss", "\xff", "\xfe", "\ufffd", "0", "00", "1", "01", "+1", "1.0", "", " ", "\x00", "nil", "null", "\"ab\"", "'ab'", "*", "a*", "?", "csrf:ab", "ab:1", ":ab", "\uff41b"}
	r.Bound("%d keys that are near each other (blanks, case, escapes, composed characters, separators, numbers, invalid UTF-8): each alone, and each pair added with one removed", len(near))
	type pair struct{ A, B int }
	kit.Explore(r, "near keys", seqOf(func(yield func(pair) bool) {
		for a := range near {
			for b := range near {
				if !yield(pair{a, b}) {
					return
				}
			}
		}
	}), func(c pair) *kit.Failure {
		return bubble(r.T, func() *kit.Failure {
			ca := cache.NewInMemory()
			look := func(when string, in ...int) *kit.Failure {
				for i, k := range near {
					if got := ca.Contains(k); got != slices.Contains(in, i) {
						return kit.Failf("near", "%s: %q is contained=%v (keys %q and %q)", when, k, got, near[c.A], near[c.B])
					}
				}
				return nil
			}
			ca.Add(near[c.A], time.Hour)
			if f := look("one added", c.A); f != nil {
				return f
			}
			ca.Add(near[c.B], 2*time.Hour)
			if f := look("two added", c.A, c.B); f != nil {
				return f
			}
			time.Sleep(90 * time.Minute)
			if f := look("one expired", c.B); f != nil {
				return f
			}
			ca.Add(near[c.A], time.Hour)
			ca.Remove(near[c.B])
			if c.A == c.B {
				return look("removed")
			}
			return look("one removed", c.A)
		})
	})
	type volume struct {
		N, Len  int
		Reverse bool
		Same    int // all keys have the same first or last Len bytes
	}
	most := kit.Pick(r, 1<<14, 1<<17)
	r.Bound("up to %d keys at once, keys of up to 1 MB that differ in a single byte at either end or in the middle", most)
	kit.Explore(r, "volume", seqOf(func(yield func(volume) bool) {
		for _, n := range sizesTo(100, most) {
			for _, rev := range []bool{false, true} {
				if !yield(volume{N: n, Reverse: rev}) {
					return
				}
			}
		}
		for _, l := range sizesTo(70, 1<<20) {
			for same := 0; same < 3; same++ {
				if !yield(volume{N: 5, Len: l, Same: same}) {
					return
				}
			}
		}
	}), func(c volume) *kit.Failure {
		return bubble(r.T, func() *kit.Failure {
			ca := cache.NewInMemory()
			key := func(i int) string {
				k := fmt.Sprint("k", i)
				switch {
				case c.Len == 0:
				case c.Same == 0:
					k = textOf(c.Len) + k
				case c.Same == 1:
					k += textOf(c.Len)
				default:
					k = textOf(c.Len/2) + k + textOf(c.Len/2)
				}
				return k
			}
			keys := make([]string, c.N+1)
			for i := range keys {
				keys[i] = key(i)
			}
			life := func(i int) time.Duration { return time.Duration(1+i%4) * time.Second }
			at := func(i int) int {
				if c.Reverse {
					return c.N - 1 - i
				}
				return i
			}
			for i := 0; i < c.N; i++ {
				ca.Add(keys[at(i)], life(at(i)))
			}
			removed := make([]bool, c.N+1)
			removed[c.N] = true // never added
			look := func(age time.Duration, when string) *kit.Failure {
				for i := range keys {
					want := !removed[i] && age < life(i)
					if got := ca.Contains(keys[i]); got != want {
						return kit.Failf("volume", "%+v: %s key %d of %d is contained=%v, want %v", c, when, i, c.N, got, want)
					}
				}
				return nil
			}
			if f := look(0, "after the additions"); f != nil {
				return f
			}
			for i := 0; i < c.N; i += 3 {
				ca.Remove(keys[i])
				removed[i] = true
			}
			for s := 0; s <= 4; s++ {
				if f := look(time.Duration(s)*time.Second, fmt.Sprintf("%d s later", s)); f != nil {
					return f
				}
				time.Sleep(time.Second)
			}
			return nil
		})
	})
	kit.Explore(r, "sequences", seqOf(func(yield func(k01Case) bool) {
		for _, w := range indexWords(len(ops), depth) {
			if len(w) != depth {
				continue
			}
			c := k01Case{}
			for _, i := range w {
				c.Ops = append(c.Ops, ops[i])
			}
			if !yield(c) {
				return
			}
		}
	}), check)
}
