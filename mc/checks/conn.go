package checks

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"gofremc/kit"
	"gofremc/wire"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { All["W01"] = checkW01 }

// w01Req is one request of a kept-alive connection.
type w01Req struct {
	Method string
	What   string // "resp", "err", "panic", "lost" (no such route)
	S      RS     `json:",omitempty"`
	Stack  int    `json:",omitempty"` // index into w01Stacks
	AE     string `json:",omitempty"`
	Body   string `json:",omitempty"` // "", "len", "chunked", "expect"
	Reads  bool   `json:",omitempty"` // the handler reads the body
	Err    int    `json:",omitempty"` // the error of "err": 0 an own one, n the n-th of the vocabulary
}

var w01Stacks = [][]int{
	{},
	{2},                      // compression
	{5, 4, 0, 2},             // recovery, translation, headers, compression
	{0, 1, 2, 3, 4, 5, 6, 7}, // all
	{3, 2, 4, 5},             // dump, compression, translation, recovery
}

type w01Case struct {
	Reqs []w01Req
	Pipe bool // all requests are sent at once
}

func (q w01Req) mux(m *gofre.MuxHandler, i int, bad func(string)) {
	if q.What == "lost" {
		return
	}
	mws, _ := m08Stack(w01Stacks[q.Stack])
	m.HandleRequest(q.Method, fmt.Sprintf("/%d", i), func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if q.Reads {
			b, err := io.ReadAll(mc.R.Body)
			if q.Body != "" && (err != nil || string(b) != w01Body) {
				bad(fmt.Sprintf("%q, %v", b, err))
			}
		}
		switch q.What {
		case "err":
			if q.Err > 0 {
				return nil, errorVocab[q.Err-1]
			}
			return nil, errors.New("failed")
		case "panic":
			panic("raised")
		}
		if q.S.Kind == "hijack" {
			return response.NewHttpHijackConnectionResponse(func(c net.Conn, rw *bufio.ReadWriter, err error) {
				if err == nil && c != nil {
					io.WriteString(c, "taken over")
					c.Close()
				}
			}), nil
		}
		return q.S.build(), nil
	}, mws...)
}

// w01Recovers tells whether a stack recovers panics.
func w01Recovers(i int) bool {
	for _, m := range w01Stacks[i] {
		if m08Names[m] == "panic" {
			return true
		}
	}
	return false
}

const w01Body = "the body of a request"

func (q w01Req) text(i int, last bool) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s /%d HTTP/1.1\r\nHost: site.example\r\nX-Csrf-Token: NONCE\r\n", q.Method, i)
	if q.AE != "" {
		fmt.Fprintf(&sb, "Accept-Encoding: %s\r\n", q.AE)
	}
	if last {
		sb.WriteString("Connection: close\r\n")
	}
	switch q.Body {
	case "expect":
		sb.WriteString("Expect: 100-continue\r\n")
		fallthrough
	case "len":
		fmt.Fprintf(&sb, "Content-Length: %d\r\n\r\n%s", len(w01Body), w01Body)
	case "chunked":
		fmt.Fprintf(&sb, "Transfer-Encoding: chunked\r\n\r\n3\r\n%s\r\n%x\r\n%s\r\n0\r\n\r\n", w01Body[:3], len(w01Body)-3, w01Body[3:])
	default:
		sb.WriteString("\r\n")
	}
	return sb.String()
}

type oneConn struct {
	c    chan net.Conn
	done chan struct{}
	once sync.Once
}

func (l *oneConn) Accept() (net.Conn, error) {
	select {
	case c := <-l.c:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *oneConn) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *oneConn) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 80} }

func (c w01Case) run(seen func(uint64) bool) *kit.Failure {
	var bodies sync.Map // wrong request bodies
	newMux := func() *gofre.MuxHandler {
		m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
		if err != nil {
			panic(err)
		}
		for i, q := range c.Reqs {
			q.mux(m, i, func(b string) { bodies.Store(i, b) })
		}
		return m
	}
	m := newMux()
	srv := &http.Server{Handler: m, ErrorLog: log.New(io.Discard, "", 0)}
	l := &oneConn{c: make(chan net.Conn, 1), done: make(chan struct{})}
	cl, sv := net.Pipe()
	l.c <- sv
	go srv.Serve(l)
	defer srv.Close()
	defer cl.Close()
	cl.SetDeadline(time.Now().Add(60 * time.Second))
	br := bufio.NewReader(cl)
	next := make(chan struct{}, len(c.Reqs)+1)
	sent := make(chan struct{})
	go func() {
		defer close(sent)
		if c.Pipe {
			var sb bytes.Buffer
			for i, q := range c.Reqs {
				sb.WriteString(q.text(i, i == len(c.Reqs)-1))
			}
			cl.Write(sb.Bytes()) // may fail once the server is done with the connection
			return
		}
		for i, q := range c.Reqs {
			if i > 0 {
				if _, ok := <-next; !ok {
					return
				}
			}
			if _, err := io.WriteString(cl, q.text(i, i == len(c.Reqs)-1)); err != nil {
				return
			}
		}
	}()
	defer func() { cl.Close(); close(next); <-sent }()
	for i, q := range c.Reqs {
		last := i == len(c.Reqs)-1
		// what the request gets alone
		rec := wire.New()
		rec.Strict = true
		rq, err := http.ReadRequest(bufio.NewReader(strings.NewReader(q.text(i, last))))
		if err != nil {
			panic(err)
		}
		rq.RemoteAddr = "pipe"
		panicked := false
		func() {
			defer func() { panicked = recover() != nil }()
			newMux().ServeHTTP(rec.Writer("full"), rq)
		}()
		if panicked != (q.What == "panic" && !w01Recovers(q.Stack)) {
			return kit.Failf("alone", "request %d alone: panicked is %v", i, panicked)
		}
		if (rec.Hijacks > 0) != (q.What == "resp" && q.S.Kind == "hijack") {
			return kit.Failf("alone", "request %d alone: the connection was taken over %d times", i, rec.Hijacks)
		}
		if panicked || rec.Hijacks > 0 {
			// the connection ends here
			b, err := io.ReadAll(br)
			want := ""
			if rec.Hijacks > 0 {
				want = "taken over"
			}
			if q.Body == "expect" {
				b = bytes.TrimPrefix(b, []byte("HTTP/1.1 100 Continue\r\n\r\n"))
			}
			if string(b) != want {
				return kit.Failf("rest", "request %d: after the end of the exchange the connection carries %.300q, %v, want %q", i, b, err, want)
			}
			seen(kit.Hash("w01", i, panicked))
			return nil
		}
		rec.End()
		if b, ok := bodies.Load(i); ok {
			return kit.Failf("request", "request %d: its handler got the body %v, sent was %q", i, b, w01Body)
		}
		want := rec.View()
		var rs *http.Response
		for rs == nil || rs.StatusCode == 100 {
			if rs, err = http.ReadResponse(br, &http.Request{Method: q.Method}); err != nil {
				return kit.Failf("framing", "request %d: no response: %v", i, err)
			}
		}
		b, err := io.ReadAll(rs.Body)
		if err != nil {
			return kit.Failf("framing", "request %d: the body ends with %v after %d bytes", i, err, len(b))
		}
		got := wire.View{Status: rs.StatusCode, Headers: map[string]string{}, Body: string(b)}
		for k, vs := range rs.Header {
			if k == "Set-Cookie" {
				got.Cookies = append([]string(nil), vs...)
				sort.Strings(got.Cookies)
				continue
			}
			got.Headers[k] = strings.Join(vs, "\x00")
		}
		_, typed := rec.H["Content-Type"]
		for _, v := range []wire.View{got, want} {
			for _, k := range []string{"Date", "Content-Length", "Connection", "Transfer-Encoding"} {
				delete(v.Headers, k)
			}
			if !typed || want.Status == 304 { // net/http drops it from a 304
				delete(v.Headers, "Content-Type")
			}
		}
		if q.Method == "HEAD" || want.Status == 204 || want.Status == 304 {
			want.Body = ""
		}
		if d := wire.Diff(got, want); d != "" {
			return kit.Failf("diff", "request %d: %s\n got %v\nwant %v", i, d, got, want)
		}
		if rs.Close && !last && q.Body == "expect" {
			break // net/http ends the connection when the expected body was not asked for
		}
		if rs.Close && !last {
			return kit.Failf("closed", "request %d: the connection is closed", i)
		}
		if b, ok := bodies.Load(i); ok {
			return kit.Failf("request", "request %d: its handler got the body %v, sent was %q", i, b, w01Body)
		}
		seen(kit.Hash("w01", got.Status, len(got.Headers), got.Body))
		next <- struct{}{}
	}
	if b, err := io.ReadAll(br); err != nil || len(b) > 0 {
		return kit.Failf("rest", "after the last response the connection carries %.300q, %v", b, err)
	}
	return nil
}

// w01Alphabet are requests that leave a connection in different states.
func w01Alphabet() (qs []w01Req) {
	for _, st := range []int{0, 3, 4} {
		qs = append(qs,
			w01Req{Method: "GET", What: "resp", S: RS{Kind: "text", Body: 3, Hdr: 2, Ck: 2}, Stack: st, AE: "gzip"},
			w01Req{Method: "HEAD", What: "resp", S: RS{Kind: "html", Body: 3}, Stack: st, AE: "gzip"},
			w01Req{Method: "GET", What: "resp", S: RS{Kind: "rawflush", Body: 3}, Stack: st, AE: "deflate"},
			w01Req{Method: "POST", What: "resp", S: RS{Kind: "json", Status: 201, Body: 1}, Stack: st, Body: "len"},
			w01Req{Method: "POST", What: "resp", S: RS{Kind: "stream", Body: 3}, Stack: st, Body: "chunked", Reads: true, AE: "gzip"},
			w01Req{Method: "POST", What: "err", Stack: st, Body: "chunked"},
			w01Req{Method: "GET", What: "resp", S: RS{Kind: "text", Status: 204, Body: 0}, Stack: st, AE: "gzip"},
			w01Req{Method: "GET", What: "resp", S: RS{Kind: "redirect302"}, Stack: st},
		)
	}
	qs = append(qs,
		w01Req{Method: "GET", What: "resp", S: RS{Kind: "adaptor", Body: 3}},
		w01Req{Method: "GET", What: "lost"},
		w01Req{Method: "POST", What: "lost", Body: "len"},
		w01Req{Method: "GET", What: "panic"},
		w01Req{Method: "GET", What: "panic", Stack: 2},
		w01Req{Method: "GET", What: "resp", S: RS{Kind: "hijack"}},
		w01Req{Method: "GET", What: "resp", S: RS{Kind: "hijack"}, Stack: 2, AE: "gzip"},
		w01Req{Method: "GET", What: "resp", S: RS{Kind: "sse"}},
	)
	return qs
}

func checkW01(r *kit.Run) {
	r.Rule = "one evaluation = one connection; distinct by (status, number of headers, body) of the responses on it"
	r.Bound("every response kind x 7 statuses x 4 methods x %d middleware stacks x Accept-Encoding x header sets (a declared length among them) x request bodies {none, length, chunked, expecting 100} read or not, each followed by a plain request on the same HTTP/1.1 connection; sent one by one and all at once", len(w01Stacks))
	r.Assume = []string{"the server is net/http's over an in-memory connection, the client net/http's response parser", "statuses 1xx are left out"}
	after := w01Req{Method: "GET", What: "resp", S: RS{Kind: "text", Body: 1, Ck: 2}}
	kit.Explore(r, "each", seqOf(func(yield func(w01Case) bool) {
		for _, k := range allKinds {
			for _, st := range []int{0, 201, 204, 304, 404, 500, 503} {
				if !statusFree(k) && st != 0 {
					continue
				}
				for _, me := range []string{"GET", "HEAD", "POST", "PUT"} {
					for stack := range w01Stacks {
						for v, q := range []w01Req{{AE: "gzip", Body: "len"}, {AE: "", Body: "chunked", Reads: true}, {AE: "deflate", Body: "expect"}, {AE: "gzip", Body: "expect", Reads: true}, {AE: "gzip"}} {
							if v < 4 && (me == "GET" || me == "HEAD") {
								if v > 1 {
									continue
								}
								q.Body = ""
							}
							q.Method, q.What, q.Stack = me, "resp", stack
							q.S = RS{Kind: k, Status: st, Body: []int{3, 1, 0, 2, 3}[v], Hdr: []int{2, 7, 5, 0, 7}[v], Ck: []int{2, 0, 3, 1, 0}[v]}
							if strings.HasPrefix(k, "redirect") && q.S.Hdr == 7 {
								q.S.Hdr = 6 // the body of a redirect is not the caller's
							}
							if v == 1 && stack > 0 && r.Thorough() == false && st > 204 {
								continue
							}
							if !yield(w01Case{Reqs: []w01Req{q, after}, Pipe: v%2 == 1}) {
								return
							}
						}
					}
				}
			}
		}
	}), func(c w01Case) *kit.Failure { return c.run(r.Seen) })
	r.Bound("all statuses from 200 to 599 x 4 response kinds x {GET, HEAD, POST}; %d response headers; %d errors", len(headerVocab), len(errorVocab))
	kit.Explore(r, "vocabulary", seqOf(func(yield func(w01Case) bool) {
		for st := 200; st < 600; st++ {
			for _, k := range []string{"text", "headers", "stream", "adaptor"} {
				for _, me := range []string{"GET", "HEAD", "POST"} {
					q := w01Req{Method: me, What: "resp", S: RS{Kind: k, Status: st, Body: 3}, Stack: []int{0, 1}[st%2], AE: "gzip"}
					if me == "POST" {
						q.Body = "len"
					}
					if !yield(w01Case{Reqs: []w01Req{q, after}}) {
						return
					}
				}
			}
		}
		for i := range headerVocab {
			if headerVocab[i] == [2]string{"Pragma", "no-cache"} {
				continue // net/http's client adds a header to such a response
			}
			for _, k := range []string{"text", "adaptor", "headers"} {
				for stack := range w01Stacks {
					if !yield(w01Case{Reqs: []w01Req{{Method: "GET", What: "resp", S: RS{Kind: k, Hdr: vocab + i, Body: 3}, Stack: stack, AE: "gzip"}, after}}) {
						return
					}
				}
			}
		}
		for i := range errorVocab {
			for stack := range w01Stacks {
				for _, me := range []string{"GET", "POST"} {
					if !yield(w01Case{Reqs: []w01Req{{Method: me, What: "err", Err: i + 1, Stack: stack}, after}}) {
						return
					}
				}
			}
		}
	}), func(c w01Case) *kit.Failure { return c.run(r.Seen) })
	alpha := w01Alphabet()
	n := kit.Pick(r, 2, 3)
	r.Bound("all sequences of up to %d of %d requests that leave the connection in different states, followed by a plain request", n, len(alpha))
	kit.Explore(r, "sequences", seqOf(func(yield func(w01Case) bool) {
		var rec func(w []w01Req) bool
		rec = func(w []w01Req) bool {
			if len(w) > 0 {
				for _, p := range []bool{false, true} {
					if !yield(w01Case{Reqs: append(append([]w01Req(nil), w...), after), Pipe: p}) {
						return false
					}
				}
			}
			if len(w) == n {
				return true
			}
			for _, q := range alpha {
				if !rec(append(append([]w01Req(nil), w...), q)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	}), func(c w01Case) *kit.Failure { return c.run(r.Seen) })
	r.Bound("bodies around every power of two up to a mebibyte, up to 300 headers and cookies, x 3 stacks x {GET, HEAD} x {text, stream, adaptor, rawflush}")
	kit.Explore(r, "sizes", seqOf(func(yield func(w01Case) bool) {
		for _, k := range []string{"text", "stream", "adaptor", "rawflush"} {
			for _, stack := range []int{0, 1, 3} {
				for _, me := range []string{"GET", "HEAD"} {
					put := func(s RS) bool {
						return yield(w01Case{Reqs: []w01Req{{Method: me, What: "resp", S: s, Stack: stack, AE: "gzip"}, after}, Pipe: stack == 1})
					}
					for _, n := range sizesTo(20, 1<<20) {
						if !put(RS{Kind: k, Body: sized + n, Hdr: 2}) || n < 5000 && !put(RS{Kind: k, Body: sized + n, Hdr: 7}) {
							return
						}
					}
					for _, n := range sizesTo(8, 300) {
						if !put(RS{Kind: k, Body: 1, Hdr: sized + n}) || !put(RS{Kind: k, Body: 1, Ck: sized + n}) {
							return
						}
					}
				}
			}
		}
	}), func(c w01Case) *kit.Failure { return c.run(r.Seen) })
}
