package checks

import (
	"context"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"gofremc/kit"
	"gofremc/wire"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { All["W02"] = checkW02 }

// w02Stream is one event stream of a HTTP/2 connection.
type w02Stream struct {
	Stack int
	AE    string
	Big   bool   `json:",omitempty"`
	End   string // "close": the generator ends it, "cancel": the client does, "deaf": the client does, the generator never notices
	Last  string `json:",omitempty"`
}

type w02Case struct {
	Streams []w02Stream
	Order   string // '0', '1', ..: the stream that has the next event; 'r': an ordinary request
	Ends    string // the order in which the streams end
}

func w02Event(n int, big bool) response.ServerSentEvent {
	switch n % 4 {
	case 0:
		d := "first"
		if big {
			d = strings.Repeat("0123456789abcde ", 2600)
		}
		return response.ServerSentEvent{Name: "n", Id: fmt.Sprint(n), Data: []string{d}}
	case 1:
		return response.ServerSentEvent{Data: []string{"two", "lines"}}
	case 2:
		d := "third\npart"
		if big {
			d = strings.Repeat("x", 70000)
		}
		return response.ServerSentEvent{Data: []string{d}, Retry: 10 + n}
	}
	return response.ServerSentEvent{Name: "last", Data: []string{""}, Id: "z"}
}

const w02Wait = 20 * time.Second

func (c w02Case) run(seen func(uint64) bool) *kit.Failure {
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	if err != nil {
		panic(err)
	}
	type side struct {
		gen   chan response.ServerSentEvent
		ctx   chan context.Context
		mc    chan path.MatchingContext
		id    chan string
		left  chan struct{} // closed when ServeHTTP returned
		want  string
		mu    sync.Mutex
		raw   []byte
		enc   string
		ended bool
		rerr  error
		grow  chan struct{}
		stop  context.CancelFunc
	}
	sides := make([]*side, len(c.Streams))
	for i, s := range c.Streams {
		sd := &side{gen: make(chan response.ServerSentEvent), ctx: make(chan context.Context, 8), mc: make(chan path.MatchingContext, 8), id: make(chan string, 8), left: make(chan struct{}), grow: make(chan struct{}, 1)}
		sides[i] = sd
		mws, _ := m08Stack(w01Stacks[s.Stack])
		m.HandleGet(fmt.Sprintf("/s%d/{who}/x", i), func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			sd.mc <- mc
			return response.SSEHttpResponseWithHeadersAndCookies(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
				sd.id <- last
				sd.ctx <- ctx
				return sd.gen
			}, response.HttpHeaders{"X-A": "1"}, RS{Ck: 2}.cookies()), nil
		}, mws...)
	}
	m.HandleGet("/{plain}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK("an ordinary answer"), nil
	})
	srv := &http.Server{ErrorLog: log.New(io.Discard, "", 0), Protocols: new(http.Protocols), Handler: http.HandlerFunc(func(w http.ResponseWriter, rq *http.Request) {
		if rest, ok := strings.CutPrefix(rq.URL.Path, "/s"); ok {
			defer close(sides[rest[0]-'0'].left)
		}
		m.ServeHTTP(w, rq)
	})}
	srv.Protocols.SetUnencryptedHTTP2(true)
	l := &oneConn{c: make(chan net.Conn, 1), done: make(chan struct{})}
	cl, sv := net.Pipe()
	l.c <- sv
	go srv.Serve(l)
	defer srv.Close()
	defer cl.Close()
	tr := &http.Transport{Protocols: new(http.Protocols), DisableCompression: true, DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
		return cl, nil
	}}
	tr.Protocols.SetUnencryptedHTTP2(true)
	conn, err := tr.NewClientConn(context.Background(), "http", "site.example:80")
	if err != nil {
		panic(err)
	}
	defer conn.Close()
	timer := time.NewTimer(w02Wait)
	defer timer.Stop()
	all, stopAll := context.WithCancel(context.Background())
	defer stopAll()
	for i, s := range c.Streams {
		sd := sides[i]
		ctx, stop := context.WithCancel(all)
		sd.stop = stop
		rq, _ := http.NewRequestWithContext(ctx, "GET", fmt.Sprintf("http://site.example/s%d/client%d/x", i, i), nil)
		rq.Header.Set("X-Csrf-Token", "NONCE")
		if s.AE != "" {
			rq.Header.Set("Accept-Encoding", s.AE)
		}
		if s.Last != "" {
			rq.Header.Set("Last-Event-Id", s.Last)
		}
		go func() {
			end := func(err error) {
				sd.mu.Lock()
				sd.ended, sd.rerr = true, err
				sd.mu.Unlock()
				select {
				case sd.grow <- struct{}{}:
				default:
				}
			}
			rs, err := conn.RoundTrip(rq)
			if err != nil {
				end(err)
				return
			}
			defer rs.Body.Close()
			if rs.StatusCode != 200 || !strings.HasPrefix(rs.Header.Get("Content-Type"), "text/event-stream") || rs.Header.Get("X-A") != "1" || len(rs.Cookies()) != len(ckOf(2)) {
				end(fmt.Errorf("the response is %d %v", rs.StatusCode, rs.Header))
				return
			}
			sd.mu.Lock()
			sd.enc = rs.Header.Get("Content-Encoding")
			sd.mu.Unlock()
			b := make([]byte, 32<<10)
			for {
				n, err := rs.Body.Read(b)
				sd.mu.Lock()
				sd.raw = append(sd.raw, b[:n]...)
				sd.mu.Unlock()
				if err != nil {
					if err == io.EOF {
						err = nil
					}
					end(err)
					return
				}
				select {
				case sd.grow <- struct{}{}:
				default:
				}
			}
		}()
		select {
		case id := <-sd.id:
			if id != s.Last {
				return kit.Failf("last", "stream %d: the generator is given last event id %q, want %q", i, id, s.Last)
			}
		case <-sd.grow:
			return kit.Failf("stuck", "stream %d: it ended (%v) before the generator was called", i, sd.rerr)
		case <-timer.C:
			return kit.Failf("stuck", "stream %d: the generator is not called", i)
		}
	}
	// wait until the client of stream i has got want
	arrives := func(i int, what string) *kit.Failure {
		sd := sides[i]
		for {
			sd.mu.Lock()
			got := string(sd.raw)
			if sd.enc != "" {
				got = wire.DecodePrefix(sd.enc, got)
			}
			ended, rerr := sd.ended, sd.rerr
			sd.mu.Unlock()
			if got == sd.want && !ended {
				return nil
			}
			if ended || !strings.HasPrefix(sd.want, got) {
				return kit.Failf("content", "stream %d, %s: the client has %d bytes %.200q (ended %v, %v), want %d bytes %.200q", i, what, len(got), got, ended, rerr, len(sd.want), sd.want)
			}
			select {
			case <-sd.grow:
			case <-timer.C:
				return kit.Failf("late", "stream %d, %s: the client has only %d bytes %.200q of %d while the stream is quiet", i, what, len(got), got, len(sd.want))
			}
		}
	}
	plain := func(what string) *kit.Failure {
		ctx, stop := context.WithTimeout(all, w02Wait)
		defer stop()
		rq, _ := http.NewRequestWithContext(ctx, "GET", "http://site.example/plain", nil)
		rs, err := conn.RoundTrip(rq)
		if err != nil {
			return kit.Failf("plain", "%s: an ordinary request on the connection gets %v", what, err)
		}
		defer rs.Body.Close()
		b, err := io.ReadAll(rs.Body)
		if err != nil || rs.StatusCode != 200 || string(b) != "an ordinary answer" || rs.ProtoMajor != 2 {
			return kit.Failf("plain", "%s: an ordinary request on the connection gets HTTP/%d %d %.200q, %v", what, rs.ProtoMajor, rs.StatusCode, b, err)
		}
		return nil
	}
	mcs := make([]path.MatchingContext, len(c.Streams))
	for i, sd := range sides {
		mcs[i] = <-sd.mc
	}
	count := make([]int, len(c.Streams))
	for k, o := range c.Order {
		if o == 'r' {
			if f := plain(fmt.Sprintf("step %d", k)); f != nil {
				return f
			}
			continue
		}
		i := int(o - '0')
		sd := sides[i]
		ev := w02Event(count[i], c.Streams[i].Big)
		if v := mcs[i].PathVar("who"); v != fmt.Sprintf("client%d", i) {
			return kit.Failf("var", "stream %d, event %d: the path variable is %q", i, count[i], v)
		}
		count[i]++
		select {
		case sd.gen <- ev:
		case <-sd.left:
			return kit.Failf("content", "stream %d ended before its event %d", i, count[i]-1)
		case <-timer.C:
			return kit.Failf("stuck", "stream %d: event %d is not taken", i, count[i]-1)
		}
		sd.want += ev.String()
		for j := range sides { // nothing but this event moved
			if j == i || count[j] > 0 {
				if f := arrives(j, fmt.Sprintf("after step %d", k)); f != nil {
					return f
				}
			}
		}
	}
	for _, o := range c.Ends {
		i := int(o - '0')
		sd := sides[i]
		ctx := <-sd.ctx
		if err := ctx.Err(); err != nil {
			return kit.Failf("ctx", "stream %d: the context of the generator is done (%v) while the client listens", i, err)
		}
		if c.Streams[i].End == "close" {
			close(sd.gen)
		} else {
			sd.stop()
		}
		select {
		case <-sd.left:
		case <-timer.C:
			return kit.Failf("stuck", "stream %d: the handler does not return after %s", i, c.Streams[i].End)
		}
		select {
		case <-ctx.Done():
		case <-timer.C:
			return kit.Failf("ctx", "stream %d: the context of the generator is not done after %s", i, c.Streams[i].End)
		}
		if c.Streams[i].End == "close" {
			for {
				sd.mu.Lock()
				ended, rerr, raw, enc := sd.ended, sd.rerr, string(sd.raw), sd.enc
				sd.mu.Unlock()
				if ended {
					got, err := wire.Decode(enc, raw)
					if rerr != nil || err != nil || got != sd.want {
						return kit.Failf("content", "stream %d, ended: the client has %d bytes %.200q (%v, %v), want %d bytes %.200q", i, len(got), got, rerr, err, len(sd.want), sd.want)
					}
					break
				}
				select {
				case <-sd.grow:
				case <-timer.C:
					return kit.Failf("stuck", "stream %d: the client sees no end", i)
				}
			}
		}
		for j, other := range sides { // the others go on
			if strings.ContainsRune(c.Ends[strings.IndexRune(c.Ends, o)+1:], rune('0'+j)) {
				select {
				case <-other.left:
					return kit.Failf("content", "stream %d ended with stream %d", j, i)
				default:
				}
			}
		}
		if f := plain("after the end of stream " + string(o)); f != nil {
			return f
		}
		seen(kit.Hash("w02", c.Streams[i].Stack, c.Streams[i].End, len(sd.raw), sd.enc))
	}
	return nil
}

func checkW02(r *kit.Run) {
	r.Rule = "one evaluation = one connection; distinct by (stack, kind of end, bytes and coding of the stream)"
	r.Assume = []string{"server and client are net/http's HTTP/2 over an in-memory connection", "an event that has not arrived after a minute is late"}
	depth := kit.Pick(r, 3, 5)
	aes := []string{"", "gzip", "deflate"}
	ends := []string{"close", "cancel", "deaf"}
	r.Bound("one stream: all orders of up to %d events and ordinary requests x %d middleware stacks x %d codings x {closed by the generator, left by the client, left with a deaf generator} x {short, long events} x {first, resumed}", depth, len(w01Stacks), len(aes))
	kit.Explore(r, "one", seqOf(func(yield func(w02Case) bool) {
		orders := []string{""}
		for lo, d := 0, 0; d < depth; d++ {
			hi := len(orders)
			for _, w := range orders[lo:hi] {
				orders = append(orders, w+"0", w+"r")
			}
			lo = hi
		}
		for _, o := range orders {
			for stack := range w01Stacks {
				for _, ae := range aes {
					for _, end := range ends {
						for _, v := range []w02Stream{{}, {Big: true, Last: "7"}} {
							v.Stack, v.AE, v.End = stack, ae, end
							if !yield(w02Case{Streams: []w02Stream{v}, Order: o, Ends: "0"}) {
								return
							}
						}
					}
				}
			}
		}
	}), func(c w02Case) *kit.Failure { return c.run(r.Seen) })
	n := kit.Pick(r, 2, 3)
	r.Bound("two streams of one connection: every interleaving of %d events each with an ordinary request at every place x stacks x all pairs of ends in both orders", n)
	kit.Explore(r, "two", seqOf(func(yield func(w02Case) bool) {
		var orders []string
		var rec func(w string, a, b int, r bool)
		rec = func(w string, a, b int, r bool) {
			if a == n && b == n && r {
				orders = append(orders, w)
				return
			}
			if a < n {
				rec(w+"0", a+1, b, r)
			}
			if b < n {
				rec(w+"1", a, b+1, r)
			}
			if !r {
				rec(w+"r", a, b, true)
			}
		}
		rec("", 0, 0, false)
		for _, o := range orders {
			for _, st := range [][2]int{{0, 0}, {1, 1}, {3, 3}, {0, 3}, {4, 2}} {
				for _, e0 := range ends {
					for _, e1 := range ends {
						for _, en := range []string{"01", "10"} {
							if !yield(w02Case{Streams: []w02Stream{{Stack: st[0], AE: "gzip", End: e0}, {Stack: st[1], AE: "gzip", End: e1, Big: st[1] == 3, Last: "9"}}, Order: o, Ends: en}) {
								return
							}
						}
					}
				}
			}
		}
	}), func(c w02Case) *kit.Failure { return c.run(r.Seen) })
}
