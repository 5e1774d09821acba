package schedchecks

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"strings"

	"gofremc/kit"
	"gofremc/vsched"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { all["L01"] = checkL01 }

// plainWriter records what a client would get; safe in the sense that only one thread uses it.
type plainWriter struct {
	h      http.Header
	code   int
	body   strings.Builder
	heads  string
	faults bool
}

func newWriter() *plainWriter { return &plainWriter{h: http.Header{}} }

func (w *plainWriter) Header() http.Header { return w.h }
func (w *plainWriter) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
		var keys []string
		for k, v := range w.h {
			v = append([]string{}, v...)
			if k == "Set-Cookie" {
				sortStrings(v)
			}
			keys = append(keys, k+"="+strings.Join(v, ","))
		}
		sortStrings(keys)
		w.heads = strings.Join(keys, ";")
	}
}
func (w *plainWriter) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	if w.faults {
		return 0, errWrite
	}
	return w.body.Write(b)
}
func (w *plainWriter) WriteString(s string) (int, error) {
	w.WriteHeader(200)
	if w.faults {
		return 0, errWrite
	}
	return w.body.WriteString(s)
}
func (w *plainWriter) Flush() {}

func (w *plainWriter) String() string {
	return fmt.Sprintf("%d {%s} %q", w.code, w.heads, w.body.String())
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

var errWrite = errors.New("connection closed")
var errHandler = errors.New("handler failed")

type l01Req struct{ Method, Path string }

var l01Reqs = []l01Req{
	{"GET", "/a/one/b"}, {"GET", "/a/second/b"}, {"GET", "/k/123"}, {"GET", "/p/p/q/val"}, {"GET", "/zz"}, {"GET", "/a/fail/b"},
	{"GET", "/a/boom/b"}, {"POST", "/a/post/b"}, {"GET", "/wild/uu"}, {"GET", "/" + strings.Repeat("s/", 25)}, {"GET", "/"}, {"GET", "/x/../a//rel/b/"},
	{"GET", "/s/t/a/n/b"}, {"GET", "/a/wfail/b"}, {"PATCH", "/a/one/b"},
}

var l01Patterns = []l01Req{{"GET", "/a/{x}/b"}, {"GET", "/{y}/{z:^[0-9]+$}"}, {"GET", "/**/q/{v}"}, {"GET", "/w*/{u}"}, {"GET", "/"}, {"POST", "/a/{x}/b"}, {"GET", "/{p}/**/{q}/b"}}

var l01Vars = []string{"x", "y", "z", "v", "u", "p", "q", "nope"}

type l01Seen struct {
	vars  string
	again string
	read  string
	clone path.MatchingContext
}

type l01Key struct{}

func l01Read(mc path.MatchingContext) string {
	var sb strings.Builder
	for _, v := range l01Vars {
		if s := mc.PathVar(v); s != "" {
			sb.WriteString(v + "=" + s + " ")
		}
	}
	return sb.String()
}

type l01App struct {
	m    *gofre.MuxHandler
	errs [8][]string
}

type l01Slot struct {
	seen *l01Seen
	t    int
}

func l01New() *l01App {
	a := &l01App{}
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) { vsched.Y(); logs.add(err) }})
	if err != nil {
		panic(err)
	}
	a.m = m
	for _, p := range l01Patterns {
		m.HandleRequest(p.Method, p.Path, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			sl := ctx.Value(l01Key{}).(*l01Slot)
			s := &l01Seen{}
			s.vars = p.Method + p.Path + " " + l01Read(mc)
			vsched.Y()
			s.again = p.Method + p.Path + " " + l01Read(mc)
			s.read = l01Read(mc)
			s.clone = mc.Clone()
			sl.seen = s
			switch mc.PathVar("x") {
			case "fail":
				return nil, errHandler
			case "boom":
				panic("boom")
			}
			return response.PlainTextHttpResponseOK(s.again + "|" + l01Read(mc)), nil
		})
	}
	return a
}

// logs collects the errors logged by the running execution; only one thread runs at a time and
// hand-overs are not visible to the race detector, so access is kept out of its sight.
var logs logList

type logList struct {
	a [64]error
	n int
}

//go:norace
func (l *logList) add(err error) {
	if l.n < len(l.a) {
		l.a[l.n] = err
		l.n++
	}
}

//go:norace
func (l *logList) reset() {
	for i := 0; i < l.n; i++ {
		l.a[i] = nil
	}
	l.n = 0
}

//go:norace
func (l *logList) texts() []string {
	var out []string
	for i := 0; i < l.n; i++ {
		out = append(out, l.a[i].Error())
	}
	sortStrings(out)
	return out
}

type l01Out struct {
	req   int
	text  string // status, headers, body, panic
	seen  *l01Seen
	panic any
}

func (a *l01App) serve(i int) (o l01Out) {
	q := l01Reqs[i]
	o.req = i
	w := newWriter()
	w.faults = strings.Contains(q.Path, "wfail")
	sl := &l01Slot{}
	rq := (&http.Request{Method: q.Method, URL: &url.URL{Path: q.Path}, Header: http.Header{}, Host: "h"}).WithContext(context.WithValue(context.Background(), l01Key{}, sl))
	func() {
		defer func() { o.panic = recover() }()
		a.m.ServeHTTP(w, rq)
	}()
	o.text = fmt.Sprintf("%s panic=%v", w, o.panic)
	o.seen = sl.seen
	return o
}

var l01Alone []string
var l01AloneLogs [][]string

func l01Text(o l01Out) string {
	s := o.text
	if o.seen != nil {
		s += " vars " + o.seen.vars
	}
	return s
}

func l01Prepare() {
	for i := range l01Reqs {
		vsched.ResetPools()
		logs.reset()
		l01Alone = append(l01Alone, l01Text(l01New().serve(i)))
		l01AloneLogs = append(l01AloneLogs, logs.texts())
	}
}

func l01Scenario(threads [][]int, bound, fine int) scenario {
	return scenario{Name: fmt.Sprint(threads, "bound", bound, fine), Bound: bound, Fine: fine, New: func() program {
		a := l01New()
		logs.reset()
		outs := make([][]l01Out, len(threads))
		var fs []func()
		for t, p := range threads {
			fs = append(fs, func() {
				for _, i := range p {
					outs[t] = append(outs[t], a.serve(i))
				}
			})
		}
		return program{Threads: fs, Check: func(res *vsched.Result) (string, *kit.Failure) {
			var wantLogs []string
			var sb strings.Builder
			got := logs.texts()
			for _, os := range outs {
				for _, o := range os {
					fmt.Fprintf(&sb, "%d ", o.req)
					if s := l01Text(o); s != l01Alone[o.req] {
						return "", kit.Failf("alone", "%s %s led to\n  %s\nalone to\n  %s", l01Reqs[o.req].Method, l01Reqs[o.req].Path, s, l01Alone[o.req])
					}
					if o.seen != nil && o.seen.vars != o.seen.again {
						return "", kit.Failf("changed", "%s: the variables changed from %s to %s while the handler ran", l01Reqs[o.req].Path, o.seen.vars, o.seen.again)
					}
					wantLogs = append(wantLogs, l01AloneLogs[o.req]...)
				}
				sb.WriteByte('|')
			}
			sortStrings(wantLogs)
			if fmt.Sprint(got) != fmt.Sprint(wantLogs) {
				return "", kit.Failf("logs", "logged %q, want %q", got, wantLogs)
			}
			// later requests reuse the buffers; clones keep their values
			for _, i := range []int{2, 12} {
				if o := a.serve(i); l01Text(o) != l01Alone[i] {
					return "", kit.Failf("later", "later %s led to %s, alone to %s", l01Reqs[i].Path, l01Text(o), l01Alone[i])
				}
			}
			for _, os := range outs {
				for _, o := range os {
					if o.seen != nil && o.seen.read != l01Read(o.seen.clone) {
						return "", kit.Failf("clone", "%s: the clone reads %q, the handler read %q", l01Reqs[o.req].Path, l01Read(o.seen.clone), o.seen.vars)
					}
				}
			}
			sb.WriteString(strings.Join(got, ";"))
			return sb.String(), nil
		}}
	}}
}

func checkL01(r *kit.Run) {
	l01Prepare()
	r.Rule = "one trace = one schedule of concurrent requests, or one history of requests, through one mux; states = nodes of the schedule tree"
	r.Assume = append(r.Assume, "the segment pool is replaced by one that recycles as much as possible (last in first out; thorough also first in first out)")
	n := len(l01Reqs)
	var scs []scenario
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			scs = append(scs, l01Scenario([][]int{{i}, {j}}, 1, 1))
			if r.Thorough() || i <= 3 && j <= 3 {
				scs = append(scs, l01Scenario([][]int{{i}, {j}}, 2, 0))
			}
		}
	}
	r.Bound("all pairs of %d requests (matched, with captured variables, not found, failing, panicking, write fault, too long) concurrently, 1 preemption before any statement, and for %s 2 preemptions at function entries and synchronising operations", n, kit.Pick(r, "the pairs of the first four", "all of them"))
	for i := 0; i < n; i++ {
		for _, j := range []int{0, 2, 3, 6} {
			scs = append(scs, l01Scenario([][]int{{i, j}, {1}}, 1, 1), l01Scenario([][]int{{i, 3}, {j, 12}}, 1, 1))
		}
	}
	r.Bound("clients with two requests each, up to 1 preemption")
	trip := [][][]int{{{0}, {2}, {3}}, {{0}, {1}, {12}}, {{5}, {6}, {3}}, {{4}, {0}, {0}}}
	for _, t := range trip {
		scs = append(scs, l01Scenario(t, kit.Pick(r, 1, 2), 0))
	}
	r.Bound("%d triples of concurrent requests, up to %d preemptions at function entries", len(trip), kit.Pick(r, 1, 2))
	runSched(r, "concurrent", scs, kit.Pick(r, []int{0}, []int{0, 1}))
	var hist []scenario
	depth := kit.Pick(r, 3, 4)
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) > 0 {
			hist = append(hist, l01Scenario([][]int{append([]int{}, p...)}, 0, 0))
		}
		if len(p) < depth {
			for i := 0; i < n; i++ {
				rec(append(p, i))
			}
		}
	}
	rec(nil)
	r.Bound("all histories of up to %d of these requests", depth)
	runSched(r, "histories", hist, []int{0, 1})
}
