package schedchecks

import (
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"gofremc/kit"
	"gofremc/vsched"

	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { all["S02"] = checkS02 }

// Operations of S02: "n<kind><given>" makes a response of a kind, given headers and/or cookies;
// "h<i>", "c<i>" set one header (given collections have three) or cookie on the i-th response; "w<i>", "f<i>", "p<i>" write it to a working, a failing and a panicking writer;
// "d<i>" forgets the i-th response; "s" takes a spare pair of collections and fills it, "r" gives it back, "u<kind>" makes a response with it.
const (
	s02Kinds = "trbjxae"
	// t text, r redirect, b invalid status code, j payload that can't be marshalled, x raw writer that panics, a adapted http.Handler, e event stream over HTTP/1
	s02Slots = 3
)

type s02Resp struct {
	resp  response.HttpResponse
	kind  byte
	ever  map[string]bool // what was set on it
	fresh map[string]bool // what was set since the last write
}

type s02State struct {
	slots  []*s02Resp
	serial int
	spareH response.HttpHeaders
	spareC response.HttpCookies
	spareT string
	spare  bool
}

type s02Writer struct {
	h     http.Header
	code  int
	seen  []string
	other []string // all headers but X-T and the cookies
	mode  byte
	bytes int
}

var errS02 = errors.New("broken pipe")

func (w *s02Writer) Header() http.Header { return w.h }
func (w *s02Writer) WriteHeader(c int) {
	if w.code != 0 {
		return
	}
	w.code = c
	for k, v := range w.h {
		if k != "X-T" && k != "Set-Cookie" {
			w.other = append(w.other, k+": "+strings.Join(v, "+"))
		}
		if k == "X-T" {
			w.seen = append(w.seen, strings.Join(v, "+"))
		}
		if k == "Set-Cookie" {
			w.seen = append(w.seen, v...)
		}
	}
	sort.Strings(w.seen)
	if w.mode == 'p' {
		panic("writer gone")
	}
}
func (w *s02Writer) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	if w.mode == 'f' {
		return 0, errS02
	}
	w.bytes += len(b)
	return len(b), nil
}

// one fixed request object per thread would be shared; the responses only read it
func s02Req() *http.Request {
	return &http.Request{Method: "GET", URL: &url.URL{Path: "/p"}, Header: http.Header{}, Host: "h", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
}

// s02Default tells the headers that a response of a kind may carry without anyone setting them.
func s02Default(kind byte, h string) bool {
	switch h {
	case "X-Content-Type-Options: nosniff":
		return kind != 'a'
	case "Location: /q":
		return kind == 'r'
	case "Content-Type: text/plain; charset=utf-8":
		return kind == 't' || kind == 'b' || kind == 'e' || kind == 'r' || kind == 'i'
	case "Content-Type: text/html; charset=utf-8":
		return kind == 'r'
	case "Content-Type: application/json":
		return kind == 'j'
	case "Content-Type: a/b":
		return kind == 'x'
	case "Content-Type: text/event-stream", "Cache-Control: no-cache", "Connection: keep-alive":
		return kind == 'e'
	}
	return false
}

func s02Build(kind byte, h response.HttpHeaders, c response.HttpCookies) response.HttpResponse {
	switch kind {
	case 't':
		return response.PlainTextResponseWithHeadersAndCookies(200, "x", h, c)
	case 'b':
		return response.PlainTextResponseWithHeadersAndCookies(99, "x", h, c)
	case 'j':
		return response.JsonHttpResponseWithHeadersAndCookies(200, func() {}, h, c)
	case 'x':
		return response.RawWriterHttpResponseWithHeadersAndCookies(200, "a/b", h, c, func(io.Writer) error { panic("raw") })
	case 'e':
		return response.SSEHttpResponseWithHeadersAndCookies(nil, h, c)
	case 'i':
		r := response.InternalServerErrorHttpResponse()
		r.HttpHeaders, r.HttpCookies = h, c
		return r
	}
	var r response.HttpResponse
	if kind == 'r' {
		x := response.RedirectHttpResponse("/q")
		x.HttpHeaders, x.HttpCookies = h, c
		return x
	}
	r = response.HandlerFuncAdaptor(func(w http.ResponseWriter, _ *http.Request) { w.Write([]byte("a")) })
	for k, v := range h {
		r.Headers().Set(k, v)
	}
	for _, ck := range c {
		r.Cookies().Add(ck)
	}
	if h != nil {
		h.Release()
	}
	if c != nil {
		c.Release()
	}
	return r
}

func s02Cookie(tag string) *http.Cookie { return &http.Cookie{Name: "k", Value: tag, Path: "/" + tag} }

// s02Applies tells whether the operation is possible; applying it returns what is wrong.
func (st *s02State) apply(op string, pre string) (ok bool, fail *kit.Failure) {
	i := int(op[len(op)-1] - '0')
	slot := func() *s02Resp {
		if i >= 0 && i < len(st.slots) {
			return st.slots[i]
		}
		return nil
	}
	made := func(kind byte, h response.HttpHeaders, c response.HttpCookies, tags []string) {
		r := &s02Resp{resp: s02Build(kind, h, c), kind: kind, ever: map[string]bool{}, fresh: map[string]bool{}}
		for _, t := range tags {
			r.ever[t], r.fresh[t] = true, true
		}
		st.slots = append(st.slots, r)
	}
	tag := func() string { st.serial++; return fmt.Sprintf("%s%d", pre, st.serial) }
	switch op[0] {
	case 'n':
		if len(st.slots) == s02Slots {
			return false, nil
		}
		var h response.HttpHeaders
		var c response.HttpCookies
		var tags []string
		if op[2]&1 != 0 {
			t := "h" + tag()
			h = response.NewHttpHeaders()
			h.Set("X-T", t)
			h.Set("Content-Type", t)
			h.Set("X-Content-Type-Options", t)
			tags = append(tags, t)
		}
		if op[2]&2 != 0 {
			t := "c" + tag()
			c = response.NewHttpCookie(s02Cookie(t))
			tags = append(tags, s02Cookie(t).String())
		}
		made(op[1], h, c, tags)
	case 'u':
		if len(st.slots) == s02Slots || !st.spare {
			return false, nil
		}
		made(op[1], st.spareH, st.spareC, []string{"h" + st.spareT, s02Cookie("c" + st.spareT).String()})
		st.spare, st.spareH, st.spareC = false, nil, nil
	case 's':
		if st.spare {
			return false, nil
		}
		st.spare, st.spareT = true, tag()
		st.spareH = response.NewHttpHeaders()
		st.spareH.Set("X-T", "h"+st.spareT)
		st.spareH.Set("Content-Type", "h"+st.spareT)
		st.spareC = response.NewHttpCookie(s02Cookie("c" + st.spareT))
	case 'r':
		if !st.spare {
			return false, nil
		}
		if len(st.spareH) != 2 || st.spareH["X-T"] != "h"+st.spareT || len(st.spareC) != 1 {
			return true, kit.Failf("spare", "a collection the application holds changed: %v %v", st.spareH, st.spareC)
		}
		st.spareH.Release()
		st.spareC.Release()
		st.spare, st.spareH, st.spareC = false, nil, nil
	case 'd':
		if slot() == nil {
			return false, nil
		}
		st.slots = append(append([]*s02Resp{}, st.slots[:i]...), st.slots[i+1:]...)
	case 'h':
		r := slot()
		if r == nil {
			return false, nil
		}
		t := "h" + tag()
		for o := range r.fresh {
			if o[0] == 'h' {
				delete(r.fresh, o) // overwritten
			}
		}
		r.resp.Headers().Set("X-T", t)
		r.ever[t], r.fresh[t] = true, true
	case 'c':
		r := slot()
		if r == nil {
			return false, nil
		}
		t := s02Cookie("c" + tag())
		r.resp.Cookies().Add(t)
		r.ever[t.String()], r.fresh[t.String()] = true, true
	case 'w', 'f', 'p':
		r := slot()
		if r == nil {
			return false, nil
		}
		w := &s02Writer{h: http.Header{}, mode: op[0]}
		func() {
			defer func() { recover() }()
			r.resp.Write(w, path.MatchingContext{R: s02Req()})
		}()
		got := map[string]bool{}
		for _, x := range w.seen {
			got[x] = true
			if !r.ever[x] {
				return true, kit.Failf("leak", "the response carries %q, which was not set on it (set on it: %v)", x, keysOf(r.ever))
			}
		}
		for _, o := range w.other {
			_, v, _ := strings.Cut(o, ": ")
			if !r.ever[v] && !s02Default(r.kind, o) {
				return true, kit.Failf("leak", "the response carries %q, which was not set on it (set on it: %v)", o, keysOf(r.ever))
			}
		}
		if w.code != 0 && r.kind != 'e' { // a refused event stream is an error of its own
			for x := range r.fresh {
				if !got[x] {
					return true, kit.Failf("lost", "the response does not carry %q, which was set on it; it carries %v", x, w.seen)
				}
			}
		} else if r.kind == 't' || r.kind == 'r' || r.kind == 'a' || r.kind == 'i' {
			return true, kit.Failf("nothing", "nothing was written")
		}
		r.fresh = map[string]bool{}
	}
	return true, nil
}

func keysOf(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type keyer struct {
	b     []byte
	ids   []uintptr
	names []string // tags in the order in which they occur
}

// key describes the state up to renaming: the responses and pools with everything they reach.
func (st *s02State) key() uint64 {
	k := &keyer{b: make([]byte, 0, 1024)}
	for _, r := range st.slots {
		k.b = append(k.b, '[', r.kind)
		k.deep(reflect.ValueOf(r.resp), 0)
		k.b = append(k.b, '|')
		for _, t := range keysOf(r.fresh) {
			k.str(t)
		}
	}
	k.b = append(k.b, 'S')
	if st.spare {
		k.deep(reflect.ValueOf(st.spareH), 0)
		k.deep(reflect.ValueOf(st.spareC), 0)
	}
	for _, l := range vsched.PoolItems() {
		k.b = append(k.b, 'P')
		for _, x := range l {
			k.deep(reflect.ValueOf(x), 0)
		}
	}
	// a tag that occurs nowhere by now can't be sent any more
	for _, r := range st.slots {
		k.b = append(k.b, 'E')
		for i, t := range k.names {
			for e := range r.ever {
				if tagOf(e) == t {
					k.b = append(k.b, byte(i))
				}
			}
		}
	}
	h := fnv.New64a()
	h.Write(k.b)
	return h.Sum64()
}

// tagOf returns the tag, a letter and a number, in a header value, a cookie or the id of a cookie.
func tagOf(s string) string {
	for i := 0; i+1 < len(s); i++ {
		if (s[i] == 'h' || s[i] == 'c') && s[i+1] >= '0' && s[i+1] <= '9' {
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			return s[i:j]
		}
	}
	return ""
}

// str writes a string, its tag renamed by the order of occurrence.
func (k *keyer) str(s string) {
	t := tagOf(s)
	if t == "" {
		k.b = append(append(append(k.b, 39), s...), 39)
		return
	}
	n := -1
	for i, x := range k.names {
		if x == t {
			n = i
		}
	}
	if n < 0 {
		n = len(k.names)
		k.names = append(k.names, t)
	}
	i := strings.Index(s, t)
	k.b = append(append(append(append(k.b, s[:i]...), 0, byte(n)), s[i+len(t):]...), '"')
}

func (k *keyer) deep(v reflect.Value, depth int) {
	if depth > 6 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			k.deep(v.Elem(), depth+1)
		}
	case reflect.Struct:
		k.b = append(k.b, '{')
		for i := 0; i < v.NumField(); i++ {
			k.deep(v.Field(i), depth+1)
		}
		k.b = append(k.b, '}')
	case reflect.Map:
		if v.IsNil() {
			k.b = append(k.b, '-')
			return
		}
		p, id := v.Pointer(), -1
		for i, x := range k.ids {
			if x == p {
				id = i
			}
		}
		if id < 0 {
			id = len(k.ids)
			k.ids = append(k.ids, p)
		}
		k.b = append(k.b, 'm', byte(id), '(')
		var ks []string
		for it := v.MapRange(); it.Next(); {
			e := ""
			if it.Key().Kind() == reflect.String {
				e = it.Key().String()
			}
			if it.Value().Kind() == reflect.String {
				e += "=" + it.Value().String()
			}
			ks = append(ks, e)
		}
		sort.Strings(ks)
		for _, x := range ks {
			k.str(x)
		}
		k.b = append(k.b, ')')
	case reflect.String:
		k.str(v.String())
	case reflect.Int, reflect.Int64:
		k.b = strconv.AppendInt(append(k.b, 'i'), v.Int(), 10)
	case reflect.Bool:
		k.b = strconv.AppendBool(k.b, v.Bool())
	case reflect.Slice:
		if v.Len() < 16 {
			for i := 0; i < v.Len(); i++ {
				k.deep(v.Index(i), depth+1)
			}
		}
	}
}

func s02Ops(kinds string) (ops []string) {
	for _, k := range kinds {
		for g := 0; g < 4; g++ {
			ops = append(ops, fmt.Sprintf("n%c%d", k, g))
		}
		ops = append(ops, fmt.Sprintf("u%c", k))
	}
	for i := 0; i < s02Slots; i++ {
		for _, o := range "hcwfpd" {
			ops = append(ops, fmt.Sprintf("%c%d", o, i))
		}
	}
	return append(ops, "s", "r")
}

// s02Run replays a sequence from a fresh start; applies is false where an operation was impossible.
func s02Run(seq []string, st *s02State) (applies bool, fail *kit.Failure) {
	vsched.ResetPools()
	for k, op := range seq {
		ok, f := st.apply(op, "")
		if !ok {
			return false, nil
		}
		if f != nil {
			f.Msg = fmt.Sprintf("after %v: %s", seq[:k+1], f.Msg)
			return true, f
		}
	}
	// at last, whatever is still open is written
	return true, nil
}

// s02Sequences explores every sequence of operations up to a depth that starts with first, merging equal states.
func s02Sequences(first string, kinds string, depth int) scenario {
	return scenario{Name: fmt.Sprintf("sequences %s %s %d", first, kinds, depth), New: func() program {
		ops := s02Ops(kinds)
		var failed *kit.Failure
		seen := map[uint64]bool{}
		level := [][]string{{first}}
		var states, trans int
		var complete = true
		for d := 1; d <= depth && failed == nil && len(level) > 0; d++ {
			var next [][]string
			for _, seq := range level {
				if realTime() > deadline {
					complete = false
					break
				}
				for _, op := range ops {
					s := append(append(make([]string, 0, len(seq)+1), seq...), op)
					var st s02State
					ok, f := s02Run(s, &st)
					if !ok {
						continue
					}
					trans++
					if f != nil {
						failed = f
						break
					}
					if d < depth {
						k := st.key()
						if !seen[k] {
							seen[k] = true
							states++
							next = append(next, s)
						}
					}
				}
				if failed != nil {
					break
				}
			}
			level = next
		}
		return program{Threads: []func(){func() {}}, Check: func(res *vsched.Result) (string, *kit.Failure) {
			addStates(states, trans, complete)
			return fmt.Sprint(first, states, trans), failed
		}}
	}}
}

// s02Sizes writes a response with many headers and cookies and then others with few.
func s02Sizes(kind, second byte, counts []int) scenario {
	return scenario{Name: fmt.Sprintf("sizes %c%c", kind, second), New: func() program {
		var failed *kit.Failure
		n, trans := 0, 0
		one := func(nh, nc int, set bool, modes string, after int) *kit.Failure {
			vsched.ResetPools()
			write := func(resp response.HttpResponse, kind byte, mode byte, own map[string]bool, what string, must bool) *kit.Failure {
				w := &s02Writer{h: http.Header{}, mode: mode}
				func() {
					defer func() { recover() }()
					resp.Write(w, path.MatchingContext{R: s02Req()})
				}()
				trans++
				got := map[string]bool{}
				for _, x := range append(w.seen, w.other...) {
					got[x] = true
					if !own[x] && !s02Default(kind, x) {
						return kit.Failf("leak", "%s of kind %c carries %q, which was not set on it", what, kind, x)
					}
				}
				for x := range own {
					if must && w.code != 0 && kind != 'e' && !got[x] {
						return kit.Failf("lost", "%s of kind %c does not carry %q", what, kind, x)
					}
				}
				return nil
			}
			fill := func(pre string, kind byte, nh, nc int, set bool) (response.HttpResponse, map[string]bool) {
				own := map[string]bool{}
				var h response.HttpHeaders
				var c response.HttpCookies
				var later []*http.Cookie
				if nh > 0 && !set {
					h = response.NewHttpHeaders()
				}
				for i := 0; i < nc; i++ {
					ck := &http.Cookie{Name: fmt.Sprint("n", pre, i), Value: fmt.Sprint("v", i), Path: "/"}
					own[ck.String()] = true
					if set {
						later = append(later, ck)
					} else if c == nil {
						c = response.NewHttpCookie(ck)
					} else {
						c.Add(ck)
					}
				}
				for i := 0; i < nh && !set; i++ {
					h.Set(fmt.Sprint("X-", pre, i), fmt.Sprint(i))
				}
				resp := s02Build(kind, h, c)
				for i := 0; i < nh; i++ {
					if set {
						resp.Headers().Set(fmt.Sprint("X-", pre, i), fmt.Sprint(i))
					}
					own[http.CanonicalHeaderKey(fmt.Sprint("X-", pre, i))+": "+fmt.Sprint(i)] = true
				}
				for _, ck := range later {
					resp.Cookies().Add(ck)
				}
				return resp, own
			}
			resp, own := fill("Big", kind, nh, nc, set)
			for i, m := range modes {
				if f := write(resp, kind, byte(m), own, fmt.Sprintf("a response with %d headers and %d cookies (write %d of %q)", nh, nc, i+1, modes), i == 0); f != nil {
					return f
				}
			}
			for i := 0; i < after; i++ {
				resp, own := fill(fmt.Sprint("S", i, "-"), second, i%3, (i/3)%2, i%2 == 0)
				if f := write(resp, second, 'w', own, fmt.Sprintf("response %d after one with %d headers and %d cookies", i+1, nh, nc), true); f != nil {
					return f
				}
			}
			return nil
		}
		for _, c := range counts {
			for _, x := range [][2]int{{c, 0}, {0, c}, {c, c}} {
				for _, set := range []bool{false, true} {
					for _, m := range []string{"w", "f", "pw"} {
						after := 3
						if c%16 == 0 && m == "w" {
							after = 40
						}
						n++
						if failed == nil {
							failed = one(x[0], x[1], set, m, after)
						}
					}
				}
			}
		}
		return program{Threads: []func(){func() {}}, Check: func(res *vsched.Result) (string, *kit.Failure) {
			addStates(n, trans, true)
			return fmt.Sprint("sizes", string(kind), string(second)), failed
		}}
	}}
}

// s02Schedules runs scripts of operations concurrently, each thread on responses of its own.
func s02Schedules(threads []string, bound, fine int) scenario {
	return scenario{Name: fmt.Sprint("schedules ", threads, bound, fine), Bound: bound, Fine: fine, New: func() program {
		fails := make([]*kit.Failure, len(threads))
		var fs []func()
		for t, p := range threads {
			fs = append(fs, func() {
				st := &s02State{}
				for _, op := range strings.Fields(p) {
					if _, f := st.apply(op, string(rune('A'+t))); f != nil && fails[t] == nil {
						fails[t] = f
						f.Msg = fmt.Sprintf("client %d of %q, operation %s: %s", t, threads, op, f.Msg)
					}
				}
			})
		}
		return program{Threads: fs, Check: func(res *vsched.Result) (string, *kit.Failure) {
			for _, f := range fails {
				if f != nil {
					return "", f
				}
			}
			return fmt.Sprint(threads), nil
		}}
	}}
}

func checkS02(r *kit.Run) {
	r.Rule = "sequences: breadth-first search over the states (responses, collections, pools, up to renaming) reached by all sequences of operations; one transition = one operation on the real code; schedules: one trace = one schedule of concurrent clients"
	r.Assume = append(r.Assume, "the pools are replaced by ones that recycle the collection returned last, or first", "an application does not use a collection after the response that owns it was written, nor gives it to two responses, nor releases it twice")
	depth := kit.Pick(r, 3, 5)
	var scs []scenario
	for _, op := range s02Ops(s02Kinds) {
		if op[0] == 'n' || op[0] == 's' {
			scs = append(scs, s02Sequences(op, s02Kinds, depth))
			k := "tr"
			if op[0] == 'n' && op[1] != 't' {
				k = "t" + op[1:2]
			}
			scs = append(scs, s02Sequences(op, k, kit.Pick(r, 4, 7)))
		}
	}
	r.Bound("all sequences of 1+%d operations on %d responses of %d kinds and a spare pair of collections; 1+%d operations on responses of two kinds", depth, s02Slots, len(s02Kinds), kit.Pick(r, 4, 7))
	seen := map[string]bool{}
	uniq := scs[:0]
	for _, s := range scs {
		if !seen[s.Name] {
			seen[s.Name] = true
			uniq = append(uniq, s)
		}
	}
	runPlain(r, "sequences", uniq, []int{0, 1})

	counts := []int{0, 1, 2, 3, 4, 8, 9, 10, 16, 17, 32, 33, 50, 64, 65, 100, 101, 128, 129, 257, 500}
	if r.Thorough() {
		counts = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1025}
	}
	r.Bound("sizes: responses with up to %d headers and cookies (given or set), written well, badly or twice, followed by up to 40 responses with few of %d kinds", counts[len(counts)-1], kit.Pick(r, 2, len(s02Kinds)))
	var sizes []scenario
	for _, k := range s02Kinds + "i" {
		for _, k2 := range kit.Pick(r, "ta", s02Kinds) {
			sizes = append(sizes, s02Sizes(byte(k), byte(k2), counts))
		}
	}
	runPlain(r, "sizes", sizes, []int{0, 1})

	scripts := []string{"nt3 w0", "nt0 h0 c0 w0", "nr3 w0 nt0 h1 w1", "nt3 w0 w0", "nt3 f0 nt1 w1", "nb3 w0 nt3 w1", "na0 h0 w0 nt2 w1", "s nt0 c0 w0 r", "nx3 w0 nt1 h1 w1", "nj3 w0 w0 nt0 h1 w1", "ne3 w0 nt1 w1", "nt3 p0 nt3 w1"}
	var sch []scenario
	for i, a := range scripts {
		for _, b := range scripts[i:] {
			sch = append(sch, s02Schedules([]string{a, b}, kit.Pick(r, 1, 2), 1))
			if !r.Thorough() {
				sch = append(sch, s02Schedules([]string{a, b}, 2, 0))
			} else {
				sch = append(sch, s02Schedules([]string{a, b, "nt3 w0"}, 2, 0))
			}
		}
	}
	r.Bound("all pairs of %d client scripts concurrently, up to %s", len(scripts), kit.Pick(r, "1 preemption anywhere or 2 at function entries and synchronising operations", "2 preemptions, one of them inside a function; with a third client 2 preemptions at function entries and synchronising operations"))
	runSched(r, "clients", sch, []int{0, 1})
}
