package checks

import (
	"context"
	"errors"
	"fmt"
	"iter"
	"net/http"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"gofremc/kit"
	"gofremc/wire"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() {
	All["S03"] = checkS03
	All["S04"] = checkS04
}

// ---------------------------------------------------------------- reference client

type dispatched struct {
	Type, Data, LastId string
}

type streamState struct {
	Events []dispatched
	LastId string
	Retry  string // digits of the last accepted retry field
	Fields []string
}

// decodeStream is the WHATWG algorithm for interpreting an event stream.
func decodeStream(s string) streamState {
	var st streamState
	s = strings.TrimPrefix(s, "\ufeff")
	var typ, data, idBuf string
	line := func(l string) {
		if l == "" {
			st.LastId = idBuf
			if data == "" {
				typ = ""
				return
			}
			data = strings.TrimSuffix(data, "\n")
			st.Events = append(st.Events, dispatched{typ, data, st.LastId})
			typ, data = "", ""
			return
		}
		if l[0] == ':' {
			st.Fields = append(st.Fields, ":")
			return
		}
		name, val, ok := strings.Cut(l, ":")
		if ok {
			val = strings.TrimPrefix(val, " ")
		}
		st.Fields = append(st.Fields, name)
		switch name {
		case "event":
			typ = val
		case "data":
			data += val + "\n"
		case "id":
			if !strings.Contains(val, "\x00") {
				idBuf = val
			}
		case "retry":
			digits := val != ""
			for _, c := range val {
				digits = digits && c >= '0' && c <= '9'
			}
			if digits {
				st.Retry = val
			}
		}
	}
	for s != "" {
		i := strings.IndexAny(s, "\r\n")
		if i < 0 {
			break // an unterminated last line is not processed
		}
		line(s[:i])
		if strings.HasPrefix(s[i:], "\r\n") {
			i++
		}
		s = s[i+1:]
	}
	return st
}

func splitLines(s string) []string {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	s = strings.ReplaceAll(s, "\r", "\n")
	return strings.Split(s, "\n")
}

// ---------------------------------------------------------------- S03

type s03Case struct {
	Evts []response.ServerSentEvent
}

var s03Seen func(uint64) bool

func s03Run(c s03Case) *kit.Failure {
	var sb strings.Builder
	type exp struct {
		typ, data string
		typLoose  bool
		id        string
		idLoose   bool
	}
	var want []exp
	lastId, idLoose := "", false
	retry, retryLoose := "", false
	for _, e := range c.Evts {
		sb.WriteString(e.String())
		if e.Id != "" {
			lastId, idLoose = e.Id, strings.ContainsAny(e.Id, "\r\n\x00")
		}
		if e.Retry > 0 {
			retry, retryLoose = fmt.Sprint(e.Retry), false
		}
		if len(e.Data) > 0 {
			var lines []string
			for _, d := range e.Data {
				lines = append(lines, splitLines(d)...)
			}
			want = append(want, exp{e.Name, strings.Join(lines, "\n"), strings.ContainsAny(e.Name, "\r\n"), lastId, idLoose})
		}
	}
	got := decodeStream(sb.String())
	if len(got.Events) != len(want) {
		return kit.Failf("count", "%d events arrive for %d sent ones; the text is %q", len(got.Events), len(want), sb.String())
	}
	for i, w := range want {
		g := got.Events[i]
		if g.Data != w.data {
			return kit.Failf("data", "event %d arrives with data %q, want %q; the text is %q", i, g.Data, w.data, sb.String())
		}
		if !w.typLoose && g.Type != w.typ {
			return kit.Failf("type", "event %d arrives with type %q, want %q; the text is %q", i, g.Type, w.typ, sb.String())
		}
		if !w.idLoose && g.LastId != w.id {
			return kit.Failf("id", "event %d arrives with last id %q, want %q; the text is %q", i, g.LastId, w.id, sb.String())
		}
	}
	if !idLoose && got.LastId != lastId {
		return kit.Failf("id", "the last event id is %q, want %q; the text is %q", got.LastId, lastId, sb.String())
	}
	if !retryLoose && got.Retry != retry {
		return kit.Failf("retry", "the retry time is %q, want %q; the text is %q", got.Retry, retry, sb.String())
	}
	for _, f := range got.Fields {
		switch f {
		case "event", "data", "id", "retry":
		default:
			return kit.Failf("field", "the text contains a foreign field %q: %q", f, sb.String())
		}
	}
	// no field more than was set
	n := map[string]int{}
	for _, f := range got.Fields {
		n[f]++
	}
	var wn = map[string]int{}
	for _, e := range c.Evts {
		if e.Name != "" {
			wn["event"]++
		}
		if e.Id != "" {
			wn["id"]++
		}
		if e.Retry > 0 {
			wn["retry"]++
		}
		for _, d := range e.Data {
			wn["data"] += len(splitLines(d))
		}
	}
	for _, f := range []string{"event", "id", "retry", "data"} {
		if n[f] > wn[f] {
			return kit.Failf("inject", "%d %q fields arrive, %d were set: %q", n[f], f, wn[f], sb.String())
		}
	}
	s03Seen(kit.Hash(fmt.Sprint(got.Events), got.LastId, got.Retry))
	return nil
}

func wordsUpTo(alphabet []string, n int) []string {
	out := []string{""}
	level := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range level {
			for _, a := range alphabet {
				next = append(next, w+a)
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

func checkS03(r *kit.Run) {
	s03Seen = r.Seen
	r.Rule = "distinct = sequences of decoded client events, last ids and retry times"
	alpha := []string{"a", ":", " ", "\n", "\r", "\x00", "\u00e9", "data: z", "id"}
	names := wordsUpTo(alpha, kit.Pick(r, 2, 3))
	short := wordsUpTo([]string{"a", ":", " ", "\n", "\r"}, kit.Pick(r, 3, 4))
	ids := wordsUpTo([]string{"1", ":", " ", "\n", "\r", "\x00"}, 2)
	retries := []int{0, 1, 3000, -4}
	r.Bound("single events: names and data items over %d texts (all words over 9 symbols up to length %d), %d ids, %d retries, up to %d data items; all sequences of up to 3 events over 14 representative events", len(names), kit.Pick(r, 2, 3), len(ids), len(retries), 3)
	r.Assume = []string{"the reference client is a transcription of the WHATWG event stream interpretation algorithm", "texts are valid UTF-8", "an event type or id with a line break or NUL cannot be represented; there only non-interference is required"}
	one := func(e response.ServerSentEvent) s03Case { return s03Case{[]response.ServerSentEvent{e}} }
	kit.Explore(r, "names", seqOf(func(yield func(s03Case) bool) {
		for _, n := range names {
			for _, d := range [][]string{nil, {"x"}, {""}, {"x", "y"}} {
				for _, id := range []string{"", "7"} {
					if !yield(one(response.ServerSentEvent{Name: n, Data: d, Id: id})) {
						return
					}
				}
			}
		}
	}), s03Run)
	kit.Explore(r, "data", seqOf(func(yield func(s03Case) bool) {
		for _, d := range names {
			for _, n := range []string{"", "t"} {
				if !yield(one(response.ServerSentEvent{Name: n, Data: []string{d}, Id: "1"})) {
					return
				}
			}
		}
		for _, a := range short {
			for _, b := range short {
				if !yield(one(response.ServerSentEvent{Data: []string{a, b}, Retry: 5})) {
					return
				}
			}
		}
		few := wordsUpTo([]string{"a", "\n", "\r"}, 2)
		for _, a := range few {
			for _, b := range few {
				for _, c := range few {
					if !yield(one(response.ServerSentEvent{Name: "n", Data: []string{a, b, c}})) {
						return
					}
				}
			}
		}
	}), s03Run)
	kit.Explore(r, "ids", seqOf(func(yield func(s03Case) bool) {
		for _, id := range ids {
			for _, n := range []string{"", "t", "a\nb"} {
				for _, d := range [][]string{nil, {}, {"x"}, {""}} {
					for _, re := range retries {
						if !yield(one(response.ServerSentEvent{Name: n, Data: d, Id: id, Retry: re})) {
							return
						}
					}
				}
			}
		}
	}), s03Run)
	lens := sizesTo(300, kit.Pick(r, 1<<17, 1<<20))
	r.Bound("names, ids, data items and lines of %d lengths up to %d bytes, up to 1000 data items, up to 1000 lines in an item, retry times at every power of two", len(lens), lens[len(lens)-1])
	kit.Explore(r, "sizes", seqOf(func(yield func(s03Case) bool) {
		for _, n := range lens {
			tx := textOf(n)
			evts := []response.ServerSentEvent{{Name: tx, Data: []string{"d"}, Id: "1"}, {Name: "n", Data: []string{tx}, Id: "1", Retry: 3}, {Data: []string{"a", tx, "b"}}, {Data: []string{"d"}, Id: tx}, {Name: tx, Data: []string{tx + "\n" + tx + "\r\n" + tx, tx}, Id: tx, Retry: 1}}
			if n <= 1001 {
				items, ones := make([]string, n), make([]string, n)
				for i := range items {
					items[i] = fmt.Sprint("item", i)
				}
				evts = append(evts, response.ServerSentEvent{Name: "n", Data: items, Id: "1"}, response.ServerSentEvent{Data: ones}, response.ServerSentEvent{Data: []string{strings.Join(items, "\n")}},
					response.ServerSentEvent{Name: strings.Join(items, "\n"), Data: []string{"x"}}, response.ServerSentEvent{Data: []string{strings.Repeat("\n", n), "x"}})
			}
			for _, e := range evts {
				if !yield(s03Case{[]response.ServerSentEvent{e, {Name: "last", Data: []string{"l"}}}}) {
					return
				}
			}
		}
		for b := 0; b < 63; b++ {
			for d := -1; d <= 1; d++ {
				if !yield(one(response.ServerSentEvent{Data: []string{"d"}, Retry: 1<<b + d})) {
					return
				}
			}
		}
		for n := 0; n < 0x10000; n++ {
			if n == 0xd800 {
				n = 0xe000
			} // every character in every field
			c := string(rune(n))
			if !yield(s03Case{[]response.ServerSentEvent{{Name: "a" + c, Data: []string{c + "b"}, Id: c}, {Data: []string{"l"}}}}) {
				return
			}
		}
	}), s03Run)
	r.Bound("every character of the basic plane and %d texts in every field", len(oddWords))
	kit.Explore(r, "vocabulary", seqOf(func(yield func(s03Case) bool) {
		for _, w := range oddWords {
			for _, e := range []response.ServerSentEvent{{Name: w, Data: []string{"d"}}, {Data: []string{w}}, {Data: []string{w}, Id: "1"}, {Data: []string{"d", w}}, {Data: []string{w, "d"}, Name: "n"}, {Data: []string{w, w}, Retry: 7}, {Data: []string{"d"}, Id: w}, {Name: w, Data: []string{w}, Id: w, Retry: 1}, {Id: w}, {Name: w}, {Data: []string{w + "\n" + w}}} {
				if !yield(s03Case{[]response.ServerSentEvent{{Id: "0", Data: []string{"before"}}, e, {Name: "last", Data: []string{"l"}}}}) {
					return
				}
			}
		}
	}), s03Run)
	rep := []response.ServerSentEvent{{}, {Name: "n"}, {Data: []string{"d"}}, {Data: []string{""}}, {Id: "1"}, {Id: "2", Data: []string{"e"}}, {Retry: 9}, {Retry: 8, Data: []string{"f"}},
		{Name: "m", Data: []string{"g", "h"}, Id: "3", Retry: 7}, {Name: "x\n\ny", Data: []string{"i"}}, {Data: []string{"j\n\nk"}}, {Data: []string{"l\r"}}, {Id: "4\n\ndata: z"}, {Name: "o", Id: "5"},
		{Data: []string{"\n"}}, {Data: []string{"", ""}}}
	depth := kit.Pick(r, 4, 5)
	kit.Explore(r, "sequences", seqOf(func(yield func(s03Case) bool) {
		var rec func(pre []response.ServerSentEvent) bool
		rec = func(pre []response.ServerSentEvent) bool {
			if len(pre) > 0 && !yield(s03Case{append([]response.ServerSentEvent(nil), pre...)}) {
				return false
			}
			if len(pre) == depth {
				return true
			}
			for _, e := range rep {
				if !rec(append(pre, e)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	}), s03Run)
}

// ---------------------------------------------------------------- S04

// s04Case is a script for generator, client and connection on virtual time.
type s04Case struct {
	Gen    []string // "e" send an event, "w" wait 1s, "x" close, "h" hang until the test ends
	Buf    int
	Gone   int // the client goes away at this many half seconds; -1 never
	FailAt int // body write that fails; 0 never
	LastId string
	Writer string
	Proto  int
	Router bool
	Kind   string `json:",omitempty"` // what the events look like, see s04Event
	Word   int    `json:",omitempty"` // the n-th word of oddWords appears in the events of kind v and w
	Honour bool   // the generator stops when its context ends (closing the channel)
}

// s04Event is the n-th event of a script.
func s04Event(kind string, n int, word int) response.ServerSentEvent {
	e := response.ServerSentEvent{Name: "n", Data: []string{fmt.Sprint("d", n)}}
	if n > len(kind) || n < 1 {
		return e
	}
	switch kind[n-1] {
	case 'b': // big
		e.Data[0] += textOf(70000)
	case 'v':
		e.Data = []string{oddWords[word-1]}
	case 'w':
		e.Name = oddWords[word-1]
	case 'u':
		e.Id = oddWords[word-1]
	case 'i': // no data
		return response.ServerSentEvent{Id: fmt.Sprint(n)}
	case '0':
		return response.ServerSentEvent{}
	case 'r':
		return response.ServerSentEvent{Retry: n}
	case 'm':
		e.Data = append(e.Data, "x\ny", "")
		e.Id = "7"
	}
	return e
}

type s04Obs struct {
	t   time.Duration
	ev  string
	len int
}

var s04T *testing.T
var s04Seen func(uint64) bool

func s04Run(c s04Case) (fail *kit.Failure) {
	synctest.Test(s04T, func(t *testing.T) {
		defer func() {
			if p := recover(); p != nil {
				fail = kit.Failf("panic", "panic: %v", p)
			}
		}()
		fail = s04Bubble(c)
	})
	return fail
}

func s04Bubble(c s04Case) *kit.Failure {
	start := time.Now()
	rec := wire.New()
	rec.FailAt = c.FailAt
	var log []s04Obs
	rec.OnEvent = func(k string) { log = append(log, s04Obs{time.Since(start), k, rec.Body.Len()}) }
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	gone := time.Duration(-1)
	if c.Gone >= 0 {
		gone = time.Duration(c.Gone) * 500 * time.Millisecond
		if c.Gone == 0 {
			cancel()
		} else {
			go func() {
				time.Sleep(gone)
				cancel()
			}()
		}
	}
	quit := make(chan struct{})
	var gotLast []string
	var gotCtxOK = true
	type sentEvt struct {
		text  string
		taken time.Duration
	}
	var sent []sentEvt
	var offered []sentEvt
	closedAt := time.Duration(-1)
	var ctxSeen context.Context
	genDone := make(chan struct{})
	generator := func(gctx context.Context, last string) <-chan response.ServerSentEvent {
		ctxSeen = gctx
		gotLast = append(gotLast, last)
		ch := make(chan response.ServerSentEvent, c.Buf)
		go func() {
			defer close(genDone)
			n := 0
			var ctxDone <-chan struct{}
			if c.Honour {
				ctxDone = gctx.Done()
			}
			for _, op := range c.Gen {
				switch op {
				case "e":
					n++
					e := s04Event(c.Kind, n, c.Word)
					offered = append(offered, sentEvt{text: e.String(), taken: time.Since(start)})
					select {
					case ch <- e:
						sent = append(sent, sentEvt{e.String(), time.Since(start)})
					case <-quit:
						close(ch)
						return
					case <-ctxDone:
						closedAt = time.Since(start)
						close(ch)
						return
					}
				case "w", "W":
					d := time.Second
					if op == "W" {
						d = 25 * time.Hour
					}
					select {
					case <-time.After(d):
					case <-quit:
						close(ch)
						return
					case <-ctxDone:
						closedAt = time.Since(start)
						close(ch)
						return
					}
				case "x":
					closedAt = time.Since(start)
					close(ch)
					return
				}
			}
			// hang
			select {
			case <-quit:
			case <-ctxDone:
				closedAt = time.Since(start)
			}
			close(ch)
		}()
		return ch
	}
	rq := mkReq("GET", "/e")
	rq.ProtoMajor, rq.ProtoMinor = c.Proto, 0
	if c.Proto == 1 {
		rq.ProtoMinor = 1
	}
	if c.LastId != "" {
		rq.Header.Set("Last-Event-Id", c.LastId)
	}
	rq = rq.WithContext(ctx)
	var werr error
	done := make(chan struct{})
	var end time.Duration
	var errLogged []error
	go func() {
		if c.Router {
			m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) { errLogged = append(errLogged, err) }})
			if err != nil {
				panic(err)
			}
			m.HandleGet("/e", handler.Handler(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				return response.SSEHttpResponse(generator), nil
			}))
			m.ServeHTTP(rec.Writer(c.Writer), rq)
			if len(errLogged) > 0 {
				werr = errLogged[0]
			}
		} else {
			werr = response.SSEHttpResponse(generator).Write(rec.Writer(c.Writer), path.MatchingContext{R: rq})
		}
		end = time.Since(start)
		close(done)
	}()
	// everything any script does is over long before this
	long := 0
	for _, op := range c.Gen {
		if op == "W" {
			long++
		}
	}
	time.Sleep(100*time.Second + time.Duration(long)*25*time.Hour)
	synctest.Wait()
	ended := false
	select {
	case <-done:
		ended = true
	default:
	}
	defer func() {
		// free whatever still runs
		close(quit)
		cancel()
		if !ended {
			<-done
		}
	}()
	if c.Proto != 2 {
		if !ended {
			return kit.Failf("hang", "the refused request does not end")
		}
		if rec.Status != 500 || rec.Body.Len() > 0 {
			return kit.Failf("refuse", "HTTP/%d: %v", c.Proto, rec.View())
		}
		if !errors.Is(werr, response.ErrNotHttp2Request) {
			return kit.Failf("refuse", "HTTP/%d: error %v", c.Proto, werr)
		}
		if len(gotLast) > 0 {
			return kit.Failf("refuse", "the generator runs for a refused request")
		}
		return nil
	}
	closes := closedAt >= 0
	if werr != nil {
		return kit.Failf("err", "the stream reported %v", werr)
	}
	// the client may be gone before anything was sent
	if rec.Status == 0 && c.Gone == 0 {
		if !ended {
			return kit.Failf("hang", "the client is gone but the response does not end")
		}
		return nil
	}
	if rec.Status != 200 || rec.Sent.Get("Content-Type") != "text/event-stream" || rec.Sent.Get("Cache-Control") != "no-cache" {
		return kit.Failf("head", "stream begins with %d %v", rec.Status, rec.Sent)
	}
	if c.Gone != 0 || len(gotLast) > 0 {
		if len(gotLast) != 1 || gotLast[0] != c.LastId {
			return kit.Failf("lastid", "the generator was called with %q, the client's last id is %q", gotLast, c.LastId)
		}
		if ctxSeen.Err() == nil && c.Gone >= 0 {
			gotCtxOK = false
		}
	}
	if !gotCtxOK {
		return kit.Failf("ctx", "the generator's context does not end with the client")
	}
	// promised end
	if !ended {
		switch {
		case closes:
			return kit.Failf("hang", "the generator closed at %v but the response does not end", closedAt)
		case c.Gone >= 0:
			return kit.Failf("hang", "the client went away at %v but the response does not end", gone)
		case rec.Failed > 0:
			return kit.Failf("hang", "write %d failed but the response does not end", c.FailAt)
		}
	}
	// what was written: a prefix of what was sent, in order
	var want strings.Builder
	body := rec.Body.String()
	for _, s := range sent {
		want.WriteString(s.text)
	}
	if !strings.HasPrefix(want.String(), body) {
		return kit.Failf("order", "the client received %q, sent was %q", body, want.String())
	}
	// walk the log: when did each event arrive, was it flushed before the next one
	pos := 0
	i := 0
	cut := false // something may legitimately be missing from here on
	for ; i < len(sent); i++ {
		pos += len(sent[i].text)
		if pos > len(body) {
			cut = true
			break
		}
		at, flushed := time.Duration(-1), time.Duration(-1)
		for k, l := range log {
			if at < 0 && l.len >= pos {
				at = l.t
			}
			if at >= 0 && l.ev == "F" && l.len >= pos {
				flushed = l.t
				for q := k; q >= 0; q-- {
					if log[q].len > pos {
						return kit.Failf("flush", "event %d was flushed only together with the next one", i)
					}
				}
				break
			}
		}
		if at > sent[i].taken && at > 0 {
			// with an unbuffered channel the event was taken when it was sent
			return kit.Failf("late", "event %d was generated at %v and written at %v", i, sent[i].taken, at)
		}
		if c.Writer != "plain" && (flushed < 0 || flushed > at) {
			return kit.Failf("flush", "event %d was written at %v and flushed at %v", i, at, flushed)
		}
	}
	if cut && rec.Failed == 0 {
		if c.Gone < 0 {
			return kit.Failf("lost", "of %d events sent only %d arrived", len(sent), i)
		}
		if sent[i].taken < gone {
			return kit.Failf("lost", "event %d was generated at %v, before the client went away at %v, and never arrived", i, sent[i].taken, gone)
		}
	}
	// nothing after the end
	stop := time.Duration(-1)
	for _, l := range log {
		if l.ev == "X" && stop < 0 {
			stop = l.t
			continue
		}
		if stop >= 0 && l.ev != "F" {
			return kit.Failf("afterfail", "after a failed write at %v there is %q at %v", stop, l.ev, l.t)
		}
		if gone >= 0 && l.t > gone && l.ev != "F" {
			return kit.Failf("aftergone", "the client went away at %v but %q happens at %v", gone, l.ev, l.t)
		}
	}
	if rec.Failed > 1 {
		return kit.Failf("afterfail", "%d writes were attempted on a broken connection", rec.Failed)
	}
	if ended && gone >= 0 && end > gone && !(closes && closedAt >= end) {
		return kit.Failf("lateend", "the client went away at %v, the response ended at %v", gone, end)
	}
	if ended && closes && rec.Failed == 0 && end > closedAt {
		return kit.Failf("lateend", "the generator closed at %v, the response ended at %v", closedAt, end)
	}
	if ended && !closes && c.Gone < 0 && rec.Failed == 0 {
		return kit.Failf("earlyend", "the response ended at %v without reason", end)
	}
	if ended && rec.Failed == 0 && gone < 0 && end < closedAt {
		return kit.Failf("earlyend", "the response ended at %v, the generator closed at %v", end, closedAt)
	}
	s04Seen(kit.Hash(fmt.Sprint(log), ended))
	return nil
}

func checkS04(r *kit.Run) {
	s04T, s04Seen = r.T, r.Seen
	r.Rule = "distinct = logs of header, write and flush operations with their (virtual) times"
	depth := kit.Pick(r, 6, 8)
	r.Bound("all generator scripts over {send, wait 1s} up to length %d ended by close or hang, channel buffers 0 and 2, client going away never or at any half second up to %ds, every write failing or none, 3 writer capabilities, directly and through the router", depth, depth)
	r.Assume = []string{"time is virtual (testing/synctest); a handler has ended when every goroutine of the bubble is blocked for good", "when an event and the client's leaving coincide either order is accepted"}
	var scripts [][]string
	var build func(pre []string)
	build = func(pre []string) {
		scripts = append(scripts, append(append([]string(nil), pre...), "x"), append(append([]string(nil), pre...), "h"))
		if len(pre) == depth {
			return
		}
		build(append(append([]string(nil), pre...), "e"))
		build(append(append([]string(nil), pre...), "w"))
	}
	build(nil)
	var gen iter.Seq[s04Case] = func(yield func(s04Case) bool) {
		for _, g := range scripts {
			n := strings.Count(strings.Join(g, ""), "e")
			for _, buf := range []int{0, 2} {
				for gone := -1; gone <= 2*depth; gone++ {
					for fail := 0; fail <= n; fail++ {
						if fail > 0 && gone > 3 && !r.Thorough() {
							continue
						}
						for _, hon := range []bool{false, true} {
							if hon && gone < 0 {
								continue
							}
							for _, w := range wire.Kinds {
								if w != "full" && (hon || buf > 0) && !r.Thorough() {
									continue
								}
								c := s04Case{Gen: g, Buf: buf, Gone: gone, FailAt: fail, Writer: w, Proto: 2, Honour: hon}
								if fail == 0 && buf == 0 {
									c.LastId = "41"
								}
								c.Router = gone%2 == 0
								if !yield(c) {
									return
								}
							}
						}
					}
				}
			}
		}
		for _, p := range []int{0, 1, 3} {
			for _, rt := range []bool{false, true} {
				for _, w := range wire.Kinds {
					if !yield(s04Case{Gen: []string{"e", "x"}, Gone: -1, Writer: w, Proto: p, Router: rt, LastId: "5"}) {
						return
					}
				}
			}
		}
	}
	kit.Explore(r, "scripts", gen, s04Run)

	r.Bound("every sequence of up to 3 events over 6 kinds (plain, 70000 bytes, several lines, only an id, only a retry time, empty) with pauses of 1 s or 25 h; bursts of up to %d events; Last-Event-Id values", 1000)
	kit.Explore(r, "events", seqOf(func(yield func(s04Case) bool) {
		both := func(c s04Case) bool {
			for _, end := range []string{"x", "h"} {
				for _, gone := range []int{-1, 1} {
					for _, rt := range []bool{false, true} {
						d := c
						d.Gen = append(append([]string(nil), c.Gen...), end)
						d.Gone, d.Router, d.Proto, d.Writer = gone, rt, 2, "full"
						if !yield(d) {
							return false
						}
					}
				}
			}
			return true
		}
		for _, k := range wordsUpTo([]string{"p", "b", "i", "0", "r", "m"}, 3) {
			for _, pause := range []string{"", "w", "W"} {
				for _, buf := range []int{0, 2} {
					c := s04Case{Kind: k, Buf: buf, LastId: k}
					for range k {
						c.Gen = append(c.Gen, "e")
						if pause != "" {
							c.Gen = append(c.Gen, pause)
						}
					}
					if !both(c) {
						return
					}
				}
			}
		}
		r.Bound("%d texts as data, name and id of an event between others, and as the Last-Event-Id", len(oddWords))
		for i, w := range oddWords {
			for _, k := range []string{"v", "w", "u", "pv", "vw", "wvu"} {
				c := s04Case{Kind: k, Word: i + 1, Buf: i % 2}
				if !strings.ContainsAny(w, "\x00\r\n") {
					c.LastId = w
				}
				c.Gen = []string{"e", "e", "e", "e"}
				if !both(c) {
					return
				}
			}
		}
		for _, n := range sizesTo(20, 1000) {
			for _, buf := range []int{0, 1, 64, n} {
				c := s04Case{Buf: buf}
				for i := 0; i < n; i++ {
					c.Gen = append(c.Gen, "e")
				}
				if !both(c) {
					return
				}
				for f := 1; f <= n && f <= 2000; f += 1 + n/3 {
					d := c
					d.FailAt = f
					if !both(d) {
						return
					}
				}
			}
		}
		for _, id := range []string{"0", " ", "a b", "\u00e9", textOf(5000), "1,2", "%41", "\"q\""} {
			if !both(s04Case{Gen: []string{"e"}, LastId: id}) {
				return
			}
		}
	}), s04Run)
}

var _ http.Handler
