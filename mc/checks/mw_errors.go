package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"

	"gofremc/kit"
	"gofremc/wire"

	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { All["M03"] = checkM03 }

// event is what a handler or middleware does: succeed, return an error, or panic.
type m03Event struct {
	Name   string
	err    error
	panics func()
	status []int // acceptable translations of the error
}

type uncomparableErr []string

func (e uncomparableErr) Error() string { return strings.Join(e, ",") }

func sameError(a, b error) bool {
	if a != nil && !reflect.TypeOf(a).Comparable() {
		return reflect.DeepEqual(a, b)
	}
	return a == b
}

type customErr struct{ a, b int }

func (c *customErr) Error() string { return fmt.Sprintf("custom %d %d", c.a, c.b) }

var nilMap map[string]int
var nilPtr *customErr

func m03Events() []m03Event {
	wrap := func(e error) error { return fmt.Errorf("while handling: %w", e) }
	other := errors.New("anything else")
	var evs []m03Event
	add := func(name string, err error, st ...int) {
		evs = append(evs, m03Event{Name: name, err: err, status: st})
	}
	add("badrequest", gerrors.NewBadRequestWithMessage("bad input"), 400)
	add("badrequest-err", gerrors.NewBadRequest(other), 400)
	add("badrequest-of-denied", gerrors.NewBadRequest(gerrors.ErrAccessDenied), 400)
	add("badrequest-empty", gerrors.NewBadRequestWithMessage(""), 400)
	add("notfound", gerrors.NewObjectNotFoundWithMessage("no such \"thing\"\n<b>"), 404)
	add("notfound-err", gerrors.NewObjectNotFound(other), 404)
	add("notfound-of-bad", gerrors.NewObjectNotFound(gerrors.NewBadRequest(other)), 404)
	add("unauthorized", gerrors.ErrUnauthorizedRequest, 401)
	add("credentials", gerrors.ErrWrongCredentials, 403)
	add("denied", gerrors.ErrAccessDenied, 403)
	add("other", other, 500)
	add("custom", &customErr{1, 2}, 500)
	for _, e := range []error{gerrors.ErrUnauthorizedRequest, gerrors.ErrWrongCredentials, gerrors.ErrAccessDenied} {
		add("sameText-"+e.Error(), errors.New(e.Error()), 500)
		add("sameFmt-"+e.Error(), fmt.Errorf("%s", e.Error()), 500)
	}
	add("sameText-bad", errors.New(gerrors.NewBadRequest(other).Error()), 500)
	add("uncomparable", uncomparableErr{"a", "b"}, 500)
	add("emptyText", errors.New(""), 500)
	add("deadline", context.DeadlineExceeded, 500)
	add("eof", io.EOF, 500)
	add("formatted", errors.New("100%s %d <b> \u00e9 \x00 \"q\""), 500)
	add("ctx", context.Canceled, 500)
	// whether wrapped errors keep their status is left open
	add("wrapped-bad", wrap(gerrors.NewBadRequest(other)), 400, 500)
	add("wrapped-unauthorized", wrap(gerrors.ErrUnauthorizedRequest), 401, 500)
	add("wrapped-denied", wrap(gerrors.ErrAccessDenied), 403, 500)
	add("joined", errors.Join(gerrors.ErrWrongCredentials, other), 403, 500)
	pan := func(name string, f func()) { evs = append(evs, m03Event{Name: "panic-" + name, panics: f}) }
	pan("string", func() { panic("boom") })
	pan("empty", func() { panic("") })
	pan("error", func() { panic(other) })
	pan("denied", func() { panic(gerrors.ErrAccessDenied) })
	pan("bad", func() { panic(gerrors.NewBadRequestWithMessage("x")) })
	pan("int", func() { panic(42) })
	pan("struct", func() { panic(struct{ a []int }{}) })
	pan("typednil", func() { panic((*customErr)(nil)) })
	pan("nilmap", func() { nilMap["x"] = 1 })
	pan("nilptr", func() { _ = nilPtr.a })
	pan("index", func() { _ = []int{}[len(nilMap)] })
	pan("abort", func() { panic(http.ErrAbortHandler) })
	pan("deep", func() {
		defer func() { panic("second") }()
		panic("first")
	})
	evs = append(evs, m03Event{Name: "ok"})
	return evs
}

var m03Evs = m03Events()

// m03Few is the number of events of the large spaces, those behind them come from the vocabulary.
var m03Few = len(m03Evs)

func init() {
	for i, e := range errorVocab {
		m03Evs = append(m03Evs, m03Event{Name: fmt.Sprintf("vocab%d %T", i, e), err: e, status: []int{500}}, m03Event{Name: fmt.Sprintf("panic-vocab%d %T", i, e), panics: func() { panic(e) }})
	}
	for i, w := range oddWords {
		m03Evs = append(m03Evs, m03Event{Name: fmt.Sprint("word", i), err: errors.New(w), status: []int{500}}, m03Event{Name: fmt.Sprint("bad-word", i), err: gerrors.NewBadRequestWithMessage(w), status: []int{400}}, m03Event{Name: fmt.Sprint("lost-word", i), err: gerrors.NewObjectNotFoundWithMessage(w), status: []int{404}}, m03Event{Name: fmt.Sprint("panic-word", i), panics: func() { panic(w) }})
	}
}

type m03Case struct {
	Stack  []string // outermost first: "json", "custom", "panic", "x" (a middleware of the application)
	Fault  int      // where the event happens: index of an "x" in Stack, or len(Stack) for the handler
	Event  int
	After  bool // an "x" acts after calling on instead of before
	Kind   string
	Method string `json:",omitempty"`
	Shape  int    `json:",omitempty"` // index into shapes
}

func m03Run(seen func(uint64) bool) func(c m03Case) *kit.Failure {
	return func(c m03Case) *kit.Failure {
		ev := m03Evs[c.Event]
		rs := RS{Kind: c.Kind, Body: 1, Hdr: 2, Ck: 2}
		active := true
		var supplied []string
		act := func() error {
			if !active {
				return nil
			}
			if ev.panics != nil {
				ev.panics()
			}
			return ev.err
		}
		var mws []middleware.Middleware
		for i, s := range c.Stack {
			switch s {
			case "json":
				mws = append(mws, middleware.ErrJsonResponse())
			case "custom":
				mws = append(mws, middleware.ErrResponse(func(st int, err error) response.HttpResponse {
					supplied = append(supplied, fmt.Sprint(st, "|", sameError(err, ev.err)))
					return response.PlainTextHttpResponse(st, "custom:"+err.Error())
				}))
			case "panic":
				mws = append(mws, middleware.PanicRecover())
			case "x":
				mws = append(mws, func(h handlerT) handlerT {
					return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
						if i == c.Fault && !c.After {
							if err := act(); err != nil {
								return nil, err
							}
						}
						r, err := h(ctx, mc)
						if i == c.Fault && c.After {
							if err := act(); err != nil {
								return nil, err
							}
						}
						return r, err
					}
				})
			}
		}
		rg := newRig(mws...)
		rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			if c.Fault == len(c.Stack) {
				if err := act(); err != nil {
					return nil, err
				}
			}
			return rs.build(), nil
		}
		rec := wire.New()
		rg.shape = c.Shape
		s := rg.serve(rec, rec.Writer("full"), rs.reqFor(or(c.Method, "POST")))

		// what has to happen, from the inside out
		const okS, errS, panS, respS = 0, 1, 2, 3
		state := okS
		msg := ""
		fromPanic := false
		status := []int{500}
		translator := ""
		if ev.panics != nil {
			state = panS
		} else if ev.err != nil {
			state, status, msg = errS, ev.status, ev.err.Error()
		}
		for i := c.Fault - 1; i >= 0; i-- {
			switch c.Stack[i] {
			case "panic":
				if state == panS {
					state, fromPanic, status = errS, true, []int{500}
				}
			case "json", "custom":
				if state == errS {
					state, translator = respS, c.Stack[i]
				}
			}
		}
		switch state {
		case panS:
			if !s.HasPan {
				return kit.Failf("swallowed", "event %s: a panic without recovery above it was swallowed: %v", ev.Name, s.View)
			}
		case errS:
			if s.HasPan {
				return kit.Failf("escaped", "event %s: the panic escaped: %v", ev.Name, s.Panic)
			}
			if s.View.Status != 500 || len(s.Errs) != 1 {
				return kit.Failf("uncaught", "event %s: an untranslated error gave %v, logged %v", ev.Name, s.View, s.Errs)
			}
		case okS:
			want, _ := rs.want()
			if s.HasPan || len(s.Errs) > 0 {
				return kit.Failf("ok", "a request without error gave panic %v, errors %v", s.Panic, s.Errs)
			}
			if d := wire.Diff(rs.normalise(s.View), want); d != "" {
				return kit.Failf("touched", "a request without error was changed: %s", d)
			}
		case respS:
			if s.HasPan {
				return kit.Failf("escaped", "event %s: the panic escaped: %v", ev.Name, s.Panic)
			}
			if len(s.Errs) > 0 {
				return kit.Failf("logged", "event %s was translated and logged: %v", ev.Name, s.Errs)
			}
			okStatus := false
			for _, st := range status {
				okStatus = okStatus || s.View.Status == st
			}
			if !okStatus {
				return kit.Failf("status", "event %s is answered with %d, want %v", ev.Name, s.View.Status, status)
			}
			got := ""
			if translator == "json" {
				var m map[string]string
				if err := json.Unmarshal([]byte(s.View.Body), &m); err != nil || len(m) != 1 {
					return kit.Failf("json", "event %s is answered with %q", ev.Name, s.View.Body)
				}
				var ok bool
				if got, ok = m["error"]; !ok {
					return kit.Failf("json", "event %s is answered with %q", ev.Name, s.View.Body)
				}
			} else {
				var ok bool
				if got, ok = cutPrefix(s.View.Body, "custom:"); !ok || len(supplied) != 1 {
					return kit.Failf("supplier", "event %s is answered with %q, the supplier was called %v", ev.Name, s.View.Body, supplied)
				}
				if !fromPanic && supplied[0] != fmt.Sprint(s.View.Status, "|", true) {
					return kit.Failf("supplier", "event %s: the supplier got %v", ev.Name, supplied)
				}
			}
			if fromPanic {
				if got == "" {
					return kit.Failf("message", "event %s: no message", ev.Name)
				}
			} else if got != msg {
				return kit.Failf("message", "event %s arrives with message %q, want %q", ev.Name, got, msg)
			}
		}
		seen(kit.Hash(ev.Name, state, s.View.Status, translator))

		// the next request is not affected
		active = false
		rec = wire.New()
		s = rg.serve(rec, rec.Writer("full"), rs.reqFor("POST"))
		want, _ := rs.want()
		if d := wire.Diff(rs.normalise(s.View), want); d != "" || s.HasPan || len(s.Errs) > 0 {
			return kit.Failf("next", "after event %s the next request differs: %s (panic %v, errors %v)", ev.Name, d, s.Panic, s.Errs)
		}
		return nil
	}
}

func cutPrefix(s, p string) (string, bool) {
	if len(s) >= len(p) && s[:len(p)] == p {
		return s[len(p):], true
	}
	return s, false
}

func checkM03(r *kit.Run) {
	depth := kit.Pick(r, 4, 6)
	r.Rule = "distinct = (event, resulting state, status, translator)"
	r.Bound("all stacks of up to %d of {JSON error translation, custom error translation, panic recovery, application middleware} x %d events (errors, wrapped errors, panics, success) raised by the handler or by any application middleware before or after calling on, each followed by a second request", depth, m03Few)
	r.Assume = []string{"whether a wrapped framework error keeps its status is left open", "panic(nil) is what the Go version of the main module makes of it"}
	run := m03Run(r.Seen)
	gen := seqOf(func(yield func(m03Case) bool) {
		var rec func(st []string) bool
		rec = func(st []string) bool {
			for f := 0; f <= len(st); f++ {
				if f < len(st) && st[f] != "x" {
					continue
				}
				for e := range m03Evs[:m03Few] {
					for _, after := range []bool{false, true} {
						if f == len(st) && after {
							continue
						}
						for _, k := range []string{"text", "redirect302", "adaptor"} {
							if k != "text" && len(st) > 2 {
								continue
							}
							if !yield(m03Case{Stack: append([]string(nil), st...), Fault: f, Event: e, After: after, Kind: k}) {
								return false
							}
						}
					}
				}
			}
			if len(st) == depth {
				return true
			}
			for _, m := range []string{"json", "custom", "panic", "x"} {
				if !rec(append(st, m)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	})
	kit.Explore(r, "stacks", gen, run)
	r.Bound("stacks of up to 2 x %d errors of the standard library and of other texts, returned and as panics, x {GET, HEAD, POST}", len(m03Evs)-m03Few)
	kit.Explore(r, "vocabulary", seqOf(func(yield func(m03Case) bool) {
		for _, st := range [][]string{{}, {"json"}, {"custom"}, {"panic"}, {"json", "panic"}, {"panic", "json"}, {"custom", "panic"}, {"json", "x"}, {"panic", "x"}} {
			for e := m03Few; e < len(m03Evs); e++ {
				for _, me := range []string{"", "HEAD", "POST"} {
					for f := 0; f <= len(st); f++ {
						if f < len(st) && st[f] != "x" {
							continue
						}
						if !yield(m03Case{Stack: st, Fault: f, Event: e, Kind: "text", Method: me, After: f < len(st)}) {
							return
						}
					}
				}
			}
		}
	}), run)
	r.Bound("stacks of up to 2 x %d methods x %d shapes of the request (body, protocol, headers, peer, query) x all events of the handler", len(rigMethods), len(shapes))
	kit.Explore(r, "shapes", seqOf(func(yield func(m03Case) bool) {
		for _, st := range [][]string{{"json"}, {"custom"}, {"panic"}, {"json", "panic"}, {"panic", "json"}, {"custom", "panic"}} {
			for e := range m03Evs[:m03Few] {
				for _, me := range rigMethods {
					for sh := range shapes {
						if !yield(m03Case{Stack: st, Fault: len(st), Event: e, Kind: "text", Method: me, Shape: sh}) {
							return
						}
					}
				}
			}
		}
	}), run)
	r.Bound("each event 1 to 300 times on one mux with a good request after every one; up to 70 middlewares of one kind on top of each other; messages of up to 1 MiB around every power of two and with every rune below U+0250; panics with every kind of value of these texts")
	kit.Explore(r, "volume", seqOf(func(yield func(m03Volume) bool) {
		for _, st := range [][]string{{"json", "panic"}, {"panic", "json"}, {"custom", "panic"}, {"json"}, {"panic"}} {
			for e := range m03Evs[:m03Few] {
				if !yield(m03Volume{Stack: st, Event: e, N: 300}) {
					return
				}
			}
			for _, n := range sizesTo(70, 1<<20) {
				for pan := 0; pan < 3; pan++ {
					if !yield(m03Volume{Stack: st, Len: n, Event: -1, Panic: pan, N: 1}) {
						return
					}
				}
			}
			for c := 1; c < 0x250; c++ {
				for pan := 0; pan < 3; pan++ {
					if !yield(m03Volume{Stack: st, Rune: c, Event: -1, Panic: pan, N: 1}) {
						return
					}
				}
			}
		}
		for n := 1; n <= 70; n++ {
			for _, st := range []string{"json", "custom", "panic"} {
				var a, b []string
				for i := 0; i < n; i++ {
					a, b = append(a, st), append(b, st)
				}
				a, b = append(a, "panic"), append([]string{"json"}, b...)
				for e := range m03Evs[:m03Few] {
					if !yield(m03Volume{Stack: a, Event: e, N: 2}) || !yield(m03Volume{Stack: b, Event: e, N: 2}) {
						return
					}
				}
			}
		}
	}), func(c m03Volume) *kit.Failure { return c.run(r.Seen) })
}

// m03Volume is one event again and again, or one with a generated message.
type m03Volume struct {
	Stack            []string
	Event, N         int
	Len, Rune, Panic int
}

func (c m03Volume) run(seen func(uint64) bool) *kit.Failure {
	var ev m03Event
	if c.Event >= 0 {
		ev = m03Evs[c.Event]
	} else {
		text := textOf(c.Len)
		if c.Rune > 0 {
			text = "a" + string(rune(c.Rune)) + "b"
		}
		switch c.Panic {
		case 0:
			ev = m03Event{Name: "long", err: gerrors.NewBadRequestWithMessage(text), status: []int{400}}
		case 1:
			ev = m03Event{Name: "long-panic", panics: func() { panic(text) }}
		case 2:
			ev = m03Event{Name: "long-panic-error", panics: func() { panic(errors.New(text)) }}
		}
	}
	good := false
	var mws []middleware.Middleware
	for _, s := range c.Stack {
		switch s {
		case "json":
			mws = append(mws, middleware.ErrJsonResponse())
		case "custom":
			mws = append(mws, middleware.ErrResponse(func(st int, err error) response.HttpResponse { return response.PlainTextHttpResponse(st, err.Error()) }))
		case "panic":
			mws = append(mws, middleware.PanicRecover())
		}
	}
	rg := newRig(mws...)
	rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if !good {
			if ev.panics != nil {
				ev.panics()
			}
			if ev.err != nil {
				return nil, ev.err
			}
		}
		return response.PlainTextHttpResponseOK("fine"), nil
	}
	// 0 fine, 1 error, 2 panic, 3 answered; the innermost middleware comes last
	state, status, translator := 0, ev.status, ""
	if ev.panics != nil {
		state = 2
	} else if ev.err != nil {
		state = 1
	}
	for i := len(c.Stack) - 1; i >= 0; i-- {
		switch {
		case c.Stack[i] == "panic" && state == 2:
			state, status = 1, []int{500}
		case c.Stack[i] != "panic" && state == 1:
			state, translator = 3, c.Stack[i]
		}
	}
	for i := 0; i < c.N; i++ {
		good = false
		rec := wire.New()
		s := rg.serve(rec, rec.Writer("full"), mkReq("GET", "/p"))
		if s.HasPan != (state == 2) {
			return kit.Failf("panic", "event %s for the %d. time: panic %v escaped=%v", ev.Name, i+1, s.Panic, s.HasPan)
		}
		switch state {
		case 0:
			if s.View.Status != 200 || s.View.Body != "fine" || len(s.Errs) > 0 {
				return kit.Failf("fine", "a request without error is answered with %v", s.View)
			}
		case 1:
			if s.View.Status != 500 || len(s.Errs) != 1 {
				return kit.Failf("uncaught", "event %s for the %d. time: %v, logged %d", ev.Name, i+1, s.View, len(s.Errs))
			}
		case 3:
			ok := false
			for _, st := range status {
				ok = ok || s.View.Status == st
			}
			if !ok || len(s.Errs) > 0 {
				return kit.Failf("status", "event %s for the %d. time is answered with %d, want %v (logged %d)", ev.Name, i+1, s.View.Status, status, len(s.Errs))
			}
			msg := s.View.Body
			if translator == "json" {
				var m map[string]string
				if err := json.Unmarshal([]byte(msg), &m); err != nil || len(m) != 1 {
					return kit.Failf("json", "event %s for the %d. time is answered with %.200q", ev.Name, i+1, msg)
				}
				msg = m["error"]
			}
			if ev.panics == nil && msg != ev.err.Error() || msg == "" && ev.panics != nil {
				return kit.Failf("message", "event %s for the %d. time arrives with a message of %d bytes %.200q, want %d bytes", ev.Name, i+1, len(msg), msg, len(fmt.Sprint(ev.err)))
			}
		}
		good = true
		rec = wire.New()
		if s := rg.serve(rec, rec.Writer("full"), mkReq("GET", "/p")); s.HasPan || s.View.Status != 200 || s.View.Body != "fine" || len(s.Errs) > 0 {
			return kit.Failf("next", "after event %s for the %d. time a good request is answered with %v, panic %v", ev.Name, i+1, s.View, s.Panic)
		}
	}
	seen(kit.Hash("volume", ev.Name, state, translator, len(c.Stack)))
	return nil
}
