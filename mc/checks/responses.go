package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"iter"
	"net/http"
	"strings"
	"unicode"
	"unicode/utf8"

	"gofremc/kit"
	"gofremc/wire"

	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { All["S01"] = checkS01 }

type s01Case struct {
	S      RS
	Writer string
	Method string
	FailAt int
	Frac   int
	Shape  int `json:",omitempty"` // index into shapes
}

func seqOf[T any](f func(yield func(T) bool)) iter.Seq[T] { return f }

func s01Run(r *kit.Run) func(c s01Case) *kit.Failure {
	return func(c s01Case) *kit.Failure {
		rec := wire.New()
		rec.FailAt, rec.FailFrac = c.FailAt, c.Frac
		resp := c.S.build()
		rq := c.S.reqFor(c.Method)
		shapes[c.Shape].f(rq)
		err := writeResp(resp, rec.Writer(c.Writer), rq)
		want, ok := c.S.want()
		if !ok {
			if err == nil {
				return kit.Failf("nostatuserr", "status %d of %s was not reported as an error", c.S.Status, c.S.Kind)
			}
			if rec.Status != 0 || rec.Body.Len() > 0 {
				return kit.Failf("sentinvalid", "a response with invalid status %d was sent: %v", c.S.Status, rec.View())
			}
			return nil
		}
		if c.S.Kind == "hijack" {
			if err != nil {
				return kit.Failf("hijack", "hijack returned %v", err)
			}
			if c.Writer == "full" && rec.Hijacks != 1 {
				return kit.Failf("hijack", "the connection was hijacked %d times", rec.Hijacks)
			}
			return nil
		}
		if rec.Super > 0 {
			return kit.Failf("super", "%d superfluous WriteHeader calls", rec.Super)
		}
		if err == nil {
			rec.End()
		}
		got := c.S.normalise(rec.View())
		if rec.Failed > 0 {
			if isRedirect(c.S.Kind) || isAdaptor(c.S.Kind) {
				return nil
			}
			if c.S.Kind == "sse" {
				return nil
			}
			if err == nil {
				return kit.Failf("lost", "write %d failed but Write of %s returned nil", c.FailAt, c.S.Kind)
			}
			if !errors.Is(err, wire.ErrBroken) {
				return kit.Failf("lost", "write %d failed but Write of %s returned an unrelated error: %v", c.FailAt, c.S.Kind, err)
			}
			if !strings.HasPrefix(want.Body, got.Body) {
				return kit.Failf("body", "after a failed write the body %.200q is no prefix of the payload", got.Body)
			}
			got.Body, want.Body = "", ""
			if d := wire.Diff(got, want); d != "" {
				return kit.Failf("diff", "%s with failing write: %s", c.S.Kind, d)
			}
			return nil
		}
		if err != nil {
			return kit.Failf("err", "%s failed without a fault: %v", c.S.Kind, err)
		}
		if d := wire.Diff(got, want); d != "" {
			return kit.Failf("diff", "%s: %s\n got %v\nwant %v", c.S.Kind, d, got, want)
		}
		r.Seen(kit.Hash(c.S.Kind, got.Status, len(got.Headers), len(got.Cookies), got.Body))
		return nil
	}
}

func checkS01(r *kit.Run) {
	r.Rule = "distinct = (kind, status, number of headers and cookies, body) of delivered responses"
	r.Bound("%d response kinds x statuses x %d header sets x %d cookie sets x %d payloads x late/early x 3 writer capabilities; every write of every response failing, accepting none or half of the bytes", len(allKinds), len(hdrVariants), len(ckVariants), len(bodies))
	r.Assume = []string{"1xx statuses other than 101 cannot end a response and are not sent here", "the client is a recording http.ResponseWriter"}
	statuses := []int{0, 101, 200, 201, 204, 304, 400, 404, 418, 500, 503, 999, 1, 99, 1000, -1, 100000}
	methods := kit.Pick(r, []string{"GET", "POST"}, []string{"GET", "POST", "HEAD", ""})
	gen := seqOf(func(yield func(s01Case) bool) {
		for _, k := range allKinds {
			for _, st := range statuses {
				if !statusFree(k) && st != 0 {
					continue
				}
				if isAdaptor(k) && (st < 100 && st != 0 || st > 999) {
					continue // the adapted handler's own mistake
				}
				for h := range hdrVariants {
					for c := range ckVariants {
						for b := range bodies {
							if b == 4 && !r.Thorough() && (h > 2 || c > 2) {
								continue
							}
							for _, late := range []bool{false, true} {
								for _, w := range wire.Kinds {
									for _, m := range methods {
										if m != "GET" && !isRedirect(k) && (h > 0 || c > 0) {
											continue
										}
										if !yield(s01Case{S: RS{Kind: k, Status: st, Hdr: h, Ck: c, Body: b, Late: late}, Writer: w, Method: m}) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}
	})
	kit.Explore(r, "product", gen, s01Run(r))

	r.Bound("every other constructor of every kind x %d statuses x %d header sets x %d cookie sets x payloads x late/early", len(statuses), len(hdrVariants), len(ckVariants))
	kit.Explore(r, "constructors", seqOf(func(yield func(s01Case) bool) {
		for _, k := range allKinds {
			for _, via := range viaOf[k] {
				for _, st := range statuses {
					if _, fixed := viaStatus[via]; (fixed || !statusFree(k)) && st != 0 {
						continue
					}
					for h := range hdrVariants {
						for c := range ckVariants {
							for b := 0; b < 4; b++ {
								for _, late := range []bool{false, true} {
									if !yield(s01Case{S: RS{Kind: k, Status: st, Hdr: h, Ck: c, Body: b, Late: late, Via: via}, Writer: "full", Method: "GET"}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}), s01Run(r))

	big := kit.Pick(r, 1<<18, 1<<22)
	r.Bound("bodies of %d sizes up to %d bytes, up to 1001 headers and cookies, header and cookie values of up to 65537 bytes, for every kind of response", len(sizesTo(130, big)), big)
	kit.Explore(r, "sizes", seqOf(func(yield func(s01Case) bool) {
		for _, k := range allKinds {
			for _, w := range wire.Kinds {
				for _, n := range sizesTo(130, big) {
					if !yield(s01Case{S: RS{Kind: k, Body: sized + n}, Writer: w, Method: "GET"}) {
						return
					}
				}
				for _, n := range sizesTo(40, 1001) {
					for _, late := range []bool{false, true} {
						if !yield(s01Case{S: RS{Kind: k, Hdr: sized + n, Body: 1, Late: late}, Writer: w, Method: "GET"}) ||
							!yield(s01Case{S: RS{Kind: k, Ck: sized + n, Body: 1, Late: late}, Writer: w, Method: "GET"}) {
							return
						}
					}
				}
				for _, n := range sizesTo(40, 65537) {
					if n > 0 && (!yield(s01Case{S: RS{Kind: k, Hdr: sizedValue + n, Body: 1}, Writer: w, Method: "GET"}) || !yield(s01Case{S: RS{Kind: k, Ck: sizedValue + n, Body: 1}, Writer: w, Method: "GET"})) {
						return
					}
				}
			}
		}
	}), s01Run(r))

	r.Bound("%d shapes of the request (protocol, headers, peer, query) x 8 methods x every response kind", len(shapes))
	kit.Explore(r, "shapes", seqOf(func(yield func(s01Case) bool) {
		for sh := range shapes {
			if strings.HasPrefix(shapes[sh].name, "HTTP/1") {
				continue // decides on event streams
			}
			for _, k := range allKinds {
				for _, me := range []string{"GET", "POST", "PUT", "PATCH", "DELETE"} {
					for b := 0; b < 4; b++ {
						for _, h := range []int{0, 2, 4} {
							if !yield(s01Case{S: RS{Kind: k, Ck: 3, Hdr: h, Body: b}, Writer: "full", Method: me, Shape: sh}) {
								return
							}
						}
					}
				}
			}
		}
	}), s01Run(r))

	r.Bound("every response kind x %d response headers, %d texts as payload, %d targets of redirects", len(headerVocab), len(oddWords), len(locationVocab))
	kit.Explore(r, "vocabulary", seqOf(func(yield func(s01Case) bool) {
		for _, k := range allKinds {
			for i, h := range headerVocab {
				if k == "sse" && h[0] == "Cache-Control" {
					continue // whether the stream's own value wins is left open
				}
				for _, late := range []bool{false, true} {
					for _, me := range []string{"GET", "POST"} {
						if !yield(s01Case{S: RS{Kind: k, Hdr: vocab + i, Ck: 2, Body: 1, Late: late}, Writer: "full", Method: me}) {
							return
						}
					}
				}
			}
			for i, w := range oddWords {
				if k == "jsonerr" && w != "" && w[0] >= 0x80 {
					continue // how such a letter is capitalised is left open
				}
				for _, via := range append([]string{""}, viaOf[k]...) {
					if !yield(s01Case{S: RS{Kind: k, Body: vocab + i, Via: via}, Writer: "full", Method: "GET"}) {
						return
					}
				}
			}
			if isRedirect(k) {
				for _, u := range locationVocab {
					for _, me := range []string{"GET", "HEAD", "POST"} {
						for h := 0; h < 3; h++ {
							if !yield(s01Case{S: RS{Kind: k, Url: u, Hdr: h}, Writer: "full", Method: me}) {
								return
							}
						}
					}
				}
			}
		}
	}), s01Run(r))

	faults := seqOf(func(yield func(s01Case) bool) {
		for _, k := range allKinds {
			if k == "hijack" {
				continue
			}
			for b := range bodies {
				for _, w := range wire.Kinds {
					for _, h := range []int{0, 5} {
						// count the writes of the fault free run
						rec := wire.New()
						s := RS{Kind: k, Hdr: h, Ck: 2, Body: b}
						if err := writeResp(s.build(), rec.Writer(w), s.reqFor("GET")); err != nil {
							// reported by the product space
							continue
						}
						for n := 1; n <= rec.Writes; n++ {
							for f := 0; f < 2; f++ {
								if !yield(s01Case{S: s, Writer: w, Method: "GET", FailAt: n, Frac: f}) {
									return
								}
							}
						}
					}
				}
			}
		}
	})
	kit.Explore(r, "faults", faults, s01Run(r))

	kit.Explore(r, "payloads", seqOf(func(yield func(s01Payload) bool) {
		for i := range jsonPayloads {
			if !yield(s01Payload{Kind: "json", I: i}) {
				return
			}
		}
		for i := range errMessages {
			if !yield(s01Payload{Kind: "jsonerr", I: i}) {
				return
			}
		}
		for i := range sourceFaults {
			for _, k := range []string{"raw", "stream", "template", "templatename"} {
				if !yield(s01Payload{Kind: k, I: i}) {
					return
				}
			}
		}
		for i := range redirectTargets {
			for _, st := range []int{0, 301, 302, 303, 307, 308, 99, 1000, -5} {
				if !yield(s01Payload{Kind: "redirect", I: i, Status: st}) {
					return
				}
			}
		}
		for i := range convenience {
			if !yield(s01Payload{Kind: "convenience", I: i}) {
				return
			}
		}
		for i := 0; i < 3; i++ {
			for _, st := range []int{200, 201, 299, 404, 99, 1, 1000, -5, 100000} {
				if !yield(s01Payload{Kind: "ssestatus", I: i, Status: st}) {
					return
				}
			}
		}
	}), s01PayloadRun)
}

type s01Payload struct {
	Kind   string
	I      int
	Status int
}

var jsonPayloads = []any{nil, "", "x", 0, -1.5, true, false, []string{}, []string(nil), map[string]int{}, map[string]any{"a": []any{nil, 1, "<&>"}, "b": map[string]any{"c": ""}},
	struct {
		A int    `json:"a"`
		B string `json:"b,omitempty"`
	}{A: 3}, json.RawMessage(`{"raw": [1, 2]}`), strings.Repeat("long", 5000), []byte{1, 2, 3}}

var errMessages = []string{"", "x", "X", "already exists", "1st", " lead", "\u00fcber", "\u4e16\u754c", "\u00df sharp", "\"quoted\"", "\u01c6", strings.Repeat("m", 3000)}

var sourceFaults = []int{0, 1, 2}

var redirectTargets = []string{"https://other.example/", "https://other.example/a?b=c#d", "/rooted", "/rooted/x?y=1", "http://h/%2F"}

var convenience = []struct {
	name string
	mk   func() response.HttpResponse
	want string
}{
	{"PlainTextHttpResponseOK", func() response.HttpResponse { return response.PlainTextHttpResponseOK("b") }, "200|text/plain; charset=utf-8|b"},
	{"HtmlHttpResponseOK", func() response.HttpResponse { return response.HtmlHttpResponseOK("b") }, "200|text/html; charset=utf-8|b"},
	{"HtmlHttpResponse", func() response.HttpResponse { return response.HtmlHttpResponse(404, "b") }, "404|text/html; charset=utf-8|b"},
	{"JsonHttpResponseOK", func() response.HttpResponse { return response.JsonHttpResponseOK(1) }, "200|application/json|1"},
	{"JsonHttpResponse", func() response.HttpResponse { return response.JsonHttpResponse(201, 1) }, "201|application/json|1"},
	{"JsonErrorHttpResponse", func() response.HttpResponse { return response.JsonErrorHttpResponse(409, errors.New("bad")) }, `409|application/json|{"error":"Bad"}`},
	{"JsonErrorHttpResponse nil", func() response.HttpResponse { return response.JsonErrorHttpResponse(409, nil) }, `409|application/json|{"error":""}`},
	{"RawWriterHttpResponse x", func() response.HttpResponse { return response.RawWriterHttpResponse("x", nil) }, "200|x|"},
	{"TemplateHttpResponseWithHeaders x", func() response.HttpResponse {
		h := response.NewHttpHeaders()
		h.Set("Content-Type", "x")
		return response.TemplateHttpResponseWithHeaders(htmlTpl, 201, "t", "z", h)
	}, "201|x|<p>z</p>"},
	{"StreamHttpResponse", func() response.HttpResponse { return response.StreamHttpResponse("a/b", strings.NewReader("s")) }, "200|a/b|s"},
	{"RawWriterHttpResponse", func() response.HttpResponse {
		return response.RawWriterHttpResponse("a/b", func(w io.Writer) error { _, err := w.Write([]byte("r")); return err })
	}, "200|a/b|r"},
	{"TemplateHttpResponseOK", func() response.HttpResponse { return response.TemplateHttpResponseOK(htmlTpl, "t", "z") }, "200|text/html; charset=utf-8|<p>z</p>"},
	{"TemplateHttpResponseNotFound", func() response.HttpResponse { return response.TemplateHttpResponseNotFound(htmlTpl, "t", "z") }, "404|text/html; charset=utf-8|<p>z</p>"},
	{"TemplateNil", func() response.HttpResponse { return response.TemplateHttpResponseOK(response.NilTemplate{}, "t", "z") }, "200|text/plain; charset=utf-8|"},
	{"InternalServerErrorHttpResponse", func() response.HttpResponse { return response.InternalServerErrorHttpResponse() }, "500||"},
}

type failTpl struct{ n int }

func (f failTpl) Execute(w io.Writer, d any) error { return f.ExecuteTemplate(w, "", d) }
func (f failTpl) ExecuteTemplate(w io.Writer, n string, d any) error {
	for i := 0; i < f.n; i++ {
		if _, err := w.Write([]byte("part")); err != nil {
			return err
		}
	}
	return errSource
}

func s01PayloadRun(c s01Payload) *kit.Failure {
	for _, wk := range wire.Kinds {
		rec := wire.New()
		w := rec.Writer(wk)
		rq := mkReq("GET", "/p")
		switch c.Kind {
		case "json":
			p := jsonPayloads[c.I]
			if err := writeResp(response.JsonHttpResponseOK(p), w, rq); err != nil {
				return kit.Failf("err", "JSON payload %v: %v", p, err)
			}
			want := mustJSON(p)
			if p == nil {
				want = "{}"
			}
			var a, b bytes.Buffer
			if json.Compact(&a, rec.Body.Bytes()) != nil || json.Compact(&b, []byte(want)) != nil || a.String() != b.String() {
				return kit.Failf("json", "JSON payload %v was sent as %q", p, rec.Body.String())
			}
		case "jsonerr":
			m := errMessages[c.I]
			if err := writeResp(response.JsonErrorHttpResponse(400, errors.New(m)), w, rq); err != nil {
				return kit.Failf("err", "error message %q: %v", m, err)
			}
			var got struct{ Error string }
			if err := json.Unmarshal(rec.Body.Bytes(), &got); err != nil {
				return kit.Failf("json", "error message %q was sent as %q: %v", m, rec.Body.String(), err)
			}
			if !sameButFirstLetter(got.Error, m) {
				return kit.Failf("errmsg", "error message %q arrived as %q", m, got.Error)
			}
		case "raw", "stream", "template", "templatename":
			n := sourceFaults[c.I]
			var parts []string
			for i := 0; i < n; i++ {
				parts = append(parts, "part")
			}
			var resp response.HttpResponse
			switch c.Kind {
			case "raw":
				resp = response.RawWriterHttpResponse("a/b", func(w io.Writer) error {
					if err := writeChunks(w, parts, false); err != nil {
						return err
					}
					return errSource
				})
			case "stream":
				resp = response.StreamHttpResponse("a/b", &chunkReader{parts: parts, err: errSource})
			case "template":
				resp = response.TemplateHttpResponseOK(failTpl{n}, "t", nil)
			case "templatename":
				resp = response.TemplateHttpResponseOK(htmlTpl, "nosuch", nil)
			}
			err := writeResp(resp, w, rq)
			if err == nil {
				return kit.Failf("lost", "a failing %s source was not reported", c.Kind)
			}
			if c.Kind != "templatename" && !errors.Is(err, errSource) {
				return kit.Failf("lost", "a failing %s source was reported as %v", c.Kind, err)
			}
			if want := strings.Repeat("part", n); c.Kind != "templatename" && rec.Body.String() != want {
				return kit.Failf("body", "before the %s source failed %q was sent, want %q", c.Kind, rec.Body.String(), want)
			}
		case "redirect":
			resp := &response.HttpRedirectResponse{HttpHeadersResponse: response.HttpHeadersResponse{HttpStatusCode: c.Status}, Url: redirectTargets[c.I]}
			err := writeResp(resp, w, rq)
			if c.Status == 0 {
				if err == nil && (rec.Status < 100 || rec.Status > 999) {
					return kit.Failf("status", "redirect without status sent %d", rec.Status)
				}
				continue
			}
			if c.Status < 100 || c.Status > 999 {
				if err == nil || rec.Status != 0 {
					return kit.Failf("status", "redirect with invalid status %d: err %v, sent %v", c.Status, err, rec.View())
				}
				continue
			}
			if err != nil || rec.Status != c.Status || rec.Sent.Get("Location") != redirectTargets[c.I] {
				return kit.Failf("redirect", "redirect %d to %q: err %v sent %v", c.Status, redirectTargets[c.I], err, rec.View())
			}
		case "ssestatus":
			// an event stream whose public status field was set, producing I events
			ran := 0
			resp := &response.HttpSSEResponse{HttpHeadersResponse: response.HttpHeadersResponse{HttpStatusCode: c.Status}, EventGenerator: func(context.Context, string) <-chan response.ServerSentEvent {
				ran++
				ch := make(chan response.ServerSentEvent, 3)
				for i := 0; i < c.I; i++ {
					ch <- response.ServerSentEvent{Data: []string{"e"}}
				}
				close(ch)
				return ch
			}}
			rq.Proto, rq.ProtoMajor, rq.ProtoMinor = "HTTP/2.0", 2, 0
			err := writeResp(resp, w, rq)
			if c.Status < 100 || c.Status > 999 {
				if err == nil || rec.Status != 0 || rec.Body.Len() > 0 {
					return kit.Failf("status", "event stream with invalid status %d: err %v, sent %v", c.Status, err, rec.View())
				}
				continue
			}
			if err != nil || rec.Status != c.Status || rec.Body.String() != strings.Repeat("data: e\n\n", c.I) || ran != 1 {
				return kit.Failf("sse", "event stream of %d events with status %d: err %v, generator ran %d times, sent %v", c.I, c.Status, err, ran, rec.View())
			}
		case "convenience":
			cv := convenience[c.I]
			if err := writeResp(cv.mk(), w, rq); err != nil {
				return kit.Failf("err", "%s: %v", cv.name, err)
			}
			got := fmt.Sprintf("%d|%s|%s", rec.Status, rec.Sent.Get("Content-Type"), rec.Body.String())
			if got != cv.want {
				return kit.Failf("convenience", "%s sent %q, want %q", cv.name, got, cv.want)
			}
		}
	}
	return nil
}

// sameButFirstLetter allows the case of the first letter to differ.
func sameButFirstLetter(got, want string) bool {
	if got == want {
		return true
	}
	g, gn := utf8.DecodeRuneInString(got)
	w, wn := utf8.DecodeRuneInString(want)
	if gn == 0 || wn == 0 || g == utf8.RuneError && gn == 1 {
		return false
	}
	if got[gn:] == want[wn:] && (unicode.ToUpper(w) == g || unicode.ToTitle(w) == g) {
		return true
	}
	// letters whose upper case is several letters
	return strings.EqualFold(got, want) || got == strings.ToUpper(want[:wn])+want[wn:]
}

var _ = http.StatusOK
var _ path.MatchingContext
