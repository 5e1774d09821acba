package checks

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	htmltpl "html/template"
	"io"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strings"
	texttpl "text/template"
	"time"

	"gofremc/wire"

	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

// RS describes one response a handler may return; it is data, so that every build gives a fresh one.
type RS struct {
	Kind   string
	Status int
	Hdr    int    // index into hdrVariants
	Ck     int    // index into ckVariants
	Body   int    // index into bodies
	Late   bool   // headers and cookies are set through the response after construction
	Url    string `json:",omitempty"` // where a redirect leads, "" for redirectTarget
	Via    string `json:",omitempty"` // constructor: "" takes headers and cookies, "H" only headers, "C" only cookies, "P" neither, "OK", "404" and "500" not even the status
}

// viaOf lists, next to the constructor taking everything, the others each kind has.
var viaOf = map[string][]string{
	"headers": {"500"},
	"text":    {"P", "H", "OK"}, "html": {"P", "H", "OK"},
	"json": {"P", "H", "C", "OK"}, "jsonnil": {"P", "H", "C", "OK"}, "jsonerr": {"P", "H", "C"},
	"raw": {"H", "C", "OK"}, "rawflush": {"H", "C", "OK"}, "rawnil": {"H", "C", "OK"},
	"stream": {"H", "C", "OK"}, "streamnil": {"H", "C", "OK"},
	"tplhtml": {"H", "C", "OK", "404"}, "tpltext": {"H", "C", "OK", "404"},
	"sse": {"H", "OK"},
}

// viaStatus is the status of the constructors that fix it.
var viaStatus = map[string]int{"OK": 200, "404": 404, "500": 500}

var hdrVariants = []map[string]string{
	0:  nil,
	1:  {},
	2:  {"X-A": "1"},
	3:  {"Content-Type": "text/x-custom"},
	4:  {"X-Content-Type-Options": "custom"},
	5:  {"X-A": "1", "X-B": "two words; q=1", "Content-Type": "a/b", "X-Content-Type-Options": "none", "Vary": "Accept"},
	6:  {"x-lower": "v"},
	7:  {"Content-Length": "LEN"},
	8:  {"Content-Encoding": "br"},
	9:  {"Accept-Encoding": "gzip", "X-A": "2"},
	10: {"Etag": `"strong"`, "Vary": "Accept-Language, Cookie"},
}

var ckVariants = [][]*http.Cookie{
	0: nil,
	1: {},
	2: {{Name: "a", Value: "1"}},
	3: {{Name: "a", Value: "1", Path: "/x"}, {Name: "a", Value: "2", Path: "/y"}, {Name: "b", Value: "v w", HttpOnly: true, Secure: true, MaxAge: 7, SameSite: http.SameSiteStrictMode}},
	5: {{Name: "a", Value: "1", Domain: "d.example"}, {Name: "a", Value: "2", Domain: "e.example"}, {Name: "a", Value: "3", Path: "/x", Domain: "d.example"},
		{Name: "A", Value: "4", Domain: "d.example"}, {Name: "h", Value: "secret", HttpOnly: true, Path: "/"}, {Name: "x", Value: "t", Expires: time.Unix(2000000000, 0), SameSite: http.SameSiteNoneMode, Secure: true, MaxAge: -1, Partitioned: true}},
	4: {{Name: "a", Value: "1", Path: "/x"}, nil, {Name: "a", Value: "3", Path: "/x"}, {Name: "a", Value: "9", Domain: "d.example"}},
}

var bodies = []string{
	0: "",
	1: "a",
	2: "h\u00e9llo\n<b>\x00\"&\xff",
	3: strings.Repeat("0123456789", 700),
	4: strings.Repeat("The quick brown fox. ", 4000),
}

// Indexes from sized on stand for as many bytes, headers or cookies, those from sizedValue on for one header or
// cookie with a value of that length.
const sized, sizedValue = 1000, 1000000

// Indexes from vocab on stand for the entries of the vocabularies.
const vocab = 10000000

func bodyOf(i int) string {
	if i >= vocab {
		return oddWords[i-vocab]
	}
	if i >= sized {
		return wideText(i - sized)
	}
	return bodies[i]
}

func hdrOf(i int) map[string]string {
	switch {
	case i >= vocab:
		return map[string]string{headerVocab[i-vocab][0]: headerVocab[i-vocab][1]}
	case i >= sizedValue:
		return map[string]string{"X-Long": textOf(i - sizedValue), "X-" + textOf((i-sizedValue)%5000): "long name"}
	case i >= sized:
		m := map[string]string{}
		for k := 0; k < i-sized; k++ {
			m[fmt.Sprint("X-H", k)] = fmt.Sprint("v", k)
		}
		return m
	}
	return hdrVariants[i]
}

func ckOf(i int) (cs []*http.Cookie) {
	switch {
	case i >= sizedValue:
		return []*http.Cookie{{Name: "long", Value: textOf(i - sizedValue)}, {Name: "n" + textOf((i-sizedValue)%5000), Value: "x", Path: "/" + textOf((i-sizedValue)%5000)}}
	case i >= sized:
		for k := 0; k < i-sized; k++ {
			cs = append(cs, &http.Cookie{Name: fmt.Sprint("c", k/2), Value: fmt.Sprint("v", k), Path: fmt.Sprint("/", k%2)})
		}
		return cs
	}
	return ckVariants[i]
}

// chunks says how raw, stream and adapted responses split their body into writes.
func chunks(b string) []string {
	switch {
	case len(b) == 0:
		return nil
	case len(b) == 1:
		return []string{b}
	}
	return []string{b[:1], b[1 : len(b)/2+1], "", b[len(b)/2+1:]}
}

type chunkReader struct {
	parts []string
	err   error
}

func (c *chunkReader) Read(p []byte) (int, error) {
	for len(c.parts) > 0 && c.parts[0] == "" {
		c.parts = c.parts[1:]
	}
	if len(c.parts) == 0 {
		if c.err != nil {
			return 0, c.err
		}
		return 0, io.EOF
	}
	n := copy(p, c.parts[0])
	c.parts[0] = c.parts[0][n:]
	return n, nil
}

var errSource = errors.New("source failed")

var htmlTpl = htmltpl.Must(htmltpl.New("x").Parse(`{{define "t"}}<p>{{.}}</p>{{end}}{{define "id"}}{{.}}{{end}}`))
var textTpl = texttpl.Must(texttpl.New("x").Parse(`{{define "t"}}<{{.}}>{{end}}`))

// every kind of response the framework offers
var allKinds = []string{"headers", "text", "html", "json", "jsonnil", "jsonerr", "raw", "rawnil", "rawflush", "stream", "streamnil",
	"tplhtml", "tpltext", "redirect301", "redirect302", "redirect303", "adaptor", "adaptorfunc", "hijack", "sse"}

// kinds whose status code the application chooses
func statusFree(kind string) bool {
	switch kind {
	case "redirect301", "redirect302", "redirect303", "hijack", "sse", "adaptorfunc":
		return false
	}
	return true
}

func isRedirect(k string) bool { return strings.HasPrefix(k, "redirect") }
func isAdaptor(k string) bool  { return strings.HasPrefix(k, "adaptor") }

func (s RS) headers() response.HttpHeaders {
	v := hdrOf(s.Hdr)
	if v == nil {
		return nil
	}
	h := response.NewHttpHeaders()
	for k, x := range v {
		if x == "LEN" {
			x = fmt.Sprint(len(s.payload()))
		}
		h.Set(k, x)
	}
	return h
}

func (s RS) cookies() response.HttpCookies {
	if ckOf(s.Ck) == nil {
		return nil
	}
	return response.NewHttpCookie(freshCookies(s.Ck)...)
}

// freshCookies are copies, since the code under test keeps the pointers it is given.
func freshCookies(i int) (v []*http.Cookie) {
	for _, c := range ckOf(i) {
		if c != nil {
			x := *c
			c = &x
		}
		v = append(v, c)
	}
	return v
}

const redirectTarget = "https://other.example/p?q=1&r=%20x"

func writeChunks(w io.Writer, parts []string, flush bool) error {
	for i, p := range parts {
		n, err := io.WriteString(w, p)
		if err != nil {
			return err
		}
		if n != len(p) {
			return fmt.Errorf("writing %d bytes was answered with %d", len(p), n)
		}
		if flush && i < len(parts)-1 {
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
		}
	}
	return nil
}

// build makes a fresh response.
func (s RS) build() response.HttpResponse {
	var h response.HttpHeaders
	var c response.HttpCookies
	if !s.Late {
		h, c = s.headers(), s.cookies()
	}
	b := bodyOf(s.Body)
	base := response.HttpHeadersResponse{HttpStatusCode: s.Status, HttpHeaders: h, HttpCookies: c}
	var r response.HttpResponse
	direct := true
	switch s.Kind {
	case "headers":
		r = &base
		if s.Via == "500" {
			r = response.InternalServerErrorHttpResponse()
		}
	case "text":
		switch s.Via {
		case "P":
			r = response.PlainTextHttpResponse(s.Status, b)
		case "H":
			r = response.PlainTextHttpResponseWithHeaders(s.Status, b, h)
		case "OK":
			r = response.PlainTextHttpResponseOK(b)
		default:
			r = response.PlainTextResponseWithHeadersAndCookies(s.Status, b, h, c)
		}
	case "html":
		switch s.Via {
		case "P":
			r = response.HtmlHttpResponse(s.Status, b)
		case "H":
			r = response.HtmlHttpResponseWithHeaders(s.Status, b, h)
		case "OK":
			r = response.HtmlHttpResponseOK(b)
		default:
			r = response.HtmlResponseWithHeadersAndCookies(s.Status, b, h, c)
		}
	case "json", "jsonnil":
		var p any
		if s.Kind == "json" {
			p = map[string]any{"v": b, "n": []int{1, 2}}
		}
		switch s.Via {
		case "P":
			r = response.JsonHttpResponse(s.Status, p)
		case "H":
			r = response.JsonHttpResponseWithHeaders(s.Status, p, h)
		case "C":
			r = response.JsonHttpResponseWithCookies(s.Status, p, c)
		case "OK":
			r = response.JsonHttpResponseOK(p)
		default:
			r = response.JsonHttpResponseWithHeadersAndCookies(s.Status, p, h, c)
		}
	case "jsonerr":
		switch s.Via {
		case "P":
			r = response.JsonErrorHttpResponse(s.Status, errors.New(b))
		case "H":
			r = response.JsonErrorHttpResponseWithHeaders(s.Status, errors.New(b), h)
		case "C":
			r = response.JsonErrorHttpResponseWithCookies(s.Status, errors.New(b), c)
		default:
			r = response.JsonErrorHttpResponseWithHeadersAndCookies(s.Status, errors.New(b), h, c)
		}
	case "raw", "rawflush", "rawnil":
		f := func(w io.Writer) error { return writeChunks(w, chunks(b), s.Kind == "rawflush") }
		if s.Kind == "rawnil" {
			f = nil
		}
		switch s.Via {
		case "H":
			r = response.RawWriterHttpResponseWithHeaders(s.Status, "app/raw", h, f)
		case "C":
			r = response.RawWriterHttpResponseWithCookies(s.Status, "app/raw", c, f)
		case "OK":
			r = response.RawWriterHttpResponse("app/raw", f)
		default:
			r = response.RawWriterHttpResponseWithHeadersAndCookies(s.Status, "app/raw", h, c, f)
		}
	case "stream", "streamnil":
		var src io.Reader
		if s.Kind == "stream" {
			src = &chunkReader{parts: chunks(b)}
		}
		switch s.Via {
		case "H":
			r = response.StreamHttpResponseWithHeaders(s.Status, "app/stream", h, src)
		case "C":
			r = response.StreamHttpResponseWithCookies(s.Status, "app/stream", c, src)
		case "OK":
			r = response.StreamHttpResponse("app/stream", src)
		default:
			r = response.StreamHttpResponseWithHeadersAndCookies(s.Status, "app/stream", h, c, src)
		}
	case "tplhtml", "tpltext":
		var t response.ExecutableTemplate = htmlTpl
		if s.Kind == "tpltext" {
			t = textTpl
		}
		switch s.Via {
		case "H":
			r = response.TemplateHttpResponseWithHeaders(t, s.Status, "t", b, h)
		case "C":
			r = response.TemplateHttpResponseWithCookies(t, s.Status, "t", b, c)
		case "OK":
			r = response.TemplateHttpResponseOK(t, "t", b)
		case "404":
			r = response.TemplateHttpResponseNotFound(t, "t", b)
		default:
			r = response.TemplateHttpResponseWithHeadersAndCookies(t, s.Status, "t", b, h, c)
		}
	case "redirect301":
		r, direct = response.RedirectHttpResponseMovedPermanently(or(s.Url, redirectTarget)), false
	case "redirect302":
		r, direct = response.RedirectHttpResponse(or(s.Url, redirectTarget)), false
	case "redirect303":
		r, direct = response.RedirectHttpResponseSeeOther(or(s.Url, redirectTarget)), false
	case "adaptor":
		r, direct = response.HandlerAdaptor(http.HandlerFunc(s.serve)), false
	case "adaptorfunc":
		r, direct = response.HandlerFuncAdaptor(s.serve), false
	case "hijack":
		r, direct = response.NewHttpHijackConnectionResponse(func(c net.Conn, rw *bufio.ReadWriter, err error) {}), false
	case "sse":
		gen := func(ctx context.Context, last string) <-chan response.ServerSentEvent {
			ch := make(chan response.ServerSentEvent, 2)
			ch <- response.ServerSentEvent{Name: "n", Data: []string{"d"}}
			ch <- response.ServerSentEvent{Data: []string{"e", "f"}, Id: "2"}
			close(ch)
			return ch
		}
		switch s.Via {
		case "H":
			r = response.SSEHttpResponseWithHeaders(gen, h)
		case "OK":
			r = response.SSEHttpResponse(gen)
		default:
			r = response.SSEHttpResponseWithHeadersAndCookies(gen, h, c)
		}
	default:
		panic("kind " + s.Kind)
	}
	if lateH, lateC := s.Late || !direct, s.Late || !direct; true {
		switch s.Via { // what the constructor does not take is set through the response
		case "H":
			lateC = true
		case "C":
			lateH = true
		case "P", "OK", "404", "500":
			lateH, lateC = true, true
		}
		if lateC {
			r.Cookies().Add(freshCookies(s.Ck)...)
		}
		if !lateH {
			return r
		}
		for k, v := range hdrOf(s.Hdr) {
			if v == "LEN" {
				v = fmt.Sprint(len(s.payload()))
			}
			r.Headers().Set(k, v)
		}
	}
	return r
}

// serve is the adapted standard library handler.
func (s RS) serve(w http.ResponseWriter, r *http.Request) {
	w.Header().Set("X-Handler", "yes")
	if s.Status != 0 {
		w.WriteHeader(s.Status)
	}
	writeChunks(w, chunks(bodyOf(s.Body)), false)
}

// payload is the body the client has to get, written out independently of the implementation.
func (s RS) payload() string {
	b := bodyOf(s.Body)
	switch s.Kind {
	case "headers", "rawnil", "streamnil", "hijack", "redirect301", "redirect302", "redirect303":
		return ""
	case "json":
		return mustJSON(map[string]any{"v": b, "n": []int{1, 2}})
	case "jsonnil":
		return "{}"
	case "jsonerr":
		m := b
		if m != "" {
			m = strings.ToUpper(m[:1]) + m[1:] // the first byte is ASCII in all bodies
		}
		return mustJSON(map[string]string{"error": m})
	case "tplhtml":
		if s.Body >= vocab { // html/template escapes more than HTMLEscapeString
			var sb strings.Builder
			if err := htmltpl.Must(htmltpl.New("").Parse("<p>{{.}}</p>")).Execute(&sb, b); err != nil {
				panic(err)
			}
			return sb.String()
		}
		return "<p>" + htmltpl.HTMLEscapeString(b) + "</p>"
	case "tpltext":
		return "<" + b + ">"
	case "sse":
		return "event: n\ndata: d\n\ndata: e\ndata: f\nid: 2\n\n"
	}
	return b
}

func mustJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (s RS) defaultType() string {
	switch s.Kind {
	case "text", "tpltext":
		return "text/plain; charset=utf-8"
	case "html", "tplhtml":
		return "text/html; charset=utf-8"
	case "json", "jsonnil", "jsonerr":
		return "application/json"
	case "raw", "rawnil", "rawflush":
		return "app/raw"
	case "stream", "streamnil":
		return "app/stream"
	case "sse":
		return "text/event-stream"
	}
	return ""
}

// want is what the client has to receive; ok is false where the response is to be refused.
func (s RS) want() (v wire.View, ok bool) {
	v = wire.View{Headers: map[string]string{}, Status: s.Status}
	switch s.Kind {
	case "hijack":
		return v, true
	case "redirect301":
		v.Status = 301
	case "redirect302":
		v.Status = 302
	case "redirect303":
		v.Status = 303
	case "sse":
		v.Status = 200
	}
	if f, fixed := viaStatus[s.Via]; fixed {
		v.Status = f
	}
	if v.Status == 0 {
		v.Status = 200
	}
	if v.Status < 100 || v.Status > 999 {
		return wire.View{Headers: map[string]string{}}, false
	}
	for k, x := range hdrOf(s.Hdr) {
		if x == "LEN" {
			x = fmt.Sprint(len(s.payload()))
		}
		v.Headers[http.CanonicalHeaderKey(k)] = x
	}
	last := map[string]string{}
	for _, c := range ckOf(s.Ck) {
		if c != nil {
			last[c.Name+"\x00"+c.Path+"\x00"+c.Domain] = c.String()
		}
	}
	for _, c := range last {
		v.Cookies = append(v.Cookies, c)
	}
	sort.Strings(v.Cookies)
	v.Body = s.payload()
	switch {
	case isRedirect(s.Kind):
		v.Headers["Location"] = or(s.Url, redirectTarget)
	case isAdaptor(s.Kind):
		v.Headers["X-Handler"] = "yes"
		if _, given := v.Headers["Content-Type"]; !given && v.Body != "" && v.Headers["Content-Encoding"] == "" {
			v.Headers["Content-Type"] = http.DetectContentType([]byte(chunks(v.Body)[0]))
		}
	default:
		if v.Headers["Content-Type"] == "" && s.defaultType() != "" {
			v.Headers["Content-Type"] = s.defaultType()
		}
		if v.Headers["X-Content-Type-Options"] == "" {
			v.Headers["X-Content-Type-Options"] = "nosniff"
		}
	}
	if s.Kind == "sse" {
		v.Headers["Cache-Control"] = "no-cache"
	}
	return v, true
}

// normalise removes from a received view what the statements leave open.
func (s RS) normalise(v wire.View) wire.View {
	if isRedirect(s.Kind) {
		// the informative body of a redirect, its type and the default nosniff header are left open
		v.Body = ""
		if _, given := hdrOf(s.Hdr)["Content-Type"]; !given {
			delete(v.Headers, "Content-Type")
		}
		if _, given := hdrOf(s.Hdr)["X-Content-Type-Options"]; !given {
			delete(v.Headers, "X-Content-Type-Options")
		}
	}
	if s.Kind == "sse" {
		delete(v.Headers, "Connection") // not a header of HTTP/2
	}
	return v
}

func mkReq(method, target string, kv ...string) *http.Request {
	u, err := url.ParseRequestURI(target)
	if err != nil {
		panic(err)
	}
	r := &http.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "srv.example", RequestURI: target, RemoteAddr: "192.0.2.1:1234", Body: http.NoBody}
	for i := 0; i+1 < len(kv); i += 2 {
		r.Header.Add(kv[i], kv[i+1])
	}
	return r
}

// reqFor is a request suitable for the kind (event streams need HTTP/2).
func (s RS) reqFor(method string, kv ...string) *http.Request {
	r := mkReq(method, "/p", kv...)
	if s.Kind == "sse" {
		r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
	}
	return r
}

func writeResp(r response.HttpResponse, w http.ResponseWriter, rq *http.Request) error {
	return r.Write(w, path.MatchingContext{R: rq})
}
