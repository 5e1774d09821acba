// Package wire is the client side of the checks: response writer doubles that record
// exactly what a client would receive, with fault injection.
package wire

import (
	"bufio"
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strings"
)

var ErrBroken = errors.New("wire: connection broken")

// Rec records a response. Headers count as sent at the first WriteHeader or Write.
type Rec struct {
	H        http.Header
	Sent     http.Header // snapshot
	Status   int         // 0 = nothing sent
	Body     bytes.Buffer
	Log      []string // "H200", "W5", "F"
	Super    int      // superfluous WriteHeader calls
	FailErr  error    // what the failing writes report, ErrBroken unless set
	FailAt   int      // the n-th body write (1-based) and all later ones fail; 0 = never
	FailFrac int      // bytes accepted by the failing write: 0 none, 1 half
	Writes   int
	Failed   int // writes attempted that failed
	Flushes  []int
	OnEvent  func(kind string)
	Hijacks  int
	HijErr   error
	sniffed  bool
	AfterHij int  // operations attempted after a hijack
	Strict   bool // like net/http, refuse a body where the status does not allow one
	Refused  int  // writes refused because of that
}

func New() *Rec { return &Rec{H: http.Header{}} }

func (r *Rec) Header() http.Header { return r.H }

func (r *Rec) event(k string) {
	r.Log = append(r.Log, k)
	if r.OnEvent != nil {
		r.OnEvent(k)
	}
}

func (r *Rec) WriteHeader(c int) {
	if c < 100 || c > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", c))
	}
	if r.Hijacks > 0 {
		r.AfterHij++
		return
	}
	if r.Status != 0 {
		r.Super++
		return
	}
	if c >= 100 && c < 200 && c != 101 {
		r.event(fmt.Sprintf("I%d", c))
		return
	}
	r.Status = c
	r.Sent = r.H.Clone()
	r.event(fmt.Sprintf("H%d", c))
}

func (r *Rec) write(b string) (int, error) {
	if r.Hijacks > 0 {
		r.AfterHij++
		return 0, http.ErrHijacked
	}
	if r.Status == 0 {
		r.WriteHeader(200)
	}
	if r.Strict && (r.Status == 204 || r.Status == 304 || r.Status == 101) {
		if len(b) > 0 {
			r.Refused++
			return 0, http.ErrBodyNotAllowed
		}
		return 0, nil
	}
	if len(b) > 0 && r.Body.Len() == 0 && !r.sniffed {
		// net/http detects a missing content type unless the body is encoded
		r.sniffed = true
		if _, ok := r.Sent["Content-Type"]; !ok && r.Sent.Get("Content-Encoding") == "" && len(r.Flushes) == 0 {
			r.Sent.Set("Content-Type", http.DetectContentType([]byte(b)))
		}
	}
	r.Writes++
	if r.FailAt > 0 && r.Writes >= r.FailAt {
		r.Failed++
		n := 0
		if r.FailFrac == 1 && r.Failed == 1 {
			n = len(b) / 2
			r.Body.WriteString(b[:n])
		}
		r.event("X")
		if r.FailErr != nil {
			return n, r.FailErr
		}
		return n, ErrBroken
	}
	r.Body.WriteString(b)
	r.event(fmt.Sprintf("W%d", len(b)))
	return len(b), nil
}

func (r *Rec) Write(b []byte) (int, error) { return r.write(string(b)) }

func (r *Rec) flush() {
	if r.Hijacks > 0 {
		r.AfterHij++
		return
	}
	if r.Status == 0 {
		r.WriteHeader(200)
	}
	r.Flushes = append(r.Flushes, r.Body.Len())
	r.event("F")
}

func (r *Rec) hijack() (net.Conn, *bufio.ReadWriter, error) {
	r.Hijacks++
	r.event("J")
	return nil, nil, r.HijErr
}

// The variants differ in the optional interfaces they offer.
type Plain struct{ R *Rec }

func (p Plain) Header() http.Header         { return p.R.Header() }
func (p Plain) WriteHeader(c int)           { p.R.WriteHeader(c) }
func (p Plain) Write(b []byte) (int, error) { return p.R.Write(b) }

type Flusher struct{ Plain }

func (p Flusher) Flush() { p.R.flush() }

// Full offers what net/http's own HTTP/1 writer offers.
type Full struct{ Flusher }

func (p Full) WriteString(s string) (int, error) { return p.R.write(s) }
func (p Full) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return p.R.hijack()
}

func (r *Rec) Writer(kind string) http.ResponseWriter {
	switch kind {
	case "plain":
		return Plain{r}
	case "flusher":
		return Flusher{Plain{r}}
	}
	return Full{Flusher{Plain{r}}}
}

var Kinds = []string{"full", "flusher", "plain"}

// End does what the server does when the handler returns: an answer without a status is a 200.
func (r *Rec) End() *Rec {
	if r.Status == 0 && r.Hijacks == 0 {
		r.WriteHeader(200)
	}
	return r
}

// View is what the client got.
type View struct {
	Status  int
	Headers map[string]string // all but Set-Cookie; several values joined by \x00
	Cookies []string
	Body    string
}

func (r *Rec) View() View {
	v := View{Status: r.Status, Headers: map[string]string{}, Body: r.Body.String()}
	for k, vs := range r.Sent {
		if k == "Set-Cookie" {
			v.Cookies = append([]string(nil), vs...)
			sort.Strings(v.Cookies)
			continue
		}
		v.Headers[k] = strings.Join(vs, "\x00")
	}
	return v
}

func (v View) String() string {
	keys := make([]string, 0, len(v.Headers))
	for k := range v.Headers {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d {", v.Status)
	for _, k := range keys {
		fmt.Fprintf(&sb, "%s: %q; ", k, v.Headers[k])
	}
	b := v.Body
	if len(b) > 200 {
		b = b[:200] + "..."
	}
	fmt.Fprintf(&sb, "} cookies %q body(%d) %q", v.Cookies, len(v.Body), b)
	return sb.String()
}

// Diff describes the first difference, "" if none.
func Diff(got, want View) string {
	if got.Status != want.Status {
		return fmt.Sprintf("status %d, want %d", got.Status, want.Status)
	}
	for k, w := range want.Headers {
		if g, ok := got.Headers[k]; !ok || g != w {
			return fmt.Sprintf("header %s is %q (present %v), want %q", k, g, ok, w)
		}
	}
	for k, g := range got.Headers {
		if _, ok := want.Headers[k]; !ok {
			return fmt.Sprintf("unexpected header %s: %q", k, g)
		}
	}
	if strings.Join(got.Cookies, "\n") != strings.Join(want.Cookies, "\n") {
		return fmt.Sprintf("cookies %q, want %q", got.Cookies, want.Cookies)
	}
	if got.Body != want.Body {
		return fmt.Sprintf("body %.300q (%d bytes), want %.300q (%d bytes)", got.Body, len(got.Body), want.Body, len(want.Body))
	}
	return ""
}

// Decode undoes the announced content encoding.
func Decode(enc string, body string) (string, error) {
	switch strings.ToLower(enc) {
	case "", "identity":
		return body, nil
	case "gzip", "x-gzip":
		return inflate(func(r io.Reader) (io.Reader, error) { return gzip.NewReader(r) }, body)
	case "deflate":
		// RFC 9110 asks for zlib; raw deflate is what gofre's own tests pin, clients accept both
		s, err := inflate(func(r io.Reader) (io.Reader, error) { return zlib.NewReader(r) }, body)
		if err == nil {
			return s, nil
		}
		return inflate(func(r io.Reader) (io.Reader, error) { return flate.NewReader(r), nil }, body)
	}
	return "", fmt.Errorf("unknown content encoding %q", enc)
}

func inflate(open func(io.Reader) (io.Reader, error), body string) (string, error) {
	src := strings.NewReader(body)
	br := bufio.NewReader(src)
	r, err := open(br)
	if err != nil {
		return "", err
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return string(b), err
	}
	if br.Buffered() > 0 || src.Len() > 0 {
		return string(b), errors.New("garbage after the compressed data")
	}
	return string(b), nil
}

// DecodePrefix decodes as much as possible of a stream that is still open.
func DecodePrefix(enc string, body string) string {
	var r io.Reader
	var err error
	switch enc {
	case "":
		return body
	case "gzip":
		r, err = gzip.NewReader(strings.NewReader(body))
		if err != nil {
			return ""
		}
	case "deflate":
		if zr, err := zlib.NewReader(strings.NewReader(body)); err == nil {
			r = zr
		} else {
			r = flate.NewReader(strings.NewReader(body))
		}
	default:
		return body // not ours
	}
	b, _ := io.ReadAll(r)
	return string(b)
}
