package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"

	"gofremc/kit"
	"gofremc/wire"

	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { All["M06"] = checkM06 }

// acceptedEncodings are the codings the client accepts (RFC 9110).
func acceptedEncodings(ae string) map[string]bool {
	acc := map[string]bool{}
	deny := map[string]bool{}
	star := false
	for _, e := range strings.Split(ae, ",") {
		name, params, _ := strings.Cut(e, ";")
		name = strings.ToLower(strings.TrimSpace(name))
		q := 1.0
		if v, ok := strings.CutPrefix(strings.TrimSpace(params), "q="); ok {
			q, _ = strconv.ParseFloat(strings.TrimSpace(v), 64)
		}
		if name == "*" {
			star = q > 0
			continue
		}
		if q > 0 {
			acc[name] = true
		} else {
			deny[name] = true
		}
	}
	if star {
		for _, n := range []string{"gzip", "deflate"} {
			if !deny[n] {
				acc[n] = true
			}
		}
	}
	return acc
}

// plainlyAccepted tells if one of the supported codings is listed without a weight.
func plainlyAccepted(ae string) bool {
	for _, e := range strings.Split(ae, ",") {
		e = strings.ToLower(strings.TrimSpace(e))
		if e == "gzip" || e == "deflate" {
			return true
		}
	}
	return false
}

// compareCompressed checks the answer with the middleware against the one without it.
func compareCompressed(ae string, level int, with, without *wire.Rec) *kit.Failure {
	a, b := with.View(), without.View()
	enc, enc0 := a.Headers["Content-Encoding"], b.Headers["Content-Encoding"]
	if enc == enc0 {
		if enc == "" && level != 0 && plainlyAccepted(ae) && b.Body != "" && without.Hijacks == 0 && b.Status != 204 && b.Status != 304 && without.Refused == 0 {
			return kit.Failf("uncompressed", "%d bytes are sent uncompressed", len(b.Body))
		}
		stripVary(a.Headers, b.Headers)
		if d := wire.Diff(a, b); d != "" {
			return kit.Failf("changed", "not compressed but changed: %s", d)
		}
	} else {
		if enc0 != "" {
			return kit.Failf("recoded", "Content-Encoding %q became %q", enc0, enc)
		}
		if !acceptedEncodings(ae)[strings.ToLower(enc)] {
			return kit.Failf("unaccepted", "encoding %q for Accept-Encoding %q", enc, ae)
		}
		if cl, ok := a.Headers["Content-Length"]; ok && cl != fmt.Sprint(len(a.Body)) {
			return kit.Failf("length", "Content-Length %s with %d compressed bytes", cl, len(a.Body))
		}
		body := a.Body
		dec, err := wire.Decode(enc, body)
		if err != nil {
			return kit.Failf("decode", "the body does not decode as %s: %v (%d bytes)", enc, err, len(body))
		}
		a.Body = dec
		for _, h := range []map[string]string{a.Headers, b.Headers} {
			delete(h, "Content-Encoding")
			delete(h, "Content-Length")
		}
		stripVary(a.Headers, b.Headers)
		if d := wire.Diff(a, b); d != "" {
			return kit.Failf("diff", "compressed with %s: %s", enc, d)
		}
	}
	if with.Refused > without.Refused {
		return kit.Failf("bodyless", "a body is written with status %d", with.Status)
	}
	if with.Hijacks != without.Hijacks {
		return kit.Failf("hijack", "hijacked %d times instead of %d", with.Hijacks, without.Hijacks)
	}
	if len(with.Flushes) < len(without.Flushes) {
		return kit.Failf("flush", "%d flushes reach the client instead of %d", len(with.Flushes), len(without.Flushes))
	}
	// every flush has to make everything written before it decodable
	j := 0
	for _, n := range without.Flushes {
		for j < len(with.Flushes) && len(wire.DecodePrefix(strings.TrimPrefix(enc, enc0), with.Body.String()[:with.Flushes[j]])) < n {
			j++
		}
		if j == len(with.Flushes) {
			return kit.Failf("flush", "a flush after %d bytes did not make them available to the client", n)
		}
	}
	return nil
}

// stripVary allows the middleware to announce that it looks at Accept-Encoding.
func stripVary(a, b map[string]string) {
	if a["Vary"] != b["Vary"] && varyHas(a["Vary"], b["Vary"]) && varyHas(a["Vary"], "Accept-Encoding") {
		a["Vary"] = b["Vary"]
		if b["Vary"] == "" {
			delete(a, "Vary")
		}
	}
}

type m06Case struct {
	S      RS
	AE     string
	Level  int
	Writer string
	FailAt int
	Frac   int
	Twice  bool   // two compressions on top of each other
	Method string `json:",omitempty"`
	Shape  int    `json:",omitempty"` // index into shapes
}

func m06Serve(c m06Case, wrap bool) served {
	var mws []middleware.Middleware
	if wrap {
		mws = append(mws, middleware.CompressResponse(c.Level))
		if c.Twice {
			mws = append(mws, middleware.CompressResponse(c.Level))
		}
	}
	rg := newRig(mws...)
	rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return c.S.build(), nil
	}
	rec := wire.New()
	rec.Strict = true
	if wrap {
		rec.FailAt, rec.FailFrac = c.FailAt, c.Frac
	}
	rg.shape = c.Shape
	rq := c.S.reqFor(or(c.Method, "GET"))
	if c.AE != "" {
		rq.Header.Set("Accept-Encoding", c.AE)
	}
	return rg.serve(rec, rec.Writer(c.Writer), rq)
}

func m06Run(seen func(uint64) bool) func(c m06Case) *kit.Failure {
	return func(c m06Case) *kit.Failure {
		a := m06Serve(c, true)
		if a.HasPan {
			return kit.Failf("panic", "panic %v", a.Panic)
		}
		if c.Level < -1 || c.Level > 9 {
			if len(a.Errs) != 1 || a.View.Status != 500 || a.View.Body != "" {
				return kit.Failf("level", "level %d: %v, errors %v", c.Level, a.View, a.Errs)
			}
			return nil
		}
		if a.Rec.Failed > 0 {
			if len(a.Errs) == 0 && !isRedirect(c.S.Kind) && !isAdaptor(c.S.Kind) && c.S.Kind != "sse" {
				return kit.Failf("lost", "write %d failed and no error was reported", c.FailAt)
			}
			if len(a.Errs) > 1 || len(a.Errs) == 1 && !errors.Is(a.Errs[0], wire.ErrBroken) {
				return kit.Failf("lost", "write %d failed and %v was reported", c.FailAt, a.Errs)
			}
			return nil
		}
		b := m06Serve(c, false)
		if (len(a.Errs) == 0) != (len(b.Errs) == 0) {
			return kit.Failf("errors", "with the middleware errors %v, without %v", a.Errs, b.Errs)
		}
		if f := compareCompressed(c.AE, c.Level, a.Rec, b.Rec); f != nil {
			f.Msg = fmt.Sprintf("%s, Accept-Encoding %q: %s", c.S.Kind, c.AE, f.Msg)
			return f
		}
		seen(kit.Hash(a.View.Status, fmt.Sprint(a.View.Headers), len(b.View.Body), c.Level))
		return nil
	}
}

// m06Script drives the writer directly: every sequence of operations an application may do on it.
type m06Script struct {
	Ops    string // H204 H200 written as characters, see run
	AE     string
	Level  int
	Writer string
	FailAt int
	Raw    bool // through a raw response (header written first) or an adapted handler
}

var bigChunk = strings.Repeat("abcdefgh01234567", 2500)

func m06Play(c m06Script, wrap bool) (*wire.Rec, []error, *kit.Failure) {
	rec := wire.New()
	rec.Strict = true
	if wrap {
		rec.FailAt = c.FailAt
	}
	var fail *kit.Failure
	var data strings.Builder
	play := func(w io.Writer) error {
		rw := w.(http.ResponseWriter)
		var ret error
		for i, op := range c.Ops {
			var err error
			switch op {
			case 'w':
				_, err = io.WriteString(w, string(rune('a'+i)))
				data.WriteByte(byte('a' + i))
			case 'B':
				_, err = io.WriteString(w, bigChunk)
				data.WriteString(bigChunk)
			case '0':
				_, err = w.Write(nil)
			case 'f':
				if f, ok := w.(http.Flusher); ok {
					f.Flush()
					if wrap && rec.Failed == 0 && rec.Refused == 0 && c.Writer != "plain" && fail == nil {
						got := rec.Body.String()
						if len(rec.Flushes) == 0 || rec.Flushes[len(rec.Flushes)-1] != len(got) {
							fail = kit.Failf("flush", "after %q the client was not flushed", c.Ops[:i+1])
						} else if d := wire.DecodePrefix(rec.Sent.Get("Content-Encoding"), got); d != data.String() {
							fail = kit.Failf("flush", "after %q the client can decode %d of %d bytes", c.Ops[:i+1], len(d), data.Len())
						}
					}
				}
			case 'H':
				rw.WriteHeader(201)
			case 'N':
				rw.WriteHeader(204)
			case 'I':
				rw.WriteHeader(103)
			case 'L':
				rw.Header().Set("Content-Length", "77")
			case 'E':
				rw.Header().Set("Content-Encoding", "br")
			case 'T':
				rw.Header().Set("Content-Type", "x/y")
			}
			if err != nil && ret == nil {
				ret = err
			}
		}
		return ret
	}
	var mws []middleware.Middleware
	if wrap {
		mws = append(mws, middleware.CompressResponse(c.Level))
	}
	rg := newRig(mws...)
	rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if c.Raw {
			return response.RawWriterHttpResponse("a/b", play), nil
		}
		return response.HandlerAdaptor(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { play(w) })), nil
	}
	rq := mkReq("GET", "/p")
	if c.AE != "" {
		rq.Header.Set("Accept-Encoding", c.AE)
	}
	s := rg.serve(rec, rec.Writer(c.Writer), rq)
	if s.HasPan {
		return rec, s.Errs, kit.Failf("panic", "panic %v", s.Panic)
	}
	return rec, s.Errs, fail
}

func m06ScriptRun(seen func(uint64) bool) func(c m06Script) *kit.Failure {
	return func(c m06Script) *kit.Failure {
		a, errs, fail := m06Play(c, true)
		if fail != nil {
			return fail
		}
		if a.Failed > 0 {
			if c.Raw && len(errs) != 1 {
				return kit.Failf("lost", "write %d failed and %v was reported", c.FailAt, errs)
			}
			return nil
		}
		b, errs0, _ := m06Play(c, false)
		if (len(errs) == 0) != (len(errs0) == 0) {
			return kit.Failf("errors", "with the middleware errors %v, without %v", errs, errs0)
		}
		if f := compareCompressed(c.AE, c.Level, a, b); f != nil {
			return f
		}
		seen(kit.Hash(c.Ops, a.Status, len(a.Log)))
		return nil
	}
}

// lateHeaders tells if the script sets headers after the header was sent: net/http ignores those.
func lateHeaders(ops string, raw bool) bool {
	i := 0
	if !raw {
		i = strings.IndexAny(ops, "wB0fHN")
	}
	return i >= 0 && strings.ContainsAny(ops[i:], "LET")
}

func checkM06(r *kit.Run) {
	r.Rule = "distinct = (status, headers, body length, level) or operation scripts with distinct traffic"
	aes := []string{"", "gzip", "deflate", "gzip, deflate", "deflate, gzip", "GZIP", "br", "br;q=1.0, gzip;q=0.8, *;q=0.1", "gzip;q=0", "gzip;q=0, deflate", "deflate;q=0.0,gzip", "identity", "*", "x-gzip", " gzip ", "gzip;q=1.0", "gzipx", ",", "gzip,,", "br,deflate;q=0.5,gzip", "xgzip, deflatex"}
	levels := kit.Pick(r, []int{-1, 0, 1, 9}, []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9})
	depth := kit.Pick(r, 4, 5)
	r.Bound("%d response kinds x 5 payloads (0 to 84000 bytes) x %d header sets x statuses x %d Accept-Encoding values x levels %v x 3 writer capabilities, doubled compression; every write failing; all operation scripts on the writer over {write, big write, empty write, flush, 201, 204, 103, Content-Length, Content-Encoding, Content-Type} up to length %d", len(allKinds), len(hdrVariants), len(aes), levels, depth)
	r.Assume = []string{"the client accepts raw as well as zlib wrapped data for deflate (what all browsers do; the repository's tests pin raw data)", "announcing the middleware in Vary is allowed", "a client that lists `compress` is listed as known finding"}
	run := m06Run(r.Seen)
	kit.Explore(r, "product", seqOf(func(yield func(m06Case) bool) {
		for _, k := range allKinds {
			for _, st := range []int{0, 201, 204, 304, 404, 500} {
				if !statusFree(k) && st != 0 {
					continue
				}
				for b := range bodies {
					for h := range hdrVariants {
						for i, ae := range aes {
							if st != 0 && i > 3 || h > 0 && i > 5 && !r.Thorough() || b > 2 && h > 0 && i > 2 && !r.Thorough() {
								continue
							}
							for _, w := range wire.Kinds {
								if w != "full" && i > 2 {
									continue
								}
								for _, l := range levels {
									if l != -1 && (h > 0 || st > 0 || i > 3) && !r.Thorough() {
										continue
									}
									if r.Thorough() && l != -1 && l != 0 && (h > 2 && h != 7 && h != 8 || i > 5) {
										continue
									}
									if !yield(m06Case{S: RS{Kind: k, Status: st, Hdr: h, Ck: 2, Body: b}, AE: ae, Level: l, Writer: w}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}), run)
	r.Bound("%d shapes of the request (protocol, headers, peer, query) x 5 methods x 7 response kinds", len(shapes))
	kit.Explore(r, "shapes", seqOf(func(yield func(m06Case) bool) {
		for sh := range shapes {
			for _, k := range []string{"text", "json", "stream", "headers", "redirect302", "adaptor", "hijack"} {
				for _, me := range []string{"GET", "POST", "PUT", "DELETE", "OPTIONS"} {
					for _, ae := range aes[:5] {
						for b := 0; b < 4; b++ {
							if !yield(m06Case{S: RS{Kind: k, Ck: 2, Hdr: 2, Body: b}, AE: ae, Level: -1, Writer: "full", Method: me, Shape: sh}) {
								return
							}
						}
					}
				}
			}
		}
	}), run)
	r.Bound("7 response kinds x %d response headers x 3 payloads x Accept-Encoding; %d texts as Accept-Encoding", len(headerVocab), len(oddWords))
	kit.Explore(r, "vocabulary", seqOf(func(yield func(m06Case) bool) {
		for _, k := range []string{"text", "json", "raw", "stream", "headers", "redirect302", "adaptor"} {
			for i := range headerVocab {
				for _, ae := range aes[:4] {
					for _, b := range []int{0, 1, 3} {
						if !yield(m06Case{S: RS{Kind: k, Ck: 2, Hdr: vocab + i, Body: b}, AE: ae, Level: -1, Writer: "full"}) {
							return
						}
					}
				}
			}
			for _, w := range oddWords {
				for _, ae := range []string{w, "gzip, " + w, w + ", deflate"} {
					if !yield(m06Case{S: RS{Kind: k, Hdr: 2, Body: 3}, AE: ae, Level: -1, Writer: "full"}) {
						return
					}
				}
			}
		}
	}), run)
	big := kit.Pick(r, 1<<18, 1<<21)
	r.Bound("bodies of %d sizes up to %d bytes with gzip, deflate and no encoding; up to 1001 headers and cookies", len(sizesTo(300, big)), big)
	kit.Explore(r, "sizes", seqOf(func(yield func(m06Case) bool) {
		for _, ae := range []string{"gzip", "deflate", ""} {
			for _, k := range []string{"text", "json", "raw", "rawflush", "stream", "tplhtml", "adaptor"} {
				for _, n := range sizesTo(300, big) {
					for _, l := range kit.Pick(r, []int{-1}, []int{-1, 0, 1, 9}) {
						if !yield(m06Case{S: RS{Kind: k, Body: sized + n}, AE: ae, Level: l, Writer: "full"}) {
							return
						}
					}
				}
				for _, n := range sizesTo(40, 1001) {
					if !yield(m06Case{S: RS{Kind: k, Hdr: sized + n, Body: 3}, AE: ae, Level: -1, Writer: "full"}) ||
						!yield(m06Case{S: RS{Kind: k, Ck: sized + n, Body: 3}, AE: ae, Level: -1, Writer: "full"}) {
						return
					}
				}
			}
		}
	}), run)
	kit.Explore(r, "levels", seqOf(func(yield func(m06Case) bool) {
		for _, k := range []string{"text", "redirect302", "adaptor", "headers"} {
			for _, ae := range []string{"", "gzip", "deflate"} {
				for _, l := range []int{-1000, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 100} {
					for _, tw := range []bool{false, true} {
						for b := 0; b < 4; b++ {
							if !yield(m06Case{S: RS{Kind: k, Body: b}, AE: ae, Level: l, Writer: "full", Twice: tw}) {
								return
							}
						}
					}
				}
			}
		}
	}), run)
	kit.Explore(r, "faults", seqOf(func(yield func(m06Case) bool) {
		for _, k := range allKinds {
			for b := range bodies {
				for _, ae := range []string{"", "gzip", "deflate"} {
					for _, l := range []int{-1, 0} {
						for n := 1; n <= 8; n++ {
							for f := 0; f < 2; f++ {
								if !yield(m06Case{S: RS{Kind: k, Body: b, Hdr: 2}, AE: ae, Level: l, Writer: "full", FailAt: n, Frac: f}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}), run)
	kit.Explore(r, "scripts", seqOf(func(yield func(m06Script) bool) {
		for _, ops := range wordsUpTo(strings.Split("wB0fHNILET", ""), depth) {
			if strings.Count(ops, "B") > 1 && !r.Thorough() {
				continue
			}
			for _, raw := range []bool{false, true} {
				if lateHeaders(ops, raw) {
					continue
				}
				for _, ae := range []string{"gzip", "deflate", ""} {
					if ae != "gzip" && len(ops) > 3 {
						continue
					}
					for _, w := range wire.Kinds {
						if w != "full" && len(ops) > 3 {
							continue
						}
						for fail := 0; fail <= 3; fail++ {
							if fail > 0 && len(ops) > 3 {
								continue
							}
							if !yield(m06Script{Ops: ops, AE: ae, Level: kit.Pick(r, 1, -1), Writer: w, Raw: raw, FailAt: fail}) {
								return
							}
						}
					}
				}
			}
		}
	}), m06ScriptRun(r.Seen))
	kit.Explore(r, "compress-token", seqOf(func(yield func(m06Case) bool) {
		yield(m06Case{S: RS{Kind: "text", Body: 3}, AE: "compress", Level: -1, Writer: "full"})
	}), func(c m06Case) *kit.Failure {
		f := m06Run(r.Seen)(c)
		if f != nil && f.Key == "unaccepted" {
			f.Key = "compress-token"
		}
		return f
	})
}
