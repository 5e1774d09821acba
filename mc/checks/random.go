package checks

import (
	"context"
	crand "crypto/rand"
	"io"
	"math"
	"net/url"
	"sync"
	"time"

	"gofremc/kit"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { All["N02"] = checkN02 }

// stream stands for the operating system's random source: its bytes are chosen by the check.
type stream struct {
	base byte // the byte at position i is base + step*i
	step byte
	pos  int // except at this position
	val  byte
	off  int
}

func (s *stream) at(i int) byte {
	if i == s.pos {
		return s.val
	}
	return s.base + s.step*byte(i)
}

func (s *stream) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = s.at(s.off)
		s.off++
	}
	return len(p), nil
}

// secretSource issues one secret per call.
func secretSource(kind string) (func() string, float64) {
	switch kind {
	case "nonce", "nonce_header":
		c := cache.NewInMemory()
		mw := middleware.CSRFPrevention(c)
		if kind == "nonce_header" {
			mw = middleware.CSRFPreventionWithCustomParamAndHeaderName(c, "n", "X-N")
		}
		got := ""
		h := mw(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			got = middleware.GetCSRFNonceFromContext(ctx)
			return nopResponse{}, nil
		})
		return func() string {
			got = ""
			h(context.Background(), path.MatchingContext{R: mkReq("GET", "/p")})
			return got
		}, 120
	}
	p := &stubProvider{name: "p1"}
	cfg := oauth.Config{WebsiteUrl: "https://site.example", Providers: []oauth.Provider{p}}
	if kind == "state_cached" {
		cfg.CacheConfig = oauth.CacheConfig{Cache: cache.NewInMemory(), KeyExpirationTime: time.Hour}
	}
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	if err != nil {
		panic(err)
	}
	m.HandleOAUTH2(cfg, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return nopResponse{}, nil
	}, nil, nil)
	return func() string {
		var w nopWriter
		m.ServeHTTP(&w, mkReq("GET", "/oauth/initiate"))
		u, err := url.Parse(w.h.Get("Location"))
		if err != nil {
			return ""
		}
		return u.Query().Get("state")
	}, 60
}

type n02Case struct {
	Kind   string
	Base   byte
	Step   byte
	Before int // secrets issued before from the same stream
}

func checkN02(r *kit.Run) {
	r.Rule = "one evaluation = one secret issued under a chosen random stream; distinct by secret"
	span := kit.Pick(r, 96, 256)
	befores := kit.Pick(r, []int{0, 1, 2}, []int{0, 1, 2, 3, 5})
	bases := kit.Pick(r, []byte{0, 0x5a, 255}, []byte{0, 1, 0x31, 0x5a, 254, 255})
	r.Bound("nonces (both constructors) and states (with and without cache), the 1st to 3rd issued: every byte of the first %d the random source delivers takes all 256 values, around %d base streams", span, 2*len(bases)-len(bases)/3)
	r.Assume = []string{"the source is replaced through crypto/rand.Reader", "the strength of the operating system's source itself is outside (N01)"}
	var mu sync.Mutex
	kit.Explore(r, "streams", seqOf(func(yield func(n02Case) bool) {
		for _, k := range []string{"nonce", "nonce_header", "state", "state_cached"} {
			for _, b := range bases {
				for _, st := range []byte{0, 37} {
					if st == 0 && b > 0x5a {
						continue // an implementation may skip such bytes
					}
					for _, n := range befores {
						if !yield(n02Case{Kind: k, Base: b, Step: st, Before: n}) {
							return
						}
					}
				}
			}
		}
	}), func(c n02Case) *kit.Failure {
		mu.Lock()
		defer mu.Unlock()
		old := crand.Reader
		defer func() { crand.Reader = old }()
		s := &stream{}
		crand.Reader = io.Reader(s)
		issue, want := secretSource(c.Kind)
		at := func(pos int, v byte) string {
			*s = stream{base: c.Base, step: c.Step, pos: pos, val: v}
			for i := 0; i < c.Before; i++ {
				issue()
			}
			return issue()
		}
		// only the letters that the stream alone determines count
		var stable []int
		first := at(0, c.Base)
	letters:
		for i := range first {
			for n := 0; n < 6; n++ {
				if o := at(0, c.Base); i >= len(o) || o[i] != first[i] {
					continue letters
				}
			}
			stable = append(stable, i)
		}
		bits := 0.0
		for pos := 0; pos < span; pos++ {
			values := map[string]bool{}
			for v := 0; v < 256; v++ {
				n := at(pos, byte(v))
				if n == "" {
					return kit.Failf("none", "%s: no secret is issued", c.Kind)
				}
				var p []byte
				for _, i := range stable {
					if i < len(n) {
						p = append(p, n[i])
					}
				}
				values[string(p)] = true
				r.Seen(kit.Hash(n))
			}
			bits += math.Log2(float64(len(values)))
			r.AddEvals(255)
		}
		if bits < want {
			return kit.Failf("weak", "%s number %d depends on %.0f bits of the cryptographic random source only (at least %.0f are required)", c.Kind, c.Before+1, bits, want)
		}
		return nil
	})
}
