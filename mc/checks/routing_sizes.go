package checks

import (
	"fmt"
	"strings"
	"unicode"

	"gofremc/kit"
	"gofremc/ref"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/router"
)

// r04Volume is one pattern of Vars variables and Lits literals asked for with values made from Len and Rune.
type r04Volume struct {
	Pattern string
	Len     int // bytes of a value
	Rune    int // a value of this rune
	Byte    bool
	Repeat  int // requests with distinct values, one after the other and again
	CI      bool
}

func r04Sizes(r *kit.Run) {
	names := func(n int) (p []string) {
		for i := 0; i < n; i++ {
			p = append(p, fmt.Sprintf("{v%d}", i))
		}
		return
	}
	var pats []string
	for n := 1; n <= 18; n++ {
		v := names(n)
		pats = append(pats, "/"+strings.Join(v, "/"))
		if n <= 9 {
			pats = append(pats, "/k/"+strings.Join(v, "/k/"), "/"+strings.Join(v, "/*/")+"/a*")
		}
		if n <= 16 {
			pats = append(pats, "/"+strings.Join(v, "/")+"/**", "/**/"+strings.Join(v, "/")+"/end", "/k/"+strings.Join(v, "/")+"/**/end")
		}
	}
	for _, n := range []int{1, 2, 10, 63, 64, 65, 255, 256, 1000, 5000} {
		pats = append(pats, "/{"+textOf(n)+"x}/{"+textOf(n)+"y}")
	}
	for _, n := range []string{"é", "a-b", "a.b", "A", "_", "0", "id", "Id", "a b", "x0"} {
		pats = append(pats, "/{"+n+"}/k/{"+n+"2}")
	}
	pats = append(pats, "/{a:^.*$}/{b:.}", "/{a:^[^/]+$}/**/{b:^.+$}")
	r.Bound("volume: %d patterns of up to 18 variables with names of up to 5000 characters, values of up to 64 KiB around every power of two, every rune below U+0250 and every byte as a value, 300 requests with distinct values in a row and again, case-sensitive or not", len(pats))
	kit.Explore(r, "volume", seqOf(func(yield func(r04Volume) bool) {
		for _, p := range pats {
			for _, ci := range []bool{false, true} {
				if !yield(r04Volume{Pattern: p, Repeat: 300, CI: ci}) {
					return
				}
				for _, n := range sizesTo(8, 1<<16) {
					if n > 0 && !yield(r04Volume{Pattern: p, Len: n, CI: ci}) {
						return
					}
				}
				for c := 1; c < 0x250; c++ {
					if c != '/' && (!yield(r04Volume{Pattern: p, Rune: c, CI: ci}) || c < 256 && !yield(r04Volume{Pattern: p, Rune: c, Byte: true, CI: ci})) {
						return
					}
				}
			}
		}
	}), func(c r04Volume) *kit.Failure {
		p, err := ref.ParsePattern(c.Pattern, c.CI)
		if err != nil {
			return nil
		}
		rt, at, why := newRoutesMux(c.CI, []*ref.Pattern{p})
		if at >= 0 {
			return kit.Failf("reject", "%.100q is rejected: %v", c.Pattern, why)
		}
		value := func(i, k int) string {
			switch {
			case c.Byte:
				return "v" + string([]byte{byte(c.Rune)}) + fmt.Sprint(k)
			case c.Rune > 0 && k%2 == 0:
				return string(rune(c.Rune)) + "x"
			case c.Rune > 0:
				return fmt.Sprint("V", k, string(rune(c.Rune)))
			case c.Len > 0:
				return textOf(c.Len + k)[k:]
			}
			return fmt.Sprintf("Val-%d-%d", i, k)
		}
		one := func(i int) *kit.Failure {
			var path []string
			want := make([]string, len(rt.names[0]))
			v := 0
			for k, s := range p.Segs {
				switch {
				case s.Name != "":
					path = append(path, value(i, k))
					want[v] = value(i, k)
					v++
				case s.Kind == ref.DoubleStar:
					for x := 0; x < i%3 && len(p.Segs)+x < 19; x++ {
						path = append(path, "rest")
					}
				case s.Kind == ref.Star:
					path = append(path, "any")
				case s.Kind == ref.WildText:
					path = append(path, "abc")
				default:
					path = append(path, s.Text)
				}
			}
			if len(path) > 19 {
				return nil
			}
			u := "/" + strings.Join(path, "/")
			o, f := rt.serve("GET", u)
			if f != nil {
				return f
			}
			// what the pattern allows: any alignment
			segs := ref.Normalise(u)
			als := p.Aligns(segs)
			if (o.Hit == 0) != (len(als) > 0) {
				return kit.Failf("hit", "%.100q, GET %.100q: dispatched=%v, want %v", c.Pattern, u, o.Hit == 0, len(als) > 0)
			}
			if o.Hit < 0 {
				return nil
			}
			for _, al := range als {
				m := p.Vars(segs, al)
				same := true
				for k, n := range rt.names[0] {
					same = same && o.Vars[k] == m[n]
				}
				if same {
					return nil
				}
			}
			return kit.Failf("vars", "%.100q, GET %.100q (request %d): variables read %.200q, want %.200q", c.Pattern, u, i, o.Vars, want)
		}
		for round := 0; round < 2; round++ {
			for i := 0; i < max(1, c.Repeat); i++ {
				if f := one(i); f != nil {
					return f
				}
			}
		}
		r.AddEvals(2*max(1, c.Repeat) - 1)
		r.Seen(kit.Hash("volume", len(p.Segs), c.Len, c.Rune, c.CI))
		return nil
	})
}

// r06Volume compares one text in a pattern with one text in a path.
type r06Volume struct {
	Pat, Path string
	CI        bool
}

func r06Sizes(r *kit.Run) {
	r.Bound("volume: literals and wildcard texts of up to 16 KiB around every power of two that agree but for the case of no, the first, a middle, the last or all letters; up to 18 segments of which one differs in case; every rune below U+0250 against its upper, lower and title case")
	kit.Explore(r, "volume", seqOf(func(yield func(r06Volume) bool) {
		flip := func(s string, i int) string {
			b := []byte(s)
			for ; i < len(b); i++ {
				if b[i] >= 'a' && b[i] <= 'z' {
					b[i] -= 32
					return string(b)
				}
			}
			return s
		}
		both := func(p, q string) bool {
			for _, ci := range []bool{true, false} {
				if !yield(r06Volume{p, q, ci}) || !yield(r06Volume{q, p, ci}) {
					return false
				}
			}
			return true
		}
		for _, n := range sizesTo(40, 1<<14) {
			if n < 1 {
				continue
			}
			t := textOf(n)
			for _, q := range []string{t, flip(t, 0), flip(t, n/2), flip(t, max(0, n-30)), strings.ToUpper(t), t + "x", flip(t[:n-1]+"#", n)} {
				if !both("/"+t, "/"+q) || !both("/"+t+"/end", "/"+q+"/end") || !both("/"+t+"/{v}", "/"+q+"/Val") || !both("/"+t+"*", "/"+q+"Z") || !both("/*"+t, "/Z"+q) || !both("/?"+t+"/**", "/Z"+q+"/r") {
					return
				}
			}
		}
		for n := 1; n <= 18; n++ {
			for at := -1; at < n; at++ {
				var a, b []string
				for i := 0; i < n; i++ {
					a, b = append(a, fmt.Sprintf("seg%c", 'a'+i)), append(b, fmt.Sprintf("seg%c", 'a'+i))
				}
				if at >= 0 {
					b[at] = strings.ToUpper(b[at])
				}
				if !both("/"+strings.Join(a, "/"), "/"+strings.Join(b, "/")) || !both("/**/"+strings.Join(a, "/"), "/"+strings.Join(b, "/")) {
					return
				}
			}
		}
		for c := rune(1); c < 0x250; c++ {
			if strings.ContainsRune("/{}*?", c) {
				continue
			}
			for _, d := range []rune{c, unicode.ToUpper(c), unicode.ToLower(c), unicode.ToTitle(c), c ^ 32, c + 32, unicode.SimpleFold(c)} {
				if d < 1 || strings.ContainsRune("/{}*?.", d) || c == '.' {
					continue
				}
				for _, f := range []string{"/a%cb", "/%c", "/x/a%c*", "/{v}/%c"} {
					p, q := fmt.Sprintf(f, c), strings.NewReplacer("*", "Q", "{v}", "Val").Replace(fmt.Sprintf(f, d))
					for _, ci := range []bool{true, false} {
						if !yield(r06Volume{p, q, ci}) {
							return
						}
					}
				}
			}
		}
	}), func(c r06Volume) *kit.Failure {
		p, err := ref.ParsePattern(c.Pat, c.CI)
		if err != nil {
			return nil
		}
		rt, at, why := newRoutesMux(c.CI, []*ref.Pattern{p})
		if at >= 0 {
			return kit.Failf("reject", "%.100q is rejected: %v", c.Pat, why)
		}
		o, f := rt.serve("GET", c.Path)
		if f != nil {
			return f
		}
		segs := ref.Normalise(c.Path)
		als := p.Aligns(segs)
		if (o.Hit == 0) != (len(als) > 0) {
			return kit.Failf("case", "case-insensitive=%v, pattern %.100q, GET %.100q (%d bytes): dispatched=%v, want %v", c.CI, c.Pat, c.Path, len(c.Path), o.Hit == 0, len(als) > 0)
		}
		if o.Hit == 0 {
			m := p.Vars(segs, als[0])
			for k, n := range rt.names[0] {
				if len(als) == 1 && o.Vars[k] != m[n] {
					return kit.Failf("letters", "case-insensitive=%v, pattern %.100q, GET %.100q: variable %s is %q", c.CI, c.Pat, c.Path, n, o.Vars[k])
				}
			}
			r.Seen(kit.Hash("volume", c.Pat, c.Path, c.CI))
		}
		return nil
	})
}

// r08Volume registers many methods for one path.
type r08Volume struct {
	Methods []string
	Ask     []string // methods to request besides
	Mux     bool
	Pattern string
}

func r08Sizes(r *kit.Run) {
	var tokens []string
	for c := 33; c < 127; c++ {
		if !strings.ContainsRune("()<>@,;:\\\"/[]?={}", rune(c)) {
			tokens = append(tokens, string(rune(c)))
		}
	}
	known := []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK", "SEARCH", "REPORT", "BIND", "ACL", "M-SEARCH", "QUERY", "PURGE", "LINK", "UNLINK", "PRI"}
	r.Bound("volume: each of %d known methods, every token character inside a method name, names of up to 1000 characters and names that share a beginning or an end, alone and all of up to 300 at once on one path; each requested in three letter cases", len(known))
	kit.Explore(r, "volume", seqOf(func(yield func(r08Volume) bool) {
		for _, mux := range []bool{false, true} {
			for _, pt := range []string{"/a", "/{x}", "/**", "/a*"} {
				if !yield(r08Volume{Methods: known, Ask: append(tokens, "GETS", "GE", "G", "ET"), Mux: mux, Pattern: pt}) {
					return
				}
				for _, m := range known {
					if !yield(r08Volume{Methods: []string{m}, Ask: append([]string{m + "X", "X" + m, m[:len(m)-1], m[1:]}, known...), Mux: mux, Pattern: pt}) {
						return
					}
				}
				var chars []string
				for _, t := range tokens {
					if u := "A" + t + "B"; t == strings.ToUpper(t) {
						chars = append(chars, u)
					}
				}
				if !yield(r08Volume{Methods: chars, Ask: known, Mux: mux, Pattern: pt}) {
					return
				}
				for _, n := range []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 300} {
					var many, long []string
					for i := 0; i < n; i++ {
						many = append(many, fmt.Sprintf("M%d", i))
					}
					long = append(long, strings.Repeat("L", n), strings.Repeat("L", n+1), strings.Repeat("L", n)+"A", strings.Repeat("L", n)+"B", "A"+strings.Repeat("L", n), "B"+strings.Repeat("L", n))
					if !yield(r08Volume{Methods: many, Ask: known, Mux: mux, Pattern: pt}) || !yield(r08Volume{Methods: long, Ask: []string{"L", strings.Repeat("L", n+2), strings.Repeat("L", n) + "C"}, Mux: mux, Pattern: pt}) {
						return
					}
				}
			}
		}
	}), func(c r08Volume) *kit.Failure {
		rr := router.NewRouter(false, func(error) {})
		m, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
		rt := &routes{h: rr}
		if c.Mux {
			rt.h = m
		}
		at := map[string]int{}
		for i, me := range c.Methods {
			rt.names = append(rt.names, nil)
			if _, ok := at[strings.ToUpper(me)]; ok {
				continue
			}
			at[strings.ToUpper(me)] = i
			if rej, why := tryRegister(func() {
				if c.Mux {
					m.HandleRequest(me, c.Pattern, rt.handler(i))
				} else {
					rr.Handle(me, c.Pattern, rt.handler(i))
				}
			}); rej {
				return kit.Failf("reject", "%q %q is rejected: %v", me, c.Pattern, why)
			}
		}
		for _, me := range append(append([]string{}, c.Methods...), c.Ask...) {
			for _, s := range []string{me, strings.ToLower(me), strings.ToUpper(me[:1]) + strings.ToLower(me[1:])} {
				want, ok := at[strings.ToUpper(s)]
				if !ok {
					want = -1
				}
				o, f := rt.serve(s, "/a")
				if f != nil {
					return f
				}
				if o.Hit != want {
					return kit.Failf("method", "%d methods at %q: %s is dispatched to registration %d, want %d", len(c.Methods), c.Pattern, s, o.Hit, want)
				}
			}
		}
		r.AddEvals(3 * (len(c.Methods) + len(c.Ask)))
		r.Seen(kit.Hash("volume", len(c.Methods), c.Pattern, c.Mux))
		return nil
	})
}
