package checks

import (
	"fmt"
	"html"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"

	"gofremc/kit"
	"gofremc/ref"
	"gofremc/wire"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
)

func init() { All["S05"] = checkS05 }

type s05Case struct {
	Ctx, Map string
	CI       bool
	Path     string
	Encoded  bool // Path is the undecoded request target
	Method   string
	Hdr      http.Header `json:",omitempty"`
}

type s05Env struct {
	inside map[string]string // path below the assets directory -> content
	dirs   map[string]bool
	mu     sync.Mutex
	muxes  map[string]http.Handler
	assets string
	seen   func(uint64) bool
}

func newS05Env(r *kit.Run) (*s05Env, string) {
	root, err := os.MkdirTemp("", "mcassets")
	if err != nil {
		r.T.Fatal(err)
	}
	e := &s05Env{inside: map[string]string{}, dirs: map[string]bool{"": true}, muxes: map[string]http.Handler{}, seen: r.Seen}
	all := make([]byte, 70000)
	for i := range all {
		all[i] = byte(i * 7 / 3)
	}
	files := map[string]string{
		"top/assets/a.txt": "content of a", "top/assets/sub/b.txt": "content of sub b", "top/assets/sub/a.txt": "content of sub a",
		"top/assets/sub/deep/c.bin": string(all), "top/assets/empty.txt": "", "top/assets/sp ace.txt": "with a space", "top/assets/\u00e9.txt": "accent",
		"top/assets/.hidden": "dot file", "top/assets/A.txt": "capital a", "top/assets/dir/index.html": "<p>index of dir</p>", "top/assets/page.html": "<p>page</p>",
		"top/assets/assets/a.txt": "nested mapping name", "top/assets/app/a.txt": "nested context name", "top/assets/p%2Fq.txt": "percent", "top/assets/static/sub/a.txt": "nested static", "top/assets/..a/b.txt": "two dots prefix",
		"top/secret-outside.txt": "OUTSIDE-1", "top/a.txt": "OUTSIDE-2", "secret-outside.txt": "OUTSIDE-3", "a.txt": "OUTSIDE-4", "top/assets2/a.txt": "OUTSIDE-5", "top/sub/b.txt": "OUTSIDE-6", "top/app/a.txt": "OUTSIDE-7",
	}
	for f, c := range files {
		p := filepath.Join(root, f)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			r.T.Fatal(err)
		}
		if err := os.WriteFile(p, []byte(c), 0o644); err != nil {
			r.T.Fatal(err)
		}
		if rel, ok := strings.CutPrefix(f, "top/assets/"); ok {
			e.inside[rel] = c
			for d := filepath.Dir(rel); d != "."; d = filepath.Dir(d) {
				e.dirs[d] = true
			}
		}
	}
	e.assets = filepath.Join(root, "top/assets")
	return e, root
}

func (e *s05Env) mux(c s05Case) http.Handler {
	k := fmt.Sprint(c.Ctx, "|", c.Map, "|", c.CI)
	e.mu.Lock()
	defer e.mu.Unlock()
	if m := e.muxes[k]; m != nil {
		return m
	}
	m, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: c.CI, ContextPath: c.Ctx, ErrLogFunc: func(error) {},
		ResourcesConfig: &gofre.ResourcesConfig{AssetsDirPath: e.assets, AssetsMappingPath: c.Map, Template: response.NilTemplate{}}})
	if err != nil {
		panic(err)
	}
	e.muxes[k] = m
	return m
}

func (e *s05Env) run(c s05Case) *kit.Failure {
	var u *url.URL
	if c.Encoded {
		var err error
		if u, err = url.ParseRequestURI(c.Path); err != nil {
			return nil // net/http refuses such requests itself
		}
	} else {
		u = &url.URL{Path: c.Path}
	}
	rq := &http.Request{Method: c.Method, URL: u, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "srv.example", Body: http.NoBody}
	if c.Hdr != nil {
		rq.Header = c.Hdr.Clone()
	}
	rec := wire.New()
	e.mux(c).ServeHTTP(rec.Writer("full"), rq)
	rec.End()
	got := rec.View()
	base := strings.TrimSuffix(c.Ctx, "/") + "/" + c.Map + "/"
	if c.Map == "" {
		base = strings.TrimSuffix(c.Ctx, "/") + "/assets/"
	}
	if strings.Contains(got.Body, "OUTSIDE-") || strings.Contains(got.Body, "secret-outside") {
		return kit.Failf("escape", "%s %q obtains something outside the assets directory: %v", c.Method, u.Path, got)
	}
	if got.Status != 200 && (got.Status < 300 || got.Status > 599) {
		return kit.Failf("status", "%s %q: status %d", c.Method, u.Path, got.Status)
	}
	segs := ref.Normalise(u.Path)
	baseSegs := ref.Normalise(base)
	below := len(segs) > len(baseSegs)
	for i := range baseSegs {
		below = below && (segs[i] == baseSegs[i] || c.CI && strings.EqualFold(segs[i], baseSegs[i]))
	}
	if c.Method != "GET" || !below {
		if got.Status != 404 {
			return kit.Failf("unmapped", "%s %q is not below %q but is answered with %v", c.Method, u.Path, base, got)
		}
		return nil
	}
	rel, hasBase := strings.CutPrefix(u.Path, base)
	clean := hasBase
	for _, s := range strings.Split(rel, "/") {
		if s == "" || s == "." || s == ".." {
			clean = false
		}
	}
	content, isFile := e.inside[rel]
	if clean && isFile && filepath.Base(rel) != "index.html" && len(segs) <= 19 {
		if got.Status != 200 || got.Body != content {
			return kit.Failf("content", "GET %q: want the %d bytes of %q, got %v", u.Path, len(content), rel, got)
		}
		if cl := got.Headers["Content-Length"]; cl != "" && cl != fmt.Sprint(len(content)) {
			return kit.Failf("content", "GET %q: Content-Length %s for %d bytes", u.Path, cl, len(content))
		}
		e.seen(kit.Hash("file", rel, c.Ctx, c.Map, c.CI))
		return nil
	}
	if clean && !isFile && !e.dirs[rel] && got.Status < 400 {
		return kit.Failf("missing", "GET %q: there is no such file but the answer is %v", u.Path, got)
	}
	if got.Status == 200 {
		for f, content := range e.inside {
			if got.Body == content && content != "" || content == "" && got.Body == "" {
				e.seen(kit.Hash("file", f, c.Ctx, c.Map, c.CI))
				return nil
			}
		}
		for d := range e.dirs {
			if listing(got.Body, e, d) {
				e.seen(kit.Hash("dir", d, c.Ctx, c.Map, c.CI))
				return nil
			}
		}
		return kit.Failf("foreign", "GET %q is answered with something that is neither a file nor a listing of the assets directory: %v", u.Path, got)
	}
	e.seen(kit.Hash("status", got.Status, len(segs)))
	return nil
}

// listing reports whether body is a listing of exactly the directory d below the assets directory.
func listing(body string, e *s05Env, d string) bool {
	if !strings.Contains(body, "<pre>") {
		return false
	}
	want := map[string]bool{}
	add := func(p string, dir bool) {
		if d != "" {
			var ok bool
			if p, ok = strings.CutPrefix(p, d+"/"); !ok {
				return
			}
		}
		if p == "" {
			return
		}
		n, rest, sub := strings.Cut(p, "/")
		_ = rest
		if sub || dir {
			n += "/"
		}
		want[n] = true
	}
	for f := range e.inside {
		add(f, false)
	}
	n := 0
	for _, l := range strings.Split(body, "\n") {
		_, l, ok := strings.Cut(l, `">`)
		if !ok {
			continue
		}
		name, _, ok := strings.Cut(l, "</a>")
		if !ok {
			continue
		}
		n++
		if !want[html.UnescapeString(name)] {
			return false
		}
	}
	return n == len(want)
}

func checkS05(r *kit.Run) {
	r.Level = "exploration"
	r.Rule = "distinct = (file, directory or status served, configuration)"
	e, root := newS05Env(r)
	defer os.RemoveAll(root)
	cleanup = append(cleanup, func() { os.RemoveAll(root) })
	depth := kit.Pick(r, 4, 5)
	toks := []string{"", ".", "..", "a.txt", "sub", "b.txt", "secret-outside.txt", "assets", "app", "top", "..a", "A.txt", "nosuch", "empty.txt", "...", "..\\", "deep", "c.bin", "dir"}
	enc := []string{"%2e%2e", "%2E.", "..%2f", "%252e%252e", "%252e%252e%252fa.txt", "%c0%ae%c0%ae", "%2f", "sp%20ace.txt", "%C3%A9.txt", "p%252Fq.txt", "..%5c", "%00", "a.txt%00", "sub%2fb.txt", "a%2Etxt", "a.txt?x=/../", "..", "sub", "", "assets", "secret-outside.txt", "a.txt"}
	r.Bound("context paths \"\",/,/app,/app/v1 x mappings default,static,a/b,assets x case sensitivity x all paths of up to %d further segments over %d decoded and %d encoded segment texts below, beside and above the mapping", depth, len(toks), len(enc))
	r.Assume = []string{"index files and directories may be answered by net/http.FileServer's redirects and listings", "no symbolic links in the assets directory"}
	gen := seqOf(func(yield func(s05Case) bool) {
		type cfg struct{ ctx, mp string }
		cfgs := []cfg{{"", ""}, {"/", "static"}, {"/app", "assets"}, {"/app/v1", "a/b"}, {"/app", "a/b"}, {"/", "assets"}}
		for _, cf := range cfgs {
			for _, ci := range []bool{false, true} {
				mp := cf.mp
				if mp == "" {
					mp = "assets"
				}
				base := strings.TrimSuffix(cf.ctx, "/") + "/" + mp
				starts := []string{base, strings.ToUpper(base), "", "/" + mp, "//" + strings.TrimPrefix(base, "/"), "/x/.." + base}
				var walk func(p string, encoded bool, left int) bool
				walk = func(p string, encoded bool, left int) bool {
					for _, m := range []string{"GET", "POST"} {
						if m == "POST" && left != 1 {
							continue
						}
						if p == "" {
							continue
						}
						if !yield(s05Case{Ctx: cf.ctx, Map: cf.mp, CI: ci, Path: p, Encoded: encoded, Method: m}) {
							return false
						}
					}
					if left == 0 {
						return true
					}
					ts := toks
					if encoded {
						ts = enc
					}
					for _, t := range ts {
						if !walk(p+"/"+t, encoded, left-1) {
							return false
						}
					}
					return true
				}
				for i, s := range starts {
					d := depth
					if i > 0 {
						d--
					}
					if !walk(s, false, d) || !walk(s, true, d) {
						return
					}
				}
				// further disguises of paths out of the directory: encoded twice and three times, absolute, with separators of other systems
				for _, up := range []string{"..", "%2e%2e", "%252e%252e", "%25252e%25252e", "..%00", "..;", "%u002e%u002e", "%ff%fe", ".%2e", ".%252e", "...."} {
					for _, sep := range []string{"/", "%2f", "%252f", "%25252f", "%5c", "%255c", "//", "/./", "%00/"} {
						for _, pre := range []string{"", "sub" + sep + up + sep, "sub" + sep, "dir" + sep + up + sep + up + sep} {
							for _, target := range []string{"a.txt", "secret-outside.txt", "assets2" + sep + "a.txt", ".." + sep + "a.txt", up + sep + "secret-outside.txt", "", "."} {
								for _, lead := range []string{base + "/", base + sep} {
									if !yield(s05Case{Ctx: cf.ctx, Map: cf.mp, CI: ci, Path: lead + pre + up + sep + target, Encoded: true, Method: "GET"}) {
										return
									}
								}
							}
						}
					}
				}
				for _, lead := range []string{"", base, base + "/", base + "//", "/assets", base + "/%2f", base + "/sub/"} {
					for _, f := range []string{"/top/secret-outside.txt", "/a.txt", "/top/assets2/a.txt", "/top/assets/a.txt", "/top", ""} {
						for _, abs := range []string{root + f, url.PathEscape(root + f), url.PathEscape(url.PathEscape(root + f)), "file:" + root + f} {
							if !yield(s05Case{Ctx: cf.ctx, Map: cf.mp, CI: ci, Path: lead + abs, Encoded: true, Method: "GET"}) {
								return
							}
						}
					}
				}
				// every regular file by its plain path, and again with a sibling prefix
				for f := range e.inside {
					for _, p := range []string{base + "/" + f, base + "2/" + f, base + f, base + "/" + f + "/", "/wrong" + base + "/" + f, base + "/" + f + "x"} {
						if !yield(s05Case{Ctx: cf.ctx, Map: cf.mp, CI: ci, Path: p, Method: "GET"}) {
							return
						}
					}
				}
			}
		}
	})
	kit.Explore(r, "paths", gen, e.run)
	s05Sizes(r)
	s05Changes(r)
}

// s05Tree makes an assets directory of its own with the given files.
func s05Tree(r *kit.Run, files map[string]string) *s05Env {
	root, err := os.MkdirTemp("", "mcassets")
	if err != nil {
		r.T.Fatal(err)
	}
	cleanup = append(cleanup, func() { os.RemoveAll(root) })
	e := &s05Env{inside: map[string]string{}, dirs: map[string]bool{"": true}, muxes: map[string]http.Handler{}, seen: r.Seen, assets: filepath.Join(root, "assets")}
	for f, c := range files {
		if err := e.put(f, c); err != nil {
			r.T.Fatal(err)
		}
	}
	return e
}

func (e *s05Env) put(f, c string) error {
	p := filepath.Join(e.assets, f)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	e.inside[f] = c
	for d := filepath.Dir(f); d != "."; d = filepath.Dir(d) {
		e.dirs[d] = true
	}
	return os.WriteFile(p, []byte(c), 0o644)
}

// s05Sizes: every size of a file, every kind of name, many files in one directory and directories in each other.
func s05Sizes(r *kit.Run) {
	files := map[string]string{}
	for _, n := range sizesTo(40, 1<<20) {
		files[fmt.Sprintf("size/%d.bin", n)] = textOf(n)
	}
	for _, ext := range []string{"html", "htm", "css", "js", "mjs", "json", "xml", "svg", "png", "gif", "jpg", "webp", "ico", "woff2", "wasm", "pdf", "zip", "gz", "br", "tar.gz", "txt", "md", "go", "tmpl", "php", "map", "unknown", "", "HTML", "bak", "swp", "env", "key", "pem"} {
		files["ext/name."+ext] = "<body> of " + ext
	}
	// contents a server might tell apart or rewrite
	for i, c := range []string{"\x1f\x8b\x08gzip", "<!DOCTYPE html><p>x", "{{.}} {{template \"x\"}}", "\xef\xbb\xbfbom", "\xff\xfeutf16", "\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n", "\x00\x00", "%PDF-1", "#!/bin/sh", "a\r\nb\nc\r", " ", "\n"} {
		files[fmt.Sprintf("content/%d", i)] = c
	}
	for i := 0; i < 600; i++ {
		files[fmt.Sprintf("many/f%03d", i)] = fmt.Sprint("file ", i)
	}
	for i := 1; i <= 16; i++ {
		files[strings.Repeat("d/", i)+"f"] = fmt.Sprint("depth ", i)
	}
	for c := 1; c < 0x250; c++ {
		if c != '/' && c != '.' {
			files["name/"+string(rune(c))] = fmt.Sprint("rune ", c)
			files["name2/a"+string(rune(c))+"b.txt"] = fmt.Sprint("inner rune ", c)
		}
	}
	for _, n := range []int{100, 200, 254, 255} {
		files["long/"+textOf(n)] = fmt.Sprint("long ", n)
	}
	for _, n := range []string{"con", "nul", "CVS/x", ".git/config", ".env", "node_modules/x", "~x", "x~", "-", "--", "index.htm", "Index.html", "index.html.txt", "robots.txt", "favicon.ico", "WEB-INF/web.xml", "*", "**", "{id}", "{id:^a$}", "a*b", "?", "#", "%", "%41", ";x", "a;b", "a:b", ":", "a b", "+", "a+b", "&", "=", "...", "a..", "..b", "$x", "\\", "a\\b", "c:x"} {
		files["odd/"+n] = "odd " + n
	}
	// a name beside one that a server might take for it, and the other one alone
	var lone []string
	for i, q := range []string{"p", "p.txt", "p.js", "p.html", "p.min.js", "p.en.txt", "P.TXT"} {
		stem, ext := strings.TrimSuffix(q, filepath.Ext(q)), filepath.Ext(q)
		for j, v := range []string{q + ".html", q + ".htm", q + ".txt", q + ".gz", q + ".br", q + ".zst", q + ".gzip", q + ".bak", q + "~", q + ".orig", q + ".en", q + ".de", q + ".map", q + ".1", "_" + q, "." + q, q + " ", " " + q, q + ".", stem, stem + ".min" + ext, stem + ".en" + ext, stem + ".br" + ext, stem + "-1" + ext, stem + "@2x" + ext, stem + ".webp", strings.ToUpper(q), strings.ToLower(q), strings.Title(q), "404.html", "default.html", "home.html", "index.htm", "index.php", "README", q + "/index.html", stem + "/index.html"} {
			if v == q || v == "" {
				continue
			}
			both, one := fmt.Sprintf("near/%d/%d/both/", i, j), fmt.Sprintf("near/%d/%d/one/", i, j)
			files[one+v] = "neighbour of " + q
			lone = append(lone, one+q)
			if strings.HasPrefix(v, q+"/") {
				continue
			}
			files[both+v], files[both+q] = "neighbour of "+q, "own "+q
		}
	}
	e := s05Tree(r, files)
	r.Bound("neighbours: 7 file names beside each of 37 names a server might take for them, and the other one alone, x requests with and without content negotiation")
	kit.Explore(r, "neighbours", seqOf(func(yield func(s05Case) bool) {
		hs := []http.Header{nil, {"Accept-Encoding": {"gzip"}}, {"Accept-Encoding": {"gzip, deflate, br, zstd"}}, {"Accept-Encoding": {"br"}}, {"Accept": {"text/html,application/xhtml+xml"}, "Accept-Language": {"en"}}, {"Accept": {"image/webp"}, "Save-Data": {"on"}, "User-Agent": {"Mozilla/5.0"}}, {"Accept-Language": {"de, en;q=0.5"}}}
		names := slices.Clone(lone)
		for f := range files {
			if strings.HasPrefix(f, "near/") {
				names = append(names, f)
			}
		}
		slices.Sort(names)
		for _, f := range names {
			for _, h := range hs {
				for _, ci := range []bool{false, true} {
					if !yield(s05Case{CI: ci, Path: "/assets/" + f, Method: "GET", Hdr: h}) {
						return
					}
				}
			}
		}
	}), e.run)
	r.Bound("assets: file sizes around every power of two up to 1 MiB, %d endings, contents that look like something else, 600 files in one directory, 16 directories in each other, every rune below U+0250 as a name and inside one, names of up to 255 bytes; asked for decoded and encoded under 3 configurations with ordinary request headers", 33)
	hdrs := []http.Header{{}, {"Accept-Encoding": {"gzip, br"}}, {"Accept": {"text/html"}, "Referer": {"https://x/"}, "User-Agent": {"curl"}}, {"Cookie": {"a=b"}, "Authorization": {"Bearer x"}, "Origin": {"null"}}, {"Cache-Control": {"no-cache"}, "Connection": {"close"}}}
	kit.Explore(r, "sizes", seqOf(func(yield func(s05Case) bool) {
		for f := range files {
			for _, cf := range [][2]string{{"", ""}, {"/app/v1", "a/b"}, {"/", "static"}} {
				mp := cf[1]
				if mp == "" {
					mp = "assets"
				}
				base := strings.TrimSuffix(cf[0], "/") + "/" + mp + "/"
				for i := range hdrs {
					if !yield(s05Case{Ctx: cf[0], Map: cf[1], Path: base + f, Method: "GET", Hdr: hdrs[i]}) {
						return
					}
				}
				if !yield(s05Case{Ctx: cf[0], Map: cf[1], CI: true, Path: base + f, Method: "GET"}) ||
					!yield(s05Case{Ctx: cf[0], Map: cf[1], Path: base + f + "x", Method: "GET"}) ||
					!yield(s05Case{Ctx: cf[0], Map: cf[1], Path: (&url.URL{Path: base + f}).EscapedPath(), Encoded: true, Method: "GET"}) ||
					!yield(s05Case{Ctx: cf[0], Map: cf[1], Path: (&url.URL{Path: base + f}).EscapedPath() + "?v=1&x=../a", Encoded: true, Method: "GET"}) {
					return
				}
			}
		}
	}), e.run)
}

// s05Change is one step of a history of a directory and the requests to it.
type s05Change struct{ Ops []string }

// s05Changes: the file that is there when it is asked for is the one that is served.
func s05Changes(r *kit.Run) {
	ops := []string{"get a", "get b", "put a 1", "put a 22", "put b 1", "rm a", "rm b", "mv a b", "post a"}
	depth := kit.Pick(r, 4, 5)
	r.Bound("changes: all histories of up to %d of %q on an assets directory", depth, ops)
	kit.Explore(r, "changes", seqOf(func(yield func(s05Change) bool) {
		var rec func(h []string) bool
		rec = func(h []string) bool {
			if len(h) > 0 && strings.HasPrefix(h[len(h)-1], "get") && !yield(s05Change{append([]string(nil), h...)}) {
				return false
			}
			if len(h) == depth {
				return true
			}
			for _, o := range ops {
				if !rec(append(h, o)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	}), func(c s05Change) *kit.Failure {
		dir, err := os.MkdirTemp("", "mcassets")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}, ResourcesConfig: &gofre.ResourcesConfig{AssetsDirPath: dir, Template: response.NilTemplate{}}})
		if err != nil {
			return kit.Failf("mux", "%v", err)
		}
		have := map[string]string{}
		for i, o := range c.Ops {
			f := strings.Fields(o)
			switch f[0] {
			case "put":
				os.WriteFile(filepath.Join(dir, f[1]), []byte(f[2]), 0o644)
				have[f[1]] = f[2]
			case "rm":
				os.Remove(filepath.Join(dir, f[1]))
				delete(have, f[1])
			case "mv":
				if v, ok := have[f[1]]; ok {
					os.Rename(filepath.Join(dir, f[1]), filepath.Join(dir, f[2]))
					delete(have, f[1])
					have[f[2]] = v
				}
			case "post":
				rec := wire.New()
				m.ServeHTTP(rec.Writer("full"), mkReq("POST", "/assets/"+f[1]))
				if rec.End(); rec.Status != 404 {
					return kit.Failf("post", "POST is answered with %v", rec.View())
				}
			case "get":
				rec := wire.New()
				m.ServeHTTP(rec.Writer("full"), mkReq("GET", "/assets/"+f[1]))
				rec.End()
				want, ok := have[f[1]]
				if ok && (rec.Status != 200 || rec.Body.String() != want) || !ok && rec.Status != 404 {
					return kit.Failf("stale", "after %q the directory holds %v, and %q is answered with %v", c.Ops[:i], have, f[1], rec.View())
				}
			}
		}
		r.Seen(kit.Hash("changes", len(have), len(c.Ops)))
		return nil
	})
}
