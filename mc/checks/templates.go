package checks

import (
	"context"
	"fmt"
	"html"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
	texttpl "text/template"

	"gofremc/kit"
	"gofremc/wire"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

func init() { All["S06"] = checkS06 }

// s06Case is a directory of template files, and the pattern a mux is configured with.
type s06Case struct {
	Files   []string // names of s06Files
	Pattern string
	Given   bool // the configuration brings its own template
	Default bool // the files are where the default pattern looks, which is not configured
}

// template files: their text and, unless it is no template, what each template in it renders for s06Data.
type s06File struct {
	text  string
	bad   bool
	inner map[string]string // templates defined inside
	own   string
}

const s06Data = `<i>"&'`

var s06Files = map[string]s06File{
	"a.html":      {text: "A[{{.}}]", own: "A[" + html.EscapeString(s06Data) + "]"},
	"b.html":      {text: `B{{define "x"}}X:{{safe .}}{{end}}`, own: "B", inner: map[string]string{"x": "X:" + s06Data}},
	"c.txt":       {text: "C {{template \"x\" .}}", own: "?"},
	"bad.html":    {text: "{{if", bad: true},
	"nofunc.tmpl": {text: "{{nosuchfunc .}}", bad: true},
	"sub/a.html":  {text: "SUB<b title=\"{{.}}\">", own: "SUB<b title=\"" + html.EscapeString(s06Data) + "\">"},
	"empty.tmpl":  {text: "", own: ""},
}

func (c s06Case) run(dir string, seen func(uint64) bool) *kit.Failure {
	root, err := os.MkdirTemp(dir, "t")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	for _, f := range c.Files {
		p := filepath.Join(root, f)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(s06Files[f].text), 0o644); err != nil {
			panic(err)
		}
	}
	rc := &gofre.ResourcesConfig{TemplatesPathPattern: filepath.Join(root, c.Pattern)}
	given := texttpl.Must(texttpl.New("a.html").Parse("GIVEN {{.}}"))
	if c.Given {
		rc.Template = given
	}
	return s06Judge(c, func() (*gofre.MuxHandler, error) { return gofre.NewMuxHandler(&gofre.Config{ResourcesConfig: rc}) }, seen)
}

// s06Judge builds the mux and renders every template name with it.
func s06Judge(c s06Case, build func() (*gofre.MuxHandler, error), seen func(uint64) bool) *kit.Failure {
	// which files the pattern names
	var loaded []string
	broken := false
	for _, f := range c.Files {
		ok, err := filepath.Match(c.Pattern, f)
		if err != nil {
			broken = true
		} else if ok {
			loaded = append(loaded, f)
			broken = broken || s06Files[f].bad
		}
	}
	broken = broken || len(loaded) == 0
	if c.Given {
		broken, loaded = false, nil
	}
	m, err := build()
	if broken {
		if err == nil {
			return kit.Failf("noerror", "templates %q of %v cannot be loaded, yet a mux is made", c.Pattern, c.Files)
		}
		if m != nil {
			return kit.Failf("mux", "a mux is returned together with the error %v", err)
		}
		seen(kit.Hash("error"))
		return nil
	}
	if err != nil || m == nil {
		return kit.Failf("error", "templates %q of %v: %v", c.Pattern, c.Files, err)
	}
	want := map[string]string{}
	hasX := false
	for _, f := range loaded {
		want[filepath.Base(f)] = s06Files[f].own
		for k, v := range s06Files[f].inner {
			want[k] = v
			hasX = hasX || k == "x"
		}
	}
	if want["c.txt"] == "?" {
		delete(want, "c.txt")
		if hasX {
			want["c.txt"] = "C X:" + s06Data
		}
	}
	if c.Given {
		want["a.html"] = "GIVEN " + s06Data
	}
	names := []string{"x", "nosuch", ""}
	for f := range s06Files {
		names = append(names, filepath.Base(f))
	}
	sort.Strings(names)
	tpl := m.ExecutableTemplate()
	if tpl == nil {
		return kit.Failf("notemplate", "templates %q of %v: ExecutableTemplate is nil", c.Pattern, c.Files)
	}
	var name string
	m.HandleGet("/page", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.TemplateHttpResponseOK(m.ExecutableTemplate(), name, s06Data), nil
	})
	// forwards and backwards: rendering one template does not change the others
	for i := 0; i < 2*len(names); i++ {
		name = names[min(i, 2*len(names)-1-i)]
		w, ok := want[name]
		if c.Files == nil && !ok {
			continue
		}
		var b strings.Builder
		err := tpl.ExecuteTemplate(&b, name, s06Data)
		if ok != (err == nil) {
			return kit.Failf("render", "templates %q of %v: executing %q: %v", c.Pattern, c.Files, name, err)
		}
		if ok && b.String() != w && !sameText(b.String(), w) {
			return kit.Failf("text", "templates %q of %v: %q renders %q, want %q", c.Pattern, c.Files, name, b.String(), w)
		}
		rec := wire.New()
		m.ServeHTTP(rec.Writer("full"), mkReq("GET", "/page"))
		rec.End()
		if got := rec.Body.String(); ok && (rec.Status != 200 || got != b.String()) {
			return kit.Failf("page", "templates %q of %v: the page of %q is answered with %v", c.Pattern, c.Files, name, rec.View())
		}
		if ct := rec.Sent.Get("Content-Type"); ok && ct != "text/html; charset=utf-8" && !c.Given {
			return kit.Failf("type", "the page of %q has the type %q", name, ct)
		}
	}
	seen(kit.Hash(fmt.Sprint(want)))
	return nil
}

// sameText compares rendered text up to the choice of escape sequences; raw and escaped text differ.
func sameText(a, b string) bool {
	return html.UnescapeString(a) == html.UnescapeString(b) && strings.ContainsAny(a, "<\"") == strings.ContainsAny(b, "<\"") && strings.Count(a, "<") == strings.Count(b, "<") && strings.Count(a, "\"") == strings.Count(b, "\"")
}

func checkS06(r *kit.Run) {
	log.SetOutput(io.Discard) // the default error log
	defer log.SetOutput(os.Stderr)
	r.Rule = "distinct = sets of renderable templates with their output"
	dir, err := os.MkdirTemp("", "mctpl")
	if err != nil {
		r.T.Fatal(err)
	}
	defer os.RemoveAll(dir)
	cleanup = append(cleanup, func() { os.RemoveAll(dir) })
	var names []string
	for f := range s06Files {
		names = append(names, f)
	}
	sort.Strings(names)
	patterns := []string{"*.html", "*", "*.txt", "*.tmpl", "a.html", "[ab].html", "sub/*.html", "*/*", "nosuch*", "[", "{a,b}.html", "?.html", "sub", ""}
	r.Bound("all %d subsets of %d template files (valid, broken, empty, nested, referring to each other) x %d patterns x {pattern, own template}; every template name executed directly and as a page, in both orders; the default pattern; no templates", 1<<len(names), len(names), len(patterns))
	r.Assume = []string{"the template files do not change while they are loaded", "a pattern that names a directory is an error (the file cannot be read)"}
	subset := func(i int) (fs []string) {
		fs = []string{}
		for b, f := range names {
			if i>>b&1 == 1 {
				fs = append(fs, f)
			}
		}
		return fs
	}
	namesDir := func(c s06Case) bool {
		for _, f := range c.Files {
			if d := filepath.Dir(f); d != "." {
				if ok, _ := filepath.Match(c.Pattern, d); ok || c.Pattern == "" {
					return true
				}
			}
		}
		return c.Pattern == ""
	}
	kit.Explore(r, "templates", seqOf(func(yield func(s06Case) bool) {
		for i := 0; i < 1<<len(names); i++ {
			for _, p := range patterns {
				for _, g := range []bool{false, true} {
					if !yield(s06Case{Files: subset(i), Pattern: p, Given: g}) {
						return
					}
				}
			}
		}
	}), func(c s06Case) *kit.Failure {
		if !c.Given && namesDir(c) {
			return nil // reading a directory fails or is skipped: left open
		}
		return c.run(dir, r.Seen)
	})
	s06Sizes(r, dir)
	// the default places, relative to the working directory
	old, err := os.Getwd()
	if err != nil {
		r.T.Fatal(err)
	}
	base := filepath.Join(dir, "default")
	one := make(chan struct{}, 1)
	kit.Explore(r, "defaults", seqOf(func(yield func(s06Case) bool) {
		for i := 0; i < 1<<len(names); i++ {
			if !yield(s06Case{Files: subset(i), Pattern: "*.html", Default: true}) {
				return
			}
		}
	}), func(c s06Case) *kit.Failure {
		one <- struct{}{}
		defer func() { <-one }()
		os.RemoveAll(base)
		for _, f := range c.Files {
			p := filepath.Join(base, "resources/templates", f)
			os.MkdirAll(filepath.Dir(p), 0o755)
			os.WriteFile(p, []byte(s06Files[f].text), 0o644)
		}
		os.MkdirAll(filepath.Join(base, "resources/assets"), 0o755)
		os.WriteFile(filepath.Join(base, "resources/assets/logo.txt"), []byte("LOGO"), 0o644)
		if err := os.Chdir(base); err != nil {
			panic(err)
		}
		defer os.Chdir(old)
		f := s06Judge(c, func() (*gofre.MuxHandler, error) {
			return gofre.NewMuxHandler(&gofre.Config{ResourcesConfig: &gofre.ResourcesConfig{}})
		}, r.Seen)
		if f != nil {
			return f
		}
		bad := false
		n := 0
		for _, f := range c.Files {
			if ok, _ := filepath.Match("*.html", f); ok {
				n++
				bad = bad || s06Files[f].bad
			}
		}
		if bad || n == 0 {
			return nil // NewDefaultResourcesConfig ends the process
		}
		// the convenience constructor, and the assets beside the templates
		if f := s06Judge(c, gofre.NewMuxHandlerWithDefaultConfigAndTemplateSupport, r.Seen); f != nil {
			return f
		}
		m, err := gofre.NewMuxHandlerWithDefaultConfigAndTemplateSupport()
		if err != nil {
			return kit.Failf("error", "%v", err)
		}
		rec := wire.New()
		m.ServeHTTP(rec.Writer("full"), mkReq("GET", "/assets/logo.txt"))
		rec.End()
		if rec.Status != 200 || rec.Body.String() != "LOGO" {
			return kit.Failf("assets", "the default assets directory: %v", rec.View())
		}
		return nil
	})
	// without resources there is no template
	kit.Explore(r, "none", seqOf(func(yield func(int) bool) {
		for i := 0; i < 3; i++ {
			if !yield(i) {
				return
			}
		}
	}), func(i int) *kit.Failure {
		var m *gofre.MuxHandler
		var err error
		var want response.ExecutableTemplate
		switch i {
		case 0:
			m, err = gofre.NewMuxHandlerWithDefaultConfig()
		case 1:
			m, err = gofre.NewMuxHandler(&gofre.Config{})
		case 2:
			want = response.NilTemplate{}
			m, err = gofre.NewMuxHandler(&gofre.Config{ResourcesConfig: &gofre.ResourcesConfig{Template: want}})
		}
		if err != nil || m.ExecutableTemplate() != want {
			return kit.Failf("none", "configuration %d: err %v, template %v, want %v", i, err, m.ExecutableTemplate(), want)
		}
		return nil
	})
}

// s06Size is a directory of generated templates.
type s06Size struct {
	Files, Defines, Len, Renders int
	Data                         int    // a rune to render, or the length of a text
	Name                         string // of the first file
	Edge                         string `json:",omitempty"` // around the text of the files
}

// s06Sizes: many files, many definitions, long templates, many renderings, every character as data, odd names.
func s06Sizes(r *kit.Run, dir string) {
	r.Bound("sizes: up to 300 files, 300 definitions, texts of up to 1 MiB around every power of two, 300 renderings, data with every rune below U+0250 and of up to 1 MiB, %d odd file names (alone and beside another file), %d texts at the edges of a template", len(s06OddNames), len(s06Edges))
	kit.Explore(r, "sizes", seqOf(func(yield func(s06Size) bool) {
		for _, n := range sizesTo(12, 300) {
			if n > 0 && (!yield(s06Size{Files: n, Len: 3}) || !yield(s06Size{Files: 1, Defines: n}) || !yield(s06Size{Files: 2, Renders: n, Len: 10})) {
				return
			}
		}
		for _, n := range sizesTo(8, 1<<20) {
			if !yield(s06Size{Files: 1, Len: n}) || !yield(s06Size{Files: 1, Data: -n}) {
				return
			}
		}
		for c := 1; c < 0x250; c++ {
			if !yield(s06Size{Files: 1, Data: c}) {
				return
			}
		}
		for _, n := range s06OddNames {
			if !yield(s06Size{Files: 1, Name: n, Len: 5}) || !yield(s06Size{Files: 2, Name: n, Len: 5, Defines: 1}) {
				return
			}
		}
		for _, e := range s06Edges {
			if !yield(s06Size{Files: 2, Edge: e, Len: 5}) {
				return
			}
		}
	}), func(c s06Size) *kit.Failure {
		root, err := os.MkdirTemp(dir, "s")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(root)
		data := fmt.Sprintf("<%s>", string(rune(max(c.Data, 1))))
		if c.Data < 0 {
			data = textOf(-c.Data) + "<"
		} else if c.Data == 0 {
			data = "<d>"
		}
		esc := html.EscapeString(data)
		want := map[string]string{}
		for i := 0; i < c.Files; i++ {
			name := fmt.Sprintf("f%03d.html", i)
			if c.Name != "" && i == 0 {
				name = c.Name
			}
			text := fmt.Sprintf("%s<p>%d %s</p>{{.}}|{{safe .}}%s", c.Edge, i, textOf(c.Len), c.Edge)
			want[name] = fmt.Sprintf("%s<p>%d %s</p>%s|%s%s", c.Edge, i, textOf(c.Len), esc, data, c.Edge)
			for d := 0; d < c.Defines; d++ {
				text += fmt.Sprintf(`{{define "d%d"}}D%d {{.}}{{end}}`, d, d)
				want[fmt.Sprintf("d%d", d)] = fmt.Sprintf("D%d %s", d, esc)
			}
			if err := os.WriteFile(filepath.Join(root, name), []byte(text), 0o644); err != nil {
				panic(err)
			}
		}
		m, err := gofre.NewMuxHandler(&gofre.Config{ResourcesConfig: &gofre.ResourcesConfig{TemplatesPathPattern: filepath.Join(root, "*")}})
		if err != nil {
			return kit.Failf("error", "%+v: %v", c, err)
		}
		var name string
		m.HandleGet("/page", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			return response.TemplateHttpResponseOK(m.ExecutableTemplate(), name, data), nil
		})
		for i := 0; i <= c.Renders; i++ {
			for n, w := range want {
				name = n
				rec := wire.New()
				m.ServeHTTP(rec.Writer("full"), mkReq("GET", "/page"))
				rec.End()
				if got := rec.Body.String(); rec.Status != 200 || got != w && (html.UnescapeString(got) != html.UnescapeString(w) || strings.Count(got, "<") != strings.Count(w, "<")) {
					return kit.Failf("page", "%+v: the page of %q (rendering %d) has status %d and %d bytes, want %d", c, n, i, rec.Status, len(got), len(w))
				}
			}
		}
		r.Seen(kit.Hash("sizes", fmt.Sprintf("%+v", c)))
		return nil
	})
}

var s06OddNames = []string{"a", ".hidden", "A.HTML", "a b.html", "\u00e9.html", "a.b.c", "-", "~", "a%20b", "%", "#", "a;b", "a+b", "a'b", "a\"b", "a<b>", "{{.}}", "x.txt", "x.js", "x.css", "x.svg", "x.json", "x.xml", textOf(200),
	"_a.html", "_", "a~", "a.html~", "a.bak", "#a#", ".#a", "a.tmp", "a.swp", "index.html", "layout.html", "base.html", "404.html", "partial.html", "a_test.html", "draft.html", "1.html", "a.html.html", "a.tmpl", "a.gohtml", "a.HTML", "README.md", "nul", "[a].html", "*.html", "a\\b.html", "\xff.html"}

// s06Edges is text at the start and the end of a template that has no meaning of its own.
var s06Edges = []string{"\ufeff", "---\ntitle: a\n---\n", "\r\n", " \t", "\n\n", "#!", "<!doctype html>\n", "\u00a0", "// a\n", "\f"}
