exec(open("/verif/tools/seeds/c.py").read().split("\nadd(", 1)[0])

add("x01-root-template", "X01",
    "a second mux whose template directory has a file of the same name",
    "all default templates are parsed into one shared root, the last mux made wins",
    [("gofre.go", """var defaultTemplateFunc = func(templatesPathPattern string) (*template.Template, error) {
	return template.New("").Funcs(template.FuncMap{
		"safe": func(s string) template.HTML { return template.HTML(s) }, //https://stackoverflow.com/questions/34348072/go-html-comments-are-not-rendered
	}).ParseGlob(templatesPathPattern)
}
""", """var rootTemplate = template.New("").Funcs(template.FuncMap{
	"safe": func(s string) template.HTML { return template.HTML(s) }, //https://stackoverflow.com/questions/34348072/go-html-comments-are-not-rendered
})

var defaultTemplateFunc = func(templatesPathPattern string) (*template.Template, error) {
	return rootTemplate.ParseGlob(templatesPathPattern)
}
""")],
    gotest("""
    var ms []*gofre.MuxHandler
    for _, d := range []string{"a", "b"} {
    	dir := t.TempDir()
    	if err := os.WriteFile(filepath.Join(dir, "p.html"), []byte("page "+d), 0o644); err != nil {
    		t.Fatal(err)
    	}
    	ms = append(ms, newMux(t, &gofre.Config{ResourcesConfig: &gofre.ResourcesConfig{TemplatesPathPattern: filepath.Join(dir, "*.html"), AssetsDirPath: dir}}))
    }
    var b bytes.Buffer
    if err := ms[0].ExecutableTemplate().ExecuteTemplate(&b, "p.html", nil); err != nil || b.String() != "page a" {
    	t.Fatal(b.String(), err)
    }
    """, ["os", "path/filepath", "bytes"]))


add("x01-regex-memo", "X01",
    "the same constraint registered on a case-insensitive mux first, then on a case-sensitive one",
    "the compiled constraints are memoized by their text, without the case mode",
    [("router/path/pattern.go", """				if caseInsensitive {
					regexPattern = "(?i)" + regexPattern
				}
				regex, err := regexp.Compile(regexPattern)
				if err != nil {
					return nil, fmt.Errorf("invalid path pattern: [%s], failed to compile regex: [%s], err: %w", pathPattern, regexPattern, err)
				}
""", """				regex, err := compileConstraint(regexPattern, caseInsensitive)
				if err != nil {
					return nil, fmt.Errorf("invalid path pattern: [%s], failed to compile regex: [%s], err: %w", pathPattern, regexPattern, err)
				}
"""), ("router/path/pattern.go", "type Pattern struct {\n", """// the same few constraints are used by many patterns
var constraints sync.Map

func compileConstraint(expr string, caseInsensitive bool) (*regexp.Regexp, error) {
	if c, ok := constraints.Load(expr); ok {
		return c.(*regexp.Regexp), nil
	}
	text := expr
	if caseInsensitive {
		text = "(?i)" + expr
	}
	c, err := regexp.Compile(text)
	if err != nil {
		return nil, err
	}
	constraints.Store(expr, c)
	return c, nil
}

type Pattern struct {
"""), ("router/path/pattern.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
    gotest("""
    for _, ci := range []bool{true, false} {
    	m := newMux(t, &gofre.Config{CaseInsensitivePathMatch: ci})
    	m.HandleGet("/u/{id:^[a-f]+$}", text("in"))
    	if w := do(m, "GET", "/u/ABC"); (w.Code == 200) != ci {
    		t.Fatal(ci, w.Code)
    	}
    }
    """, []))

add("x01-log-global", "X01",
    "a handler of the first mux fails after a second mux was made",
    "the error log function of the last mux made is used by all",
    [("router/router.go", """	if errLogFunc == nil {
		errLogFunc = defaultErrLogFunc
	}
	return &Router{
""", """	if errLogFunc == nil {
		errLogFunc = defaultErrLogFunc
	}
	defaultErrLogFunc = errLogFunc
	logFunc := func(err error) { defaultErrLogFunc(err) }
	return &Router{
"""), ("router/router.go", "		errLogFunc:               errLogFunc,\n", "		errLogFunc:               logFunc,\n")],
    gotest("""
    var la, lb int
    a := newMux(t, &gofre.Config{ErrLogFunc: func(error) { la++ }})
    newMux(t, &gofre.Config{ErrLogFunc: func(error) { lb++ }})
    a.HandleGet("/x", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return nil, http.ErrAbortHandler })
    do(a, "GET", "/x")
    if la != 1 || lb != 0 {
    	t.Fatal(la, lb)
    }
    """, []))
