exec(open("/verif/tools/seeds/c.py").read().split("\nadd(", 1)[0])

add("r01-question-after-star", "R01",
    "a text that ends with *? on a segment that the text before them already covers",
    "a ? behind a * may match nothing",
    [("router/path/pattern.go", "	for pIndex < patternSegmentLen && patternSegment[pIndex] == '*' {\n", "	for pIndex < patternSegmentLen && (patternSegment[pIndex] == '*' || patternSegment[pIndex] == '?' && patternSegment[pIndex-1] == '*') {\n"),
     ("router/path/pattern.go", "	patternSegmentLen := len(patternSegment)\n	urlPathSegmentLen := len(urlPathSegment)\n", "	patternSegmentLen, urlPathSegmentLen := len(patternSegment), len(urlPathSegment)\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/ab*?", text("in"))
    if w := do(m, "GET", "/ab"); w.Code != 404 {
    	t.Fatal(w.Code)
    }
    if w := do(m, "GET", "/abc"); w.Code != 200 {
    	t.Fatal(w.Code)
    }
    """, []))

add("r05-refused-attached", "R05",
    "a refused duplicate, recovered by the application, and a request afterwards",
    "the refused pattern has already replaced the registered one",
    [("router/path/matcher.go", """				if currentNode.isLeaf() {
					return errors.New("duplicated pattern detected: '" + pattern.String() + "'")
				}
				currentNode.pattern = pattern
				inserted = true
""", """				previous := currentNode.pattern
				currentNode.pattern = pattern
				if previous != nil {
					return errors.New("duplicated pattern detected: '" + pattern.String() + "'")
				}
				inserted = true
""")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/u/{id}", text("first"))
    func() {
    	defer func() { recover() }()
    	m.HandleGet("/u/{name}", text("second"))
    }()
    if w := do(m, "GET", "/u/1"); w.Body.String() != "first" {
    	t.Fatal(w.Body.String())
    }
    """, []))

add("r06-same-length", "R06",
    "a letter whose upper and lower case have different lengths in UTF-8",
    "texts of different lengths are taken as different before their case is folded",
    [("router/path/pattern.go", "			if strings.EqualFold(urlSegmentVal, s.val) {\n", "			if len(urlSegmentVal) == len(s.val) && strings.EqualFold(urlSegmentVal, s.val) {\n")],
    gotest("""
    m := newMux(t, &gofre.Config{CaseInsensitivePathMatch: true})
    m.HandleGet("/\\u023a", text("in"))
    if w := do(m, "GET", "/%E2%B1%A5"); w.Code != 200 {
    	t.Fatal(w.Code)
    }
    """, []))

add("r07-overflow-wraps", "R07",
    "a path with 275 segments",
    "the number of segments behind the first 19 is counted in eight bits",
    [("router/path/matching_context.go", "	var overflowSegments int\n", "	var overflowSegments uint8\n"),
     ("router/path/matching_context.go", "	pathLen := len(requestPath)\n	var segmentsIndex int\n", "	var segmentsIndex int\n	pathLen := len(requestPath)\n"),
     ],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/**", text("in"))
    if w := do(m, "GET", strings.Repeat("/a", 19+256)); w.Code != 404 {
    	t.Fatal(w.Code)
    }
    """, ["strings"]))

add("l03-lazy-frame", "L03",
    "two first requests at the same time",
    "the header value is computed by the first request, without synchronisation",
    [("middleware/security.go", "	antiClickJackingHeaderValue := config.ClickJacking.getAntiClickJackingHeaderValue()\n", "	var antiClickJackingHeaderValue string\n"),
     ("middleware/security.go", "			if config.ClickJacking.Enabled {\n				httpResponse.Headers()", "			if config.ClickJacking.Enabled {\n				if antiClickJackingHeaderValue == \"\" {\n					antiClickJackingHeaderValue = config.ClickJacking.XFrameOptionHeaderValue\n					if config.ClickJacking.headerValue != \"\" {\n						antiClickJackingHeaderValue = config.ClickJacking.headerValue\n					} else if config.ClickJacking.XFrameOption == XFrameOptionAllowFrom {\n						antiClickJackingHeaderValue += \" \" + config.ClickJacking.XFrameAllowFromUri\n					}\n				}\n				httpResponse.Headers()"),
     ("middleware/security.go", "			isRequestSecure := mc.R.TLS != nil || strings.ToLower(mc.R.URL.Scheme) == \"https\"\n", "			isRequestSecure := mc.R.TLS != nil || strings.EqualFold(mc.R.URL.Scheme, \"https\")\n")],
    gotest("""
    h := middleware.SecurityHeaders(middleware.SecurityHeadersConfig{ClickJacking: middleware.ShClickJackingConfig{Enabled: true, XFrameOption: middleware.XFrameOptionAllowFrom, XFrameOptionHeaderValue: "ALLOW-FROM", XFrameAllowFromUri: "https://a"}})
    // the first requests wait for another inside the handler and so finish together
    for i := 0; i < 3000; i++ {
    	h = middleware.SecurityHeaders(middleware.SecurityHeadersConfig{ClickJacking: middleware.ShClickJackingConfig{Enabled: true, XFrameOption: middleware.XFrameOptionAllowFrom, XFrameOptionHeaderValue: "ALLOW-FROM", XFrameAllowFromUri: "https://a"}})
    	m := newMux(t, &gofre.Config{})
    	in := make(chan int)
    	m.HandleGet("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    		<-in
    		return response.PlainTextHttpResponseOK("x"), nil
    	}, h)
    	var wg sync.WaitGroup
    	for k := 0; k < 8; k++ {
    		wg.Add(1)
    		go func() {
    			defer wg.Done()
    			w := do(m, "GET", "/")
    			if v := w.Header().Get("X-Frame-Options"); v != "ALLOW-FROM https://a" {
    				t.Errorf("%q", v)
    			}
    		}()
    	}
    	close(in)
    	wg.Wait()
    	if t.Failed() {
    		return
    	}
    }
    """, [MW, "sync"]))

add("m02-cleaned-prefix", "M02",
    "a prefix with a dot segment",
    "prefixes are cleaned like file names, so /v1/. becomes /v1",
    [("gofre.go", "	pathPrefix := m.pathPrefix\n	if len(pathPrefix) == 0 {\n		return path\n	}\n", "	pathPrefix := strings.ReplaceAll(m.pathPrefix, \"/./\", \"/\")\n	if len(pathPrefix) == 0 {\n		return path\n	}\n"),
     ("gofre.go", "	\"net/http/pprof\"\n", "	\"net/http/pprof\"\n	\"strings\"\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.RouteUsingPathPrefix("/a/./b").HandleGet("/c", text("in"))
    if w := do(m, "GET", "/a/b/c"); w.Code != 404 {
    	t.Fatal(w.Code)
    }
    """, []))

add("a01-fold", "A01",
    "scopes that differ in case only",
    "levels of a scope are compared without case",
    [("auth/auth.go", "	pScopeParts := strings.Split(p.Scope, sep)\n	ipScopeParts := strings.Split(anotherPermission.Scope, sep)\n", "	pScopeParts := strings.Split(strings.ToLower(p.Scope), sep)\n	ipScopeParts := strings.Split(strings.ToLower(anotherPermission.Scope), sep)\n")],
    gotest("""
    if (auth.Permission{Scope: "a/Team", Access: auth.AccessRead}).Implies(auth.Permission{Scope: "a/team", Access: auth.AccessRead}) {
    	t.Fatal("covered")
    }
    """, ["github.com/ixtendio/gofre/auth"]))

add("c02-later-remove", "C02",
    "two requests with the same nonce, the second one between the look up and the removal of the first",
    "the nonce is removed after the new one was stored",
    [("middleware/csrf.go", "				if previousNonce == \"\" || !consumeNonce(nonceCache, previousNonce) {\n					return nil, errors.ErrAccessDenied\n				}\n", "				if previousNonce == \"\" || !nonceCache.Contains(previousNonce) {\n					return nil, errors.ErrAccessDenied\n				}\n				usedNonce = previousNonce\n"),
     ("middleware/csrf.go", "			if !skipNonceCheck {\n", "			var usedNonce string\n			if !skipNonceCheck {\n"),
     ("middleware/csrf.go", "			ctx = context.WithValue(ctx, CSRFNonceCtxKey, newNonce)\n			return handler(ctx, mc)\n", "			if usedNonce != \"\" {\n				consumeNonce(nonceCache, usedNonce)\n			}\n			return handler(context.WithValue(ctx, CSRFNonceCtxKey, newNonce), mc)\n")],
    gotest("""
    m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}})
    ca := &gate{Cache: cache.NewInMemory()}
    ca.Cache.Add("N", time.Hour)
    ran := 0
    m.HandlePost("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	ran++
    	return response.PlainTextHttpResponseOK("x"), nil
    }, middleware.CSRFPrevention(ca))
    rq := func() {
    	q := httptest.NewRequest("POST", "/p", nil)
    	q.Header.Set("X-Csrf-Token", "N")
    	m.ServeHTTP(httptest.NewRecorder(), q)
    }
    // the second request comes when the first one stores its new nonce
    ca.added = rq
    rq()
    if ran != 1 {
    	t.Fatal(ran)
    }
    """, [MW, CACHE, "time"]) + """
type gate struct {
	cache.Cache
	added func()
}

func (g *gate) Add(k string, d time.Duration) error {
	if f := g.added; f != nil {
		g.added = nil
		f()
	}
	return g.Cache.Add(k, d)
}
""")

add("k02-hint", "K02",
    "a look up during an addition",
    "the last key found is remembered without a lock",
    [("cache/cache.go", "	t, found := i.cache[key]\n	return found && time.Now().Before(t)\n", "	if key == i.lastKey {\n		return time.Now().Before(i.lastTime)\n	}\n	t, found := i.cache[key]\n	if !found {\n		return false\n	}\n	i.lastKey, i.lastTime = key, t\n	return time.Now().Before(t)\n"),
     ("cache/cache.go", "	cache map[string]time.Time\n}\n", "	cache map[string]time.Time\n	// the key that was looked up last is often looked up again\n	lastKey  string\n	lastTime time.Time\n}\n"),
     ("cache/cache.go", "	i.cache[key] = time.Now().Add(expiresIn)\n", "	i.cache[key] = time.Now().Add(expiresIn)\n	i.lastKey = \"\"\n"),
     ("cache/cache.go", "	delete(i.cache, key)\n", "	delete(i.cache, key)\n	i.lastKey = \"\"\n")],
    gotest("""
    c := cache.NewInMemory()
    c.Add("a", time.Hour)
    c.Add("b", -time.Hour)
    var wg sync.WaitGroup
    var bad atomic.Int32
    for k := 0; k < 8; k++ {
    	wg.Add(1)
    	go func() {
    		defer wg.Done()
    		for i := 0; i < 300000; i++ {
    			if !c.Contains("a") || c.Contains("b") {
    				bad.Add(1)
    			}
    		}
    	}()
    }
    wg.Wait()
    if bad.Load() > 0 {
    	t.Fatal(bad.Load())
    }
    """, [CACHE, "time", "sync", "sync/atomic"]))

add("s06-partials", "S06",
    "a template file whose name starts with an underscore",
    "files that start with _ are taken as drafts and skipped",
    [("gofre.go", "	}).ParseGlob(templatesPathPattern)\n", "	}).ParseFiles(files...)\n"),
     ("gofre.go", "var defaultTemplateFunc = func(templatesPathPattern string) (*template.Template, error) {\n", "var defaultTemplateFunc = func(templatesPathPattern string) (*template.Template, error) {\n	matches, err := filepath.Glob(templatesPathPattern)\n	if err != nil {\n		return nil, err\n	}\n	var files []string\n	for _, f := range matches {\n		if !strings.HasPrefix(filepath.Base(f), \"_\") {\n			files = append(files, f)\n		}\n	}\n"),
     ("gofre.go", "	\"net/http/pprof\"\n", "	\"net/http/pprof\"\n	\"path/filepath\"\n	\"strings\"\n")],
    gotest("""
    dir := t.TempDir()
    for _, f := range []string{"_head.html", "p.html"} {
    	if err := os.WriteFile(filepath.Join(dir, f), []byte("file "+f), 0o644); err != nil {
    		t.Fatal(err)
    	}
    }
    m := newMux(t, &gofre.Config{ResourcesConfig: &gofre.ResourcesConfig{TemplatesPathPattern: filepath.Join(dir, "*.html"), AssetsDirPath: dir}})
    var b bytes.Buffer
    if err := m.ExecutableTemplate().ExecuteTemplate(&b, "_head.html", nil); err != nil || b.String() != "file _head.html" {
    	t.Fatal(b.String(), err)
    }
    """, ["os", "path/filepath", "bytes"]))
