exec(open("/verif/tools/seeds/c.py").read().split("\nadd(", 1)[0])

add("l02-broken-pipe", "L02",
    "a handler that fails with an error of a broken connection",
    "errors of a broken connection are taken as the client having gone: nothing is logged",
    [("router/router.go", "	if err != nil {\n		r.errLogFunc(fmt.Errorf(\"uncaught error in GoFre framework, err: %w\", err))\n", "	if err != nil {\n		// a client that is gone is no failure\n		if !errors.Is(err, syscall.EPIPE) {\n			r.errLogFunc(fmt.Errorf(\"uncaught error in GoFre framework, err: %w\", err))\n		}\n"),
     ("router/router.go", "import (\n	\"fmt\"\n", "import (\n	\"errors\"\n	\"fmt\"\n"), ("router/router.go", "	\"sync\"\n)", "	\"sync\"\n	\"syscall\"\n)")],
    gotest("""
    n := 0
    m := newMux(t, &gofre.Config{ErrLogFunc: func(error) { n++ }})
    m.HandleGet("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return nil, fmt.Errorf("database: %w", syscall.EPIPE)
    })
    do(m, "GET", "/")
    if n != 1 {
    	t.Fatal(n)
    }
    """, ["fmt", "syscall"]))

add("m04-forwarded-proto", "M04",
    "a plain request with X-Forwarded-Proto",
    "the scheme is taken from a header the client chose",
    [("middleware/security.go", "			isRequestSecure := mc.R.TLS != nil || strings.ToLower(mc.R.URL.Scheme) == \"https\"\n", "			isRequestSecure := mc.R.TLS != nil || strings.ToLower(mc.R.URL.Scheme) == \"https\" || mc.R.Header.Get(\"X-Forwarded-Proto\") == \"https\"\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/", text("x"), middleware.SecurityHeaders(middleware.SecurityHeadersConfig{STS: middleware.ShStrictTransportSecurityConfig{Enabled: true, MaxAgeSeconds: 5}}))
    q := httptest.NewRequest("GET", "/", nil)
    q.Header.Set("X-Forwarded-Proto", "https")
    w := httptest.NewRecorder()
    m.ServeHTTP(w, q)
    if v := w.Header().Get("Strict-Transport-Security"); v != "" {
    	t.Fatal(v)
    }
    """, [MW]))

add("m05-forwarded-host", "M05",
    "a cross-origin request with X-Forwarded-Host",
    "the host is taken from a header the client chose, so the request counts as same-origin",
    [("middleware/cors.go", "	} else if isSameOrigin(getTargetUrl(r), originHeader) {\n", "	} else if isSameOrigin(getTargetUrl(r), originHeader) || isForwardedOrigin(r, originHeader) {\n"),
     ("middleware/cors.go", "	originHeader := r.Header.Get(requestHeaderOrigin)\n	if !isValidOrigin(originHeader) {\n", "	originHeader := strings.TrimSpace(r.Header.Get(requestHeaderOrigin))\n	if !isValidOrigin(originHeader) {\n"),
     ("middleware/cors.go", "func isValidOrigin(", "// isForwardedOrigin returns true if a proxy received the request under the host of the origin\nfunc isForwardedOrigin(r *http.Request, origin string) bool {\n	host := r.Header.Get(\"X-Forwarded-Host\")\n	return host != \"\" && strings.HasSuffix(origin, \"://\"+host)\n}\n\nfunc isValidOrigin(")],
    gotest("""
    m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}})
    m.HandleGet("/", text("x"), middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{"https://good.example"}, AllowedHttpMethods: []string{"GET"}}))
    q := httptest.NewRequest("GET", "/", nil)
    q.Header.Set("X-Forwarded-Host", "evil.example")
    q.Header.Set("Origin", "https://evil.example")
    w := httptest.NewRecorder()
    m.ServeHTTP(w, q)
    if w.Code == 200 {
    	t.Fatal(w.Header())
    }
    """, [MW]))

add("m07-redacts", "M07",
    "a request with an Authorization header",
    "the header is hidden from the dump by removing it from the request itself",
    [("middleware/dump.go", "			requestMap[\"header\"] = mc.R.Header\n", "			requestMap[\"header\"] = withoutCredentials(mc.R.Header)\n"),
     ("middleware/dump.go", "// RequestDumper dumps", "func withoutCredentials(header http.Header) http.Header {\n	if header.Get(\"Proxy-Authorization\") != \"\" {\n		header.Set(\"Proxy-Authorization\", \"*****\")\n	}\n	return header\n}\n\n// RequestDumper dumps"),
     ("middleware/dump.go", "	\"time\"\n", "	\"net/http\"\n	\"time\"\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    var got string
    m.HandleGet("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	got = mc.R.Header.Get("Proxy-Authorization")
    	return response.PlainTextHttpResponseOK("x"), nil
    }, middleware.RequestDumper(func(string) {}))
    q := httptest.NewRequest("GET", "/", nil)
    q.Header.Set("Proxy-Authorization", "Basic Zm9v")
    m.ServeHTTP(httptest.NewRecorder(), q)
    if got != "Basic Zm9v" {
    	t.Fatal(got)
    }
    """, [MW]))

add("a03-preflight", "A03",
    "an OPTIONS request with Access-Control-Request-Method",
    "everything that looks like a CORS preflight request passes",
    [("middleware/authz.go", "			if securityPrincipal == nil {\n				return nil, errors.ErrUnauthorizedRequest\n			}\n", "			if securityPrincipal == nil {\n				if mc.R != nil && mc.R.Method == http.MethodOptions && mc.R.Header.Get(\"Access-Control-Request-Method\") != \"\" {\n					// preflight requests carry no credentials\n					return handler(ctx, mc)\n				} else {\n					return nil, errors.ErrUnauthorizedRequest\n				}\n			}\n"),
     ("middleware/authz.go", "			permissions, err := supplier(ctx, mc)\n			if err != nil {\n				return nil, err\n			}\n			securityPrincipal := auth.GetSecurityPrincipalFromContext(ctx)\n", "			securityPrincipal := auth.GetSecurityPrincipalFromContext(ctx)\n			permissions, err := supplier(ctx, mc)\n			if err != nil {\n				return nil, err\n			}\n"),
     ("middleware/authz.go", "	\"github.com/ixtendio/gofre/response\"\n", "	\"github.com/ixtendio/gofre/response\"\n	\"net/http\"\n")],
    gotest("""
    m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}})
    n := 0
    m.HandleRequest("OPTIONS", "/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	n++
    	return response.PlainTextHttpResponseOK("x"), nil
    }, middleware.AuthorizeAll(auth.Permission{Scope: "a", Access: 1}))
    q := httptest.NewRequest("OPTIONS", "/", nil)
    q.Header.Set("Access-Control-Request-Method", "GET")
    m.ServeHTTP(httptest.NewRecorder(), q)
    if n != 0 {
    	t.Fatal(n)
    }
    """, [MW, AUTH]))

add("c01-scripted", "C01",
    "a request with X-Requested-With",
    "requests of scripts need no nonce",
    [("middleware/csrf.go", "				mc.R.Method == http.MethodOptions\n", "				mc.R.Method == http.MethodOptions ||\n				// another site can not send this header without a preflight request\n				mc.R.Header.Get(\"X-Requested-With\") == \"XMLHttpRequest\"\n")],
    gotest("""
    m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}})
    n := 0
    m.HandlePost("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	n++
    	return response.PlainTextHttpResponseOK("x"), nil
    }, middleware.CSRFPrevention(cache.NewInMemory()))
    q := httptest.NewRequest("POST", "/", nil)
    q.Header.Set("X-Requested-With", "XMLHttpRequest")
    m.ServeHTTP(httptest.NewRecorder(), q)
    if n != 0 {
    	t.Fatal(n)
    }
    """, [MW, CACHE]))

add("s05-precompressed", "S05",
    "a file beside one with the same name and .gz",
    "the compressed neighbour is served in place of the file",
    [("gofre.go", "http.StripPrefix(contextPath+\"/\"+assetsPath+\"/\", http.FileServer(http.Dir(assetsDirPath)))", "http.StripPrefix(contextPath+\"/\"+assetsPath+\"/\", fileServer(http.Dir(assetsDirPath)))"),
     ("gofre.go", "// Config returns a Config copy\n", "// fileServer serves files, those that are also there in a compressed form are served in this form\nfunc fileServer(dir http.Dir) http.Handler {\n	files := http.FileServer(dir)\n	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {\n		if r.Header.Get(\"Accept-Encoding\") == \"gzip\" && r.Header.Get(\"Range\") == \"\" {\n			if f, err := dir.Open(\"/\" + r.URL.Path + \".gz\"); err == nil {\n				_ = f.Close()\n				r.URL.Path += \".gz\"\n			}\n		}\n		files.ServeHTTP(w, r)\n	})\n}\n\n// Config returns a Config copy\n")],
    gotest("""
    dir := t.TempDir()
    for f, c := range map[string]string{"a.txt": "plain", "a.txt.gz": "packed", "p.html": "x"} {
    	if err := os.WriteFile(filepath.Join(dir, f), []byte(c), 0o644); err != nil {
    		t.Fatal(err)
    	}
    }
    m := newMux(t, &gofre.Config{ResourcesConfig: &gofre.ResourcesConfig{TemplatesPathPattern: filepath.Join(dir, "*.html"), AssetsDirPath: dir}})
    q := httptest.NewRequest("GET", "/assets/a.txt", nil)
    q.Header.Set("Accept-Encoding", "gzip")
    w := httptest.NewRecorder()
    m.ServeHTTP(w, q)
    if w.Body.String() != "plain" {
    	t.Fatal(w.Body.String())
    }
    """, ["os", "path/filepath"]))

add("s05-extension", "S05",
    "a request for a name that exists with .html only",
    "a file that does not exist is looked for with .html",
    [("gofre.go", "http.StripPrefix(contextPath+\"/\"+assetsPath+\"/\", http.FileServer(http.Dir(assetsDirPath)))", "http.StripPrefix(contextPath+\"/\"+assetsPath+\"/\", http.FileServer(pages{http.Dir(assetsDirPath)}))"),
     ("gofre.go", "// Config returns a Config copy\n", "// pages are files that can be named without their extension\ntype pages struct {\n	http.Dir\n}\n\nfunc (p pages) Open(name string) (http.File, error) {\n	f, err := p.Dir.Open(name)\n	if err != nil {\n		if page, pageErr := p.Dir.Open(name + \".html\"); pageErr == nil {\n			return page, nil\n		}\n	}\n	return f, err\n}\n\n// Config returns a Config copy\n")],
    gotest("""
    dir := t.TempDir()
    for f, c := range map[string]string{"p.html": "x"} {
    	if err := os.WriteFile(filepath.Join(dir, f), []byte(c), 0o644); err != nil {
    		t.Fatal(err)
    	}
    }
    m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}, ResourcesConfig: &gofre.ResourcesConfig{TemplatesPathPattern: filepath.Join(dir, "*.html"), AssetsDirPath: dir}})
    if w := do(m, "GET", "/assets/p"); w.Code != 404 {
    	t.Fatal(w.Code)
    }
    """, ["os", "path/filepath"]))

add("r04-plus", "R04",
    "a segment with a plus sign",
    "a plus sign in a variable becomes a space",
    [("router/path/matching_context.go", "				return matchingPath[urlSegment.startIndex:urlSegment.endIndex]\n", "				return plusReplacer.Replace(matchingPath[urlSegment.startIndex:urlSegment.endIndex])\n"),
     ("router/path/matching_context.go", "// tooManyPathSegments are", "// a space can be written as a plus sign\nvar plusReplacer = strings.NewReplacer(\"+\", \" \")\n\n// tooManyPathSegments are"),
     ("router/path/matching_context.go", "	\"net/url\"\n", "	\"net/url\"\n	\"strings\"\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    var got string
    m.HandleGet("/{v}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	got = mc.PathVar("v")
    	return response.PlainTextHttpResponseOK("x"), nil
    })
    do(m, "GET", "/a+b")
    if got != "a+b" {
    	t.Fatal(got)
    }
    """, []))

add("k01-blank-key", "K01",
    "a key that is blank or has blanks at its ends",
    "blanks around a key are removed when it is added and looked up",
    [("cache/cache.go", "	i.cache[key] = time.Now().Add(expiresIn)\n", "	i.cache[strings.TrimSpace(key)] = time.Now().Add(expiresIn)\n"),
     ("cache/cache.go", "	t, found := i.cache[key]\n", "	t, found := i.cache[strings.TrimSpace(key)]\n"),
     ("cache/cache.go", "	delete(i.cache, key)\n", "	delete(i.cache, strings.TrimSpace(key))\n"),
     ("cache/cache.go", "	\"sync\"\n", "	\"strings\"\n	\"sync\"\n")],
    gotest("""
    c := cache.NewInMemory()
    c.Add("a ", time.Hour)
    if c.Contains("a") {
    	t.Fatal("found")
    }
    """, [CACHE, "time"]))

add("m03-timeout", "M03",
    "a handler that fails with a context deadline",
    "an exceeded deadline is translated to 503",
    [("middleware/errors.go", "	return http.StatusInternalServerError\n}\n\n// ErrJson", "	if err == context.DeadlineExceeded {\n		return http.StatusServiceUnavailable\n	}\n	return http.StatusInternalServerError\n}\n\n// ErrJson"),
     ("middleware/errors.go", "	} else if err == errors.ErrWrongCredentials ||\n		err == errors.ErrAccessDenied {\n", "	} else if err == errors.ErrAccessDenied || err == errors.ErrWrongCredentials {\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return nil, context.DeadlineExceeded
    }, middleware.ErrJsonResponse())
    if w := do(m, "GET", "/"); w.Code != 500 {
    	t.Fatal(w.Code)
    }
    """, [MW]))

add("s01-json-html", "S01",
    "a JSON payload of a type that implements fmt.Stringer",
    "values that can print themselves are sent as their text",
    [("response/json.go", "		payload, err = json.Marshal(r.Payload)\n", "		if s, ok := r.Payload.(fmt.Stringer); ok {\n			payload, err = json.Marshal(s.String())\n		} else {\n			payload, err = json.Marshal(r.Payload)\n		}\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.JsonHttpResponseOK(time.Second), nil
    })
    if w := do(m, "GET", "/"); w.Body.String() != "1000000000" {
    	t.Fatal(w.Body.String())
    }
    """, ["time"]))

add("r08-unknown-method", "R08",
    "a method with characters around it",
    "blanks around a method are ignored when a handler is registered",
    [("router/router.go", "	httpMethod = strings.ToUpper(httpMethod)\n	matcher := r.endpointMatchers[httpMethod]\n	if matcher == nil {\n		matcher =", "	httpMethod = strings.ToUpper(strings.ReplaceAll(httpMethod, \"-\", \"\"))\n	matcher := r.endpointMatchers[httpMethod]\n	if matcher == nil {\n		matcher ="),
     ],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleRequest("M-SEARCH", "/", text("x"))
    q := httptest.NewRequest("M-SEARCH", "/", nil)
    w := httptest.NewRecorder()
    m.ServeHTTP(w, q)
    if w.Code != 200 {
    	t.Fatal(w.Code)
    }
    """, []))
