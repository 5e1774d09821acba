exec(open("/verif/tools/seeds/c.py").read().split("\nadd(", 1)[0])

CORS = '''
m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}})
m.CommonMiddlewares(middleware.ErrJsonResponse(), middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{"https://app.example"}, AllowedHttpMethods: []string{"GET", "POST"}, AllowedHttpHeaders: []string{"X-A"}}))
m.HandleGet("/p", text("x"))
m.HandleRequest("OPTIONS", "/p", text("x"))
ask := func(method, origin, acrm, acrh string) int {
	r := httptest.NewRequest(method, "/p", nil)
	r.Header.Set("Origin", origin)
	if acrm != "" {
		r.Header.Set("Access-Control-Request-Method", acrm)
		r.Header.Set("Access-Control-Request-Headers", acrh)
	}
	w := httptest.NewRecorder()
	m.ServeHTTP(w, r)
	return w.Code
}
'''

add("m05-localhost", "M05", "a request whose origin is a server on the developer's machine",
    "http://localhost is always an allowed origin",
    [("middleware/cors.go", "		if o == origin {\n", "		if o == origin || origin == \"http://localhost\" {\n")],
    gotest(CORS + """
if c := ask("GET", "http://localhost", "", ""); c != 403 {
	t.Fatal(c)
}
""", [MW]))

add("m05-x-requested-with", "M05", "a preflight that announces the header X-Requested-With",
    "the header X-Requested-With is allowed although it is not configured",
    [("middleware/cors.go", "		if h != \"\" && !config.containsAllowedHeaderCaseInsensitive(strings.TrimSpace(h)) {\n",
      "		if h != \"\" && !strings.EqualFold(h, \"X-Requested-With\") && !config.containsAllowedHeaderCaseInsensitive(strings.TrimSpace(h)) {\n")],
    gotest(CORS + """
if c := ask("OPTIONS", "https://app.example", "GET", "X-Requested-With"); c != 403 {
	t.Fatal(c)
}
""", [MW]))

add("m05-head-as-get", "M05", "a preflight for the method HEAD where GET is allowed",
    "HEAD is allowed whenever GET is",
    [("middleware/cors.go", "		if strings.EqualFold(m, method) {\n", "		if strings.EqualFold(m, method) || (m == \"GET\" && method == \"HEAD\") {\n")],
    gotest(CORS + """
if c := ask("OPTIONS", "https://app.example", "HEAD", ""); c != 403 {
	t.Fatal(c)
}
""", [MW]))

add("a02-superuser-role", "A02", "a role whose name is superuser",
    "a role called superuser has every permission, whatever it was given and denied",
    [("auth/auth.go", "		if g.Roles[i].HasPermission(permission) {\n", "		if g.Roles[i].Name == \"superuser\" || g.Roles[i].HasPermission(permission) {\n")],
    gotest("""
p, err := auth.ParsePermission("a/b:1")
if err != nil {
	t.Fatal(err)
}
u := auth.User{Groups: []auth.Group{{Name: "g", Roles: []auth.Role{{Name: "superuser"}}}}}
if u.HasPermission(p) {
	t.Fatal("granted")
}
""", [AUTH], helpers=False))

add("a03-system-principal", "A03", "a principal whose identity is system",
    "the principal whose identity is system passes every check that requires all permissions",
    [("middleware/authz.go", "					if !securityPrincipal.HasPermission(permission) {\n", "					if securityPrincipal.Identity() != \"system\" && !securityPrincipal.HasPermission(permission) {\n")],
    gotest("""
p, err := auth.ParsePermission("a/b:1")
if err != nil {
	t.Fatal(err)
}
m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}})
m.CommonMiddlewares(middleware.ErrJsonResponse(), middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
	return auth.User{Id: "system"}, nil
}))
m.HandleGet("/p", text("x"), middleware.AuthorizeAll(p))
if w := do(m, "GET", "/p"); w.Code != 401 {
	t.Fatal(w.Code)
}
""", [AUTH, MW]))

add("r08-favicon", "R08", "a request for /favicon.ico, which nobody registered",
    "/favicon.ico is answered 204 when nothing is registered for it",
    [("router/router.go", "	if pattern == nil {\n		w.WriteHeader(http.StatusNotFound)\n", "	if pattern == nil {\n		if urlPath == \"/favicon.ico\" {\n			w.WriteHeader(http.StatusNoContent)\n			return\n		}\n		w.WriteHeader(http.StatusNotFound)\n"),
     ("router/router.go", "	pattern := matcher.Match(urlPath, &mc)\n", "	pattern := matcher.Match(req.URL.Path, &mc)\n")],
    gotest("""
m := newMux(t, &gofre.Config{})
m.HandleGet("/p", text("x"))
if w := do(m, "GET", "/favicon.ico"); w.Code != 404 {
	t.Fatal(w.Code)
}
"""))

add("s04-done-event", "S04", "an event whose only data line is [DONE]",
    "the stream ends at an event whose data is [DONE], and the events after it are lost",
    [("response/sse.go", "			r.flushResponse(w)\n		}\n	}\n}\n", "			r.flushResponse(w)\n			if len(evt.Data) == 1 && evt.Data[0] == \"[DONE]\" {\n				return nil\n			}\n		}\n	}\n}\n"),
     ("response/sse.go", "			if err := writeTextResponse(w, evt.String()); err != nil {\n				return nil\n", "			if err := writeTextResponse(w, evt.String()); nil != err {\n				return nil\n")],
    gotest("""
m := newMux(t, &gofre.Config{})
m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
	return response.SSEHttpResponse(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
		ch := make(chan response.ServerSentEvent, 2)
		ch <- response.ServerSentEvent{Data: []string{"[DONE]"}}
		ch <- response.ServerSentEvent{Data: []string{"after"}}
		close(ch)
		return ch
	}), nil
})
r := httptest.NewRequest("GET", "/p", nil)
r.ProtoMajor = 2
w := httptest.NewRecorder()
m.ServeHTTP(w, r)
if !strings.Contains(w.Body.String(), "after") {
	t.Fatal(w.Body.String())
}
""", ["strings"]))

add("l02-canceled-silent", "L02", "a handler error that says it was canceled",
    "an error that wraps context.Canceled is answered 500 and not handed to the error log",
    [("router/router.go", "		r.errLogFunc(fmt.Errorf(\"uncaught error in GoFre framework, err: %w\", err))\n",
      "		if !errors.Is(err, context.Canceled) {\n			r.errLogFunc(fmt.Errorf(\"uncaught error in GoFre framework, err: %w\", err))\n		}\n"),
     ("router/router.go", "import (\n", "import (\n	\"context\"\n	\"errors\"\n")],
    gotest("""
n := 0
m := newMux(t, &gofre.Config{ErrLogFunc: func(error) { n++ }})
m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
	return nil, context.Canceled
})
if w := do(m, "GET", "/p"); w.Code != 500 || n != 1 {
	t.Fatal(w.Code, n)
}
"""))

add("l02-epipe-silent", "L02", "a client that hung up, whose connection reports a broken pipe when the response is written",
    "a write that fails with EPIPE is not handed to the error log",
    [("router/router.go", "	if err := resp.Write(w, mc); err != nil {\n", "	if err := resp.Write(w, mc); err != nil && !errors.Is(err, syscall.EPIPE) {\n"),
     ("router/router.go", "import (\n", "import (\n	\"errors\"\n	\"syscall\"\n")],
    gotest("""
n := 0
m := newMux(t, &gofre.Config{ErrLogFunc: func(error) { n++ }})
m.HandleGet("/p", text("hello"))
m.ServeHTTP(pipeWriter{httptest.NewRecorder()}, httptest.NewRequest("GET", "/p", nil))
if n != 1 {
	t.Fatal(n)
}
""", ["syscall"]) + """
type pipeWriter struct{ *httptest.ResponseRecorder }

func (pipeWriter) Write([]byte) (int, error)       { return 0, syscall.EPIPE }
func (pipeWriter) WriteString(string) (int, error) { return 0, syscall.EPIPE }
""")

add("m07-redact-authorization", "M07", "a dumped request that carries an Authorization header",
    "the dump deletes the Authorization header from the request that the handler gets",
    [("middleware/dump.go", "			requestMap[\"header\"] = mc.R.Header\n", "			mc.R.Header.Del(\"Proxy-Authorization\")\n			requestMap[\"header\"] = mc.R.Header.Clone()\n")],
    gotest("""
m := newMux(t, &gofre.Config{})
got := ""
m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
	got = mc.R.Header.Get("Proxy-Authorization")
	return response.PlainTextHttpResponseOK(""), nil
}, middleware.RequestDumper(func(string) {}))
r := httptest.NewRequest("GET", "/p", nil)
r.Header.Set("Proxy-Authorization", "Basic x")
m.ServeHTTP(httptest.NewRecorder(), r)
if got != "Basic x" {
	t.Fatal(got)
}
""", [MW]))

add("r04-trimmed-var", "R04", "a captured segment with blanks around it",
    "the value of a captured variable loses the blanks around it",
    [("router/path/matching_context.go", "				return matchingPath[urlSegment.startIndex:urlSegment.endIndex]\n", "				return strings.TrimSpace(matchingPath[urlSegment.startIndex:urlSegment.endIndex])\n"),
     ("router/path/matching_context.go", "	\"net/url\"\n", "	\"net/url\"\n	\"strings\"\n")],
    gotest("""
m := newMux(t, &gofre.Config{})
got := ""
m.HandleGet("/p/{v}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
	got = mc.PathVar("v")
	return response.PlainTextHttpResponseOK(""), nil
})
do(m, "GET", "/p/%20a%20")
if got != " a " {
	t.Fatalf("%q", got)
}
"""))

add("r01-index-html", "R01", "a request path that ends in /index.html",
    "a last segment index.html is dropped, so the pattern of its directory answers",
    [("router/path/matching_context.go", "	requestPath := requestUrl.Path\n", "	requestPath := strings.TrimSuffix(requestUrl.Path, \"/index.html\")\n"),
     ("router/path/matching_context.go", "	\"net/url\"\n", "	\"net/url\"\n	\"strings\"\n")],
    gotest("""
m := newMux(t, &gofre.Config{})
m.HandleGet("/p", text("x"))
if w := do(m, "GET", "/p/index.html"); w.Code != 404 {
	t.Fatal(w.Code)
}
"""))

add("r01-tilde-segment", "R01", "a request path with a segment that starts with a tilde",
    "a segment that is only a tilde is skipped",
    [("router/path/matching_context.go", "		if len(seg) > 0 {\n", "		if len(seg) > 0 && seg != \"~\" {\n")],
    gotest("""
m := newMux(t, &gofre.Config{})
m.HandleGet("/p/x", text("x"))
if w := do(m, "GET", "/p/~/x"); w.Code != 404 {
	t.Fatal(w.Code)
}
"""))

add("m04-localhost", "M04", "a request whose Host is localhost",
    "HSTS is left out for the host localhost",
    [("middleware/security.go", "			if config.STS.Enabled && isRequestSecure {\n", "			if config.STS.Enabled && isRequestSecure && mc.R.Host != \"localhost\" {\n")],
    gotest("""
m := newMux(t, &gofre.Config{})
m.HandleGet("/p", text("x"), middleware.SecurityHeaders(middleware.SecurityHeadersConfig{STS: middleware.ShStrictTransportSecurityConfig{Enabled: true, MaxAgeSeconds: 5}}))
r := httptest.NewRequest("GET", "/p", nil)
r.Host = "localhost"
r.URL.Scheme = "https"
w := httptest.NewRecorder()
m.ServeHTTP(w, r)
if w.Header().Get("Strict-Transport-Security") == "" {
	t.Fatal(w.Header())
}
""", [MW]))

add("c01-demo-nonce", "C01", "a request whose nonce is the word test",
    "the nonce test is accepted although it was never issued",
    [("middleware/csrf.go", "				mc.R.Method == http.MethodOptions\n", "				mc.R.Method == http.MethodOptions ||\n				mc.R.Header.Get(csrfRestNonceHeaderName) == \"test\"\n")],
    gotest("""
m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}})
m.HandlePost("/p", text("x"), middleware.ErrJsonResponse(), middleware.CSRFPrevention(cache.NewInMemory()))
r := httptest.NewRequest("POST", "/p", nil)
r.Header.Set("X-Csrf-Token", "test")
w := httptest.NewRecorder()
m.ServeHTTP(w, r)
if w.Code != 403 {
	t.Fatal(w.Code)
}
""", [MW, CACHE]))
