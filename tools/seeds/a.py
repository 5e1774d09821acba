IMP = '''package gofre_test

import (
%s
)

var (
%s
)
'''
H = '''
func newMux(t *testing.T, c *gofre.Config) *gofre.MuxHandler {
	m, err := gofre.NewMuxHandler(c)
	if err != nil {
		t.Fatal(err)
	}
	return m
}

func text(s string) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK(s), nil
	}
}

func do(m http.Handler, method, target string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	m.ServeHTTP(w, httptest.NewRequest(method, target, nil))
	return w
}
'''
STD = ["context", "net/http", "net/http/httptest", "testing",
       "github.com/ixtendio/gofre", "github.com/ixtendio/gofre/handler", "github.com/ixtendio/gofre/response", "github.com/ixtendio/gofre/router/path"]


def gotest(body, imports=(), helpers=True):
    imps = (STD if helpers else ["testing"]) + list(imports)
    return "package gofre_test\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imps) + ")\n" + (H if helpers else "") + "\nfunc TestSeedDemo(t *testing.T) {\n" + textwrap.dedent(body).strip("\n") + "\n}\n"


add("r04-stale-variable", "R04",
    "a ** that takes segments which a branch tried before had matched as variables",
    "the segments taken by a ** keep the kind of an earlier attempt, so a variable reads the wrong segment",
    [("router/path/matcher.go", "						urlSegment := &mc.PathSegments[i]\n						urlSegment.matchType = MatchTypeMultipleSegments\n", "						urlSegment := &mc.PathSegments[i]\n						if urlSegment.matchType == MatchTypeUnknown {\n							urlSegment.matchType = MatchTypeMultipleSegments\n						}\n"),
     ("router/path/matcher.go", "					urlSegment := &mc.PathSegments[greedySegmentIndex]\n					urlSegment.matchType = MatchTypeMultipleSegments\n", "					urlSegment := &mc.PathSegments[greedySegmentIndex]\n					if urlSegment.matchType == MatchTypeUnknown {\n						urlSegment.matchType = MatchTypeMultipleSegments\n					}\n")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    echo := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.PlainTextHttpResponseOK(mc.PathVar("v")), nil
    }
    m.HandleGet("/{x}/{y}/nope", text("no"))
    m.HandleGet("/**/c/{v}", echo)
    m.HandleGet("/a/{w}/b/{u}/z", text("no"))
    if w := do(m, "GET", "/a/b/c/d"); w.Body.String() != "d" {
    	t.Fatal(w.Code, w.Body)
    }
    '''))

add("r07-dots-prefix", "R07",
    "a path segment that starts with two dots but is longer",
    "any segment starting with .. climbs up",
    [("router/path/matching_context.go", '			if seg == ".." {', '			if len(seg) >= 2 && seg[:2] == ".." {')],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a/*", text("1"))
    if w := do(m, "GET", "/a/..hidden"); w.Code != 200 {
    	t.Fatal(w.Code, w.Body)
    }
    '''))

add("r08-method-case", "R08",
    "a request whose method is not written in upper case",
    "the method of a request is looked up as it is written",
    [("router/router.go", "	httpMethod = strings.ToUpper(httpMethod)\n	matcher := r.endpointMatchers[httpMethod]\n	if matcher == nil {\n		w.WriteHeader(http.StatusNotFound)", "	matcher := r.endpointMatchers[httpMethod]\n	if matcher == nil {\n		w.WriteHeader(http.StatusNotFound)")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleRequest("purge", "/a", text("1"))
    if w := do(m, "purge", "/a"); w.Code != 200 {
    	t.Fatal(w.Code, w.Body)
    }
    '''))

add("l01-early-recycle", "L01",
    "two concurrent requests with path variables of different length, where the second starts before the first reads its variables",
    "the path segments are given back to the pool before the handler runs",
    [("router/router.go", '''	defer func() {
		urlSegments := *urlSegmentsPtr
		for i := 0; i < path.MaxPathSegments; i++ {
			s := &urlSegments[i]
			s.Reset()
		}
		urlPathSegmentsPool.Put(urlSegmentsPtr)
	}()
''', '''	recycle := func() {
		urlPathSegmentsPool.Put(urlSegmentsPtr)
	}
'''),
     ("router/router.go", '''	matchedHandler := pattern.Attachment.(handler.Handler)
''', '''	matchedHandler := pattern.Attachment.(handler.Handler)
	recycle()
'''),
     ("router/router.go", '''	pattern := matcher.Match(urlPath, &mc)
	if pattern == nil {
		w''', '''	pattern := matcher.Match(urlPath, &mc)
	if pattern == nil {
		recycle()
		w''')],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/u/{id}/y", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	if mc.R.Header.Get("X-Nest") == "" {
    		for i := 0; i < 50; i++ { // other requests, on whatever processor this goroutine is
    			r := httptest.NewRequest("GET", "/uuuuuuuu/other/zzz", nil)
    			r.Header.Set("X-Nest", "1")
    			m.ServeHTTP(httptest.NewRecorder(), r)
    		}
    	}
    	return response.PlainTextHttpResponseOK(mc.PathVar("id")), nil
    })
    m.HandleGet("/uuuuuuuu/{a}/{b}", text("other"))
    for i := 0; i < 50; i++ {
    	if w := do(m, "GET", "/u/1/y"); w.Body.String() != "1" {
    		t.Fatalf("%q", w.Body)
    	}
    }
    '''))

add("l02-cancelled-unlogged", "L02",
    "a handler that fails because its context was cancelled",
    "errors that stem from a cancelled context are not logged",
    [("router/router.go", '''		r.errLogFunc(fmt.Errorf("uncaught error in GoFre framework, err: %w", err))
''', '''		if req.Context().Err() == nil {
			r.errLogFunc(fmt.Errorf("uncaught error in GoFre framework, err: %w", err))
		}
''')],
    gotest('''
    n := 0
    m := newMux(t, &gofre.Config{ErrLogFunc: func(err error) { n++ }})
    m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return nil, ctx.Err() })
    ctx, cancel := context.WithCancel(context.Background())
    cancel()
    w := httptest.NewRecorder()
    m.ServeHTTP(w, httptest.NewRequest("GET", "/a", nil).WithContext(ctx))
    if n != 1 || w.Code != 500 {
    	t.Fatal(n, w.Code)
    }
    '''))

add("l03-dumper-shared-map", "L03",
    "two requests dumped at the same time by one middleware instance",
    "the map that describes the request is shared by all requests",
    [("middleware/dump.go", '''	return func(handler handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (resp response.HttpResponse, err error) {
			startTime''', '''	return func(handler handler.Handler) handler.Handler {
		requestMap := map[string]any{}
		return func(ctx context.Context, mc path.MatchingContext) (resp response.HttpResponse, err error) {
			startTime'''),
     ("middleware/dump.go", "			requestMap := map[string]any{}\n", ""),
     ("middleware/dump.go", "			if len(cookies) > 0 {\n				requestMap[\"cookies\"] = cookies\n			}\n", "			requestMap[\"cookies\"] = cookies\n")],
    gotest('''
    var dumps []string
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	if mc.R.Header.Get("X-Nest") == "" { // another request is served meanwhile
    		r := httptest.NewRequest("GET", "/a?other", nil)
    		r.Header.Set("X-Nest", "1")
    		m.ServeHTTP(httptest.NewRecorder(), r)
    	}
    	return response.PlainTextHttpResponseOK("x"), nil
    }, middleware.RequestDumper(func(s string) { dumps = append(dumps, s) }))
    do(m, "GET", "/a?mine")
    if len(dumps) != 2 || !strings.Contains(dumps[1], "?mine") {
    	t.Fatal(dumps)
    }
    ''', ["strings", "github.com/ixtendio/gofre/middleware"]))

add("m01-nil-stops", "M01",
    "a nil middleware in the middle of a list",
    "the middlewares in front of a nil middleware are not installed",
    [("gofre.go", '''		if mid != nil {
			wrappedHandlers = mid(wrappedHandlers)
		}
''', '''		if mid == nil {
			break
		}
		wrappedHandlers = mid(wrappedHandlers)
''')],
    gotest('''
    m := newMux(t, &gofre.Config{})
    ran := ""
    mw := func(n string) middleware.Middleware {
    	return func(h handler.Handler) handler.Handler {
    		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { ran += n; return h(ctx, mc) }
    	}
    }
    m.HandleGet("/a", text("x"), mw("1"), nil, mw("2"))
    do(m, "GET", "/a")
    if ran != "12" {
    	t.Fatal(ran)
    }
    ''', ["github.com/ixtendio/gofre/middleware"]))

add("m02-repeated-prefix", "M02",
    "a child mux whose prefix starts with the prefix of its parent",
    "a child prefix that repeats the parent's prefix is taken as already resolved",
    [("gofre.go", '''	if len(pathPrefix) == 0 {
		return path
	}
''', '''	if len(pathPrefix) == 0 || len(path) > len(pathPrefix) && path[:len(pathPrefix)] == pathPrefix {
		return path
	}
''')],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.RouteUsingPathPrefix("/api").HandleGet("/api/v1", text("x"))
    if w := do(m, "GET", "/api/api/v1"); w.Code != 200 {
    	t.Fatal(w.Code)
    }
    '''))

add("m03-abort-handler", "M03",
    "a panic with http.ErrAbortHandler below the recovery middleware",
    "that panic value is raised again instead of becoming an error",
    [("middleware/panic.go", "				if r := recover(); r != nil {\n", "				if r := recover(); r != nil {\n					if r == http.ErrAbortHandler {\n						panic(r)\n					}\n"),
     ("middleware/panic.go", '	"runtime/debug"\n', '	"net/http"\n	"runtime/debug"\n'),
     ("middleware/panic.go", '					err = fmt.Errorf("recover from panic, stack: [%s]", string(debug.Stack()))', '					err = fmt.Errorf("recover from panic: %v, stack: [%s]", r, string(debug.Stack()))')],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { panic(http.ErrAbortHandler) }, middleware.PanicRecover())
    defer func() {
    	if r := recover(); r != nil {
    		t.Fatal("escaped", r)
    	}
    }()
    if w := do(m, "GET", "/a"); w.Code != 500 {
    	t.Fatal(w.Code)
    }
    ''', ["github.com/ixtendio/gofre/middleware"]))

add("m04-keep-existing", "M04",
    "a handler that sets X-Frame-Options itself",
    "a header set by the handler wins over the configured value",
    [("middleware/security.go", "			if config.ClickJacking.Enabled {\n", "			if config.ClickJacking.Enabled && httpResponse.Headers()[antiClickJackingHeaderName] == \"\" {\n")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	h := response.NewHttpHeaders()
    	h.Set("X-Frame-Options", "ALLOWALL")
    	return response.PlainTextHttpResponseWithHeaders(200, "x", h), nil
    }, middleware.SecurityHeaders(middleware.SecurityHeadersConfig{ClickJacking: middleware.ShClickJackingConfig{Enabled: true, XFrameOptionHeaderValue: "DENY"}}))
    if w := do(m, "GET", "/a"); w.Header().Get("X-Frame-Options") != "DENY" {
    	t.Fatal(w.Header())
    }
    ''', ["github.com/ixtendio/gofre/middleware"]))

add("m05-origin-prefix", "M05",
    "an origin that continues an allowed one (https://a.example.evil.com)",
    "origins are compared by prefix",
    [("middleware/cors.go", "		if o == origin {\n			return true", "		if strings.HasPrefix(origin, o) {\n			return true")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", text("x"), middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{"https://a.example"}, AllowedHttpMethods: []string{"GET"}}))
    r := httptest.NewRequest("GET", "/a", nil)
    r.Header.Set("Origin", "https://a.example.evil.com")
    w := httptest.NewRecorder()
    m.ServeHTTP(w, r)
    if w.Code != 500 {
    	t.Fatal(w.Code, w.Header())
    }
    ''', ["github.com/ixtendio/gofre/middleware"]))

add("m05-second-header", "M05",
    "a preflight that asks for several headers of which only the first is allowed",
    "the loop over the requested headers stops at the first allowed one",
    [("middleware/cors.go", '''		if h != "" && !config.containsAllowedHeaderCaseInsensitive(strings.TrimSpace(h)) {
			return errors.ErrAccessDenied
		}
''', '''		if h != "" {
			if !config.containsAllowedHeaderCaseInsensitive(strings.TrimSpace(h)) {
				return errors.ErrAccessDenied
			}
			break
		}
''')],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleRequest("OPTIONS", "/a", text("x"), middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{"https://a.example"}, AllowedHttpMethods: []string{"PUT"}, AllowedHttpHeaders: []string{"X-A"}}))
    r := httptest.NewRequest("OPTIONS", "/a", nil)
    r.Header.Set("Origin", "https://a.example")
    r.Header.Set("Access-Control-Request-Method", "PUT")
    r.Header.Set("Access-Control-Request-Headers", "X-A, X-B")
    w := httptest.NewRecorder()
    m.ServeHTTP(w, r)
    if w.Code != 500 {
    	t.Fatal(w.Code, w.Header())
    }
    ''', ["github.com/ixtendio/gofre/middleware"]))

add("m07-parse-form", "M07",
    "a POST whose body is a form that the handler reads itself",
    "the dumper parses the form and so consumes the body",
    [("middleware/dump.go", '			requestMap["formFields"] = mc.R.Form\n', '			if mc.R.ParseForm() == nil {\n				requestMap["formFields"] = mc.R.Form\n			}\n')],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandlePost("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	b, _ := io.ReadAll(mc.R.Body)
    	return response.PlainTextHttpResponseOK(string(b)), nil
    }, middleware.RequestDumper(func(string) {}))
    r := httptest.NewRequest("POST", "/a", strings.NewReader("a=b"))
    r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
    w := httptest.NewRecorder()
    m.ServeHTTP(w, r)
    if w.Body.String() != "a=b" {
    	t.Fatal(w.Body)
    }
    ''', ["io", "strings", "github.com/ixtendio/gofre/middleware"]))

add("a01-trailing-separator", "A01",
    "a scope that ends with the separator",
    "an empty last level is ignored",
    [("auth/auth.go", "	pScopeParts := strings.Split(p.Scope, sep)\n", "	pScopeParts := strings.Split(strings.TrimSuffix(p.Scope, sep), sep)\n")],
    gotest('''
    if (auth.Permission{Scope: "a/", Access: 1}).Implies(auth.Permission{Scope: "a", Access: 1}) {
    	t.Fatal("a/ covers a")
    }
    ''', ["github.com/ixtendio/gofre/auth"], helpers=False))

add("a04-first-colon", "A04",
    "a scope that contains a colon",
    "the text is split at the first colon",
    [("auth/auth.go", "	for i := len(permissionAsString) - 1; i >= 0; i-- {\n", "	for i := 0; i < len(permissionAsString); i++ {\n")],
    gotest('''
    p := auth.Permission{Scope: "a:b", Access: 3}
    if q, err := auth.ParsePermission(p.String()); err != nil || q != p {
    	t.Fatal(q, err)
    }
    ''', ["github.com/ixtendio/gofre/auth"], helpers=False))

add("c01-header-fallback", "C01",
    "a request with a used nonce in the header and a valid one as parameter",
    "the parameter is used when the nonce in the header is not valid",
    [("middleware/csrf.go", '				if previousNonce == "" {\n					previousNonce = mc', '				if previousNonce == "" || !nonceCache.Contains(previousNonce) {\n					previousNonce = mc')],
    gotest('''
    ca := cache.NewInMemory()
    m := newMux(t, &gofre.Config{})
    m.HandlePost("/a", text("x"), middleware.CSRFPrevention(ca))
    ca.Add("n", time.Hour)
    r := httptest.NewRequest("POST", "/a?_csrf=n", nil)
    r.Header.Set("X-Csrf-Token", "used")
    w := httptest.NewRecorder()
    m.ServeHTTP(w, r)
    if w.Code == 200 {
    	t.Fatal("passed")
    }
    ''', ["time", "github.com/ixtendio/gofre/cache", "github.com/ixtendio/gofre/middleware"]))

add("c02-fast-path", "C02",
    "two requests that present the same nonce in the header at the same time",
    "nonces from the header are looked up and removed in two steps",
    [("middleware/csrf.go", '''				previousNonce := mc.R.Header.Get(csrfRestNonceHeaderName)
				if previousNonce == "" {
					previousNonce = mc.R.FormValue(csrfNonceRequestParamName)
				}
				if previousNonce''', '''				previousNonce := mc.R.Header.Get(csrfRestNonceHeaderName)
				fromHeader := previousNonce != ""
				if !fromHeader {
					previousNonce = mc.R.FormValue(csrfNonceRequestParamName)
				}
				if fromHeader && nonceCache.Contains(previousNonce) {
					nonceCache.Remove(previousNonce)
				} else if previousNonce''')],
    gotest('''
    ca := &slow{InMemory: cache.NewInMemory(), wait: make(chan bool)}
    m := newMux(t, &gofre.Config{})
    m.HandlePost("/a", text("x"), middleware.CSRFPrevention(ca))
    ca.Add("n", time.Hour)
    codes := make(chan int, 2)
    for i := 0; i < 2; i++ {
    	go func() {
    		r := httptest.NewRequest("POST", "/a", nil)
    		r.Header.Set("X-Csrf-Token", "n")
    		w := httptest.NewRecorder()
    		m.ServeHTTP(w, r)
    		codes <- w.Code
    	}()
    }
    if a, b := <-codes, <-codes; a == 200 && b == 200 {
    	t.Fatal("both passed")
    }
    ''', ["time", "github.com/ixtendio/gofre/cache", "github.com/ixtendio/gofre/middleware"]) + '''
// slow gives a second lookup the chance to come before the removal
type slow struct {
	*cache.InMemory
	wait chan bool
}

func (s *slow) Contains(k string) bool {
	r := s.InMemory.Contains(k)
	if k == "n" {
		select {
		case s.wait <- true:
		case <-s.wait:
		case <-time.After(time.Second):
		}
	}
	return r
}
''')

add("k01-no-restart", "K01",
    "a key that is added again before it expires",
    "adding a present key does not restart its time",
    [("cache/cache.go", "	i.cache[key] = time.Now().Add(expiresIn)\n", "	if t, found := i.cache[key]; !found || !time.Now().Before(t) {\n		i.cache[key] = time.Now().Add(expiresIn)\n	}\n")],
    gotest('''
    c := cache.NewInMemory()
    c.Add("a", 50*time.Millisecond)
    c.Add("a", time.Hour)
    time.Sleep(80 * time.Millisecond)
    if !c.Contains("a") {
    	t.Fatal("gone")
    }
    ''', ["time", "github.com/ixtendio/gofre/cache"], helpers=False))

add("k02-lazy-delete", "K02",
    "a lookup of an expired key while another thread adds the key again",
    "the lookup removes the key after releasing the lock and so may remove the new entry",
    [("cache/cache.go", '''	i.mu.RLock()
	defer i.mu.RUnlock()
	t, found := i.cache[key]
	return found && time.Now().Before(t)
''', '''	i.mu.RLock()
	t, found := i.cache[key]
	i.mu.RUnlock()
	if found && !time.Now().Before(t) {
		// forget the expired key
		i.Remove(key)
		return false
	}
	return found
''')],
    gotest('''
    c := cache.NewInMemory()
    for n := 0; n < 300000; n++ {
    	c.Add("a", -time.Second)
    	var wg sync.WaitGroup
    	wg.Add(2)
    	go func() { c.Contains("a"); wg.Done() }()
    	go func() { c.Add("a", time.Hour); wg.Done() }()
    	wg.Wait()
    	if !c.Contains("a") {
    		t.Fatal("lost after", n)
    	}
    }
    ''', ["sync", "time", "github.com/ixtendio/gofre/cache"], helpers=False))

add("o01-empty-state", "O01",
    "a callback without a state",
    "the state is only checked if there is one",
    [("gofre.go", "		if cache != nil && !cache.Contains(state) {\n", "		if cache != nil && state != \"\" && !cache.Contains(state) {\n")],
    gotest('''
    ran := false
    m := newMux(t, &gofre.Config{})
    m.HandleOAUTH2(oauth.Config{WebsiteUrl: "https://w", Providers: []oauth.Provider{stub{}}, CacheConfig: oauth.CacheConfig{Cache: cache.NewInMemory(), KeyExpirationTime: time.Hour}},
    	func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { ran = true; return response.PlainTextHttpResponseOK("x"), nil }, nil, nil)
    do(m, "GET", "/oauth/authorize/stub?code=c")
    if ran {
    	t.Fatal("the handler ran")
    }
    ''', ["time", "github.com/ixtendio/gofre/auth", "github.com/ixtendio/gofre/auth/oauth", "github.com/ixtendio/gofre/cache"]) + '''
type stub struct{}

func (stub) Name() string                                        { return "stub" }
func (stub) InitiateUrl(r string, state string, info bool) string { return "https://p/?state=" + state }
func (stub) FetchAccessToken(ctx context.Context, r string, code string) (oauth.AccessToken, error) {
	return oauth.AccessToken{AccessToken: "t", TokenType: "Bearer"}, nil
}
func (stub) FetchAuthenticatedUser(ctx context.Context, t oauth.AccessToken) (auth.User, error) {
	return auth.User{Id: "u"}, nil
}
''')

add("o02-redirect-status", "O02",
    "a token answer with a 3xx status and a token in its body",
    "any status below 400 counts as success",
    [("auth/oauth/github.go", '''	if resp.StatusCode/100 == 2 {
		token''', '''	if resp.StatusCode < http.StatusBadRequest {
		token''')],
    gotest('''
    srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
    	w.WriteHeader(300)
    	w.Write([]byte(`{"access_token":"t","token_type":"Bearer"}`))
    }))
    defer srv.Close()
    oauth.GitHubAccessTokenEndpoint = srv.URL
    if tok, err := (oauth.GitHubProvider{}).FetchAccessToken(context.Background(), "", "c"); err == nil {
    	t.Fatal(tok)
    }
    ''', ["context", "net/http", "net/http/httptest", "github.com/ixtendio/gofre/auth/oauth"], helpers=False))

add("o03-sorted-scopes", "O03",
    "a provider with scopes that are not in alphabetical order, used concurrently or inspected afterwards",
    "the configured scopes are sorted in place",
    [("auth/oauth/google.go", '''		"scope":                  {strings.Join(scopes, " ")},
''', '''		"scope":                  {joinScopes(scopes)},
'''),
     ("auth/oauth/google.go", '''func (p GoogleProvider) FetchAccessToken(''', '''func joinScopes(scopes []string) string {
	sort.Strings(scopes)
	return strings.Join(scopes, " ")
}

func (p GoogleProvider) FetchAccessToken('''),
     ("auth/oauth/google.go", '	"net/url"\n', '	"net/url"\n	"sort"\n')],
    gotest('''
    p := oauth.GoogleProvider{Scopes: []string{"z", "a"}}
    p.InitiateUrl("u", "s", false)
    if p.Scopes[0] != "z" {
    	t.Fatal(p.Scopes)
    }
    ''', ["github.com/ixtendio/gofre/auth/oauth"], helpers=False))

add("o04-code-decoded-twice", "O04",
    "an authorization code that contains a percent sign",
    "the code, already decoded, is decoded once more",
    [("auth/oauth/google.go", '''	reqPayload := map[string]string{
''', '''	if decoded, err := url.QueryUnescape(authCode); err == nil {
		authCode = decoded
	}
	reqPayload := map[string]string{
'''), ("auth/oauth/google.go", '''		"code":          authCode,
		"grant_type":    "authorization_code",
''', '''		"grant_type":    "authorization_code",
		"code":          authCode,
''')],
    gotest('''
    var body string
    srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
    	b, _ := io.ReadAll(r.Body)
    	body = string(b)
    }))
    defer srv.Close()
    oauth.GoogleAccessTokenEndpoint = srv.URL
    (oauth.GoogleProvider{}).FetchAccessToken(context.Background(), "", "4%2Fx+y")
    if !strings.Contains(body, `"4%2Fx+y"`) {
    	t.Fatal(body)
    }
    ''', ["context", "io", "strings", "net/http", "net/http/httptest", "github.com/ixtendio/gofre/auth/oauth"], helpers=False))

add("s02-put-before-clear", "S02",
    "two responses in flight at the same time, one taking the map the other has just given back",
    "a header map is put into the pool before it is cleared",
    [("response/response.go", '''	h.Clear()
	httpHeadersPool.Put(h)
''', '''	httpHeadersPool.Put(h)
	h.Clear()
''')],
    gotest('''
    stop := make(chan bool)
    defer close(stop)
    for i := 0; i < 4; i++ {
    	go func() {
    		for {
    			select {
    			case <-stop:
    				return
    			default:
    				h := response.NewHttpHeaders()
    				h.Set("X-A", "1")
    				h.Release()
    			}
    		}
    	}()
    }
    end := time.Now().Add(3 * time.Second)
    for time.Now().Before(end) {
    	h := response.NewHttpHeaders()
    	if len(h) != 0 {
    		t.Fatal(h)
    	}
    	h.Set("X-B", "1")
    	if h["X-B"] != "1" || len(h) != 1 {
    		t.Fatal(h)
    	}
    	h.Release()
    }
    ''', ["time", "github.com/ixtendio/gofre/response"], helpers=False), flags="-race")

add("s03-id-or-retry", "S03",
    "an event with both an id and a retry time",
    "the retry time is dropped from events with an id",
    [("response/sse.go", '''	}
	if evt.Retry > 0 {
''', '''	} else if evt.Retry > 0 {
''')],
    gotest('''
    s := (response.ServerSentEvent{Data: []string{"d"}, Id: "7", Retry: 10}).String()
    if !strings.Contains(s, "retry: 10") {
    	t.Fatal(s)
    }
    ''', ["strings", "github.com/ixtendio/gofre/response"], helpers=False))

add("s04-break-select", "S04",
    "a client whose connection fails while events are still generated",
    "break leaves the select only, so the stream goes on after a failed write",
    [("response/sse.go", '''			if err := writeTextResponse(w, evt.String()); err != nil {
				return nil
			}
''', '''			if err := writeTextResponse(w, evt.String()); err != nil {
				break
			}
''')],
    gotest('''
    w := &broken{h: http.Header{}}
    ch := make(chan response.ServerSentEvent, 3)
    for i := 0; i < 3; i++ {
    	ch <- response.ServerSentEvent{Data: []string{"d"}}
    }
    close(ch)
    r := httptest.NewRequest("GET", "/a", nil)
    r.ProtoMajor = 2
    response.SSEHttpResponse(func(ctx context.Context, id string) <-chan response.ServerSentEvent { return ch }).Write(w, path.MatchingContext{R: r})
    if w.writes != 1 {
    	t.Fatal(w.writes)
    }
    ''', ["context", "errors", "net/http", "net/http/httptest", "github.com/ixtendio/gofre/response", "github.com/ixtendio/gofre/router/path"], helpers=False) + '''
type broken struct {
	h      http.Header
	writes int
}

func (b *broken) Header() http.Header { return b.h }
func (b *broken) WriteHeader(int)     {}
func (b *broken) Write(p []byte) (int, error) {
	b.writes++
	return 0, errors.New("broken pipe")
}
''')

add("s05-decoded-twice", "S05",
    "a request for an asset whose path is percent-encoded twice",
    "the path is decoded once more and joined with the directory, so encoded dots leave the directory",
    [("gofre.go", '''http.StripPrefix(contextPath+"/"+assetsPath+"/", http.FileServer(http.Dir(assetsDirPath)))))''', '''http.StripPrefix(contextPath+"/"+assetsPath+"/", serveAssets(assetsDirPath))))'''),
     ("gofre.go", '''// Config returns a Config copy
''', '''func serveAssets(dir string) http.Handler {
	files := http.FileServer(http.Dir(dir))
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.ContainsRune(r.URL.Path, '%') {
			// some proxies encode the path once more
			if p, err := url.PathUnescape(r.URL.Path); err == nil {
				if data, err := os.ReadFile(filepath.Join(dir, p)); err == nil {
					_, _ = w.Write(data)
					return
				}
			}
		}
		files.ServeHTTP(w, r)
	})
}

// Config returns a Config copy
'''), ("gofre.go", '''	"net/http/pprof"
	"unsafe"
''', '''	"net/http/pprof"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"unsafe"
''')],
    gotest('''
    d := t.TempDir()
    os.Mkdir(d+"/assets", 0o755)
    os.WriteFile(d+"/secret.txt", []byte("secret"), 0o644)
    m := newMux(t, &gofre.Config{ResourcesConfig: &gofre.ResourcesConfig{AssetsDirPath: d + "/assets", Template: response.NilTemplate{}}})
    if w := do(m, "GET", "/assets/%252e%252e%252fsecret.txt"); w.Body.String() == "secret" {
    	t.Fatal("escaped")
    }
    ''', ["os"]))
