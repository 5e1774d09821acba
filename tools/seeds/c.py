IMP = '''package gofre_test

import (
%s
)

var (
%s
)
'''
H = '''
func newMux(t *testing.T, c *gofre.Config) *gofre.MuxHandler {
	m, err := gofre.NewMuxHandler(c)
	if err != nil {
		t.Fatal(err)
	}
	return m
}

func text(s string) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK(s), nil
	}
}

func do(m http.Handler, method, target string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	m.ServeHTTP(w, httptest.NewRequest(method, target, nil))
	return w
}
'''
STD = ["context", "net/http", "net/http/httptest", "testing",
       "github.com/ixtendio/gofre", "github.com/ixtendio/gofre/handler", "github.com/ixtendio/gofre/response", "github.com/ixtendio/gofre/router/path"]


def gotest(body, imports=(), helpers=True):
    imps = (STD if helpers else ["testing"]) + list(imports)
    return "package gofre_test\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imps) + ")\n" + (H if helpers else "") + "\nfunc TestSeedDemo(t *testing.T) {\n" + textwrap.dedent(body).strip("\n") + "\n}\n"


AUTH = "github.com/ixtendio/gofre/auth"
MW = "github.com/ixtendio/gofre/middleware"
CACHE = "github.com/ixtendio/gofre/cache"
OAUTH = "github.com/ixtendio/gofre/auth/oauth"


add("n02-nonce-nibble", "N02",
    "comparing the characters of many nonces",
    "every second character of a nonce follows from the one before it, so half of its randomness is gone",
    [("middleware/csrf.go", "		b2 := b & 0x0f\n", "		b2 := b1 ^ 0x05\n")],
    gotest("""
    pairs := map[string]bool{}
    mw := middleware.CSRFPrevention(cache.NewInMemory())
    m := newMux(t, &gofre.Config{})
    var nonce string
    m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	nonce = middleware.GetCSRFNonceFromContext(ctx)
    	return response.PlainTextHttpResponseOK(""), nil
    }, mw)
    for i := 0; i < 500; i++ {
    	do(m, "GET", "/p")
    	pairs[nonce[:2]] = true
    }
    if len(pairs) < 40 {
    	t.Fatal(len(pairs), pairs)
    }
    """, [MW, CACHE]))

add("n02-short-state", "N02",
    "trying the possible states",
    "an OAuth state has only four characters, which can be guessed while it is valid",
    [("gofre.go", "		state := uniqueIdFunc(12)\n", "		state := uniqueIdFunc(4)\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleOAUTH2(oauth.Config{WebsiteUrl: "https://s.example", Providers: []oauth.Provider{oauth.GitHubProvider{ClientId: "c", ClientSecret: "s"}}}, text("in"), nil, nil)
    w := do(m, "GET", "/oauth/initiate")
    u, err := url.Parse(w.Header().Get("Location"))
    if err != nil || len(u.Query().Get("state")) < 10 {
    	t.Fatal(w.Header(), err)
    }
    """, [OAUTH, "net/url"]))

add("s06-cached-template", "S06",
    "two muxes in one process with different template directories whose patterns end alike",
    "the templates of the first mux are also used by the second",
    [("gofre.go", "		tmpl, err := defaultTemplateFunc(c.TemplatesPathPattern)\n", "		tmpl, err := parsedTemplates(c.TemplatesPathPattern)\n"),
     ("gofre.go", "func (c *ResourcesConfig) setDefaults() error {\n", """var templatesByPattern = map[string]*template.Template{}

// parsedTemplates parses the templates of a pattern only once
func parsedTemplates(pattern string) (*template.Template, error) {
	key := pattern
	for i := len(pattern) - 1; i >= 0 && pattern[0] == '/'; i-- {
		if pattern[i] == '/' {
			key = pattern[i+1:]
			break
		}
	}
	if t := templatesByPattern[key]; t != nil {
		return t, nil
	}
	t, err := defaultTemplateFunc(pattern)
	if err == nil && pattern[0] == '/' {
		templatesByPattern[key] = t
	}
	return t, err
}

func (c *ResourcesConfig) setDefaults() error {
""")],
    gotest("""
    for _, want := range []string{"one", "two"} {
    	d := t.TempDir()
    	os.WriteFile(filepath.Join(d, "x.html"), []byte(want), 0o644)
    	m := newMux(t, &gofre.Config{ResourcesConfig: &gofre.ResourcesConfig{TemplatesPathPattern: filepath.Join(d, "*.html")}})
    	m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    		return response.TemplateHttpResponseOK(m.ExecutableTemplate(), "x.html", nil), nil
    	})
    	if w := do(m, "GET", "/p"); w.Body.String() != want {
    		t.Fatal(w.Body)
    	}
    }
    """, ["os", "path/filepath"]))

add("s06-missing-tolerated", "S06",
    "a template pattern that matches no file",
    "the missing templates are only noticed when a page is requested",
    [("gofre.go", "		if err != nil {\n			return fmt.Errorf(\"failed parsing the templates", "		if err != nil && tmpl == nil {\n			tmpl = template.New(\"\")\n		} else if err != nil {\n			return fmt.Errorf(\"failed parsing the templates")],
    gotest("""
    d := t.TempDir()
    if _, err := gofre.NewMuxHandler(&gofre.Config{ResourcesConfig: &gofre.ResourcesConfig{TemplatesPathPattern: d + "/*.html"}}); err == nil {
    	t.Fatal("no error")
    }
    """))

add("m02-debug-vars", "M02",
    "debug endpoints enabled on a mux with a path prefix",
    "the exported variables are served at the root instead of below the prefix",
    [("gofre.go", 'm.router.Handle(http.MethodGet, m.resolvePath("/debug/vars")', 'm.router.Handle(http.MethodGet, "/debug/vars"')],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.RouteUsingPathPrefix("/admin").EnableDebugEndpoints()
    if w := do(m, "GET", "/admin/debug/vars"); w.Code != 200 {
    	t.Fatal(w.Code)
    }
    """))

add("a03-inner-nil", "A03",
    "two principal suppliers on top of each other, of which the inner one supplies nobody",
    "the inner supplier hides the principal of the outer one",
    [("middleware/auth.go", "				if securityPrincipal == nil {\n					return handler(ctx, mc)\n				}\n", "")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    sup := func(p auth.SecurityPrincipal) middleware.Middleware {
    	return middleware.SecurityPrincipalSupplier(func(context.Context, path.MatchingContext) (auth.SecurityPrincipal, error) { return p, nil })
    }
    u := &auth.User{Id: "u", Groups: []auth.Group{{Roles: []auth.Role{{AllowedPermissions: []auth.Permission{{Scope: "x", Access: 1}}}}}}}
    m.HandleGet("/p", text("in"), sup(u), sup(nil), middleware.AuthorizeAll(auth.Permission{Scope: "x", Access: 1}))
    if w := do(m, "GET", "/p"); w.Code != 200 {
    	t.Fatal(w.Code)
    }
    """, [AUTH, MW]))

add("m07-cookies-buffer", "M07",
    "a request with cookies whose response sets cookies too",
    "the list of the response's cookies overwrites the list of the request's cookies in the dump",
    [("middleware/dump.go", "			cookies = nil\n", "			cookies = cookies[:0]\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    var dump string
    m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	r := response.PlainTextHttpResponseOK("x")
    	r.Cookies().Add(&http.Cookie{Name: "out", Value: "1"})
    	return r, nil
    }, middleware.RequestDumper(func(s string) { dump = s }))
    q := httptest.NewRequest("GET", "/p", nil)
    q.Header.Set("Cookie", "incoming=2")
    m.ServeHTTP(httptest.NewRecorder(), q)
    var v struct{ Request struct{ Cookies []string } }
    if err := json.Unmarshal([]byte(dump), &v); err != nil || len(v.Request.Cookies) != 1 || v.Request.Cookies[0] != "incoming=2" {
    	t.Fatal(dump, err)
    }
    """, [MW, "encoding/json"]))

add("m04-scheme-first", "M04",
    "a request over TLS whose request line carries an absolute http URL",
    "the scheme of the request line hides that the connection is secure",
    [("middleware/security.go", '			isRequestSecure := mc.R.TLS != nil || strings.ToLower(mc.R.URL.Scheme) == "https"', '			isRequestSecure := mc.R.URL.Scheme == "" && mc.R.TLS != nil || strings.ToLower(mc.R.URL.Scheme) == "https"')],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p", text("x"), middleware.SecurityHeaders(middleware.SecurityHeadersConfig{STS: middleware.ShStrictTransportSecurityConfig{Enabled: true, MaxAgeSeconds: 5}}))
    q := httptest.NewRequest("GET", "http://s.example/p", nil)
    q.TLS = &tls.ConnectionState{}
    w := httptest.NewRecorder()
    m.ServeHTTP(w, q)
    if w.Header().Get("Strict-Transport-Security") == "" {
    	t.Fatal(w.Header())
    }
    """, [MW, "crypto/tls"]))

add("m05-vary-substring", "M05",
    "a response that already varies by a header whose name contains Origin",
    "the response does not say that it varies by Origin, so a cache gives it to other origins",
    [("middleware/cors.go", "	varyHeaders = append(varyHeaders, name)\n", "	if !strings.Contains(responseHeaders[varyHeader], name) {\n		varyHeaders = append(varyHeaders, name)\n	}\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	r := response.PlainTextHttpResponseOK("x")
    	r.Headers().Set("Vary", "X-Origin-Zone")
    	return r, nil
    }, middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{"https://a.example"}, AllowedHttpMethods: []string{"GET"}}))
    q := httptest.NewRequest("GET", "/p", nil)
    q.Header.Set("Origin", "https://a.example")
    w := httptest.NewRecorder()
    m.ServeHTTP(w, q)
    for _, v := range strings.Split(w.Header().Get("Vary"), ",") {
    	if strings.TrimSpace(v) == "Origin" {
    		return
    	}
    }
    t.Fatal(w.Header())
    """, [MW, "strings"]))

add("o01-code-beats-error", "O01",
    "a callback that carries an error and a code as well",
    "the error of the provider is ignored if there is a code",
    [("gofre.go", '		if errCode != "" {', '		if errCode != "" && mc.R.FormValue("code") == "" {')],
    gotest("""
    m := newMux(t, &gofre.Config{})
    called := 0
    m.HandleOAUTH2(oauth.Config{WebsiteUrl: "https://s.example", Providers: []oauth.Provider{prov{&called}}}, text("in"), nil, nil)
    if w := do(m, "GET", "/oauth/authorize/p?error=access_denied&code=c&state=s"); w.Code == 200 || called > 0 {
    	t.Fatal(w.Code, called)
    }
    """, [OAUTH, AUTH]) + """
type prov struct{ n *int }

func (p prov) Name() string                                  { return "p" }
func (p prov) InitiateUrl(a string, b string, c bool) string { return "https://p.example" }
func (p prov) FetchAccessToken(ctx context.Context, a string, b string) (oauth.AccessToken, error) {
	*p.n++
	return oauth.AccessToken{AccessToken: "t"}, nil
}
func (p prov) FetchAuthenticatedUser(ctx context.Context, t oauth.AccessToken) (auth.User, error) {
	return auth.User{}, nil
}
""")

add("c01-empty-delete", "C01",
    "a DELETE request without a body",
    "requests without a body are taken for safe ones",
    [("middleware/csrf.go", "				mc.R.Method == http.MethodOptions\n", "				mc.R.Method == http.MethodOptions ||\n				mc.R.Method == http.MethodDelete && mc.R.ContentLength == 0\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleDelete("/p", text("gone"), middleware.CSRFPrevention(cache.NewInMemory()))
    if w := do(m, "DELETE", "/p"); w.Code == 200 {
    	t.Fatal(w.Code)
    }
    """, [MW, CACHE]))

add("k01-forever", "K01",
    "adding a key with an expiration time of zero or less",
    "such keys never expire",
    [("cache/cache.go", "	i.cache[key] = time.Now().Add(expiresIn)\n", "	i.cache[key] = time.Now().Add(max64(expiresIn))\n"),
     ("cache/cache.go", "func (i *InMemory) Remove(", "// max64 treats an expiration time that is not positive as none\nfunc max64(d time.Duration) time.Duration {\n	if d <= 0 {\n		return 1 << 62\n	}\n	return d\n}\n\nfunc (i *InMemory) Remove(")],
    gotest("""
    c := cache.NewInMemory()
    c.Add("k", 0)
    c.Add("l", -time.Second)
    time.Sleep(time.Millisecond)
    if c.Contains("k") || c.Contains("l") {
    	t.Fatal("still there")
    }
    """, [CACHE, "time"], helpers=False))

add("l03-sort-exposed", "L03",
    "concurrent first requests through one CORS middleware",
    "the configured headers, which all requests share, are sorted by the first requests that need them",
    [("middleware/cors.go", "strings.Join(config.ExposedHeaders, \",\")", "joinSorted(config.ExposedHeaders)"),
     ("middleware/cors.go", "func addVaryHeader(", "func joinSorted(list []string) string {\n	if !sort.StringsAreSorted(list) {\n		sort.Strings(list)\n	}\n	return strings.Join(list, \",\")\n}\n\nfunc addVaryHeader("),
     ("middleware/cors.go", '	"strconv"\n', '	"sort"\n	"strconv"\n')],
    gotest("""
    for round := 0; round < 30; round++ {
    	m := newMux(t, &gofre.Config{})
    	var expose []string
    	for i := 200; i > 0; i-- {
    		expose = append(expose, fmt.Sprintf("X-%03d", i))
    	}
    	want := strings.Join(expose, ",")
    	m.HandleGet("/p", text("x"), middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{"https://a.example"}, AllowedHttpMethods: []string{"GET"}, ExposedHeaders: expose}))
    	done := make(chan bool)
    	for i := 0; i < 4; i++ {
    		go func() {
    			q := httptest.NewRequest("GET", "/p", nil)
    			q.Header.Set("Origin", "https://a.example")
    			w := httptest.NewRecorder()
    			m.ServeHTTP(w, q)
    			got := strings.Split(w.Header().Get("Access-Control-Expose-Headers"), ",")
    			seen := map[string]bool{}
    			for _, g := range got {
    				seen[g] = true
    			}
    			done <- len(seen) == 200
    		}()
    	}
    	for i := 0; i < 4; i++ {
    		if !<-done {
    			t.Fatal("headers lost")
    		}
    	}
    	if strings.Join(expose, ",") != want {
    		t.Fatal("the caller's configuration was changed")
    	}
    }
    """, [MW, "fmt", "strings"]), flags="-race")

add("a04-sixteen-bits", "A04",
    "a permission text whose access number needs more than sixteen bits",
    "such accesses are refused although a permission can hold them",
    [("auth/auth.go", "	access, err := strconv.ParseUint(accessAsString, 10, 32)\n", "	access, err := strconv.ParseUint(accessAsString, 10, 16)\n")],
    gotest("""
    p := auth.Permission{Scope: "x", Access: 1 << 20}
    q, err := auth.ParsePermission(p.String())
    if err != nil || q != p {
    	t.Fatal(q, err)
    }
    """, [AUTH], helpers=False))

add("m08-compress-copy", "M08",
    "a middleware outside of the compression that decorates the response",
    "the compressing response shows a copy of the headers, so what is added to it is lost",
    [("response/compress.go", "	return r.httpResponse.Headers()\n", "	headers := NewHttpHeaders()\n	for k, v := range r.httpResponse.Headers() {\n		headers.Set(k, v)\n	}\n	return headers\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p", text("x"), middleware.SecurityHeaders(middleware.SecurityHeadersConfig{XSSProtectionEnabled: true}), middleware.CompressResponse(5))
    if w := do(m, "GET", "/p"); w.Header().Get("X-XSS-Protection") == "" {
    	t.Fatal(w.Header())
    }
    """, [MW]))

add("a02-group-first", "A02",
    "a group with two roles of which the first neither allows nor denies the permission",
    "only the first role with a permission of the same scope is asked",
    [("auth/auth.go", "		if g.Roles[i].HasPermission(permission) {\n			return true\n		}\n	}\n	return false\n}\n\n// A User", "		role := g.Roles[i]\n		if role.HasPermission(permission) || role.names(permission.Scope) {\n			return role.HasPermission(permission)\n		}\n	}\n	return false\n}\n\n// names tells if the role says something about the scope\nfunc (r Role) names(scope string) bool {\n	for _, p := range r.AllowedPermissions {\n		if p.Scope == scope {\n			return true\n		}\n	}\n	return false\n}\n\n// A User")],
    gotest("""
    g := auth.Group{Roles: []auth.Role{{AllowedPermissions: []auth.Permission{{Scope: "x", Access: 1}}}, {AllowedPermissions: []auth.Permission{{Scope: "x", Access: 2}}}}}
    if !g.HasPermission(auth.Permission{Scope: "x", Access: 2}) {
    	t.Fatal("the second role is not asked")
    }
    """, [AUTH], helpers=False))

add("k01-bounded", "K01",
    "a cache that holds more than a thousand keys",
    "an arbitrary live key is forgotten when the cache is full",
    [("cache/cache.go", "	i.cache[key] = time.Now().Add(expiresIn)\n", "	if len(i.cache) >= maxKeys {\n		for k := range i.cache {\n			delete(i.cache, k)\n			break\n		}\n	}\n	now := time.Now()\n	i.cache[key] = now.Add(expiresIn)\n"),
     ("cache/cache.go", "func NewInMemory()", "// maxKeys bounds the memory of the cache\nconst maxKeys = 1 << 10\n\nfunc NewInMemory()")],
    gotest("""
    c := cache.NewInMemory()
    for i := 0; i < 2000; i++ {
    	c.Add(fmt.Sprint(i), time.Hour)
    }
    for i := 0; i < 2000; i++ {
    	if !c.Contains(fmt.Sprint(i)) {
    		t.Fatal(i)
    	}
    }
    """, [CACHE, "fmt", "time"], helpers=False))

add("l02-slots", "L02",
    "more than 256 requests that panic, recovered further out",
    "the slot of a request that panics is never given back, so at last requests are refused",
    [("router/router.go", "	// Call the wrapped handler functions.\n	resp, err := matchedHandler(req.Context(), mc)\n", "	select {\n	case r.slots <- struct{}{}:\n	default:\n		w.WriteHeader(http.StatusServiceUnavailable)\n		return\n	}\n	// Call the wrapped handler functions.\n	resp, err := matchedHandler(req.Context(), mc)\n	<-r.slots\n"),
     ("router/router.go", "	if err := resp.Write(w, mc); err != nil {\n		r.errLogFunc(err)\n", "	if err = resp.Write(w, mc); err != nil {\n		r.errLogFunc(err)\n"),
     ("router/router.go", "	endpointMatchers         map[string]*path.Matcher\n", "	endpointMatchers         map[string]*path.Matcher\n	slots                    chan struct{}\n"),
     ("router/router.go", "		endpointMatchers:         make(map[string]*path.Matcher, 9),\n", "		endpointMatchers:         make(map[string]*path.Matcher, 9),\n		slots:                    make(chan struct{}, 256),\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { panic("x") })
    m.HandleGet("/ok", text("ok"))
    for i := 0; i < 300; i++ {
    	func() {
    		defer func() { recover() }()
    		do(m, "GET", "/p")
    	}()
    }
    if w := do(m, "GET", "/ok"); w.Code != 200 {
    	t.Fatal(w.Code)
    }
    """))

add("o02-answer-limit", "O02",
    "an answer of the provider with more than 16 KiB, such as one with many scopes or a long token",
    "the answer is cut, so the login fails",
    [("auth/oauth/github.go", "	result := make(map[string]interface{})\n	if err := json.NewDecoder(resp.Body).Decode(&result); err != nil {\n		return AccessToken{}", "	result := make(map[string]interface{})\n	if err := json.NewDecoder(io.LimitReader(resp.Body, 16<<10)).Decode(&result); err != nil {\n		return AccessToken{}"),
     ("auth/oauth/github.go", '	"fmt"\n', '	"fmt"\n	"io"\n')],
    gotest("""
    old := oauth.HttpClient
    defer func() { oauth.HttpClient = old }()
    tok := strings.Repeat("t", 20000)
    oauth.HttpClient = &http.Client{Transport: rt(func(q *http.Request) (*http.Response, error) {
    	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(`{"access_token":"` + tok + `","token_type":"bearer"}`))}, nil
    })}
    at, err := oauth.GitHubProvider{ClientId: "c"}.FetchAccessToken(context.Background(), "https://x/", "code")
    if err != nil || at.AccessToken != tok {
    	t.Fatal(err)
    }
    """, ["net/http", "context", OAUTH, "io", "strings"], helpers=False) + "\ntype rt func(*http.Request) (*http.Response, error)\n\nfunc (f rt) RoundTrip(q *http.Request) (*http.Response, error) { return f(q) }\n")

add("m07-dump-cap", "M07",
    "a request or response whose dump is longer than 8 KiB",
    "the dump is cut in the middle, so it is no JSON any more",
    [("middleware/dump.go", "			logger(*(*string)(unsafe.Pointer(&data)))\n", "			if len(data) > maxDumpSize {\n				data = data[:maxDumpSize]\n			}\n			logger(string(data))\n"),
     ("middleware/dump.go", '	"time"\n	"unsafe"\n', '	"time"\n'),
     ("middleware/dump.go", "// RequestDumper dumps", "// maxDumpSize keeps the log readable\nconst maxDumpSize = 8 << 10\n\n// RequestDumper dumps")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    var got string
    m.HandleGet("/p", text("x"), middleware.RequestDumper(func(v string) { got = v }))
    q := httptest.NewRequest("GET", "/p", nil)
    q.Header.Set("X-Long", strings.Repeat("x", 10000))
    m.ServeHTTP(httptest.NewRecorder(), q)
    if !json.Valid([]byte(got)) {
    	t.Fatal(len(got))
    }
    """, [MW, "encoding/json", "strings"]))

add("s01-stream-cookies", "S01",
    "a stream made with the constructor that only takes cookies",
    "its cookies are dropped",
    [("response/streaming.go", "	return StreamHttpResponseWithHeadersAndCookies(statusCode, contentType, nil, cookies, reader)\n", "	return StreamHttpResponseWithHeadersAndCookies(statusCode, contentType, nil, nil, reader)\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.StreamHttpResponseWithCookies(200, "text/plain", response.NewHttpCookie(&http.Cookie{Name: "a", Value: "b"}), strings.NewReader("x")), nil
    })
    if w := do(m, "GET", "/p"); len(w.Result().Cookies()) != 1 {
    	t.Fatal(w.Header())
    }
    """, ["strings"]))

add("s03-line-limit", "S03",
    "an event with a data item of more than 64 KiB",
    "the rest of the item is cut off",
    [("response/sse.go", "	for _, data := range evt.Data {\n", "	for i := range evt.Data {\n		data := evt.Data[i]\n		if len(data) > 64<<10 {\n			data = data[:64<<10]\n		}\n")],
    gotest("""
    d := strings.Repeat("d", 70000)
    if got := (response.ServerSentEvent{Data: []string{d}}).String(); got != "data: "+d+"\\n\\n" {
    	t.Fatal(len(got))
    }
    """, ["github.com/ixtendio/gofre/response", "strings"], helpers=False))

add("s04-idle", "S04",
    "a generator that pauses for more than half a second of a shortened idle time",
    "the stream ends although the generator has further events",
    [("response/sse.go", "		case <-reqCtx.Done():\n			return nil\n", "		case <-time.After(sseIdleTimeout):\n			return nil\n		case <-r.done(reqCtx):\n			return nil\n"),
     ("response/sse.go", "func (r *HttpSSEResponse) flushResponse", "func (r *HttpSSEResponse) done(ctx context.Context) <-chan struct{} {\n	return ctx.Done()\n}\n\nfunc (r *HttpSSEResponse) flushResponse"),
     ("response/sse.go", "var ErrNotHttp2Request =", "// sseIdleTimeout ends streams that nobody feeds any more\nconst sseIdleTimeout = 5 * time.Second\n\nvar ErrNotHttp2Request ="),
     ("response/sse.go", '	"strings"\n', '	"strings"\n	"time"\n')],
    gotest("""
    resp := response.SSEHttpResponse(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
    	c := make(chan response.ServerSentEvent)
    	go func() {
    		time.Sleep(6 * time.Second)
    		c <- response.ServerSentEvent{Data: []string{"late"}}
    		close(c)
    	}()
    	return c
    })
    q := httptest.NewRequest("GET", "/", nil)
    q.ProtoMajor, q.Proto = 2, "HTTP/2.0"
    w := httptest.NewRecorder()
    resp.Write(w, path.MatchingContext{R: q})
    if !strings.Contains(w.Body.String(), "late") {
    	t.Fatal(w.Body.String())
    }
    """, ["context", "net/http/httptest", "strings", "time", "github.com/ixtendio/gofre/response", "github.com/ixtendio/gofre/router/path"], helpers=False))

add("s05-dot-files", "S05",
    "an asset whose name begins with a dot, such as those below .well-known",
    "it is answered with 404 although it is there",
    [("gofre.go", "http.FileServer(http.Dir(assetsDirPath))", "http.FileServer(visibleFiles{http.Dir(assetsDirPath)})"),
     ("gofre.go", "// Config returns a Config copy", "// visibleFiles hides the files and directories whose name begins with a dot\ntype visibleFiles struct {\n	http.FileSystem\n}\n\nfunc (f visibleFiles) Open(name string) (http.File, error) {\n	if strings.Contains(name, \"/.\") {\n		return nil, fs.ErrNotExist\n	}\n	return f.FileSystem.Open(name)\n}\n\n// Config returns a Config copy"),
     ("gofre.go", '	"fmt"\n', '	"fmt"\n	"io/fs"\n	"strings"\n')],
    gotest("""
    dir := t.TempDir()
    os.MkdirAll(dir+"/.well-known", 0o755)
    os.WriteFile(dir+"/.well-known/security.txt", []byte("contact"), 0o644)
    m := newMux(t, &gofre.Config{ResourcesConfig: &gofre.ResourcesConfig{AssetsDirPath: dir, Template: response.NilTemplate{}}})
    if w := do(m, "GET", "/assets/.well-known/security.txt"); w.Body.String() != "contact" {
    	t.Fatal(w.Code)
    }
    """, ["os"]))

add("s05-remembered", "S05",
    "a file that changes after it was asked for once",
    "the old content is served on",
    [("gofre.go", "http.FileServer(http.Dir(assetsDirPath))", "http.FileServer(&keptFiles{FileSystem: http.Dir(assetsDirPath), kept: map[string]*keptFile{}})"),
     ("gofre.go", "// Config returns a Config copy", """// keptFiles keeps the content of the small regular files
type keptFiles struct {
	http.FileSystem
	mu   sync.Mutex
	kept map[string]*keptFile
}

type keptFile struct {
	info    fs.FileInfo
	content []byte
}

type openFile struct {
	*bytes.Reader
	info fs.FileInfo
}

func (f openFile) Close() error                             { return nil }
func (f openFile) Stat() (fs.FileInfo, error)               { return f.info, nil }
func (f openFile) Readdir(count int) ([]fs.FileInfo, error) { return nil, nil }

func (k *keptFiles) Open(name string) (http.File, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if f := k.kept[name]; f != nil {
		return openFile{bytes.NewReader(f.content), f.info}, nil
	}
	f, err := k.FileSystem.Open(name)
	if err != nil {
		return nil, err
	}
	info, err := f.Stat()
	if err != nil || info.IsDir() || info.Size() > 1<<16 {
		return f, nil
	}
	defer f.Close()
	content, err := io.ReadAll(f)
	if err != nil {
		return nil, err
	}
	k.kept[name] = &keptFile{info, content}
	return openFile{bytes.NewReader(content), info}, nil
}

// Config returns a Config copy"""),
     ("gofre.go", '	"fmt"\n', '	"bytes"\n	"fmt"\n	"io"\n	"io/fs"\n	"sync"\n')],
    gotest("""
    dir := t.TempDir()
    m := newMux(t, &gofre.Config{ResourcesConfig: &gofre.ResourcesConfig{AssetsDirPath: dir, Template: response.NilTemplate{}}})
    for _, s := range []string{"one", "two"} {
    	os.WriteFile(dir+"/a.txt", []byte(s), 0o644)
    	if w := do(m, "GET", "/assets/a.txt"); w.Body.String() != s {
    		t.Fatal(w.Body.String(), s)
    	}
    }
    """, ["os"]))

add("m03-short-message", "M03",
    "an error whose message has more than 4096 bytes",
    "the response carries only the beginning of the message",
    [("middleware/errors.go", "		return response.JsonHttpResponse(statusCode, map[string]string{\n			\"error\": err.Error(),\n", "		message := err.Error()\n		if len(message) > 4096 {\n			message = message[:4096]\n		}\n		return response.JsonHttpResponse(statusCode, map[string]string{\n			\"error\": message,\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    msg := strings.Repeat("m", 5000)
    m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return nil, errors.NewBadRequestWithMessage(msg)
    }, middleware.ErrJsonResponse())
    if w := do(m, "GET", "/p"); !strings.Contains(w.Body.String(), msg) {
    	t.Fatal(w.Body.Len())
    }
    """, [MW, "strings", "github.com/ixtendio/gofre/errors"]))

add("m08-hides-encoding", "M08",
    "a handler behind the compression that looks at Accept-Encoding itself",
    "the handler does not see the header any more, so it answers something else than without compression",
    [("middleware/compress.go", "			resp, err = handler(ctx, mc)\n			if err != nil {\n				return nil, err\n			}\n", "			// what is inside must not compress a second time\n			inner := mc\n			if mc.R != nil {\n				inner.R = mc.R.Clone(ctx)\n				inner.R.Header.Del(\"Accept-Encoding\")\n			}\n			if resp, err = handler(ctx, inner); err != nil {\n				return nil, err\n			}\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.PlainTextHttpResponseOK("you accept " + mc.R.Header.Get("Accept-Encoding")), nil
    }, middleware.CompressResponse(5))
    q := httptest.NewRequest("GET", "/p", nil)
    q.Header.Set("Accept-Encoding", "br")
    w := httptest.NewRecorder()
    m.ServeHTTP(w, q)
    if w.Body.String() != "you accept br" {
    	t.Fatal(w.Body.String())
    }
    """, [MW]))

add("s02-large-kept", "S02",
    "a response with more than 32 headers followed by another one",
    "the map of a large response is returned to the pool without being emptied",
    [("response/response.go", "	h.Clear()\n	httpHeadersPool.Put(h)\n", "	if len(h) <= 32 {\n		// the usual case is to keep the map\n		h.Clear()\n	}\n	httpHeadersPool.Put(h)\n")],
    gotest("""
    for i := 0; i < 200; i++ {
    	h := response.NewHttpHeaders()
    	if len(h) > 0 {
    		t.Fatal(len(h))
    	}
    	for k := 0; k < 40; k++ {
    		h.Set(fmt.Sprint("X-", k), "v")
    	}
    	response.PlainTextHttpResponseWithHeaders(200, "x", h).Write(httptest.NewRecorder(), path.MatchingContext{R: httptest.NewRequest("GET", "/", nil)})
    }
    """, ["fmt", "net/http/httptest", "github.com/ixtendio/gofre/response", "github.com/ixtendio/gofre/router/path"], helpers=False))

add("r08-first-letters", "R08",
    "two methods that begin with the same four letters, such as PROPFIND and PROPPATCH",
    "the handlers of the two share one table",
    [("router/router.go", "	pattern.Attachment = handler\n	httpMethod = strings.ToUpper(httpMethod)\n", "	pattern.Attachment = handler\n	httpMethod = methodKey(httpMethod)\n"),
     ("router/router.go", "	path.ParseURLPath(req.URL, &mc)\n	httpMethod = strings.ToUpper(httpMethod)\n", "	path.ParseURLPath(req.URL, &mc)\n	httpMethod = methodKey(httpMethod)\n"),
     ("router/router.go", "// ServeHTTP implements", "// methodKey returns the shortest text that tells the methods apart\nfunc methodKey(httpMethod string) string {\n	httpMethod = strings.ToUpper(httpMethod)\n	if len(httpMethod) > 4 {\n		return httpMethod[:4]\n	}\n	return httpMethod\n}\n\n// ServeHTTP implements")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleRequest("PROPFIND", "/p", text("find"))
    if w := do(m, "PROPPATCH", "/p"); w.Code != 404 {
    	t.Fatal(w.Code, w.Body.String())
    }
    """))
