IMP = '''package gofre_test

import (
%s
)

var (
%s
)
'''
H = '''
func newMux(t *testing.T, c *gofre.Config) *gofre.MuxHandler {
	m, err := gofre.NewMuxHandler(c)
	if err != nil {
		t.Fatal(err)
	}
	return m
}

func text(s string) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK(s), nil
	}
}

func do(m http.Handler, method, target string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	m.ServeHTTP(w, httptest.NewRequest(method, target, nil))
	return w
}
'''
STD = ["context", "net/http", "net/http/httptest", "testing",
       "github.com/ixtendio/gofre", "github.com/ixtendio/gofre/handler", "github.com/ixtendio/gofre/response", "github.com/ixtendio/gofre/router/path"]


def gotest(body, imports=(), helpers=True):
    imps = (STD if helpers else ["testing"]) + list(imports)
    return "package gofre_test\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imps) + ")\n" + (H if helpers else "") + "\nfunc TestSeedDemo(t *testing.T) {\n" + textwrap.dedent(body).strip("\n") + "\n}\n"


AUTH = "github.com/ixtendio/gofre/auth"
MW = "github.com/ixtendio/gofre/middleware"
CACHE = "github.com/ixtendio/gofre/cache"
OAUTH = "github.com/ixtendio/gofre/auth/oauth"

add("r01-literal-only-raise", "R01",
    "a longer pattern registered after a shorter one that starts with a variable",
    "the longest path a node can match is only raised for literal nodes, so the longer pattern never matches",
    [("router/path/matcher.go", "					if child.maxMatchableSegments < maxMatchableSegments {", "					if child.maxMatchableSegments < maxMatchableSegments && child.segment.matchType != MatchTypeRegex {")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a*", text("short"))
    m.HandleGet("/a*/x/y", text("long"))
    if w := do(m, "GET", "/ab/x/y"); w.Code != 200 || w.Body.String() != "long" {
    	t.Fatal(w.Code, w.Body)
    }
    '''))

add("r03-greedy-shortcut", "R03",
    "a ** pattern and a longer pattern that continues after the ** and also matches",
    "a pattern that ends with ** is taken before the longer patterns below it are tried",
    [("router/path/matcher.go", "				if greedyChildrenLen == 0 && childNode.isLeaf() {", "				if (greedyChildrenLen == 0 || urlLen-urlSegmentIndex > MaxPathSegments/2) && childNode.isLeaf() {")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a/**", text("any"))
    m.HandleGet("/a/**/z", text("z"))
    if w := do(m, "GET", "/a/1/2/3/4/5/6/7/8/9/z"); w.Body.String() != "z" {
    	t.Fatal(w.Code, w.Body)
    }
    '''))

add("r05-regex-case", "R05",
    "case-insensitive routing and two patterns with wildcards that differ only in letter case",
    "texts with wildcards are compared with their case, so both are accepted",
    [("router/path/matcher.go", "					if m.caseInsensitive {\n						hasSameVal", "					if m.caseInsensitive && segment.matchType == MatchTypeLiteral {\n						hasSameVal")],
    gotest('''
    m := newMux(t, &gofre.Config{CaseInsensitivePathMatch: true})
    m.HandleGet("/ab*", text("1"))
    defer func() {
    	if recover() == nil {
    		t.Fatal("accepted")
    	}
    }()
    m.HandleGet("/AB*", text("2"))
    '''))

add("r06-lower-literal", "R06",
    "case-insensitive routing and letters outside of ASCII",
    "only ASCII letters are folded",
    [("router/path/pattern.go", "			if strings.EqualFold(urlSegmentVal, s.val) {", "			if len(urlSegmentVal) == len(s.val) && asciiLower(urlSegmentVal) == asciiLower(s.val) {"),
     ("router/path/pattern.go", "func (s *segment) String() string {", '''func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

func (s *segment) String() string {''')],
    gotest('''
    m := newMux(t, &gofre.Config{CaseInsensitivePathMatch: true})
    m.HandleGet("/\u00e9t\u00e9", text("1"))
    if w := do(m, "GET", "/%C3%89T%C3%89"); w.Code != 200 {
    	t.Fatal(w.Code, w.Body)
    }
    '''))

add("r06-constraint-flag", "R06",
    "case-insensitive routing and a constraint that begins with a flag group or alternation",
    "the constraint is anchored differently under case-insensitive matching",
    [("router/path/pattern.go", '					regexPattern = "(?i)" + regexPattern', '					regexPattern = strings.ToLower(regexPattern)')],
    gotest('''
    m := newMux(t, &gofre.Config{CaseInsensitivePathMatch: true})
    m.HandleGet("/{x:^[A-Z]+$}", text("1"))
    if w := do(m, "GET", "/ABC"); w.Code != 200 {
    	t.Fatal(w.Code, w.Body)
    }
    '''))

add("r04-var-index", "R04",
    "a pattern with several variables of which two carry the same name prefix",
    "a variable is found by the beginning of its name",
    [("router/path/matching_context.go", "			if ps.captureVarName == name {", "			if len(ps.captureVarName) > 0 && len(name) > 0 && ps.captureVarName[:1] == name[:1] && len(ps.captureVarName) <= len(name) {")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/{i}/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.PlainTextHttpResponseOK(mc.PathVar("id")), nil
    })
    if w := do(m, "GET", "/1/2"); w.Body.String() != "2" {
    	t.Fatal(w.Code, w.Body)
    }
    '''))

add("l01-clone-aliases", "L01",
    "a handler that keeps a clone of its matching context while the next request is served",
    "the clone shares the recycled path segments with the following requests",
    [("router/path/matching_context.go", "	segments := make([]UrlSegment, segmentsLen)\n", "	segments := mc.PathSegments[:segmentsLen:segmentsLen]\n	if segmentsLen < 4 {\n		segments = make([]UrlSegment, segmentsLen)\n	}\n")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    var kept []path.MatchingContext
    m.HandleGet("/a/b/c/d/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	kept = append(kept, mc.Clone())
    	return response.PlainTextHttpResponseOK(mc.PathVar("id")), nil
    })
    do(m, "GET", "/a/b/c/d/1")
    if v := kept[0].PathVar("id"); v != "1" {
    	t.Fatalf("%q", v)
    }
    '''))

add("l01-shared-stack", "L01",
    "two requests that are matched at the same time",
    "the matcher keeps its search stack, so concurrent searches overwrite each other",
    [("router/path/matcher.go", "	nodeStack := make([]stackSegment, 2*MaxPathSegments+1)\n", "	if m.stack == nil {\n		m.stack = make([]stackSegment, 2*MaxPathSegments+1)\n	}\n	nodeStack := m.stack\n	for i := range nodeStack {\n		nodeStack[i] = stackSegment{}\n	}\n"),
     ("router/path/matcher.go", "	trieRoot        *node\n}", "	trieRoot        *node\n	stack           []stackSegment\n}"),
     ("router/path/matcher.go", "	var treeDepth int\n	urlLen", "	treeDepth := 0\n	urlLen")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a/b/c/x", text("1"))
    m.HandleGet("/{x}/b/c/y", text("2"))
    m.HandleGet("/a/{x}/c/y", text("3"))
    var wg sync.WaitGroup
    var bad atomic.Int32
    for g := 0; g < 8; g++ {
    	wg.Add(1)
    	go func() {
    		defer wg.Done()
    		for i := 0; i < 20000; i++ {
    			if w := do(m, "GET", "/a/b/c/y"); w.Code != 200 {
    				bad.Add(1)
    			}
    		}
    	}()
    }
    wg.Wait()
    if bad.Load() > 0 {
    	t.Fatal(bad.Load())
    }
    ''', ["sync", "sync/atomic"]), flags="-race")

add("l02-typed-nil-error", "L02",
    "a handler that returns both a response and an error",
    "a response that comes along with an error is sent as a success",
    [("router/router.go", "	if err != nil {\n		r.errLogFunc(fmt.Errorf", "	if err != nil && resp == nil {\n		r.errLogFunc(fmt.Errorf")],
    gotest('''
    n := 0
    m := newMux(t, &gofre.Config{ErrLogFunc: func(error) { n++ }})
    m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.PlainTextHttpResponseOK("x"), context.Canceled
    })
    if w := do(m, "GET", "/a"); w.Code != 500 || n != 1 {
    	t.Fatal(w.Code, n)
    }
    '''))

add("m01-clone-shares", "M01",
    "a clone of a mux that gets middlewares of its own, then a second clone",
    "clones share the spare capacity of the list of common middlewares",
    [("gofre.go", "		pathPrefix:        m.pathPrefix,\n		router:            m.router,\n		commonMiddlewares: append([]middleware.Middleware(nil), m.commonMiddlewares...),", "		pathPrefix:        m.pathPrefix,\n		router:            m.router,\n		commonMiddlewares: m.commonMiddlewares,")],
    gotest('''
    tag := func(s string) middleware.Middleware {
    	return func(h handler.Handler) handler.Handler {
    		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    			mc.R.Header.Add("Tag", s)
    			return h(ctx, mc)
    		}
    	}
    }
    m := newMux(t, &gofre.Config{})
    m.CommonMiddlewares(tag("a"), tag("b"))
    m.CommonMiddlewares(tag("c"))
    x, y := m.Clone(), m.Clone()
    x.CommonMiddlewares(tag("x"))
    y.CommonMiddlewares(tag("y"))
    x.HandleGet("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.PlainTextHttpResponseOK(strings.Join(mc.R.Header["Tag"], "")), nil
    })
    if w := do(m, "GET", "/"); w.Body.String() != "abcx" {
    	t.Fatal(w.Body)
    }
    ''', ["strings", MW]))

add("m03-wrapped-type", "M03",
    "an error of the application that says it is a bad request by its text only, or a pointer of the error type",
    "status codes are chosen by the text of the error",
    [("middleware/errors.go", "	} else if err == errors.ErrUnauthorizedRequest {", "	} else if err.Error() == errors.ErrUnauthorizedRequest.Error() {")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return nil, fmt.Errorf("%s", errors.ErrUnauthorizedRequest.Error())
    }, middleware.ErrJsonResponse())
    if w := do(m, "GET", "/a"); w.Code != 500 {
    	t.Fatal(w.Code)
    }
    ''', ["fmt", MW, "github.com/ixtendio/gofre/errors"]))

add("m05-null-origin", "M05",
    "a request with the origin null under a list of allowed origins",
    "the origin null is always accepted",
    [("middleware/cors.go", "	if config.AnyOriginAllowed {\n		return true", "	if config.AnyOriginAllowed || originHeader == \"null\" {\n		return true")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", text("x"), middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{"https://a.example"}, AllowedHttpMethods: []string{"GET"}}))
    w, rq := httptest.NewRecorder(), httptest.NewRequest("GET", "/a", nil)
    rq.Header.Set("Origin", "null")
    m.ServeHTTP(w, rq)
    if w.Code == 200 {
    	t.Fatal(w.Code)
    }
    ''', [MW]))

add("m06-qvalue", "M06",
    "a request that refuses gzip with q=0",
    "a quality value is ignored, so a client that refuses gzip gets it",
    [("response/compress.go", "	encArr := strings.Split(strings.ToLower(acceptEncodingHeaderNameVal), \",\")\n", "	encArr := strings.Split(strings.ToLower(acceptEncodingHeaderNameVal), \",\")\n	for i, enc := range encArr {\n		encArr[i], _, _ = strings.Cut(enc, \";\")\n	}\n"),
     ("response/compress.go", "		if enc == \"gzip\" || enc == \"compress\" {", "		if enc == \"compress\" || enc == \"gzip\" {")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", text("xxxx"), middleware.CompressResponse(5))
    w, rq := httptest.NewRecorder(), httptest.NewRequest("GET", "/a", nil)
    rq.Header.Set("Accept-Encoding", "gzip;q=0")
    m.ServeHTTP(w, rq)
    if w.Header().Get("Content-Encoding") != "" {
    	t.Fatal(w.Header())
    }
    ''', [MW]))

add("m07-drains-form", "M07",
    "a request with a form that the handler reads after the dump",
    "the dumper parses multipart forms and consumes the body",
    [("middleware/dump.go", "			requestMap[\"formFields\"] = mc.R.Form\n", "			if mc.R.Form == nil {\n				_ = mc.R.ParseMultipartForm(1 << 20)\n			}\n			requestMap[\"formFields\"] = mc.R.Form\n"),
     ("middleware/dump.go", "			requestMap[\"host\"] = mc.R.Host\n", "			requestMap[\"host\"] = mc.R.URL.Host + mc.R.Host\n")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandlePost("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	b, _ := io.ReadAll(mc.R.Body)
    	return response.PlainTextHttpResponseOK(string(b)), nil
    }, middleware.RequestDumper(func(string) {}))
    w, rq := httptest.NewRecorder(), httptest.NewRequest("POST", "/a", strings.NewReader("a=b"))
    rq.Header.Set("Content-Type", "application/x-www-form-urlencoded")
    m.ServeHTTP(w, rq)
    if w.Body.String() != "a=b" {
    	t.Fatal(w.Body)
    }
    ''', ["io", "strings", MW]))

add("m07-hidden-cookies", "M07",
    "a response with a cookie that is marked HttpOnly",
    "the dumper blanks the value of such a cookie in the response itself",
    [("middleware/dump.go", '''			for _, c := range resp.Cookies() {
				cookies = append(cookies, c.String())
			}''', '''			for _, c := range resp.Cookies() {
				if c.HttpOnly {
					// the values of these cookies are not for the log
					c.Value = "***"
				}
				cookies = append(cookies, c.String())
			}'''),
     ("middleware/dump.go", "			cookies = nil\n", "			cookies = cookies[:0:0]\n")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.PlainTextResponseWithHeadersAndCookies(200, "x", nil, response.NewHttpCookie(&http.Cookie{Name: "s", Value: "v", HttpOnly: true})), nil
    }, middleware.RequestDumper(func(string) {}))
    if w := do(m, "GET", "/a"); !strings.Contains(w.Header().Get("Set-Cookie"), "s=v") {
    	t.Fatal(w.Header())
    }
    ''', ["strings", MW]))

add("m08-dump-hijack", "M08",
    "the request dumper around a response that takes over the connection",
    "the dumper refuses responses without headers",
    [("middleware/dump.go", "			responseMap[\"header\"] = resp.Headers()\n", "			headers := resp.Headers()\n			if _, found := headers[\"Date\"]; !found {\n				headers[\"Date\"] = time.Now().UTC().Format(\"Mon, 02 Jan 2006 15:04:05 GMT\")\n			}\n			responseMap[\"header\"] = headers\n")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.NewHttpHijackConnectionResponse(func(net.Conn, *bufio.ReadWriter, error) {}), nil
    }, middleware.RequestDumper(func(string) {}))
    do(m, "GET", "/a")
    ''', ["net", "bufio", MW]))

add("a02-role-order", "A02",
    "a group in which a role that denies the permission precedes one that allows it",
    "the first role that says anything about the permission decides for the whole group",
    [("auth/auth.go", '''		if g.Roles[i].HasPermission(permission) {
			return true
		}
''', '''		role := g.Roles[i]
		if role.HasPermission(permission) {
			return true
		}
		for _, denied := range role.DeniedPermissions {
			if denied.Implies(permission) {
				return false
			}
		}
''')],
    gotest('''
    p := auth.Permission{Scope: "a", Access: 1}
    g := auth.Group{Roles: []auth.Role{{DeniedPermissions: []auth.Permission{p}}, {AllowedPermissions: []auth.Permission{p}}}}
    if !g.HasPermission(p) {
    	t.Fatal("refused")
    }
    ''', [AUTH], helpers=False))

add("a03-remembered", "A03",
    "one principal that asks for different permissions in consecutive requests",
    "the decision is remembered per identity although the supplier asks for other permissions",
    [("middleware/authz.go", '''func Authorize(supplier PermissionsSupplierFunc, matchAllPermissions bool) Middleware {
	return''', '''func Authorize(supplier PermissionsSupplierFunc, matchAllPermissions bool) Middleware {
	var granted sync.Map
	return'''),
     ("middleware/authz.go", '''			if matchAllPermissions {
				for _, permission := range permissions {
					if !securityPrincipal.HasPermission(permission) {
						return nil, errors.ErrUnauthorizedRequest
					}
				}
				return handler(ctx, mc)
''', '''			if matchAllPermissions {
				if _, found := granted.Load(securityPrincipal.Identity()); found {
					return handler(ctx, mc)
				}
				for i := range permissions {
					if !securityPrincipal.HasPermission(permissions[i]) {
						return nil, errors.ErrUnauthorizedRequest
					}
				}
				granted.Store(securityPrincipal.Identity(), true)
				return handler(ctx, mc)
'''),
     ("middleware/authz.go", '''	"github.com/ixtendio/gofre/response"
''', '''	"github.com/ixtendio/gofre/response"
	"sync"
''')],
    gotest('''
    u := &auth.User{Id: "u", Groups: []auth.Group{{Roles: []auth.Role{{AllowedPermissions: []auth.Permission{{Scope: "a", Access: 1}}}}}}}
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/{s}", text("x"),
    	middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) { return u, nil }),
    	middleware.Authorize(func(ctx context.Context, mc path.MatchingContext) ([]auth.Permission, error) {
    		return []auth.Permission{{Scope: mc.PathVar("s"), Access: 1}}, nil
    	}, true))
    if a, b := do(m, "GET", "/a"), do(m, "GET", "/b"); a.Code != 200 || b.Code != 500 {
    	t.Fatal(a.Code, b.Code)
    }
    ''', [AUTH, MW]))

add("a03-any-single", "A03",
    "the any mode with the last of several permissions",
    "the last of several alternative permissions is never tried",
    [("middleware/authz.go", '''				for _, permission := range permissions {
					if securityPrincipal.HasPermission(permission) {
						return handler(ctx, mc)
					}
				}
''', '''				for i, permission := range permissions {
					if i > 0 && permission.Scope == permissions[i-1].Scope {
						continue // the scope was looked at already
					}
					if securityPrincipal.HasPermission(permission) {
						return handler(ctx, mc)
					}
				}
''')],
    gotest('''
    u := &auth.User{Id: "u", Groups: []auth.Group{{Roles: []auth.Role{{AllowedPermissions: []auth.Permission{{Scope: "a", Access: 2}}}}}}}
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/{s}", text("x"),
    	middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) { return u, nil }),
    	middleware.AuthorizeAny(auth.Permission{Scope: "a", Access: 1}, auth.Permission{Scope: "a", Access: 2}))
    if a := do(m, "GET", "/a"); a.Code != 200 {
    	t.Fatal(a.Code)
    }
    ''', [AUTH, MW]))

add("a04-sign", "A04",
    "an access number that is larger than 31 bits",
    "access numbers are formatted as signed 32 bit numbers",
    [("auth/auth.go", "	return p.Scope + \":\" + strconv.Itoa(int(p.Access))", "	return p.Scope + \":\" + strconv.Itoa(int(int32(p.Access)))")],
    gotest('''
    p := auth.Permission{Scope: "a", Access: 1 << 31}
    if q, err := auth.ParsePermission(p.String()); err != nil || q != p {
    	t.Fatal(q, err)
    }
    ''', [AUTH], helpers=False))

add("c01-consume-after", "C01",
    "a request with a valid nonce whose handler fails",
    "the nonce is given back when the handler returns an error, so it is accepted again",
    [("middleware/csrf.go", "			ctx = context.WithValue(ctx, CSRFNonceCtxKey, newNonce)\n			return handler(ctx, mc)", "			ctx = context.WithValue(ctx, CSRFNonceCtxKey, newNonce)\n			resp, err := handler(ctx, mc)\n			if err != nil && !skipNonceCheck {\n				// the client will try again with the nonce it has\n				if err := nonceCache.Add(mc.R.Header.Get(csrfRestNonceHeaderName), CSRFExpirationTime); err != nil {\n					return nil, err\n				}\n			}\n			return resp, err")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    c := cache.NewInMemory()
    mw := middleware.CSRFPrevention(c)
    fail := true
    n := 0
    h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	n++
    	if fail {
    		return nil, context.Canceled
    	}
    	return response.PlainTextHttpResponseOK("x"), nil
    }
    m.HandlePost("/a", h, mw)
    c.Add("N", time.Hour)
    for i := 0; i < 2; i++ {
    	w, rq := httptest.NewRecorder(), httptest.NewRequest("POST", "/a", nil)
    	rq.Header.Set("X-Csrf-Token", "N")
    	m.ServeHTTP(w, rq)
    }
    if n != 1 {
    	t.Fatal(n)
    }
    ''', ["time", MW, CACHE]))

add("k01-prolong", "K01",
    "a key that is added again with a shorter time",
    "adding a key again never shortens its time",
    [("cache/cache.go", "	i.cache[key] = time.Now().Add(expiresIn)\n", "	if t := time.Now().Add(expiresIn); i.cache[key].Before(t) {\n		i.cache[key] = t\n	}\n")] ,
    gotest('''
    c := cache.NewInMemory()
    c.Add("k", time.Hour)
    c.Add("k", time.Millisecond)
    time.Sleep(20 * time.Millisecond)
    if c.Contains("k") {
    	t.Fatal("contained")
    }
    ''', ["time", CACHE], helpers=False))

add("k02-read-lock", "K02",
    "concurrent additions and look ups",
    "look ups that find an expired key remove it under the read lock",
    [("cache/cache.go", "	delete(i.cache, key)\n}", "	delete(i.cache, key)\n	if len(i.cache) == 0 {\n		i.cache = make(map[string]time.Time)\n	}\n}"),
     ("cache/cache.go", "	t, found := i.cache[key]\n	return found && time.Now().Before(t)", "	t, found := i.cache[key]\n	if found && !time.Now().Before(t) {\n		delete(i.cache, key)\n		return false\n	}\n	return found")],
    gotest('''
    c := cache.NewInMemory()
    for i := 0; i < 200; i++ {
    	c.Add(fmt.Sprint(i), 0)
    }
    var wg sync.WaitGroup
    for g := 0; g < 4; g++ {
    	wg.Add(1)
    	go func() {
    		defer wg.Done()
    		for i := 0; i < 200; i++ {
    			c.Contains(fmt.Sprint(i))
    		}
    	}()
    }
    wg.Wait()
    ''', ["fmt", "sync", CACHE], helpers=False), flags="-race")

add("o01-state-per-provider", "O01",
    "a callback without a state parameter",
    "a callback that carries no state is let through",
    [("gofre.go", "		if cache != nil && !cache.Contains(state) {", "		if cache != nil && state != \"\" && !cache.Contains(state) {")],
    gotest('''
    oauth.HttpClient = &http.Client{Transport: rt(func(rq *http.Request) (*http.Response, error) {
    	return &http.Response{StatusCode: 200, Header: http.Header{}, Request: rq, Body: io.NopCloser(strings.NewReader(`{"access_token":"t","token_type":"b"}`))}, nil
    })}
    m := newMux(t, &gofre.Config{})
    m.HandleOAUTH2(oauth.Config{WebsiteUrl: "https://s.example", Providers: []oauth.Provider{oauth.GitHubProvider{}}, CacheConfig: oauth.CacheConfig{Cache: cache.NewInMemory(), KeyExpirationTime: time.Hour}}, text("in"), nil, nil)
    if w := do(m, "GET", "/oauth/authorize/github?code=x"); w.Code == 200 {
    	t.Fatal(w.Code, w.Body)
    }
    ''', ["io", "strings", "time", CACHE, OAUTH]) + '''
type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }
''')

add("o02-scope-default", "O02",
    "an answer whose expiry is not a whole number or is given as text",
    "an answer with a null scope fails",
    [("auth/oauth/google.go", "		if expiresIn, ok := result[\"expires_in\"].(float64); ok {\n			accessToken.ExpiresInSeconds = int(expiresIn)\n		}", "		if expiresIn, found := result[\"expires_in\"]; found {\n			accessToken.ExpiresInSeconds = int(expiresIn.(float64))\n		}")],
    gotest('''
    oauth.HttpClient = &http.Client{Transport: rt(func(rq *http.Request) (*http.Response, error) {
    	return &http.Response{StatusCode: 200, Header: http.Header{}, Request: rq, Body: io.NopCloser(strings.NewReader(`{"access_token":"t","token_type":"b","expires_in":"3600"}`))}, nil
    })}
    if at, err := (oauth.GoogleProvider{}).FetchAccessToken(context.Background(), "https://s.example", "c"); err == nil && at.AccessToken != "t" {
    	t.Fatal(at, err)
    }
    _ = do
    ''', ["io", "strings", OAUTH]) + '''
type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }
''')

add("s01-template-type", "S01",
    "a template response whose headers name a content type in another letter case or empty",
    "a content type set after the response was built is ignored by templates",
    [("response/headers.go", "	if len(header.Get(HeaderContentType)) == 0 && len(r.ContentType) > 0 {\n		header.Set(HeaderContentType, r.ContentType)\n	}", "	if len(r.ContentType) > 0 && r.HttpStatusCode < http.StatusBadRequest {\n		header.Set(HeaderContentType, r.ContentType)\n	} else if len(r.ContentType) > 0 && len(header.Get(HeaderContentType)) == 0 {\n		header.Set(HeaderContentType, r.ContentType)\n	}")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	r := response.PlainTextHttpResponseOK("x")
    	r.Headers().Set("Content-Type", "text/csv")
    	return r, nil
    })
    if w := do(m, "GET", "/a"); w.Header().Get("Content-Type") != "text/csv" {
    	t.Fatal(w.Header())
    }
    '''))

add("s01-cookie-id", "S01",
    "two cookies that differ only in their domain",
    "cookies are identified without their domain, so the second replaces the first",
    [("response/response.go", '			id := cookie.Name + ":" + cookie.Path + ":" + cookie.Domain\n', '			id := cookie.Name + ":" + cookie.Path\n')],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.PlainTextResponseWithHeadersAndCookies(200, "x", nil, response.NewHttpCookie(&http.Cookie{Name: "s", Value: "1", Domain: "a.example"}, &http.Cookie{Name: "s", Value: "2", Domain: "b.example"})), nil
    })
    if w := do(m, "GET", "/a"); len(w.Header()["Set-Cookie"]) != 2 {
    	t.Fatal(w.Header())
    }
    '''))

add("s02-shared-default", "S02",
    "a response without headers of its own after one that set headers",
    "a response whose status is invalid gives its headers back and keeps them",
    [("response/response.go", "func (h HttpHeaders) Release() {\n	h.Clear()\n", "func (h HttpHeaders) Release() {\n	if len(h) > 8 {\n		return\n	}\n	for k := range h {\n		if k != HeaderContentType {\n			delete(h, k)\n		}\n	}\n")],
    gotest('''
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	r := response.JsonHttpResponseOK(1)
    	r.Headers().Set("Content-Type", "text/csv")
    	return r, nil
    })
    m.HandleGet("/b", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	r := response.JsonHttpResponseOK(1)
    	r.Headers().Set("X-B", "b")
    	return r, nil
    })
    for i := 0; i < 50; i++ {
    	do(m, "GET", "/a")
    	if w := do(m, "GET", "/b"); w.Header().Get("Content-Type") != "application/json" {
    		t.Fatal(w.Header())
    	}
    }
    '''))

add("s03-retry-zero", "S03",
    "an event with only an id or a retry time",
    "an event without name and data is not sent",
    [("response/sse.go", "	if sb.Len() > 0 {\n		sb.WriteString(\"\\n\\n\")", "	if startDataWithNewLine {\n		sb.WriteString(\"\\n\\n\")")],
    gotest('''
    if s := (response.ServerSentEvent{Id: "5"}).String(); !strings.HasSuffix(s, "id: 5\\n\\n") {
    	t.Fatalf("%q", s)
    }
    ''', ["strings", "github.com/ixtendio/gofre/response"], helpers=False))

add("s04-flush-once", "S04",
    "an event whose text is longer than a buffer, or events that follow each other quickly",
    "the stream is flushed only when no further event is waiting",
    [("response/sse.go", "			r.flushResponse(w)\n		}\n	}\n}", "			if len(events) == 0 {\n				r.flushResponse(w)\n			}\n		}\n	}\n}")],
    gotest('''
    ch := make(chan response.ServerSentEvent, 8)
    for i := 0; i < 3; i++ {
    	ch <- response.ServerSentEvent{Data: []string{"x"}}
    }
    close(ch)
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.SSEHttpResponse(func(ctx context.Context, id string) <-chan response.ServerSentEvent { return ch }), nil
    })
    w, rq := &fl{httptest.NewRecorder(), 0}, httptest.NewRequest("GET", "/a", nil)
    rq.ProtoMajor = 2
    m.ServeHTTP(w, rq)
    if w.n < 3 {
    	t.Fatal(w.n)
    }
    ''') + '''
type fl struct {
	*httptest.ResponseRecorder
	n int
}

func (f *fl) Flush() { f.n++ }
''')


add("r03-short-constraint", "R03",
    "a constrained variable whose expression is one character next to a less specific pattern",
    "a short constraint is taken as a part of the variable's name, so it matches everything",
    [("router/path/pattern.go", "			if ch == ':' {\n				return MatchTypeConstraintCaptureVar", "			if ch == ':' && pos < len(pathSegment)-3 {\n				return MatchTypeConstraintCaptureVar")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/{x:a}", text("one"))
    m.HandleGet("/**", text("any"))
    if w := do(m, "GET", "/b"); w.Body.String() != "any" {
    	t.Fatal(w.Code, w.Body)
    }
    """))

add("r05-replaced-duplicate", "R05",
    "two patterns that differ only in the names of their variables",
    "a pattern with other variable names silently replaces an equivalent one",
    [("router/path/matcher.go", "				if currentNode.isLeaf() {\n					return errors", "				if currentNode.isLeaf() && currentNode.pattern.captureVarsLen == 0 {\n					return errors"),
     ("router/path/matcher.go", "	if !inserted && currentNode.isLeaf() {", "	if !inserted && currentNode.isLeaf() && pattern.captureVarsLen == 0 {")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a/{x}", text("1"))
    defer func() {
    	if recover() == nil {
    		t.Fatal("accepted")
    	}
    }()
    m.HandleGet("/a/{y}", text("2"))
    """))

add("r08-head-as-get", "R08",
    "a HEAD request when no handler for HEAD was registered",
    "HEAD requests fall back to the handlers of GET",
    [("router/router.go", "	httpMethod = strings.ToUpper(httpMethod)\n	matcher := r.endpointMatchers[httpMethod]\n	if matcher == nil {\n		w.", "	matcher := r.endpointMatchers[strings.ToUpper(httpMethod)]\n	if matcher == nil && httpMethod == http.MethodHead {\n		matcher = r.endpointMatchers[http.MethodGet]\n	}\n	if matcher == nil {\n		w.")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", text("x"))
    if w := do(m, "HEAD", "/a"); w.Code != 404 {
    	t.Fatal(w.Code)
    }
    """))

add("m01-callers-slice", "M01",
    "one slice with spare capacity given to two muxes",
    "the caller's slice becomes the list of common middlewares, so muxes overwrite each other's middlewares",
    [("gofre.go", "	if len(middlewares) > 0 {\n		m.common", "	if m.commonMiddlewares == nil {\n		m.commonMiddlewares = middlewares\n	} else {\n		m.common")],
    gotest("""
    tag := func(s string) middleware.Middleware {
    	return func(h handler.Handler) handler.Handler {
    		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    			mc.R.Header.Add("Tag", s)
    			return h(ctx, mc)
    		}
    	}
    }
    base := make([]middleware.Middleware, 0, 4)
    base = append(base, tag("a"))
    m, n := newMux(t, &gofre.Config{}), newMux(t, &gofre.Config{})
    m.CommonMiddlewares(base...)
    n.CommonMiddlewares(base...)
    m.CommonMiddlewares(tag("m"))
    n.CommonMiddlewares(tag("n"))
    m.HandleGet("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.PlainTextHttpResponseOK(strings.Join(mc.R.Header["Tag"], "")), nil
    })
    if w := do(m, "GET", "/"); w.Body.String() != "am" {
    	t.Fatal(w.Body)
    }
    """, ["strings", MW]))

add("m03-panic-error", "M03",
    "a handler that panics with one of the framework's errors",
    "a panic with an error is translated like that error",
    [("middleware/panic.go", "				if r := recover(); r != nil {\n", "				if p := recover(); p != nil {\n					if e, ok := p.(error); ok {\n						err = e\n						return\n					}\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	panic(errors.ErrAccessDenied)
    }, middleware.ErrJsonResponse(), middleware.PanicRecover())
    if w := do(m, "GET", "/a"); w.Code != 500 {
    	t.Fatal(w.Code)
    }
    """, [MW, "github.com/ixtendio/gofre/errors"]))

add("m05-header-list", "M05",
    "a preflight request whose list of headers has no spaces",
    "the list is split at comma and space, so it is refused",
    [("middleware/cors.go", "	for _, h := range strings.Split(accessControlRequestHeadersHeader, \",\") {", "	for _, h := range strings.Split(accessControlRequestHeadersHeader, \", \") {")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleRequest("OPTIONS", "/a", text("x"), middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{"https://a.example"}, AllowedHttpMethods: []string{"GET"}, AllowedHttpHeaders: []string{"X-A", "X-B"}}))
    w, rq := httptest.NewRecorder(), httptest.NewRequest("OPTIONS", "/a", nil)
    rq.Header.Set("Origin", "https://a.example")
    rq.Header.Set("Access-Control-Request-Method", "GET")
    rq.Header.Set("Access-Control-Request-Headers", "x-a,x-b")
    m.ServeHTTP(w, rq)
    if w.Code != 200 {
    	t.Fatal(w.Code)
    }
    """, [MW]))

add("a01-star-parent", "A01",
    "a scope that ends with * and the scope above it",
    "a/* covers a as well",
    [("auth/auth.go", "	if len(ipScopeParts) < len(pScopeParts) {", "	if len(ipScopeParts) < len(pScopeParts) && (len(ipScopeParts)+1 < len(pScopeParts) || pScopeParts[len(pScopeParts)-1] != \"*\") {")],
    gotest("""
    if (auth.Permission{Scope: "a/b/*", Access: 1}).Implies(auth.Permission{Scope: "a/b", Access: 1}) {
    	t.Fatal("covers")
    }
    """, [AUTH], helpers=False))

add("s01-json-empty-list", "S01",
    "a JSON response whose payload is an empty list",
    "an empty list is sent as an empty object",
    [("response/json.go", "	if r.Payload != nil {\n", "	if v := reflect.ValueOf(r.Payload); r.Payload != nil && !(v.Kind() == reflect.Slice && v.Len() == 0) {\n"),
     ("response/json.go", "	\"net/http\"\n", "	\"net/http\"\n	\"reflect\"\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.JsonHttpResponseOK([]int{}), nil
    })
    if w := do(m, "GET", "/a"); w.Body.String() != "[]" {
    	t.Fatal(w.Body)
    }
    """))

add("s05-plain-join", "S05",
    "a path that leaves the mapping and comes back to it",
    "the file is found by joining the directory with the path as it was sent",
    [("gofre.go", "http.StripPrefix(contextPath+\"/\"+assetsPath+\"/\", http.FileServer(http.Dir(assetsDirPath)))", "http.StripPrefix(contextPath+\"/\"+assetsPath+\"/\", serveAssets(assetsDirPath))"),
     ("gofre.go", "// Config returns a Config copy\n", """func serveAssets(dir string) http.Handler {
	files := http.FileServer(http.Dir(dir))
	return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		// regular files are sent at once, everything else is up to the file server
		name := dir + "/" + req.URL.Path
		if data, err := os.ReadFile(name); err == nil {
			http.ServeContent(w, req, name, time.Time{}, bytes.NewReader(data))
			return
		}
		files.ServeHTTP(w, req)
	})
}

// Config returns a Config copy
"""),
     ("gofre.go", "	\"context\"\n	\"crypto/rand\"", "	\"bytes\"\n	\"context\"\n	\"crypto/rand\""),
     ("gofre.go", "	\"net/http/pprof\"\n", "	\"net/http/pprof\"\n	\"os\"\n	\"time\"\n")],
    gotest("""
    dir := t.TempDir()
    os.MkdirAll(dir+"/files", 0o755)
    os.MkdirAll(dir+"/static", 0o755)
    os.WriteFile(dir+"/static/secret.txt", []byte("OUT"), 0o644)
    m := newMux(t, &gofre.Config{ResourcesConfig: &gofre.ResourcesConfig{AssetsDirPath: dir + "/files", AssetsMappingPath: "static", Template: response.NilTemplate{}}})
    w, rq := httptest.NewRecorder(), httptest.NewRequest("GET", "/static/x", nil)
    rq.URL.Path = "/static/../static/secret.txt"
    m.ServeHTTP(w, rq)
    if w.Code == 200 {
    	t.Fatal(w.Code, w.Body)
    }
    """, ["os"]))

add("o04-bare-redirect", "O04",
    "OAuth endpoints registered below a path prefix",
    "the code is exchanged with the redirect URI without the prefix",
    [("gofre.go", "		redirectUrl := oauthConfig.WebsiteUrl + m.resolvePath(authorizationFlowBasePath) + \"/\" + provider.Name()\n		errCode", "		redirectUrl := oauthConfig.WebsiteUrl + authorizationFlowBasePath + \"/\" + provider.Name()\n		errCode")],
    gotest("""
    body := ""
    oauth.HttpClient = &http.Client{Transport: rt(func(rq *http.Request) (*http.Response, error) {
    	b, _ := io.ReadAll(rq.Body)
    	body = string(b)
    	return &http.Response{StatusCode: 200, Header: http.Header{}, Request: rq, Body: io.NopCloser(strings.NewReader(`{"access_token":"t","token_type":"b"}`))}, nil
    })}
    m := newMux(t, &gofre.Config{})
    m.RouteUsingPathPrefix("/p").HandleOAUTH2(oauth.Config{WebsiteUrl: "https://s.example", Providers: []oauth.Provider{oauth.GoogleProvider{}}}, text("in"), nil, nil)
    if do(m, "GET", "/p/oauth/authorize/google?code=x"); !strings.Contains(body, "https://s.example/p/oauth/authorize/google") {
    	t.Fatal(body)
    }
    """, ["io", "strings", OAUTH]) + """
type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }
""")
