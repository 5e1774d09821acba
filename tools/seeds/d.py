
exec(open("/verif/tools/seeds/c.py").read().split("\nadd(", 1)[0])

add("m08-gone-client", "M08",
    "a handler that fails with context.Canceled behind CORS",
    "the error does not reach the error translation around it; it becomes a response with another status",
    [("middleware/cors.go", "			httpResponse, err := handler(ctx, mc)\n			if err != nil {\n				return nil, err\n			}\n",
      "			httpResponse, err := handler(ctx, mc)\n			if err == context.Canceled {\n				// nobody waits for the answer any more\n				return response.PlainTextHttpResponse(499, \"\"), nil\n			} else if err != nil {\n				return nil, err\n			}\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return nil, context.Canceled
    }, middleware.ErrJsonResponse(), middleware.Cors(middleware.CorsConfig{AnyOriginAllowed: true, AllowedHttpMethods: []string{"GET"}}))
    if w := do(m, "GET", "/p"); w.Code != 500 {
    	t.Fatal(w.Code)
    }
    """, [MW]))

add("m06-length-kept", "M06",
    "a compressed response with a Content-Length of its own and a status other than 200",
    "the length of the uncompressed body is sent with the compressed one",
    [("response/compress.go", "	return c.compressWriter.Write(bytes)\n}\n", "	n, err := c.compressWriter.Write(bytes)\n	return n, err\n}\n"),
     ("response/compress.go", "		header.Del(contentLengthHeaderName)\n", "		if c.statusCode == http.StatusOK {\n			header.Del(contentLengthHeaderName)\n		}\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    body := strings.Repeat("compress me ", 100)
    m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	h := response.NewHttpHeaders()
    	h.Set("Content-Length", fmt.Sprint(len(body)))
    	return response.PlainTextHttpResponseWithHeaders(201, body, h), nil
    }, middleware.CompressResponse(5))
    q := httptest.NewRequest("GET", "/p", nil)
    q.Header.Set("Accept-Encoding", "gzip")
    w := httptest.NewRecorder()
    m.ServeHTTP(w, q)
    if l := w.Header().Get("Content-Length"); l != "" && l != fmt.Sprint(w.Body.Len()) {
    	t.Fatal(l, w.Body.Len())
    }
    """, [MW, "fmt", "strings"]))

add("o03-remembered-scope", "O03",
    "two Google providers with the same client id and other scopes",
    "the second provider asks for the scopes of the first",
    [("auth/oauth/google.go", "		\"scope\":                  {strings.Join(scopes, \" \")},\n", "		\"scope\":                  {p.scopeText(scopes)},\n"),
     ("auth/oauth/google.go", "func (p GoogleProvider) Name() string {\n", "var scopeTexts sync.Map\n\n// scopeText joins the scopes of a client once\nfunc (p GoogleProvider) scopeText(scopes []string) string {\n	key := p.ClientId + \" \" + strconv.Itoa(len(scopes))\n	if s, ok := scopeTexts.Load(key); ok {\n		return s.(string)\n	}\n	s := strings.Join(scopes, \" \")\n	scopeTexts.Store(key, s)\n	return s\n}\n\nfunc (p GoogleProvider) Name() string {\n"),
     ("auth/oauth/google.go", "	\"strings\"\n", "	\"strings\"\n	\"sync\"\n")],
    gotest("""
    a := oauth.GoogleProvider{ClientId: "c", Scopes: []string{"read"}}.InitiateUrl("https://s.example/cb", "st", false)
    b := oauth.GoogleProvider{ClientId: "c", Scopes: []string{"write"}}.InitiateUrl("https://s.example/cb", "st", false)
    if !strings.Contains(a, "scope=read") || !strings.Contains(b, "scope=write") {
    	t.Fatal(a, b)
    }
    """, [OAUTH, "strings"], helpers=False))

add("c02-own-lock", "C02",
    "two concurrent requests with the same nonce to two routes that were protected separately but share the cache",
    "each protected route has a lock of its own, so both requests are accepted",
    [("middleware/csrf.go", "	return func(handler handler.Handler) handler.Handler {\n		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {\n			skipNonceCheck",
      "	consumeNonceMutex := &sync.Mutex{}\n	return func(handler handler.Handler) handler.Handler {\n		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {\n			skipNonceCheck"),
     ("middleware/csrf.go", "			skipNonceCheck := mc.R.Method == http.MethodGet ||\n", "			skipNonceCheck := mc.R.Method == \"\" ||\n				mc.R.Method == http.MethodGet ||\n"),
     ("middleware/csrf.go", "!consumeNonce(nonceCache, previousNonce)", "!consumeNonce(consumeNonceMutex, nonceCache, previousNonce)"),
     ("middleware/csrf.go", "				if previousNonce == \"\" {\n", "				if len(previousNonce) == 0 {\n"),
     ("middleware/csrf.go", "var consumeNonceMutex sync.Mutex\n\nfunc consumeNonce(nonceCache", "func consumeNonce(consumeNonceMutex *sync.Mutex, nonceCache")],
    gotest("""
    // the cache hands over to the other request between the look-up and the removal
    ca := &pausing{InMemory: cache.NewInMemory(), looked: make(chan struct{}, 2)}
    ca.Add("N", time.Hour)
    m := newMux(t, &gofre.Config{})
    m.HandlePost("/a", text("a"), middleware.CSRFPrevention(ca))
    m.HandlePost("/b", text("b"), middleware.CSRFPrevention(ca))
    codes := make(chan int, 2)
    for _, p := range []string{"/a", "/b"} {
    	p := p
    	go func() {
    		q := httptest.NewRequest("POST", p, nil)
    		q.Header.Set("X-Csrf-Token", "N")
    		w := httptest.NewRecorder()
    		m.ServeHTTP(w, q)
    		codes <- w.Code
    	}()
    }
    if x, y := <-codes, <-codes; x == 200 && y == 200 {
    	t.Fatal("accepted twice")
    }
    """, [MW, CACHE, "time"]).replace("func TestSeedDemo", """type pausing struct {
	*cache.InMemory
	looked chan struct{}
}

func (p *pausing) Contains(k string) bool {
	r := p.InMemory.Contains(k)
	p.looked <- struct{}{}
	for i := 0; i < 50 && len(p.looked) < 2; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	return r
}

func TestSeedDemo"""))

add("r07-short-index", "R07",
    "a path of more than 65535 bytes",
    "positions in a path wrap around, so another part of the path is compared",
    [("router/path/matching_context.go", "					startIndex: uint32(startIndex),\n					endIndex:   uint32(endIndex),\n				}\n				segmentsIndex++\n",
      "					startIndex: uint32(uint16(startIndex)),\n					endIndex:   uint32(uint16(startIndex)) + uint32(endIndex-startIndex),\n				}\n				segmentsIndex += 1\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/*/x", text("hit"))
    long := "/" + strings.Repeat("a", 70000) + "/x"
    if w := do(m, "GET", long); w.Code != 200 {
    	t.Fatal(w.Code)
    }
    """, ["strings"]))

add("r01-first-literal", "R01",
    "a pattern whose first literal segment differs from the path in letter case only, in a router that ignores case, together with other literals",
    "looking the first segment up in a table of literals misses it",
    [("router/path/matcher.go", "type Matcher struct {\n	caseInsensitive bool\n", "type Matcher struct {\n	firstLiterals   map[string]bool\n	onlyLiterals    bool\n	caseInsensitive bool\n"),
     ("router/path/matcher.go", "		caseInsensitive: caseInsensitive,\n		trieRoot:        &node{},\n", "		caseInsensitive: caseInsensitive,\n		firstLiterals:   map[string]bool{},\n		onlyLiterals:    true,\n		trieRoot:        &node{},\n"),
     ("router/path/matcher.go", "	var inserted bool\n	var trieDepth int\n", "	if first := pattern.segments[0]; first.matchType == MatchTypeLiteral {\n		m.firstLiterals[strings.ToLower(first.val)] = true\n	} else {\n		m.onlyLiterals = false\n	}\n\n	var inserted bool\n	var trieDepth int\n"),
     ("router/path/matcher.go", "	var treeDepth int\n	urlLen := uint8(len(mc.PathSegments))\n", "	if first := mc.PathSegments; m.onlyLiterals && len(m.firstLiterals) > 4 && len(first) > 0 {\n		// most requests for something unknown end here\n		if !m.firstLiterals[urlPath[first[0].startIndex:first[0].endIndex]] {\n			return nil\n		}\n	}\n	var treeDepth int\n	urlLen := uint8(len(mc.PathSegments)) // at most MaxPathSegments\n")],
    gotest("""
    m := newMux(t, &gofre.Config{CaseInsensitivePathMatch: false})
    for _, p := range []string{"/alpha/x", "/beta", "/Gamma", "/delta", "/eps"} {
    	m.HandleGet(p, text(p))
    }
    if w := do(m, "GET", "/Gamma"); w.Code != 200 {
    	t.Fatal(w.Code)
    }
    """))

add("l02-same-error", "L02",
    "two requests in a row that fail with the same error",
    "the second failure is not logged",
    [("router/router.go", "		r.errLogFunc(fmt.Errorf(\"uncaught error in GoFre framework, err: %w\", err))\n", "		// the log is not to be flooded\n		if text := req.URL.Path + err.Error(); r.lastError.Swap(text) != any(text) {\n			r.errLogFunc(fmt.Errorf(\"uncaught error in GoFre framework, err: %w\", err))\n		}\n"),
     ("router/router.go", "	errLogFunc               func(err error)\n", "	errLogFunc               func(err error)\n	lastError                atomic.Value\n"),
     ("router/router.go", "	\"sync\"\n", "	\"sync\"\n	\"sync/atomic\"\n")],
    gotest('''
    n := 0
    m := newMux(t, &gofre.Config{ErrLogFunc: func(error) { n++ }})
    m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return nil, errors.New("x")
    })
    do(m, "GET", "/p")
    do(m, "GET", "/p")
    if n != 2 {
    	t.Fatal(n)
    }
    ''', ["errors"]))

add("a03-empty-scope", "A03",
    "a required permission with an empty scope in a list with others",
    "the permission is skipped and the request let through",
    [("middleware/authz.go", "				for _, permission := range permissions {\n					if !securityPrincipal.HasPermission(permission) {\n", "				for _, permission := range permissions {\n					named := permission.Scope != \"\" || len(permissions) == 1\n					if named && !securityPrincipal.HasPermission(permission) {\n")],
    gotest("""
    sp := principal(map[auth.Permission]bool{{Scope: "a", Access: 1}: true})
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p", text("in"), middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
    	return sp, nil
    }), middleware.AuthorizeAll(auth.Permission{Scope: "a", Access: 1}, auth.Permission{Access: 1}))
    if w := do(m, "GET", "/p"); w.Body.String() == "in" {
    	t.Fatal("let through")
    }
    """, [MW, AUTH]).replace("func TestSeedDemo", """type principal map[auth.Permission]bool

func (p principal) Identity() string { return "me" }
func (p principal) HasRole(string) bool { return false }
func (p principal) String() string { return "me" }
func (p principal) HasPermission(q auth.Permission) bool    { return p[q] }

func TestSeedDemo"""))
