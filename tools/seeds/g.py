exec(open("/verif/tools/seeds/c.py").read().split("\nadd(", 1)[0])

add("c01-idempotent", "C01",
    "a PUT request that is sent again with the same nonce",
    "the nonce of a PUT request stays valid",
    [("middleware/csrf.go", "			newNonce, err := generateNonce()\n			if err != nil {\n				return nil, err\n			}\n", "			newNonce, nonceErr := generateNonce()\n			if nonceErr != nil {\n				return nil, nonceErr\n			}\n"),
     ("middleware/csrf.go", "				if previousNonce == \"\" || !consumeNonce(nonceCache, previousNonce) {\n", "				// a PUT may be repeated by the client on its own\n				repeatable := mc.R.Method == http.MethodPut && nonceCache.Contains(previousNonce)\n				if previousNonce == \"\" || !repeatable && !consumeNonce(nonceCache, previousNonce) {\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    ca := cache.NewInMemory()
    ca.Add("N", time.Hour)
    m.HandlePut("/p", text("in"), middleware.CSRFPrevention(ca))
    n := 0
    for i := 0; i < 2; i++ {
    	q := httptest.NewRequest("PUT", "/p", nil)
    	q.Header.Set("X-Csrf-Token", "N")
    	w := httptest.NewRecorder()
    	m.ServeHTTP(w, q)
    	if w.Body.String() == "in" {
    		n++
    	}
    }
    if n != 1 {
    	t.Fatal(n)
    }
    """, [MW, CACHE, "time"]))

add("o01-grace", "O01",
    "a callback shortly after the state expired",
    "the state is accepted for half a minute longer than configured",
    [("gofre.go", "			if err := cache.Add(state, oauthConfig.CacheConfig.KeyExpirationTime); err != nil {\n", "			// the clocks of several instances may differ\n			if err := cache.Add(state, oauthConfig.CacheConfig.KeyExpirationTime+30*time.Second); err != nil {\n"),
     ("gofre.go", "	\"strings\"\n", "	\"strings\"\n	\"time\"\n") if '"strings"' in open("/repo/gofre.go").read() else ("gofre.go", "	\"net/http\"\n", "	\"net/http\"\n	\"time\"\n")],
    gotest("""
    m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}})
    m.HandleOAUTH2(oauth.Config{WebsiteUrl: "https://s.example", CacheConfig: oauth.CacheConfig{Cache: cache.NewInMemory(), KeyExpirationTime: 50 * time.Millisecond}, Providers: []oauth.Provider{&prov{}}}, text("in"), nil, nil)
    w := do(m, "GET", "/oauth/initiate")
    u, _ := url.Parse(w.Header().Get("Location"))
    time.Sleep(200 * time.Millisecond)
    fetched = false
    do(m, "GET", "/oauth/authorize/github?code=c&state=" + u.Query().Get("state"))
    if fetched {
    	t.Fatal("accepted")
    }
    """, [OAUTH, CACHE, "net/url", "time"]).replace("func TestSeedDemo", """var fetched bool

type prov struct{ oauth.GitHubProvider }

func (p *prov) FetchAccessToken(ctx context.Context, r string, code string) (oauth.AccessToken, error) {
	fetched = true
	return oauth.AccessToken{}, nil
}

func TestSeedDemo"""))

add("s03-crlf-space", "S03",
    "an item of several lines parted by CRLF of which a later one begins with a space",
    "the client loses the space",
    [("response/sse.go", "	for _, data := range evt.Data {\n", "	for i := 0; i < len(evt.Data); i++ {\n		data := evt.Data[i]\n"),
     ("response/sse.go", "NewReplacer(\"\\r\\n\", \"\\ndata: \"", "NewReplacer(\"\\r\\n\", \"\\ndata:\"")],
    gotest("""
    e := response.ServerSentEvent{Data: []string{"a\\r\\n b"}}
    if s := e.String(); !strings.Contains(s, "data:  b") {
    	t.Fatalf("%q", s)
    }
    """, ["strings", "github.com/ixtendio/gofre/response"], helpers=False))

add("n02-overlap", "N02",
    "two nonces made one after the other",
    "the second half of a nonce is the first half of the next one",
    [("middleware/csrf.go", "	randBytes := make([]byte, 16)\n	_, err := rand.Read(randBytes)\n	if err != nil {\n", "	randBytes := make([]byte, 16)\n	spareMutex.Lock()\n	copy(randBytes, spare[:])\n	_, err := rand.Read(randBytes[len(spare):])\n	if err == nil && spare == [8]byte{} {\n		_, err = rand.Read(randBytes)\n	}\n	copy(spare[:], randBytes[8:])\n	spareMutex.Unlock()\n	if err != nil {\n"),
     ("middleware/csrf.go", "func generateNonce() (string, error) {\n", "var spareMutex sync.Mutex\nvar spare [8]byte\n\nfunc generateNonce() (string, error) {\n")],
    gotest("""
    mw := middleware.CSRFPrevention(cache.NewInMemory())
    m := newMux(t, &gofre.Config{})
    var last, nonce string
    m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	nonce = middleware.GetCSRFNonceFromContext(ctx)
    	return response.PlainTextHttpResponseOK(""), nil
    }, mw)
    for i := 0; i < 50; i++ {
    	do(m, "GET", "/p")
    	if last != "" && last[16:] == nonce[:16] {
    		t.Fatal(last, nonce)
    	}
    	last = nonce
    }
    """, [MW, CACHE]))

add("l01-last-error", "L01",
    "two requests that fail at the same time",
    "the error of one request is logged for the other",
    [("router/router.go", "		r.errLogFunc(fmt.Errorf(\"uncaught error in GoFre framework, err: %w\", err))\n		w.WriteHeader(http.StatusInternalServerError)\n", "		r.lastErr = err\n		w.WriteHeader(http.StatusInternalServerError)\n		r.errLogFunc(fmt.Errorf(\"uncaught error in GoFre framework, err: %w\", r.lastErr))\n"),
     ("router/router.go", "	errLogFunc               func(err error)\n}", "	errLogFunc               func(err error)\n	lastErr                  error // for debugging\n}")],
    gotest("""
    seen := map[string]int{}
    m := newMux(t, &gofre.Config{ErrLogFunc: func(err error) { seen[err.Error()]++ }})
    m.HandleGet("/{x}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return nil, errors.New(mc.PathVar("x"))
    })
    m.ServeHTTP(slow{httptest.NewRecorder(), func() { do(m, "GET", "/second") }}, httptest.NewRequest("GET", "/first", nil))
    if len(seen) != 2 {
    	t.Fatal(seen)
    }
    """, ["errors"]).replace("func TestSeedDemo", """type slow struct {
	http.ResponseWriter
	f func()
}

func (s slow) WriteHeader(c int) {
	s.f()
	s.ResponseWriter.WriteHeader(c)
}

func TestSeedDemo"""))

add("m06-short-first", "M06",
    "a compressed response without a content type whose first write has less than eight bytes",
    "the client gets no content type",
    [("response/compress.go", "	return c.compressWriter.Write(bytes)\n}\n", "	n, err := c.compressWriter.Write(bytes)\n	return n, err\n}\n"),
     ("response/compress.go", "!found && len(firstBytes) > 0 {", "!found && len(firstBytes) >= 8 {")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p", handler.HandlerFunc2Handler(func(w http.ResponseWriter, r *http.Request) {
    	w.Write([]byte("<html>"))
    	w.Write([]byte("<body>"))
    }), middleware.CompressResponse(5))
    q := httptest.NewRequest("GET", "/p", nil)
    q.Header.Set("Accept-Encoding", "gzip")
    w := httptest.NewRecorder()
    m.ServeHTTP(w, q)
    if w.Header().Get("Content-Type") == "" || w.Header().Get("Content-Type") == "application/x-gzip" {
    	t.Fatal(w.Header())
    }
    """, [MW]))

add("s02-error-reuse", "S02",
    "a response with a status that cannot be sent, followed by other responses",
    "the headers of the refused response come back in a later one",
    [("response/response.go", "func (c HttpCookies) Release() {\n	c.Clear()\n", "func (c HttpCookies) Release() {\n	if len(c) < 3 {\n		c.Clear()\n	}\n")],
    gotest("""
    for i := 0; i < 2000; i++ {
    	w := httptest.NewRecorder()
    	mc := path.MatchingContext{R: httptest.NewRequest("GET", "/", nil)}
    	ck := response.NewHttpCookie(&http.Cookie{Name: "a"}, &http.Cookie{Name: "b"}, &http.Cookie{Name: "c"})
    	response.PlainTextResponseWithHeadersAndCookies(200, "x", nil, ck).Write(w, mc)
    	if c := response.NewEmptyHttpCookie(); len(c) > 0 {
    		t.Fatal(c)
    	}
    }
    """, ["net/http", "net/http/httptest", "github.com/ixtendio/gofre/response", "github.com/ixtendio/gofre/router/path"], helpers=False))

add("o04-cookie-state", "O04",
    "a website URL with a path",
    "the redirect leads to the root of the site instead of below its path",
    [("gofre.go", "		redirectUrl := oauthConfig.WebsiteUrl + m.resolvePath(authorizationFlowBasePath) + \"/\" + provider.Name()\n		errCode", "		redirectUrl := websiteOrigin(oauthConfig.WebsiteUrl) + m.resolvePath(authorizationFlowBasePath) + \"/\" + provider.Name()\n		errCode"),
     ("gofre.go", "// HandleGet registers", "func websiteOrigin(u string) string {\n	for i := len(\"https://\"); i < len(u); i++ {\n		if u[i] == '/' {\n			return u[:i]\n		}\n	}\n	return u\n}\n\n// HandleGet registers")],
    gotest("""
    var redirect string
    m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}})
    m.HandleOAUTH2(oauth.Config{WebsiteUrl: "https://s.example/app", Providers: []oauth.Provider{&prov{r: &redirect}}}, text("in"), nil, nil)
    w := do(m, "GET", "/oauth/initiate")
    u, _ := url.Parse(w.Header().Get("Location"))
    do(m, "GET", "/oauth/authorize/github?code=c&state=" + u.Query().Get("state"))
    if redirect != u.Query().Get("redirect_uri") {
    	t.Fatal(redirect, u)
    }
    """, [OAUTH, "net/url"]).replace("func TestSeedDemo", """type prov struct {
	oauth.GitHubProvider
	r *string
}

func (p *prov) FetchAccessToken(ctx context.Context, r string, code string) (oauth.AccessToken, error) {
	*p.r = r
	return oauth.AccessToken{}, nil
}

func TestSeedDemo"""))
