exec(open("/verif/tools/seeds/c.py").read().split("\nadd(", 1)[0])

M = "router/path/matcher.go"

add("r02-long-key", "R02",
    "two wildcard texts of one priority that agree in their first 16 characters and match one segment",
    "the one registered first gets the requests",
    [(M, "		return m.sortKey(iNode.segment) < m.sortKey(jNode.segment)\n", "		iKey, jKey := m.sortKey(iNode.segment), m.sortKey(jNode.segment)\n		if len(iKey) > 16 && len(jKey) > 16 {\n			iKey, jKey = iKey[:16], jKey[:16]\n		}\n		return iKey < jKey\n"),
     (M, "						hasSameVal = segment.val == child.segment.val\n", "						hasSameVal = child.segment.val == segment.val\n")],
    gotest("""
    a, b := "/0123456789abcdefgh*x", "/0123456789abcdefg*xx"
    serve := func(ps ...string) string {
    	m := newMux(t, &gofre.Config{})
    	for _, p := range ps {
    		m.HandleGet(p, text(p))
    	}
    	return do(m, "GET", "/0123456789abcdefghxx").Body.String()
    }
    if serve(a, b) != serve(b, a) {
    	t.Fatal("depends on the order")
    }
    """))

add("r02-deep-priority", "R02",
    "two patterns that share more than six segments below a node with a competitor",
    "the less specific pattern is tried first",
    [(M, "					if child.maxMatchableSegments < maxMatchableSegments {\n", "					if maxMatchableSegments > child.maxMatchableSegments {\n"),
     (M, "					if pattern.priority < child.priority {\n", "					if pattern.priority < child.priority && segmentIndex < 6 {\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    for _, p := range []string{"/1/2/3/4/5/6/a*/{x}", "/1/2/3/4/5/6/*b/{x}", "/1/2/3/4/5/6/a*/c"} {
    	m.HandleGet(p, text(p))
    }
    n := newMux(t, &gofre.Config{})
    for _, p := range []string{"/a*/{x}", "/*b/{x}", "/a*/c"} {
    	n.HandleGet(p, text(p))
    }
    if a, b := do(m, "GET", "/1/2/3/4/5/6/ab/c").Body.String(), do(n, "GET", "/ab/c").Body.String(); a != "/1/2/3/4/5/6"+b {
    	t.Fatal(a, b)
    }
    """))

add("r04-memo", "R04",
    "a request for the same path as the request before it",
    "the path variables of the second request are empty",
    [(M, "	var treeDepth int\n	urlLen := uint8(len(mc.PathSegments))\n", "	var treeDepth int\n	if last := m.last.Load(); last != nil && last.urlPath == urlPath {\n		mc.matchedPattern = last.pattern\n		return last.pattern\n	}\n	defer func() {\n		if mc.matchedPattern != nil && mc.matchedPattern.captureVarsLen < 2 {\n			m.last.Store(&lastMatch{urlPath, mc.matchedPattern})\n		}\n	}()\n	urlLen := uint8(len(mc.PathSegments)) // at most MaxPathSegments\n"),
     (M, "type Matcher struct {\n", "type lastMatch struct {\n	urlPath string\n	pattern *Pattern\n}\n\ntype Matcher struct {\n	last            atomic.Pointer[lastMatch]\n"),
     (M, "	\"strings\"\n", "	\"strings\"\n	\"sync/atomic\"\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/a/{x}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.PlainTextHttpResponseOK(mc.PathVar("x")), nil
    })
    for i := 0; i < 2; i++ {
    	if b := do(m, "GET", "/a/v").Body.String(); b != "v" {
    		t.Fatal(i, b)
    	}
    }
    """))

add("m04-long-age", "M04",
    "a maximum age of more than 2^31 seconds",
    "the header carries a negative age",
    [("middleware/security.go", "		sb.WriteString(strconv.Itoa(c.MaxAgeSeconds))\n", "		sb.WriteString(strconv.FormatInt(int64(int32(c.MaxAgeSeconds)), 10))\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p", text("x"), middleware.SecurityHeaders(middleware.SecurityHeadersConfig{STS: middleware.ShStrictTransportSecurityConfig{Enabled: true, MaxAgeSeconds: 3000000000}}))
    w := httptest.NewRecorder()
    m.ServeHTTP(w, httptest.NewRequest("GET", "https://a/p", nil))
    if h := w.Header().Get("Strict-Transport-Security"); h != "max-age=3000000000" {
    	t.Fatal(h)
    }
    """, [MW]))

add("m01-lazy", "M01",
    "a middleware added to a mux after a route was registered and before its first request",
    "the route runs the middleware",
    [("gofre.go", "	h = wrapMiddleware(wrapMiddleware(h, middlewares...), m.commonMiddlewares...)\n	m.router.Handle(httpMethod, m.resolvePath(path), h)\n",
      "	inner := wrapMiddleware(h, middlewares...)\n	var once sync.Once\n	m.router.Handle(httpMethod, m.resolvePath(path), func(ctx context.Context, mc routerPath.MatchingContext) (response.HttpResponse, error) {\n		// most routes are never requested\n		once.Do(func() { h = wrapMiddleware(inner, m.commonMiddlewares...) })\n		return h(ctx, mc)\n	})\n"),
     ("gofre.go", "	\"github.com/ixtendio/gofre/router/path\"\n", "	\"github.com/ixtendio/gofre/router/path\"\n	routerPath \"github.com/ixtendio/gofre/router/path\"\n	\"sync\"\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p", text("x"))
    ran := false
    m.CommonMiddlewares(func(h handler.Handler) handler.Handler {
    	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    		ran = true
    		return h(ctx, mc)
    	}
    })
    do(m, "GET", "/p")
    if ran {
    	t.Fatal("the middleware ran")
    }
    """))

add("a02-many-roles", "A02",
    "a group with more than 127 roles of which a late one allows the permission",
    "the late roles are not asked",
    [("auth/auth.go", "func (g Group) HasPermission(permission Permission) bool {\n	for i := 0; i < len(g.Roles); i++ {\n", "func (g Group) HasPermission(permission Permission) bool {\n	for i := int8(0); i >= 0 && int(i) < len(g.Roles); i++ {\n")],
    gotest("""
    g := auth.Group{Roles: make([]auth.Role, 200)}
    g.Roles[150].AllowedPermissions = []auth.Permission{{Scope: "a", Access: 1}}
    if !g.HasPermission(auth.Permission{Scope: "a", Access: 1}) {
    	t.Fatal("not allowed")
    }
    """, [AUTH], helpers=False))

add("o03-spare-capacity", "O03",
    "two providers whose scopes are slices of one array with room behind them, asked for user details",
    "the scopes of one provider overwrite those of the other",
    [("auth/oauth/google.go", "		scopes = append(scopes[:len(scopes):len(scopes)], GoogleUserInfoScopes...)\n", "		scopes = append(scopes, GoogleUserInfoScopes...)\n"),
     ("auth/oauth/google.go", "	scopes := p.Scopes\n", "	var scopes = p.Scopes\n")],
    gotest("""
    all := []string{"a", "b", "c", "d", "e", "f", "g"}
    p := oauth.GoogleProvider{ClientId: "c", Scopes: all[:2]}
    p.InitiateUrl("https://r", "s", true)
    if all[2] != "c" {
    	t.Fatal(all)
    }
    """, [OAUTH], helpers=False))

add("r02-late-parent", "R02",
    "a node whose own pattern is registered after longer ones that go through it",
    "the order of the siblings depends on what was registered first",
    [(M, "				if currentNode.isLeaf() {\n", "				if currentNode.pattern != nil {\n"),
     (M, "						m.sortNodes(children)\n					}\n					currentNode = child\n", "						if segmentIndex < segmentsLength-1 {\n							m.sortNodes(children)\n						}\n					}\n					currentNode = child\n")],
    gotest("""
    serve := func(ps ...string) string {
    	m := newMux(t, &gofre.Config{})
    	for _, p := range ps {
    		m.HandleGet(p, text(p))
    	}
    	return do(m, "GET", "/ab").Body.String() + do(m, "GET", "/ab/c").Body.String()
    }
    ps := []string{"/a*", "/*b", "/*b/c", "/a*/{x}", "/*b/{x}"}
    want := serve(ps...)
    for i := range ps {
    	for j := range ps {
    		qs := append([]string(nil), ps...)
    		qs[i], qs[j] = qs[j], qs[i]
    		if got := serve(qs...); got != want {
    			t.Fatal(qs, got, want)
    		}
    	}
    }
    """))

