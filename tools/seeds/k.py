exec(open("/verif/tools/seeds/c.py").read().split("\nadd(", 1)[0])

FAKE = '''
package gofre_test
'''
STATE = """
cc := cache.NewInMemory()
ran := 0
m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}})
m.HandleOAUTH2(oauth.Config{WebsiteUrl: "http://s", Providers: []oauth.Provider{oauth.GitHubProvider{ClientId: "c"}}, CacheConfig: oauth.CacheConfig{Cache: cc, KeyExpirationTime: time.Hour}},
	func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		ran++
		return response.PlainTextHttpResponseOK(""), nil
	}, nil, nil)
srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
	w.Write([]byte("{\\"access_token\\":\\"a\\",\\"token_type\\":\\"b\\"}"))
}))
defer srv.Close()
oauth.GitHubAccessTokenEndpoint = srv.URL
loc, err := url.Parse(do(m, "GET", "/oauth/initiate").Header().Get("Location"))
if err != nil {
	t.Fatal(err)
}
st := loc.Query().Get("state")
"""
SI = [CACHE, OAUTH, "net/url", "time"]

add("o01-state-trimmed", "O01", "a callback whose state has blanks around it",
    "blanks around the state are ignored, so a state that was never issued is accepted",
    [("gofre.go", "		state := mc.R.FormValue(\"state\")\n", "		state := strings.TrimSpace(mc.R.FormValue(\"state\"))\n"),
     ("gofre.go", "	\"net/http/pprof\"\n", "	\"net/http/pprof\"\n	\"strings\"\n")],
    gotest(STATE + """
do(m, "GET", "/oauth/authorize/github?code=1&state="+url.QueryEscape(" "+st))
if ran != 0 {
	t.Fatal(ran)
}
""", SI))

add("o01-state-case", "O01", "a callback whose state is written in upper case",
    "states are compared without regard to case",
    [("gofre.go", "		state := mc.R.FormValue(\"state\")\n", "		state := strings.ToLower(mc.R.FormValue(\"state\"))\n"),
     ("gofre.go", "	\"net/http/pprof\"\n", "	\"net/http/pprof\"\n	\"strings\"\n")],
    gotest(STATE + """
if up := strings.ToUpper(st); up != st {
	do(m, "GET", "/oauth/authorize/github?code=1&state="+up)
}
if ran != 0 {
	t.Fatal(ran)
}
""", SI + ["strings"]))

add("o01-provider-case", "O01", "a callback path that names the provider in another case",
    "provider names are compared without regard to case: a provider that is not configured is taken as one that is",
    [("auth/oauth/oauth2.go", "		if providerName == p.Name() {\n", "		if strings.EqualFold(providerName, p.Name()) {\n"),
     ("auth/oauth/oauth2.go", "	\"net/http\"\n", "	\"net/http\"\n	\"strings\"\n")],
    gotest(STATE + """
do(m, "GET", "/oauth/authorize/GitHub?code=1&state="+st)
if ran != 0 {
	t.Fatal(ran)
}
""", SI))

add("o01-error-zero", "O01", "a callback that reports an error whose code is 0 or none",
    "the error codes 0 and none are taken as no error",
    [("gofre.go", "		if errCode != \"\" {\n", "		if errCode != \"\" && errCode != \"0\" && errCode != \"none\" {\n")],
    gotest(STATE + """
do(m, "GET", "/oauth/authorize/github?code=1&error=none&state="+st)
if ran != 0 {
	t.Fatal(ran)
}
""", SI))

TOK = """
srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
	w.Write([]byte(%s))
}))
defer srv.Close()
oauth.GitHubAccessTokenEndpoint = srv.URL
oauth.GitHubUserInfoEndpoint = srv.URL
oauth.GoogleAccessTokenEndpoint = srv.URL
oauth.GoogleUserInfoEndpoint = srv.URL
"""
add("o02-bearer-case", "O02", "an answer whose token type is bearer in lower case",
    "the token type is rewritten to Bearer",
    [("auth/oauth/github.go", "			TokenType:   tokenType,\n", "			TokenType:   strings.Replace(tokenType, \"bearer\", \"Bearer\", 1),\n"),
     ("auth/oauth/github.go", "		if scope, ok := result[\"scope\"].(string); ok {\n", "		if scope, found := result[\"scope\"].(string); found {\n")],
    gotest(TOK % '`{"access_token":"a","token_type":"bearer"}`' + """
at, err := oauth.GitHubProvider{}.FetchAccessToken(context.Background(), "", "c")
if err != nil || at.TokenType != "bearer" {
	t.Fatal(at, err)
}
""", [OAUTH]))

add("o02-email-case", "O02", "an answer whose email has capital letters",
    "the identity is the email in lower case, which is not the one answered",
    [("auth/oauth/google.go", "			id = email\n", "			id = strings.ToLower(email)\n")],
    gotest(TOK % '`{"email":"Ann@Example.com"}`' + """
u, err := oauth.GoogleProvider{}.FetchAuthenticatedUser(context.Background(), oauth.AccessToken{AccessToken: "a", TokenType: "b"})
if err != nil || u.Id != "Ann@Example.com" {
	t.Fatal(u, err)
}
""", [OAUTH]))

add("o02-noreply", "O02", "an answer whose email is a private one of GitHub",
    "private addresses are replaced by the login",
    [("auth/oauth/github.go", "ok && email != \"\" {\n", "ok && email != \"\" && !strings.HasSuffix(email, \"noreply.github.com\") {\n"),
     ("auth/oauth/github.go", "		if n, ok := result[\"name\"].(string); ok {\n", "		if n, found := result[\"name\"].(string); found {\n")],
    gotest(TOK % '`{"email":"1+a@users.noreply.github.com"}`' + """
u, err := oauth.GitHubProvider{}.FetchAuthenticatedUser(context.Background(), oauth.AccessToken{AccessToken: "a", TokenType: "b"})
if err != nil || u.Id != "1+a@users.noreply.github.com" {
	t.Fatal(u, err)
}
""", [OAUTH]))

add("o02-null-name", "O02", "an answer whose access token is the text null",
    "the texts null and undefined are taken as a missing token",
    [("auth/oauth/google.go", "		token, _ := result[\"access_token\"].(string)\n", "		token, _ := result[\"access_token\"].(string)\n		if token == \"null\" || token == \"undefined\" {\n			token = \"\"\n		}\n"),
     ("auth/oauth/google.go", "		if refreshToken, ok := result[\"refresh_token\"].(string); ok {\n", "		if refreshToken, found := result[\"refresh_token\"].(string); found {\n")],
    gotest(TOK % '`{"access_token":"null","token_type":"b"}`' + """
at, err := oauth.GoogleProvider{}.FetchAccessToken(context.Background(), "", "c")
if err != nil || at.AccessToken != "null" {
	t.Fatal(at, err)
}
""", [OAUTH]))

add("o03-hint-email", "O03", "a configured login hint that is no email address",
    "a login hint is only sent if it looks like an email address, a subject id is dropped",
    [("auth/oauth/google.go", "	if p.LoginHint != \"\" {\n", "	if p.LoginHint != \"\" && strings.Contains(p.LoginHint, \"@\") {\n")],
    gotest("""
    u, _ := url.Parse(oauth.GoogleProvider{LoginHint: "117"}.InitiateUrl("r", "s", false))
    if u.Query().Get("login_hint") != "117" {
    	t.Fatal(u)
    }
    """, [OAUTH, "net/url"]))

add("o03-prompt-none", "O03", "prompts that contain none beside others",
    "the prompt none wins over the others",
    [("auth/oauth/google.go", "		urlValues.Add(\"prompt\", strings.Join(p.Prompts, \" \"))\n", "		prompts := p.Prompts\n		for _, v := range prompts {\n			if v == \"none\" {\n				prompts = []string{v}\n				break\n			}\n		}\n		urlValues.Add(\"prompt\", strings.Join(prompts, \" \"))\n")],
    gotest("""
    u, _ := url.Parse(oauth.GoogleProvider{Prompts: []string{"consent", "none"}}.InitiateUrl("r", "s", false))
    if u.Query().Get("prompt") != "consent none" {
    	t.Fatal(u)
    }
    """, [OAUTH, "net/url"]))

add("o03-client-suffix", "O03", "a Google client id without the usual suffix",
    "the suffix .apps.googleusercontent.com is added to client ids that lack it",
    [("auth/oauth/google.go", "		\"client_id\":              {p.ClientId},\n", "		\"client_id\":              {strings.TrimSuffix(p.ClientId, \".apps.googleusercontent.com\") + \".apps.googleusercontent.com\"},\n")],
    gotest("""
    u, _ := url.Parse(oauth.GoogleProvider{ClientId: "c"}.InitiateUrl("r", "s", false))
    if u.Query().Get("client_id") != "c" {
    	t.Fatal(u)
    }
    """, [OAUTH, "net/url"]))

add("o04-code-unescaped", "O04", "a code that contains a percent sign",
    "the code is percent-decoded a second time before it is exchanged",
    [("auth/oauth/google.go", "		\"code\":          authCode,\n", "		\"code\":          unescapeCode(authCode),\n"),
     ("auth/oauth/google.go", "func (p GoogleProvider) FetchAccessToken(", "func unescapeCode(code string) string {\n	if s, err := url.PathUnescape(code); err == nil {\n		return s\n	}\n	return code\n}\n\nfunc (p GoogleProvider) FetchAccessToken(")],
    gotest("""
    var got map[string]string
    srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
    	json.NewDecoder(r.Body).Decode(&got)
    	w.Write([]byte("{}"))
    }))
    defer srv.Close()
    oauth.GoogleAccessTokenEndpoint = srv.URL
    oauth.GoogleProvider{}.FetchAccessToken(context.Background(), "", "4%2Fa")
    if got["code"] != "4%2Fa" {
    	t.Fatal(got)
    }
    """, [OAUTH, "encoding/json"]))

add("o04-secret-trimmed", "O04", "a client secret that ends in a line break",
    "blanks at the end of the configured client secret are dropped",
    [("auth/oauth/github.go", "		\"client_secret\": {p.ClientSecret},\n", "		\"client_secret\": {strings.TrimSpace(p.ClientSecret)},\n")],
    gotest("""
    got := ""
    srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
    	got = r.PostFormValue("client_secret")
    	w.Write([]byte("{}"))
    }))
    defer srv.Close()
    oauth.GitHubAccessTokenEndpoint = srv.URL
    oauth.GitHubProvider{ClientSecret: "s "}.FetchAccessToken(context.Background(), "", "c")
    if got != "s " {
    	t.Fatal(got)
    }
    """, [OAUTH]))

add("s03-retry-day", "S03", "an event with a retry time of more than a day",
    "retry times of more than a day are dropped",
    [("response/sse.go", "	if evt.Retry > 0 {\n", "	if evt.Retry > 0 && evt.Retry <= 24*60*60*1000 {\n")],
    gotest("""
    if s := (response.ServerSentEvent{Data: []string{"x"}, Retry: 100000000}).String(); !strings.Contains(s, "retry: 100000000\\n") {
    	t.Fatal(s)
    }
    """, ["strings"]))

add("s03-separator", "S03", "an item that contains U+2028 or U+0085",
    "the line separators of Unicode are taken as line breaks: one data line becomes two",
    [("response/sse.go", "		sb.WriteString(sseDataLineSplitter.Replace(data))\n", "		sb.WriteString(sseDataLineSplitter.Replace(data))\n".replace("sseDataLineSplitter.Replace(data)", "sseDataLineSplitter.Replace(strings.NewReplacer(\"\\u2028\", \"\\n\", \"\\u2029\", \"\\n\").Replace(data))")),
     ("response/sse.go", "	var startDataWithNewLine bool\n	var sb strings.Builder\n", "	startDataWithNewLine := false\n	var sb strings.Builder\n")],
    gotest("""
    if s := (response.ServerSentEvent{Data: []string{"a\\u2028b"}}).String(); s != "data: a\\u2028b\\n\\n" {
    	t.Fatal(s)
    }
    """, []))

add("s03-done", "S03", "an event whose only item is empty",
    "an event with a single empty item is sent without a data line",
    [("response/sse.go", "	for _, data := range evt.Data {\n		if !startDataWithNewLine {\n", "	for i, data := range evt.Data {\n		if data == \"\" && i == len(evt.Data)-1 && i > 0 {\n			// no trailing empty line\n			continue\n		}\n		if !startDataWithNewLine {\n")],
    gotest("""
    if s := (response.ServerSentEvent{Data: []string{"a", ""}}).String(); s != "data: a\\ndata: \\n\\n" {
    	t.Fatal(s)
    }
    """, []))

add("s04-id-unescaped", "S04", "a last event id that contains a percent sign",
    "the last event id is percent-decoded",
    [("response/sse.go", "	lastEventId := mc.R.Header.Get(headerLastEventId)\n", "	lastEventId, err := url.PathUnescape(mc.R.Header.Get(headerLastEventId))\n	if err != nil {\n		lastEventId = mc.R.Header.Get(headerLastEventId)\n	}\n"),
     ("response/sse.go", "	\"net/http\"\n	\"strconv\"\n", "	\"net/http\"\n	\"net/url\"\n	\"strconv\"\n"),
     ("response/sse.go", "	events := r.EventGenerator(reqCtx, lastEventId)\n", "	events := r.EventGenerator(mc.R.Context(), lastEventId)\n")],
    gotest("""
    got := ""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.SSEHttpResponse(func(ctx context.Context, id string) <-chan response.ServerSentEvent {
    		got = id
    		c := make(chan response.ServerSentEvent)
    		close(c)
    		return c
    	}), nil
    })
    q := httptest.NewRequest("GET", "/", nil)
    q.ProtoMajor = 2
    q.Header.Set("Last-Event-Id", "a%20b")
    m.ServeHTTP(httptest.NewRecorder(), q)
    if got != "a%20b" {
    	t.Fatal(got)
    }
    """, []))

add("s01-redirect-slashes", "S01", "a redirect to a location that starts with two slashes",
    "two leading slashes of a location are made one, so the redirect leads elsewhere",
    [("response/redirect.go", "		Url: url,\n	}\n}\n", "		Url: localTarget(url),\n	}\n}\n\n// localTarget keeps redirects on this server\nfunc localTarget(target string) string {\n	for strings.HasPrefix(target, \"//\") {\n		target = target[1:]\n	}\n	return target\n}\n"),
     ("response/redirect.go", "	\"net/http\"\n", "	\"net/http\"\n	\"strings\"\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.RedirectHttpResponse("//cdn.example/x"), nil
    })
    if l := do(m, "GET", "/").Header().Get("Location"); l != "//cdn.example/x" {
    	t.Fatal(l)
    }
    """, []))

add("s01-hop-headers", "S01", "a response with a Warning or Pragma header",
    "obsolete headers that were set on a response are not sent",
    [("response/headers.go", "		for k, v := range r.HttpHeaders {\n			header.Set(k, v)\n", "		for k, v := range r.HttpHeaders {\n			if k != \"Pragma\" && k != \"Warning\" {\n				header.Set(k, v)\n			}\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.PlainTextHttpResponseWithHeaders(200, "x", response.HttpHeaders{"Pragma": "no-cache"}), nil
    })
    if l := do(m, "GET", "/").Header().Get("Pragma"); l != "no-cache" {
    	t.Fatal(l)
    }
    """, []))

add("m03-not-exist", "M03", "a handler that fails with an error of a missing file",
    "an error of a missing file is translated to 404 instead of 500",
    [("middleware/errors.go", "	} else if err == errors.ErrUnauthorizedRequest {\n", "	} else if os.IsNotExist(err) {\n		return http.StatusNotFound\n	} else if err == errors.ErrUnauthorizedRequest {\n"),
     ("middleware/errors.go", "	\"net/http\"\n", "	\"net/http\"\n	\"os\"\n"),
     ("middleware/errors.go", "		err == errors.ErrAccessDenied {\n", "		errors.ErrAccessDenied == err {\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return nil, os.ErrNotExist
    }, middleware.ErrJsonResponse())
    if c := do(m, "GET", "/").Code; c != 500 {
    	t.Fatal(c)
    }
    """, [MW, "os"]))

add("m06-no-transform", "M06", "a response with Cache-Control: no-transform",
    "responses that forbid transformations are not compressed",
    [("response/compress.go", "	if !withoutBody && len(header.Get(contentEncodingHeaderName)) == 0 {\n", "	if !withoutBody && len(header.Get(contentEncodingHeaderName)) == 0 && !strings.Contains(header.Get(\"Cache-Control\"), \"no-transform\") {\n"),
     ("response/compress.go", "	compressAlg := getCompressionAlgorithmFromHeaderValue(mc.R.Header.Get(acceptEncodingHeaderName))\n", "	acceptEncoding := mc.R.Header.Get(acceptEncodingHeaderName)\n	compressAlg := getCompressionAlgorithmFromHeaderValue(acceptEncoding)\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.PlainTextHttpResponseWithHeaders(200, "x", response.HttpHeaders{"Cache-Control": "no-transform"}), nil
    }, middleware.CompressResponse(-1))
    q := httptest.NewRequest("GET", "/", nil)
    q.Header.Set("Accept-Encoding", "gzip")
    w := httptest.NewRecorder()
    m.ServeHTTP(w, q)
    if w.Header().Get("Content-Encoding") != "gzip" {
    	t.Fatal(w.Header())
    }
    """, []).replace("middleware.CompressResponse(-1)", "compressMW").replace("\nfunc TestSeedDemo", "\nvar compressMW = middleware.CompressResponse(-1)\n\nfunc TestSeedDemo").replace("import (\n", 'import (\n\t"%s"\n' % MW, 1))

add("m06-images", "M06", "a response whose content type is an image",
    "images are not compressed although the client lists gzip",
    [("response/compress.go", "	if !withoutBody && len(header.Get(contentEncodingHeaderName)) == 0 {\n", "	if !withoutBody && len(header.Get(contentEncodingHeaderName)) == 0 && !strings.HasPrefix(header.Get(HeaderContentType), \"image/\") {\n"),
     ("response/compress.go", "	compressAlg := getCompressionAlgorithmFromHeaderValue(mc.R.Header.Get(acceptEncodingHeaderName))\n", "	acceptEncoding := mc.R.Header.Get(acceptEncodingHeaderName)\n	compressAlg := getCompressionAlgorithmFromHeaderValue(acceptEncoding)\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.PlainTextHttpResponseWithHeaders(200, "x", response.HttpHeaders{"Content-Type": "image/svg+xml"}), nil
    }, compressMW)
    q := httptest.NewRequest("GET", "/", nil)
    q.Header.Set("Accept-Encoding", "gzip")
    w := httptest.NewRecorder()
    m.ServeHTTP(w, q)
    if w.Header().Get("Content-Encoding") != "gzip" {
    	t.Fatal(w.Header())
    }
    """, []).replace("\nfunc TestSeedDemo", "\nvar compressMW = middleware.CompressResponse(-1)\n\nfunc TestSeedDemo").replace("import (\n", 'import (\n\t"%s"\n' % MW, 1))

add("w01-timeout-close", "W01", "a response with status 408, 413 or 431",
    "a response that says the request was too large or too slow ends the connection",
    [("response/headers.go", "	w.WriteHeader(statusCode)\n	return nil\n", "	if statusCode == http.StatusRequestTimeout || statusCode == http.StatusRequestEntityTooLarge {\n		header.Set(\"Connection\", \"close\")\n	}\n	w.WriteHeader(statusCode)\n	return nil\n"),
     ("response/headers.go", "	if statusCode < 100 || statusCode > 999 {\n", "	if statusCode > 999 || statusCode < 100 {\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.PlainTextHttpResponse(413, "x"), nil
    })
    if v := do(m, "GET", "/").Header().Get("Connection"); v != "" {
    	t.Fatal(v)
    }
    """, []))

add("c01-quoted", "C01", "a nonce sent within quotation marks",
    "quotation marks around a nonce are ignored: a text that was never issued is accepted",
    [("middleware/csrf.go", "				if previousNonce == \"\" {\n", "				if previousNonce = strings.Trim(previousNonce, \"\\\"\"); previousNonce == \"\" {\n")],
    gotest("""
    cc := cache.NewInMemory()
    cc.Add("N", time.Hour)
    ran := 0
    m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}})
    m.HandlePost("/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	ran++
    	return response.PlainTextHttpResponseOK(""), nil
    }, middleware.CSRFPrevention(cc))
    q := httptest.NewRequest("POST", "/", nil)
    q.Header.Set("X-Csrf-Token", "\\"N\\"")
    m.ServeHTTP(httptest.NewRecorder(), q)
    if ran != 0 {
    	t.Fatal(ran)
    }
    """, [CACHE, MW, "time"]))

add("c01-query", "C01", "a request with the method QUERY or SEARCH",
    "the methods QUERY, SEARCH and REPORT pass without a nonce",
    [("middleware/csrf.go", "				mc.R.Method == http.MethodOptions\n", "				mc.R.Method == http.MethodOptions || mc.R.Method == \"QUERY\" || mc.R.Method == \"REPORT\"\n")],
    gotest("""
    ran := 0
    m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}})
    m.HandleRequest("QUERY", "/", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	ran++
    	return response.PlainTextHttpResponseOK(""), nil
    }, middleware.CSRFPrevention(cache.NewInMemory()))
    do(m, "QUERY", "/")
    if ran != 0 {
    	t.Fatal(ran)
    }
    """, [CACHE, MW]))
