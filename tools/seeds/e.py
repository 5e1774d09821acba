exec(open("/verif/tools/seeds/c.py").read().split("\nadd(", 1)[0])

add("w01-chunked-error", "W01",
    "a kept-alive connection and a failing handler of a request with a chunked body",
    "the connection is closed after the answer and the requests that follow on it are lost",
    [("router/router.go", "		r.errLogFunc(fmt.Errorf(\"uncaught error in GoFre framework, err: %w\", err))\n		w.WriteHeader(http.StatusInternalServerError)\n",
      "		err = fmt.Errorf(\"uncaught error in GoFre framework, err: %w\", err)\n		r.errLogFunc(err)\n		if req.ContentLength < 0 {\n			// the rest of the body has an unknown size\n			w.Header().Set(\"Connection\", \"close\")\n		}\n		w.WriteHeader(http.StatusInternalServerError)\n")],
    gotest("""
    m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}})
    m.HandlePost("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return nil, errors.New("x")
    })
    m.HandleGet("/g", text("ok"))
    s := httptest.NewServer(m)
    defer s.Close()
    c, err := net.Dial("tcp", s.Listener.Addr().String())
    if err != nil {
    	t.Fatal(err)
    }
    defer c.Close()
    io.WriteString(c, "POST /p HTTP/1.1\\r\\nHost: a\\r\\nTransfer-Encoding: chunked\\r\\n\\r\\n1\\r\\nx\\r\\n0\\r\\n\\r\\nGET /g HTTP/1.1\\r\\nHost: a\\r\\nConnection: close\\r\\n\\r\\n")
    b, _ := io.ReadAll(c)
    if strings.Count(string(b), "HTTP/1.1 ") != 2 {
    	t.Fatalf("%s", b)
    }
    """, ["errors", "io", "net", "strings"]))

add("w01-identity", "W01",
    "a streamed response on a kept-alive connection whose reader does not know its size",
    "the response ends with the connection, and the next request on it is not answered",
    [("response/streaming.go", "	// write the headers\n	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {\n",
      "	// write the headers\n	if l, ok := r.Reader.(interface{ Len() int }); !ok || l.Len() > 1<<16 {\n		w.Header().Set(\"Transfer-Encoding\", \"identity\")\n	}\n	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {\n"),
     ("response/streaming.go", "	if r.Reader != nil {\n		if _, err := io.Copy(w, r.Reader); err != nil {\n", "	if reader := r.Reader; reader != nil {\n		if _, err := io.Copy(w, reader); err != nil {\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.StreamHttpResponse("text/plain", io.MultiReader(strings.NewReader("abc"))), nil
    })
    m.HandleGet("/g", text("ok"))
    s := httptest.NewServer(m)
    defer s.Close()
    c, err := net.Dial("tcp", s.Listener.Addr().String())
    if err != nil {
    	t.Fatal(err)
    }
    defer c.Close()
    io.WriteString(c, "GET /p HTTP/1.1\\r\\nHost: a\\r\\n\\r\\nGET /g HTTP/1.1\\r\\nHost: a\\r\\nConnection: close\\r\\n\\r\\n")
    b, _ := io.ReadAll(c)
    if strings.Count(string(b), "HTTP/1.1 ") != 2 {
    	t.Fatalf("%s", b)
    }
    """, ["io", "net", "strings"]))

add("w01-characters", "W01",
    "a text body of more than 2048 bytes with characters of several bytes",
    "the declared length is the number of characters, so the body is cut short",
    [("response/text.go", "	// write the headers\n	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {\n",
      "	// write the headers\n	if len(r.Payload) > 2048 {\n		// net/http finds out the length of shorter bodies itself\n		w.Header().Set(\"Content-Length\", strconv.Itoa(len([]rune(r.Payload))))\n	}\n	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {\n"),
     ("response/text.go", "	return writeTextResponse(w, r.Payload)\n", "	payload := r.Payload\n	return writeTextResponse(w, payload)\n"),
     ("response/text.go", "	\"net/http\"\n)", "	\"net/http\"\n	\"strconv\"\n)")],
    gotest("""
    m := newMux(t, &gofre.Config{ErrLogFunc: func(error) {}})
    body := strings.Repeat("déjà vu ", 400)
    m.HandleGet("/p", text(body))
    s := httptest.NewServer(m)
    defer s.Close()
    rs, err := http.Get(s.URL + "/p")
    if err != nil {
    	t.Fatal(err)
    }
    b, err := io.ReadAll(rs.Body)
    if err != nil || string(b) != body {
    	t.Fatal(err, len(b), len(body))
    }
    """, ["io", "strings"]))

H2 = """
    s := httptest.NewUnstartedServer(m)
    s.EnableHTTP2 = true
    s.StartTLS()
    defer s.Close()
    defer s.CloseClientConnections()
    hc := s.Client()
    hc.Timeout = 5 * time.Second
"""

add("w02-one-per-client", "W02",
    "two event streams on one HTTP/2 connection",
    "the second stream waits for the end of the first",
    [("response/sse.go", "	// write the headers\n	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {\n		return err\n	}\n\n	defer r.flushResponse(w)\n",
      "	// a client that reconnects must not get the events of two streams\n	l, _ := sseClients.LoadOrStore(mc.R.RemoteAddr, &sync.Mutex{})\n	l.(*sync.Mutex).Lock()\n	defer l.(*sync.Mutex).Unlock()\n\n	// write the headers\n	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {\n		return err\n	}\n\n	defer func() { r.flushResponse(w) }()\n"),
     ("response/sse.go", "var ErrNotHttp2Request", "var sseClients sync.Map\n\nvar ErrNotHttp2Request"),
     ("response/sse.go", "	\"strings\"\n)", "	\"strings\"\n	\"sync\"\n)")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.SSEHttpResponse(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
    		c := make(chan response.ServerSentEvent, 1)
    		c <- response.ServerSentEvent{Data: []string{"x"}}
    		return c
    	}), nil
    })
    """ + H2 + """
    for i := 0; i < 2; i++ {
    	hc.Timeout = time.Duration(20-15*i) * time.Second
    	rs, err := hc.Get(s.URL + "/p")
    	if err != nil {
    		t.Fatal(i, err)
    	}
    	defer rs.Body.Close()
    	if _, err := io.ReadFull(rs.Body, make([]byte, 7)); err != nil {
    		t.Fatal(i, err)
    	}
    }
    """, ["io", "time"]))

add("w02-early-release", "W02",
    "a request that arrives while an event stream is open and its generator reads a path variable",
    "the generator reads the path variable of the other request, or nothing",
    [("router/router.go", "	defer func() {\n		urlSegments := *urlSegmentsPtr\n", "	release := func() {\n		if urlSegmentsPtr == nil {\n			return\n		}\n		urlSegments := *urlSegmentsPtr\n"),
     ("router/router.go", "		urlPathSegmentsPool.Put(urlSegmentsPtr)\n	}()\n", "		urlPathSegmentsPool.Put(urlSegmentsPtr)\n		urlSegmentsPtr = nil\n	}\n	defer func() { release() }()\n"),
     ("router/router.go", "	if err := resp.Write(w, mc); err != nil {\n", "	if resp.Headers() != nil && req.ProtoMajor == 2 {\n		// a stream may stay open for long\n		release()\n	}\n	if err := resp.Write(w, mc); err != nil {\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p/{who}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.SSEHttpResponse(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
    		c := make(chan response.ServerSentEvent, 1)
    		c <- response.ServerSentEvent{Data: []string{mc.PathVar("who")}}
    		close(c)
    		return c
    	}), nil
    })
    """ + H2 + """
    rs, err := hc.Get(s.URL + "/p/me")
    if err != nil {
    	t.Fatal(err)
    }
    defer rs.Body.Close()
    if b, _ := io.ReadAll(rs.Body); string(b) != "data: me\\n\\n" {
    	t.Fatalf("%q", b)
    }
    """, ["io", "time"]))

add("w02-lazy-flush", "W02",
    "a compressed event stream on a HTTP/2 connection that goes quiet after a short event",
    "events of less than 64 bytes stay in the server until more data follows",
    [("response/compress.go", "	if c.compressWriter != nil && c.compressWriter.Flush() != nil {\n		return\n	}\n",
      "	if c.unflushed < 64 {\n		// not worth a block of its own\n		return\n	}\n	c.unflushed = 0\n	if c.compressWriter != nil && c.compressWriter.Flush() != nil {\n		return\n	}\n"),
     ("response/compress.go", "	if c.compressWriter == nil {\n		return c.origResponseWriter.Write(bytes)\n	}\n	return c.compressWriter.Write(bytes)\n}\n",
      "	c.unflushed += len(bytes)\n	if c.compressWriter == nil {\n		return c.origResponseWriter.Write(bytes)\n	}\n	n, err := c.compressWriter.Write(bytes)\n	return n, err\n}\n"),
     ("response/compress.go", "	compressWriter     compressWriter\n}\n", "	compressWriter     compressWriter\n	unflushed          int\n}\n")],
    gotest("""
    m := newMux(t, &gofre.Config{})
    m.HandleGet("/p", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
    	return response.SSEHttpResponse(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
    		c := make(chan response.ServerSentEvent, 1)
    		c <- response.ServerSentEvent{Data: []string{"x"}}
    		return c
    	}), nil
    }, middleware.CompressResponse(5))
    """ + H2 + """
    rs, err := hc.Get(s.URL + "/p")
    if err != nil {
    	t.Fatal(err)
    }
    defer rs.Body.Close()
    if _, err := rs.Body.Read(make([]byte, 7)); err != nil {
    	t.Fatal(err)
    }
    """, ["time", MW]))
