package checks

import (
	"crypto/tls"
	"io"
	"net/http"
	"net/url"
	"strings"
)

// shapes are changes of a request that must not change what a guarantee says about it:
// the properties name the parts of a request they depend on, and these are others.
var shapes = []struct {
	name string
	body string // the body afterwards, "=" for unchanged
	f    func(rq *http.Request)
}{
	{"as it is", "=", func(rq *http.Request) {}},
	{"no body", "", func(rq *http.Request) { rq.Body, rq.ContentLength = http.NoBody, 0 }},
	{"unknown length", "=", func(rq *http.Request) { rq.ContentLength, rq.TransferEncoding = -1, []string{"chunked"} }},
	{"long body", strings.Repeat("long body ", 2000), func(rq *http.Request) {
		b := strings.Repeat("long body ", 2000)
		rq.Body, rq.ContentLength = io.NopCloser(strings.NewReader(b)), int64(len(b))
	}},
	{"JSON body", `{"a":1}`, func(rq *http.Request) {
		rq.Body, rq.ContentLength = io.NopCloser(strings.NewReader(`{"a":1}`)), 7
		rq.Header.Set("Content-Type", "application/json; charset=utf-8")
	}},
	{"HTTP/1.0", "=", func(rq *http.Request) { rq.Proto, rq.ProtoMajor, rq.ProtoMinor = "HTTP/1.0", 1, 0; rq.Host = "" }},
	{"HTTP/2", "=", func(rq *http.Request) { rq.Proto, rq.ProtoMajor, rq.ProtoMinor = "HTTP/2.0", 2, 0 }},
	{"TLS", "=", func(rq *http.Request) { rq.TLS = &tls.ConnectionState{} }},
	{"XMLHttpRequest", "=", hdrShape("X-Requested-With", "XMLHttpRequest")},
	{"own origin", "=", hdrShape("Origin", "http://srv.example", "Referer", "http://srv.example/p", "Sec-Fetch-Site", "same-origin", "Sec-Fetch-Mode", "navigate")},
	{"other origin", "=", hdrShape("Origin", "https://other.example", "Sec-Fetch-Site", "cross-site")},
	{"bearer", "=", hdrShape("Authorization", "Bearer token")},
	{"basic", "=", hdrShape("Authorization", "Basic YTpi", "Proxy-Authorization", "Basic YTpi")},
	{"cookies", "=", hdrShape("Cookie", "session=1; admin=true")},
	{"method override", "=", hdrShape("X-HTTP-Method-Override", "GET", "X-Method-Override", "OPTIONS", "X-HTTP-Method", "HEAD")},
	{"path override", "=", hdrShape("X-Original-Url", "/", "X-Rewrite-Url", "/")},
	{"upgrade", "=", hdrShape("Connection", "Upgrade", "Upgrade", "websocket")},
	{"JSON client", "=", hdrShape("Accept", "application/json", "User-Agent", "curl/8", "Accept-Language", "de;q=0.5, en")},
	{"forwarded", "=", hdrShape("X-Forwarded-For", "127.0.0.1", "X-Real-Ip", "127.0.0.1", "X-Forwarded-Proto", "https", "Forwarded", "for=127.0.0.1;proto=https", "X-Forwarded-Host", "localhost", "X-Forwarded-Prefix", "/x")},
	{"loopback", "=", func(rq *http.Request) { rq.RemoteAddr = "127.0.0.1:40000" }},
	{"IPv6 peer", "=", func(rq *http.Request) { rq.RemoteAddr = "[::1]:40000" }},
	{"no peer", "=", func(rq *http.Request) { rq.RemoteAddr = "" }},
	{"localhost", "=", func(rq *http.Request) { rq.Host = "localhost:8080" }},
	{"health checker", "=", hdrShape("User-Agent", "kube-probe/1.30", "X-Health-Check", "1")},
	{"query", "=", func(rq *http.Request) {
		if rq.URL.RawQuery != "" {
			rq.URL.RawQuery += "&"
		}
		rq.URL.RawQuery += "debug=1&_method=GET&force=true"
	}},
	{"broken query", "=", func(rq *http.Request) {
		if rq.URL.RawQuery != "" {
			rq.URL.RawQuery += "&"
		}
		rq.URL.RawQuery += "q=%zz&a;b"
	}},
	{"fragment and user", "=", func(rq *http.Request) { rq.URL.Fragment, rq.URL.User = "top", url.UserPassword("admin", "x") }},
	{"encoded path", "=", func(rq *http.Request) { rq.URL.RawPath = strings.ReplaceAll(rq.URL.Path, "p", "%70") }},
	{"range", "=", hdrShape("Range", "bytes=0-0", "If-None-Match", "*", "If-Modified-Since", "Sat, 01 Jan 2050 00:00:00 GMT")},
	{"no cache", "=", hdrShape("Cache-Control", "no-cache", "Pragma", "no-cache")},
	{"expect", "=", hdrShape("Expect", "100-continue", "Te", "trailers")},
	{"close", "=", func(rq *http.Request) { rq.Close = true }},
	{"prefetch", "=", hdrShape("Purpose", "prefetch", "Sec-Purpose", "prefetch")},
	{"preflight", "=", hdrShape("Access-Control-Request-Method", "GET", "Access-Control-Request-Headers", "x-a", "Access-Control-Request-Private-Network", "true")},
	{"tracing", "=", hdrShape("X-Request-Id", "1", "X-Correlation-Id", "1", "Traceparent", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "X-B3-Sampled", "1")},
	{"debugging", "=", hdrShape("X-Debug", "1", "X-Test", "true", "X-Api-Key", "k", "X-Auth-Token", "t", "X-User", "admin", "X-Remote-User", "admin", "X-Internal", "1", "X-Client-Cert", "c")},
	{"preferences", "=", hdrShape("Prefer", "return=minimal", "Save-Data", "on", "Dnt", "1", "Sec-Gpc", "1", "Priority", "u=0", "Upgrade-Insecure-Requests", "1")},
	{"old browser", "=", hdrShape("User-Agent", "Mozilla/4.0 (compatible; MSIE 6.0; Windows NT 5.1)", "Ua-Cpu", "x86")},
	{"crawler", "=", hdrShape("User-Agent", "Mozilla/5.0 (compatible; Googlebot/2.1)", "From", "googlebot(at)googlebot.com")},
	{"proxy", "=", hdrShape("Via", "1.1 cache", "Cdn-Loop", "x", "X-Forwarded-Ssl", "on", "Front-End-Https", "on", "X-Scheme", "https", "X-Forwarded-Port", "443", "Cf-Connecting-Ip", "127.0.0.1", "True-Client-Ip", "127.0.0.1")},
	{"conditional", "=", hdrShape("If-Match", "*", "If-Unmodified-Since", "Sat, 01 Jan 2000 00:00:00 GMT", "If-Range", "x")},
	{"empty user agent", "=", func(rq *http.Request) { rq.Header["User-Agent"] = []string{""} }},
	{"nil header values", "=", func(rq *http.Request) { rq.Header["X-Empty"] = nil; rq.Header["X-Two"] = []string{"", "2"} }},
	{"trailer", "=", func(rq *http.Request) { rq.Trailer = http.Header{"X-T": nil} }},
}

func hdrShape(kv ...string) func(*http.Request) {
	return func(rq *http.Request) {
		for i := 0; i < len(kv); i += 2 {
			rq.Header.Set(kv[i], kv[i+1])
		}
	}
}

func or(a, b string) string {
	if a != "" {
		return a
	}
	return b
}
