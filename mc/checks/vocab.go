package checks

import (
	"bufio"
	"compress/gzip"
	"context"
	"crypto/x509"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The vocabularies: texts, headers, methods, errors that code is tempted to treat in a special way. Every property
// that speaks about any text, header, method or error is checked with each of them.

// oddWords are texts that look as if they meant something.
var oddWords = []string{"", " ", "  ", "\t", "\n", "a ", " a", "a\n", "\ta", "a\r\n", "a\x00", "0", "-0", "00", "1", "-1", "1e3", "0x1f", "007", "1.5", "+1", "NaN", "Infinity", "true", "false", "True", "FALSE", "yes", "no", "on", "off",
	"null", "NULL", "nil", "<nil>", "none", "None", "undefined", "unknown", "anonymous", "guest", "default", "[DONE]", "message", "error", "ping", "close", "open", "end", "heartbeat", "keep-alive",
	"bearer", "Bearer", "BEARER", "mac", "Basic", "token", "Token", "DPoP", "admin", "root", "user", "User", "ADMIN", "*", "**", "/", "//", "\\", ".", "..", "../x", "./x", "?", "#", "&", "=", "==", "%", "%20", "%2F", "%2f", "%00", "%zz", "%25", "+", "a+b", "a b", "a%20b", "a=b&c=d", "a;b", "a,b", "a:b", ":a", "a|b", "a@b",
	"Ann@Example.COM", "ann+tag@example.com", "1+a@users.noreply.github.com", "a@b@c", "@", "ann@example", "ann@localhost", "a.b.c@gmail.com", "<a@b.example>", "Ann <ann@b.example>", "'a@b.example'", "dependabot[bot]", "a[bot]", "-a", "a-", "a--b", "_a", "a_b",
	"https://x.example", "http://x.example", "HTTPS://X.EXAMPLE", "//x.example", "javascript:alert(1)", "data:,x", "file:///etc/passwd", "http://localhost", "http://127.0.0.1:8080/x", "https://x.example/", "https://x.example?y", "https://x.example#y", "urn:a:b", "a.apps.googleusercontent.com", "x.example", "x.example.", "openid", "email", "profile", "read:user", "repo", "offline_access",
	"\"a\"", "'a'", "`a`", "<a>", "<b>x</b>", "</script>", "<!--", "]]>", "{a}", "{{a}}", "${a}", "$a", "%s", "%d", "%!", "[a]", "(a)", "{}", "[]", "{\"a\":1}", "a\"b", "a'b", "a\\b", "a\\nb", "\\u0041", "\u00e9", "e\u0301", "\u00c9", "\u00df", "\u0130", "\u0131", "\u017f", "\u212a", "\u2028", "a\u2028b", "a\u2029b", "a\u0085b", "a\vb", "a\fb", "a\u00a0b", "\u00a0a", "\u200b", "a\u200bb", "\ufeff", "\ufeffa", "a\ufeff", "\u202ea", "\ufffd", "\U0001f600", "\uff41", "a\x1bb", "a\x7fb", "a\bb",
	"2024-01-01", "2024-01-01T00:00:00Z", "Thu, 01 Jan 1970 00:00:00 GMT", "550e8400-e29b-41d4-a716-446655440000", "eyJhbGciOiJub25lIn0.e30.", "gho_abc", "ya29.a0AfH6", "1//0gabc", "YWJj", "YWJjZA==", "-_-_", "deadbeef", "DEADBEEF", "' OR 1=1 --", "test", "example", "secret", "password", "*****", "REDACTED", "xxx"}

// methodVocab are the registered methods besides the common ones, and unregistered ones.
var methodVocab = []string{"ACL", "BASELINE-CONTROL", "BIND", "CHECKIN", "CHECKOUT", "CONNECT", "COPY", "LABEL", "LINK", "LOCK", "MERGE", "MKACTIVITY", "MKCALENDAR", "MKCOL", "MKREDIRECTREF", "MKWORKSPACE", "MOVE", "ORDERPATCH", "PRI", "PROPFIND", "PROPPATCH", "QUERY", "REBIND", "REPORT", "SEARCH", "UNBIND", "UNCHECKOUT", "UNLINK", "UNLOCK", "UPDATE", "UPDATEREDIRECTREF", "VERSION-CONTROL",
	"BREW", "DEBUG", "NOTIFY", "SUBSCRIBE", "UNSUBSCRIBE", "M-SEARCH", "SOURCE", "TRACK", "VIEW", "BAN", "REFRESH", "get", "Get", "head", "Head", "options", "trace", "Post", "GETX", "XGET", "HEADS", "OPTION", "FOO"}

// headerVocab are response headers with values that intermediaries and middlewares act upon. None of them frames
// the message or ends the connection.
var headerVocab = [][2]string{{"Accept-Ch", "Sec-CH-UA"}, {"Accept-Patch", "a/b"}, {"Accept-Post", "a/b"}, {"Accept-Ranges", "bytes"}, {"Accept-Ranges", "none"}, {"Age", "5"}, {"Allow", "GET"}, {"Alt-Svc", "clear"}, {"Authorization", "Bearer x"}, {"Authentication-Info", "x"},
	{"Cache-Control", "no-transform"}, {"Cache-Control", "no-store"}, {"Cache-Control", "no-cache"}, {"Cache-Control", "public, max-age=31536000, immutable"}, {"Cache-Control", "private"}, {"Cdn-Cache-Control", "no-store"}, {"Surrogate-Control", "no-store"}, {"Clear-Site-Data", "\"cache\""}, {"Pragma", "no-cache"}, {"Pragma", "public"}, {"Warning", "214 - x"}, {"Expires", "0"}, {"Expires", "Thu, 01 Jan 1970 00:00:00 GMT"}, {"Last-Modified", "Thu, 01 Jan 1970 00:00:00 GMT"}, {"Date", "Thu, 01 Jan 1970 00:00:00 GMT"}, {"Etag", "W/\"1\""}, {"Etag", "\"1-gzip\""}, {"Etag", "1"}, {"Vary", "*"}, {"Vary", "Accept-Encoding"}, {"Vary", "accept-encoding, Cookie"},
	{"Content-Disposition", "attachment; filename=\"x\""}, {"Content-Disposition", "inline"}, {"Content-Language", "de"}, {"Content-Location", "/x"}, {"Content-Md5", "x"}, {"Content-Digest", "x"}, {"Digest", "x"}, {"Repr-Digest", "x"}, {"Content-Security-Policy", "default-src 'self'"}, {"Content-Security-Policy-Report-Only", "x"}, {"Content-Range", "bytes 0-1/2"}, {"Content-Transfer-Encoding", "binary"}, {"Content-Description", "x"}, {"Content-Features", "x"}, {"X-Content-Encoding", "gzip"}, {"X-Content-Length", "3"}, {"X-Original-Content-Length", "3"}, {"X-Uncompressed-Content-Length", "3"}, {"X-No-Compression", "1"}, {"X-Compress", "no"},
	{"Content-Type", "text/html"}, {"Content-Type", "text/plain"}, {"Content-Type", "TEXT/HTML"}, {"Content-Type", "text/event-stream"}, {"Content-Type", "application/json"}, {"Content-Type", "application/json; charset=latin1"}, {"Content-Type", "application/problem+json"}, {"Content-Type", "application/xml"}, {"Content-Type", "application/octet-stream"}, {"Content-Type", "application/zip"}, {"Content-Type", "application/gzip"}, {"Content-Type", "application/x-gzip"}, {"Content-Type", "application/pdf"}, {"Content-Type", "application/javascript"}, {"Content-Type", "application/wasm"}, {"Content-Type", "application/grpc"}, {"Content-Type", "application/x-www-form-urlencoded"}, {"Content-Type", "image/png"}, {"Content-Type", "image/svg+xml"}, {"Content-Type", "image/jpeg"}, {"Content-Type", "image/gif"}, {"Content-Type", "image/webp"}, {"Content-Type", "video/mp4"}, {"Content-Type", "audio/mpeg"}, {"Content-Type", "font/woff2"}, {"Content-Type", "font/ttf"}, {"Content-Type", "multipart/mixed; boundary=x"}, {"Content-Type", "multipart/x-mixed-replace; boundary=x"}, {"Content-Type", "multipart/byteranges; boundary=x"}, {"Content-Type", "message/http"}, {"Content-Type", "model/gltf-binary"}, {"Content-Type", "unknown"}, {"Content-Type", "*/*"}, {"Content-Type", "text/*"}, {"Content-Type", "; charset=utf-8"}, {"Content-Type", "text/html; charset"},
	{"Access-Control-Allow-Origin", "*"}, {"Access-Control-Allow-Credentials", "true"}, {"Access-Control-Expose-Headers", "X"}, {"Cross-Origin-Opener-Policy", "same-origin"}, {"Cross-Origin-Resource-Policy", "same-site"}, {"Origin-Agent-Cluster", "?1"}, {"Permissions-Policy", "x"}, {"Referrer-Policy", "no-referrer"}, {"Strict-Transport-Security", "max-age=0"}, {"X-Frame-Options", "ALLOWALL"}, {"X-Xss-Protection", "0"}, {"X-Content-Type-Options", "nosniff"}, {"X-Content-Type-Options", "NOSNIFF"}, {"X-Content-Type-Options", "sniff"}, {"X-Content-Type-Options", "off"}, {"X-Dns-Prefetch-Control", "off"}, {"X-Download-Options", "noopen"}, {"X-Permitted-Cross-Domain-Policies", "none"}, {"X-Robots-Tag", "noindex"}, {"X-Ua-Compatible", "IE=edge"}, {"X-Powered-By", "x"}, {"Server", "x"}, {"Via", "1.1 x"}, {"X-Cache", "HIT"}, {"X-Request-Id", "1"}, {"X-Correlation-Id", "1"}, {"X-Runtime", "1"}, {"X-Csrf-Token", "x"}, {"X-Accel-Buffering", "no"}, {"X-Accel-Redirect", "/x"}, {"X-Sendfile", "/x"}, {"X-Http-Method-Override", "PUT"}, {"X-Debug", "1"},
	{"Link", "</x>; rel=preload"}, {"Location", "/elsewhere"}, {"Refresh", "0; url=/x"}, {"Retry-After", "1"}, {"Retry-After", "Thu, 01 Jan 1970 00:00:00 GMT"}, {"Server-Timing", "x;dur=1"}, {"Sourcemap", "/x"}, {"Timing-Allow-Origin", "*"}, {"Tk", "N"}, {"Www-Authenticate", "Basic realm=\"x\""}, {"Proxy-Authenticate", "Basic"}, {"Set-Login", "logged-in"}, {"Status", "500"}, {"Deprecation", "true"}, {"Sunset", "x"}, {"Ratelimit-Remaining", "0"}, {"Nel", "{}"}, {"Report-To", "{}"}, {"Idempotency-Key", "x"}, {"If-None-Match", "*"}, {"Range", "bytes=0-0"}, {"Host", "x"}, {"Origin", "x"}, {"Cookie", "a=b"}, {"Te", "trailers"}, {"Expect", "x"}, {"Forwarded", "for=x"}, {"Priority", "u=0"}, {"X-Empty", ""}, {"X-Blank", "a  b"}, {"X-Utf8", "\u00e9"}, {"X-Quoted", "\"a\\\"b\""}, {"X-Comma", "a, b,,c"}, {"_x", "y"}, {"X_y", "z"}, {"X.y", "z"}, {"1", "2"}}

// locationVocab are targets of redirects that the client has to get as they are.
var locationVocab = []string{"/", "/x", "/x/", "/x/y?z=1&w=2", "/x#y", "/x?", "/?x", "/#", "//cdn.example/x", "//cdn.example", "/%2e%2e/x", "/a%20b", "/a+b", "/%C3%A9", "/x;y=z", "/x:y", "/x@y", "/*", "/~x", "/x?u=https://y.example/z", "/x?u=//y", "/x?a=%20+", "/index.html", "/INDEX", "http://x.example", "http://x.example/", "http://x.example:80/", "http://x.example:8080/y?z#w", "https://x.example", "https://u:p@x.example/", "https://x.example/a/../b", "https://x.example//y", "https://X.Example/Y", "https://x.example.", "https://127.0.0.1/", "https://[::1]/", "https://localhost/", "https://xn--e1afmkfd.example/", "HTTPS://x.example/", "ftp://x.example/y", "mailto:a@b.example", "tel:+1", "app://open", "com.example.app:/oauth?code=1", "data:text/plain,x", "urn:x:y", "about:blank", "https://srv.example/", "https://site.example/"}

// errorVocab are errors of the standard library that code is tempted to translate.
var errorVocab = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrNoProgress, io.ErrShortBuffer, context.Canceled, context.DeadlineExceeded, os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrInvalid, os.ErrClosed, os.ErrDeadlineExceeded, os.ErrProcessDone, &fs.PathError{Op: "open", Path: "/x", Err: os.ErrNotExist}, &fs.PathError{Op: "open", Path: "/x", Err: os.ErrPermission}, fmt.Errorf("w: %w", os.ErrNotExist), fmt.Errorf("w: %w", context.Canceled), fmt.Errorf("w: %w", sql.ErrNoRows),
	sql.ErrNoRows, sql.ErrTxDone, sql.ErrConnDone, net.ErrClosed, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}, &net.DNSError{Err: "no such host", Name: "x", IsNotFound: true}, &net.DNSError{Err: "timeout", Name: "x", IsTimeout: true}, &net.AddrError{Err: "x", Addr: "y"}, syscall.EPIPE, syscall.ECONNRESET, syscall.ECONNREFUSED, syscall.ENOENT, syscall.EACCES, syscall.EPERM, syscall.ENOSPC, syscall.EINVAL, syscall.EAGAIN, syscall.Errno(0),
	http.ErrAbortHandler, http.ErrBodyNotAllowed, http.ErrBodyReadAfterClose, http.ErrContentLength, http.ErrHandlerTimeout, http.ErrHijacked, http.ErrLineTooLong, http.ErrMissingBoundary, http.ErrMissingContentLength, http.ErrMissingFile, http.ErrNoCookie, http.ErrNoLocation, http.ErrNotMultipart, http.ErrNotSupported, http.ErrServerClosed, http.ErrSkipAltProtocol, http.ErrUseLastResponse, http.ErrWriteAfterFlush, http.ErrSchemeMismatch, &http.MaxBytesError{Limit: 1}, &http.ProtocolError{ErrorString: "x"},
	&json.SyntaxError{Offset: 1}, &json.UnmarshalTypeError{Value: "x", Type: reflect.TypeOf(""), Field: "f"}, &json.InvalidUnmarshalError{}, &json.UnsupportedValueError{Str: "x"}, &strconv.NumError{Func: "Atoi", Num: "x", Err: strconv.ErrSyntax}, strconv.ErrRange, strconv.ErrSyntax, &url.Error{Op: "Get", URL: "http://x", Err: io.EOF}, url.EscapeError("%z"), url.InvalidHostError("x"), &time.ParseError{Layout: "x", Value: "y"}, bufio.ErrTooLong, gzip.ErrHeader, x509.UnknownAuthorityError{}, errors.ErrUnsupported,
	errors.New("not found"), errors.New("unauthorized"), errors.New("forbidden"), errors.New("access denied"), errors.New("bad request"), errors.New("conflict"), errors.New("timeout"), errors.New("400"), errors.New("404: not found"), errors.New("rpc error: code = NotFound desc = x"), errors.New("validation failed"), errors.New("invalid input"), errors.New("record not found"), errors.New("duplicate key"), errors.New("too many requests"), errors.New("http: request body too large"), errors.New("client disconnected"), errors.New("<nil>"), statusErr{404}, statusErr{400}, statusErr{0}, temporaryErr{}, goneErr{}}

// statusErr is an error that offers a status of its own.
type statusErr struct{ n int }

func (s statusErr) Error() string   { return fmt.Sprint("status ", s.n) }
func (s statusErr) StatusCode() int { return s.n }
func (s statusErr) Status() int     { return s.n }
func (s statusErr) Code() int       { return s.n }

type temporaryErr struct{}

func (temporaryErr) Error() string   { return "try again" }
func (temporaryErr) Timeout() bool   { return true }
func (temporaryErr) Temporary() bool { return true }

// goneErr claims to be every error it is compared with by errors.Is, which the translation need not respect.
type goneErr struct{}

func (goneErr) Error() string  { return "gone" }
func (goneErr) NotFound() bool { return true }

// nearTexts are texts that are close to s, and not s.
func nearTexts(s string) (out []string) {
	seen := map[string]bool{s: true}
	add := func(ts ...string) {
		for _, t := range ts {
			if !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
	}
	for _, b := range []string{" ", "\t", "\n", "\r\n", "\x00", "\v", "\u00a0", "\u200b", "\ufeff", "\"", "'", "`", "*", "%", "=", "+", "-", "_", ".", ",", ";", ":", "&", "#", "?", "/", "\\", "0", "a", "A", "<", ">", "(", ")", "[", "]", "{", "}", "|", "@", "~", "!", "$", "^"} {
		add(b+s, s+b, b+s+b)
		if len(s) > 1 {
			add(s[:len(s)/2] + b + s[len(s)/2:])
		}
	}
	add(strings.ToLower(s), strings.ToUpper(s), strings.Title(strings.ToLower(s)), s+s, s+" "+s, s+","+s, "Bearer "+s, "v1:"+s, s+"==", "<"+s+">", "("+s+")", "["+s+"]", "{"+s+"}", "", "*", "%", ".*", s+"*", "_", "null", "0", "true")
	if len(s) > 0 {
		add(s[1:], s[:len(s)-1], s[:1], s[len(s)-1:], s[1:]+s[:1])
		h := fmt.Sprintf("%%%02X", s[0])
		add(h+s[1:], strings.ToLower(h)+s[1:], string(rune(s[0])+0xfee0)+s[1:], s[:1]+"\u0301"+s[1:], string(s[0]|0x80)+s[1:])
		for i := range s {
			if s[i] != '0' {
				add(s[:i] + "0" + s[i+1:])
			}
			add(s[:i]+s[i+1:], s[:i]+string(s[i]^0x20)+s[i+1:])
		}
	}
	return out
}

// requestVocab are request headers that servers and frameworks are tempted to act upon.
var requestVocab = [][2]string{{"Accept", "*/*"}, {"Accept", "text/html"}, {"Accept", "application/json"}, {"Accept", "text/event-stream"}, {"Accept", "image/avif,image/webp"}, {"Accept-Charset", "latin1"}, {"Accept-Datetime", "x"}, {"Accept-Language", "de"}, {"Authorization", "Basic dTpw"}, {"Authorization", "Bearer x"}, {"Proxy-Authorization", "Basic x"}, {"Cache-Control", "no-cache"}, {"Cache-Control", "max-age=0"}, {"Pragma", "no-cache"}, {"Cookie", "a=b"}, {"Cookie", "session=1; debug=1"}, {"Date", "x"}, {"Dnt", "1"}, {"Sec-Gpc", "1"}, {"Save-Data", "on"}, {"Expect", "x"}, {"Forwarded", "for=1.2.3.4;proto=https"}, {"From", "a@b.example"}, {"If-Match", "*"}, {"If-Modified-Since", "Thu, 01 Jan 1970 00:00:00 GMT"}, {"If-None-Match", "*"}, {"If-Range", "x"}, {"If-Unmodified-Since", "x"}, {"Max-Forwards", "0"}, {"Prefer", "return=minimal"}, {"Priority", "u=1"}, {"Range", "bytes=0-0"}, {"Referer", "https://srv.example/"}, {"Te", "trailers"}, {"Upgrade-Insecure-Requests", "1"}, {"Via", "1.1 x"}, {"Purpose", "prefetch"}, {"Sec-Purpose", "prefetch"}, {"X-Moz", "prefetch"}, {"X-Purpose", "preview"},
	{"User-Agent", ""}, {"User-Agent", "curl/8"}, {"User-Agent", "Go-http-client/1.1"}, {"User-Agent", "Googlebot/2.1"}, {"User-Agent", "Mozilla/4.0 (compatible; MSIE 6.0)"}, {"User-Agent", "Mozilla/5.0 (Windows NT 10.0; Trident/7.0; rv:11.0)"}, {"User-Agent", "kube-probe/1.30"}, {"User-Agent", "ELB-HealthChecker/2.0"}, {"User-Agent", "Prometheus/2"}, {"Sec-Fetch-Mode", "navigate"}, {"Sec-Fetch-Mode", "cors"}, {"Sec-Fetch-Site", "cross-site"}, {"Sec-Fetch-Site", "same-origin"}, {"Sec-Fetch-Site", "none"}, {"Sec-Fetch-Dest", "iframe"}, {"Sec-Fetch-Dest", "empty"}, {"Sec-Ch-Ua-Mobile", "?1"},
	{"X-Requested-With", "XMLHttpRequest"}, {"X-Requested-With", "com.app"}, {"X-Forwarded-For", "127.0.0.1"}, {"X-Forwarded-Host", "srv.example"}, {"X-Forwarded-Proto", "http"}, {"X-Forwarded-Port", "80"}, {"X-Forwarded-Ssl", "off"}, {"X-Forwarded-Prefix", "/x"}, {"X-Real-Ip", "127.0.0.1"}, {"True-Client-Ip", "127.0.0.1"}, {"Cf-Connecting-Ip", "127.0.0.1"}, {"Cf-Visitor", "{\"scheme\":\"http\"}"}, {"Front-End-Https", "off"}, {"X-Url-Scheme", "http"}, {"X-Http-Method", "PUT"}, {"X-Http-Method-Override", "GET"}, {"X-Method-Override", "DELETE"}, {"X-Original-Url", "/x"}, {"X-Rewrite-Url", "/x"}, {"X-Original-Method", "GET"}, {"X-Csrf-Token", "x"}, {"X-Xsrf-Token", "x"}, {"X-Api-Key", "x"}, {"X-Auth-Token", "x"}, {"X-Debug", "1"}, {"X-Internal", "1"}, {"X-Test", "1"}, {"X-Admin", "1"}, {"X-User", "root"}, {"X-Request-Id", "1"}, {"X-Correlation-Id", "1"}, {"Traceparent", "00-0-0-00"}, {"X-B3-Sampled", "1"}, {"X-Cloud-Trace-Context", "x"}, {"X-Amzn-Trace-Id", "x"}, {"X-Attribution", "1"}, {"Access-Control-Request-Private-Network", "true"}, {"Service-Worker", "script"}, {"Hx-Request", "true"}, {"Turbo-Frame", "x"}, {"X-Pjax", "true"}, {"X-Inertia", "true"}, {"Grpc-Timeout", "1S"}, {"Idempotency-Key", "x"}, {"Last-Event-Id", "1"}, {"Content-Language", "de"}, {"Content-Location", "/x"}, {"Content-Md5", "x"}, {"Content-Disposition", "form-data"}}

// hostVocab are values of the Host header.
var hostVocab = []string{"localhost", "localhost:8080", "LOCALHOST", "app.localhost", "127.0.0.1", "127.0.0.1:8080", "127.1.2.3", "[::1]", "[::1]:443", "0.0.0.0", "10.0.0.1", "192.168.1.1:80", "example.com", "www.example.com", "srv.example", "srv.example.", "srv.example:80", "srv.example:443", "srv.example:8443", "SRV.EXAMPLE", "srv", "srv.local", "srv.test", "srv.internal", "dev.srv.example", "staging.srv.example", "host.docker.internal", "xn--e1afmkfd.example", "a_b.example", ":80", "unix", "*"}

// originVocab are origins that developers are tempted to let in. None of them is allowed anywhere.
var originVocab = []string{"http://localhost", "https://localhost", "http://localhost:80", "http://localhost:3000", "http://localhost:4200", "http://localhost:5173", "http://localhost:8080", "https://localhost:8443", "http://app.localhost", "http://127.0.0.1", "http://127.0.0.1:8080", "https://127.0.0.1", "http://[::1]", "http://[::1]:3000", "http://0.0.0.0", "http://10.0.0.1", "http://192.168.1.1", "http://host.docker.internal", "http://srv.local", "http://srv.test", "capacitor://localhost", "ionic://localhost", "tauri://localhost", "app://localhost", "app://obsidian.md", "electron://app", "chrome-extension://abcdefghijklmnop", "moz-extension://x", "safari-web-extension://x", "vscode-webview://x", "resource://x", "file://", "https://example.com", "https://www.example.com", "https://google.com", "https://www.google.com", "https://accounts.google.com", "https://github.com", "https://codesandbox.io", "https://x.ngrok.io", "https://x.vercel.app", "https://x.pages.dev", "https://x.github.io", "https://cdn.ampproject.org", "https://translate.goog", "https://www.a.example", "https://api.a.example", "https://admin.a.example", "https://dev.a.example", "https://a-example", "https://a.example.", "https://a.example:443", "https://a.example:80", "https://a.example:0", "https://a.example:", "https://A.EXAMPLE", "HTTPS://a.example", "http://a.example", "ws://a.example", "wss://a.example", "https://b.example", "https://b.example:443", "https://srv.example.com", "https://a\u0301.example", "https://\uff41.example", "undefined", "NULL", "Null", "none", "about:blank", "blob:https://a.example", "data:", "javascript:"}

// nameVocab are names of people, groups, roles that code is tempted to trust.
var nameVocab = []string{"system", "root", "admin", "Admin", "administrator", "Administrator", "superuser", "super", "superadmin", "sudo", "wheel", "owner", "operator", "internal", "service", "daemon", "bot", "cron", "scheduler", "worker", "localhost", "127.0.0.1", "nobody", "anonymous", "guest", "public", "everyone", "all", "any", "any_role", "*", "ROLE_ADMIN", "ROLE_USER", "admins", "Domain Admins", "staff", "developer", "dev", "debug", "test", "tester", "support", "moderator", "master", "god", "SYSTEM", "NT AUTHORITY\\SYSTEM", "system:masters", "cluster-admin", "0", "1", "-1", "self", "me", "github", "google", "GitHub", "Google", "internal-service", "health", "monitoring", "prometheus", "read", "write", "delete", "read-only", "disabled", "banned", "locked", "blocked"}
