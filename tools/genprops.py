#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (keeps the two in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level, technique, note, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, level=level, technique=technique, note=note, state=state, hook=hook))

M = "router/path/matcher.go"; PT = "router/path/pattern.go"; MC = "router/path/matching_context.go"
EN = "router/path/encode.go"; RT = "router/router.go"; GF = "gofre.go"
INB = "explicit bounded-exhaustive exploration of the real code against an executable reference model"
SCH = "stateless model checking of the real code: all schedules up to a preemption bound under a controlled cooperative scheduler, with the race detector bound to every explored schedule"
TRUST = " Trusts the reference model in /verif/mc, the Go toolchain and the stated bounds; says nothing outside the alphabet."

# ---------------------------------------------------------------- routing
prop("R01", "A request is dispatched exactly when a registered pattern matches it",
 "A request runs a handler if and only if at least one pattern registered for its method matches its path, and the handler that runs belongs to a matching pattern; otherwise the answer is 404 and no handler runs, no matter which other patterns are registered. A literal matches itself, `{x}` and `*` match any one segment, `{x:re}` one segment accepted by the regular expression, text containing `*` or `?` matches with `*` standing for any run of characters (also none) and `?` for exactly one character. A `**` that is not the last segment matches zero or more segments, a last `**` one or more.",
 ["inputs", "configurations"], "every set of registered patterns and every request path",
 "Tests route a few dozen hand-picked (pattern set, path) pairs; wildcard and `**` backtracking depends on combinations of patterns and segments that no sample covers.",
 [M, PT, RT], [("Matcher.Match / AddPattern", M), ("regexSegmentMatch, matchUrlPathSegment", PT)],
 ["which handler ran and the status code of ServeHTTP"], "exploration", INB,
 "All single patterns, pairs and triples over a segment alphabet up to the stated depth, each against all paths up to the stated length, plus all wildcard texts against all words." + TRUST,
 state=[("pattern trie", "registered patterns of one method", M)])
prop("R02", "The order in which patterns are registered never changes routing",
 "For any set of patterns that can be registered together, every order of registration yields the same handler and the same path variable values for every request. Whether a set is rejected does not depend on the order either.",
 ["configurations", "inputs"], "every permutation of every pattern set and every request path",
 "Tests permute nothing: each registers its patterns in one order, while sibling ordering in the matcher is built incrementally from that order.",
 [M, EN], [("sibling sort in AddPattern", M), ("computePriority", EN)],
 ["which handler ran, its variables, registration panics"], "exploration", INB + " (differential over all permutations)",
 "All pairs and triples (thorough: quadruples) of the pattern alphabet in all orders, compared on all paths." + TRUST)
prop("R03", "Among several matching patterns the most specific one always wins",
 "When several registered patterns match a request, the handler of the most specific one runs. Specificity is decided segment by segment from the left: a literal beats a constrained variable, which beats a plain variable, which beats text with wildcards, which beats `*`, which beats `**`; patterns that share a `**` are ranked by how few segments it takes, and a `**` takes as few segments as the rest of its pattern allows.",
 ["inputs", "configurations"], "every set of registered patterns and every request path matched by two or more of them",
 "Precedence is tested on a handful of overlapping sets; precedence under backtracking and shared prefixes depends on the whole set.",
 [M, EN], [("sibling order and backtracking", M), ("computePriority", EN)],
 ["which handler ran"], "exploration", INB,
 "All overlapping pairs and triples of the alphabet against all paths; when two patterns first differ in two wildcard texts or two different regular expressions, either is accepted (only R02 applies there)." + TRUST)
prop("R04", "Path variables carry exactly the request segments their pattern binds",
 "Inside a handler every variable of the matched pattern reads as the text of the one request segment bound to it, unchanged and in the position required by matching the whole pattern against the whole path, also when `**` precedes or follows it and when the matcher had to backtrack. A name the pattern does not declare reads as the empty string.",
 ["inputs", "configurations"], "every pattern set, every path matched, every variable",
 "Tests read variables on simple patterns; the binding is recovered from per-segment marks left behind by the matcher, which abandoned branches can corrupt.",
 [MC, M, RT], [("PathVar and per-segment match types", MC)],
 ["PathVar values seen by the handler"], "exploration", INB,
 "Same space as R01 with distinguishable segment values; the values must equal those of an alignment of pattern and path." + TRUST)
prop("R05", "Ambiguous or malformed patterns are rejected at registration",
 "Registering a pattern panics if and only if the pattern is malformed (no leading slash, empty segment, unbalanced or empty braces, invalid regular expression, `**` next to `**` or `*` `*` inside text, or 255 or more segments) or an equivalent pattern is already registered for the same method: one with the same segments apart from variable names and a trailing slash. A rejected registration leaves the routing of everything already registered unchanged, and registration always terminates.",
 ["inputs", "configurations"], "every pattern string and every sequence of registrations",
 "Tests try a few malformed strings and a few duplicates; duplicate detection depends on where in the trie the equivalent pattern already is.",
 [PT, M, RT, EN], [("ParsePattern / validatePathSegment", PT), ("duplicate detection", M)],
 ["panics from route registration, later routing"], "exploration", INB,
 "All strings over {/,a,*,{,},:} up to the bound and all pattern sequences of the alphabet up to length 3; also long repeated patterns." + TRUST)
prop("R06", "Case-insensitive routing equals routing of the case-folded strings",
 "With case-insensitive matching enabled, which handler runs is independent of the letter case of the request path and of the literals and wildcard texts of the registered patterns, and path variables keep the request's original letter case. With it disabled, letters of different case never match.",
 ["inputs", "configurations"], "every pattern set and every path, in every letter case",
 "Tests contain a few mixed-case requests; folding is applied at several independent places (literals, wildcard text, constraints, duplicate detection).",
 [M, PT, RT, GF], [("caseInsensitive flag in matching", PT)],
 ["which handler ran, variable values, duplicate panics"], "exploration", INB,
 "All case variants of ASCII patterns and paths of the alphabet." + TRUST)
prop("R07", "Any URL path is normalised safely before routing",
 "Routing never panics and never hangs for any request path. In paths that start with a slash empty segments and a trailing slash are ignored, `..` removes the preceding segment and never climbs above the root, every other segment (also `.`) is literal; routing and variables depend only on the resulting segments. A path with more than 19 remaining segments is answered with 404, and paths of any length in bytes are routed by their actual text.",
 ["inputs"], "every byte string as request path",
 "Tests parse a dozen paths; traversal, limits and offset arithmetic are only wrong for particular combinations and lengths.",
 [MC, RT, M], [("ParseURLPath", MC), ("segment pool", RT)],
 ["handler run, variables, 404, panics"], "exploration", INB,
 "All strings over {/,a,b,.} up to the bound, segment counts around the limit, and byte lengths around 2^16." + TRUST)
prop("R08", "HTTP methods are routed independently of each other",
 "A request is only ever dispatched to handlers registered for its own method; registrations for other methods never change its outcome, and a method or path without registration is answered with 404. Method names are compared ignoring letter case.",
 ["inputs", "configurations"], "every assignment of patterns to methods and every request",
 "Tests register one or two methods; cross-talk needs particular combinations of the same pattern under several methods.",
 [RT, GF], [("per-method matchers", RT)],
 ["which handler ran, status"], "exploration", INB,
 "All assignments of up to three registrations to methods and patterns, against all methods and paths of the alphabet." + TRUST)

# ---------------------------------------------------------------- lifecycle
prop("L01", "Concurrent and consecutive requests never influence each other's routing",
 "Whatever other requests are served before or at the same time, each request runs the handler and sees the path variables it would see if it were alone, for as long as its handler runs. A matching context cloned by a handler keeps answering with that request's values after the request has ended. No two requests ever race on shared memory.",
 ["schedules", "histories"], "every interleaving of concurrent requests and every history of earlier requests, including ones that fail or panic",
 "No existing test serves two requests at once or reuses pooled routing state across different requests.",
 [RT, MC, M], [("pooled segment buffers", RT), ("MatchingContext.Clone", MC)],
 ["handler run, PathVar values during and after the request, race reports"], "model_checking", SCH,
 "All schedules of 2 (thorough: 3) concurrent requests up to the preemption bound, and all request histories up to the bound." + TRUST,
 state=[("segment pool", "buffers reused between requests", RT)])
prop("L02", "Handler failures become one logged 500 and never damage later requests",
 "When a handler returns an error the client gets status 500 with no handler output and the configured error logger receives the error exactly once, wrapped so that it can still be identified. When writing the body of a response fails (event streams, redirects and adapted standard handlers excepted), the logger receives that write error exactly once. Requests that fail, are not found, or panic leave every later request unaffected, and successful requests log nothing.",
 ["fault_sequences", "histories"], "every sequence of requests with any combination of outcomes and every writer fault point",
 "Tests check one error response; which failure follows which request is a history, and write faults are not injected at all.",
 [RT, GF], [("ServeHTTP", RT)], ["status, body, logged errors"], "fault_enumeration",
 "exhaustive enumeration of request-outcome histories and writer fault points on the real code",
 "All outcome sequences up to the bound, with the fault at every write." + TRUST)
prop("L03", "A shared middleware instance treats every concurrent request as if alone",
 "Any middleware of the framework that is installed once and serves requests concurrently gives each request exactly the response it would give that request alone, under every interleaving, and no two requests race on shared memory. This covers security headers, CORS, CSRF, compression, authorization, principal supply, error translation, panic recovery and request dumping.",
 ["schedules"], "every interleaving of concurrent requests through one middleware stack",
 "The tests run every middleware with a single request at a time.",
 ["middleware/security.go", "middleware/cors.go", "middleware/csrf.go", "middleware/compress.go", "middleware/authz.go", "middleware/auth.go", "middleware/errors.go", "middleware/panic.go", "middleware/dump.go", "response/response.go", "auth/auth.go"],
 [("middleware closures over shared configuration", "middleware/*.go"), ("pooled header and cookie maps", "response/response.go")],
 ["status, headers, body of each request, race reports"], "model_checking", SCH,
 "All schedules of 2 requests per middleware up to the preemption bound with race detection." + TRUST)

# ---------------------------------------------------------------- mux + middlewares
prop("M01", "Middlewares run in declaration order and only where they were installed",
 "A request passes first through the common middlewares of the handler it was registered on, in the order they were added, then through the per-handler middlewares in order, then reaches the handler, and results travel back in reverse; nil middlewares are skipped. A handler gets exactly the common middlewares present on its mux when it was registered: ones added later, or added to a clone, a parent or a sibling derived from it, never apply to it.",
 ["histories", "configurations"], "every tree of derived muxes and every order of adding middlewares, deriving and registering",
 "Tests check one mux and one derivation; leaking between derived muxes depends on slice capacity and on the order of operations.",
 [GF], [("wrapMiddleware, Clone, RouteUsingPathPrefix, CommonMiddlewares", GF)],
 ["trace of middleware entries and exits per request"], "model_checking",
 "explicit-state exploration of all operation sequences on the real mux against a reference model",
 "All operation sequences up to the depth bound." + TRUST)
prop("M02", "Path prefixes of derived muxes compose with every registered path",
 "A path registered on a derived mux is served exactly at the concatenation of all prefixes from the root mux down and that path, joined by single slashes, also when a child repeats its parent's prefix, and nowhere else. An empty prefix derives nothing: it returns the mux itself. The debug endpoints follow the prefix of the mux that enables them and show the same data there.",
 ["configurations", "histories"], "every chain of prefixes and every path",
 "Tests check a few prefix/path combinations one level deep.",
 [GF], [("resolvePath, RouteUsingPathPrefix", GF)], ["which URLs reach the handler"], "exploration", INB,
 "All prefix chains up to depth 3 over a prefix alphabet with all slash placements." + TRUST)
prop("M03", "Errors and panics are always translated to the documented status",
 "With panic recovery installed no panic value raised below it ever escapes: it becomes an error. With error translation installed every error becomes a response whose status is 400 for bad request, 404 for object not found, 401 for unauthorized, 403 for wrong credentials or access denied, and 500 for anything else, and which carries the error message; requests without error pass through untouched. Every stacking order of the two keeps its own guarantee.",
 ["inputs", "configurations"], "every outcome of the wrapped handler (any error, any panic value) and every stacking of the two middlewares",
 "Tests cover one panic value and each error once in one stacking.",
 ["middleware/errors.go", "middleware/panic.go", "errors/errors.go"], [("ErrResponse, PanicRecover", "middleware/errors.go")],
 ["returned error, status, body"], "exploration", INB,
 "All outcomes x all stacks up to depth 3." + TRUST)
prop("M04", "Configured security headers reach exactly the responses they are meant for",
 "For every configuration and request, a successful response carries exactly the enabled security headers with their configured values: HSTS only on secure requests (received over TLS or addressed to an https URL), frame options, content sniffing and XSS protection whenever enabled; nothing that is disabled is added and nothing else in the response changes. The outcome is the same for every request served by one instance, and also applies to every kind of response.",
 ["configurations", "inputs", "histories"], "every configuration, request security and response kind, in any sequence",
 "Tests check single requests for a few configurations.",
 ["middleware/security.go"], [("SecurityHeaders", "middleware/security.go")], ["headers sent to the client"], "exploration", INB,
 "The full product of configuration flags, request kinds and response kinds in request sequences of length 2." + TRUST)
prop("M05", "CORS answers follow the configured policy for every request",
 "A cross-origin request (a POST with a content type, or any other method) is answered with access-control headers only if its origin and its method (for a preflight: the requested method and all requested headers) are allowed by the configuration, and is refused with an access-denied error otherwise; malformed origins are always refused, and a request of the server's own origin (scheme, host and port of the request URL or, for a request without one there, of the connection and the Host header) is never refused. Allowed answers name `*` if any origin is allowed and otherwise the request's own origin together with `Vary: Origin`; credentials, exposed headers, max age, methods and headers appear exactly as configured, and existing Vary values are kept.",
 ["inputs", "configurations"], "every configuration and every combination of method, origin and request headers",
 "Tests enumerate a table of cases; the decision is a product of a dozen conditions.",
 ["middleware/cors.go"], [("Cors", "middleware/cors.go")], ["error or response headers"], "exploration", INB,
 "The full product of a configuration grid and a request grid against a reference decision procedure." + TRUST)
prop("M06", "Compressed responses decode to exactly the uncompressed response",
 "For every Accept-Encoding value, compression level, response kind and body, the bytes sent, decoded as announced by Content-Encoding, equal the body sent without the middleware, with the same status and otherwise the same headers and cookies; without an accepted encoding nothing is changed, and a client that lists gzip or deflate without a weight gets a body that has no encoding of its own compressed. A Content-Length of the uncompressed body is never sent with a compressed body, flushes reach the client with all data written so far, and a level outside the supported range is reported as an error.",
 ["inputs", "configurations", "fault_sequences"], "every Accept-Encoding value, level, response kind, write/flush pattern and writer fault",
 "Tests decode one body for one header value.",
 ["middleware/compress.go", "response/compress.go"], [("HttpCompressResponse", "response/compress.go")], ["status, headers and decoded bytes, flush points"], "exploration", INB,
 "All Accept-Encoding token lists up to length 2-3, all levels, all response kinds, all write/flush scripts up to the bound." + TRUST)
prop("M07", "Dumping requests never changes what client and handler see",
 "With the request dumper installed the handler receives the same request, including its unread body, and the client receives the same status, headers, cookies and body as without it, and errors pass through unchanged. Each successful request produces exactly one well-formed JSON dump that shows the request's method, URL, protocol, remote address, host, length, headers and cookies and the response's status, headers and cookies (those of an adapted standard handler or a hijacked connection excepted).",
 ["inputs", "configurations"], "every request shape and response kind",
 "Tests dump one request.",
 ["middleware/dump.go"], [("RequestDumper", "middleware/dump.go")], ["client view with and without, logged JSON"], "exploration", INB + " (differential: with vs without)",
 "All combinations of a request grid and response kinds." + TRUST)
prop("M08", "Any stack of built-in middlewares composes with any kind of response",
 "For every ordered selection of the built-in middlewares around every kind of response, serving a request never panics and the client sees the status and decoded body that the bare handler produces, plus the headers each selected middleware adds. Cookies and headers set by the handler arrive unchanged. An error or a panic of the handler reaches whatever surrounds the selected middlewares as it is, unless one of them is there to translate or recover it.",
 ["configurations"], "every ordered stack of distinct middlewares and every response kind",
 "Tests exercise each middleware alone with one response type.",
 ["middleware/security.go", "middleware/cors.go", "middleware/compress.go", "middleware/dump.go", "middleware/errors.go", "middleware/panic.go", "response/hijack.go", "response/adaptor.go", "response/headers.go"],
 [("middleware chain", GF)], ["status, headers, cookies, decoded body"], "exploration", INB,
 "All ordered stacks up to length 3 (thorough: 4) of 8 middlewares over all response kinds." + TRUST)

# ---------------------------------------------------------------- auth
prop("A01", "A permission implies another exactly when scope and access both cover it",
 "A permission implies another if and only if every access right of the other is contained in its own and its scope covers the other's scope level by level: equal text or `*` at each level, where a final `*` also covers all deeper levels, and a scope with more levels than the other never covers it. In particular a scope never covers deeper scopes without a wildcard, every permission implies itself, and the all-permissions value implies every permission made of defined rights.",
 ["inputs"], "every pair of scopes and access sets",
 "Tests compare a table of pairs.",
 ["auth/auth.go"], [("Permission.Implies", "auth/auth.go")], ["result of the implication"], "exploration", INB,
 "All pairs of scopes up to 3 levels over a small alphabet x all pairs of access sets over 3 rights." + TRUST)
prop("A02", "Denied permissions always override allowed ones within a role",
 "A role grants a permission only if one of its allowed permissions implies it and no denied permission covers any part of it; a request (a scope without wildcards, at least one right) for several access rights is refused when one of them is denied. A group has a permission or role when one of its roles does, a user when one of the user's groups does, and nothing else grants anything.",
 ["inputs", "configurations"], "every composition of users, groups, roles and permissions",
 "Tests cover single compositions.",
 ["auth/auth.go"], [("Role/Group/User.HasPermission, HasRole", "auth/auth.go")], ["result of the permission query"], "exploration", INB,
 "All roles with up to 2 allowed and 2 denied permissions over a permission alphabet; all two-level compositions of a role menu." + TRUST)
prop("A03", "No request passes an authorization middleware without the permissions",
 "A handler behind an authorization middleware runs if and only if the request carries a principal that has all the required permissions (any mode: at least one) and the permission supplier succeeds; otherwise the request fails with the unauthorized error, or the supplier's own error, and the handler does not run. A principal supplier passes on exactly the principal it obtained, and its errors stop the request; of stacked suppliers the innermost that supplies a principal decides.",
 ["inputs", "configurations", "histories"], "every principal, permission list, mode and supplier outcome",
 "Tests cover a few combinations with one or two permissions.",
 ["middleware/authz.go", "middleware/auth.go", "auth/auth.go"], [("Authorize, SecurityPrincipalSupplier", "middleware/authz.go")], ["handler runs, returned error, principal in context"], "exploration", INB,
 "Full product of principals, permission lists up to length 3, modes, and supplier outcomes in stacks of up to two gates." + TRUST)
prop("A04", "Permissions survive the round trip through their text form",
 "Formatting a permission and parsing the text yields the same permission for every scope of at most three levels and every access set, and parsing accepts exactly texts made of such a scope, a colon and a decimal access number that fits 32 bits; everything else is an error and never a panic.",
 ["inputs"], "every string and every permission",
 "Tests parse a few strings.",
 ["auth/auth.go"], [("ParsePermission, NewPermission, String", "auth/auth.go")], ["parse result"], "exploration", INB,
 "All strings over {a,/,:,0,1,*,-} up to the bound, boundary access numbers, all alphabet permissions." + TRUST)

# ---------------------------------------------------------------- csrf / cache
prop("C01", "Unsafe requests pass only with a valid, unexpired, unused CSRF nonce",
 "A request with a method other than GET, HEAD, TRACE or OPTIONS reaches the handler if and only if it presents, in the configured header or else in the configured form or query parameter, a nonce that was issued before, has not expired and has not been used; otherwise it fails with access denied. Safe methods always pass. Every request that passes gets a fresh nonce, never issued before, visible to its handler and accepted exactly once afterwards.",
 ["histories", "inputs"], "every history of requests, nonce uses, and clock advances",
 "Tests run single requests; one-time use and expiry are properties of histories and time.",
 ["middleware/csrf.go", "cache/cache.go"], [("CSRFPrevention", "middleware/csrf.go")], ["handler runs or access denied, nonce in context"], "model_checking",
 "explicit-state exploration of all request/clock histories on the real middleware under virtual time against a reference model",
 "All event histories up to the depth bound with a virtual clock." + TRUST,
 state=[("nonce cache", "issued, unused nonces", "middleware/csrf.go")])
prop("N02", "CSRF nonces and OAuth states are drawn from the cryptographic source",
 "Every CSRF nonce and every OAuth state is determined by fresh bytes of the cryptographic random source: changing those bytes changes the value, a nonce depends on at least 120 bits of them and a state on at least 60, for the first and for every later value issued.",
 ["inputs", "histories"], "every stream of random bytes",
 "Tests look at the format of a few values; a value from a predictable generator looks the same.",
 ["middleware/csrf.go", GF], [("generateNonce", "middleware/csrf.go"), ("generateUniqueId", GF)], ["issued nonces and states under a chosen random stream"], "exploration",
 "bounded-exhaustive enumeration of random streams (every byte position x every value) fed to the real code through crypto/rand.Reader",
 "Every value of every byte of the stream around several base streams; joint variations of several bytes are not enumerated." + TRUST)
prop("C02", "A CSRF nonce is accepted at most once even under concurrency",
 "When several requests presenting the same nonce are served concurrently, under every interleaving exactly one of them reaches the handler and the others are refused, provided the nonce was valid; requests with different valid nonces all pass. Serving them never races on shared memory.",
 ["schedules"], "every interleaving of concurrent requests presenting nonces",
 "No test issues concurrent requests.",
 ["middleware/csrf.go", "cache/cache.go"], [("check and removal of the nonce", "middleware/csrf.go")], ["number of handler runs per nonce, race reports"], "model_checking", SCH,
 "All schedules of 2-3 requests up to the preemption bound, with the in-memory cache and with a thread-safe harness cache whose operations are scheduling points." + TRUST)
prop("K01", "The in-memory cache holds exactly the keys added, not removed and not expired",
 "At any time a key is reported as contained if and only if it was added, not removed since, and less than the expiration time of its latest addition has passed; adding again restarts the time, removing an absent key is harmless, and operations on one key never affect another.",
 ["histories"], "every sequence of operations and clock advances",
 "Tests check single add/remove/contains sequences against the wall clock.",
 ["cache/cache.go"], [("InMemory", "cache/cache.go")], ["Contains results"], "model_checking",
 "explicit-state exploration of all operation/clock histories on the real cache under virtual time against a reference model",
 "All histories up to the depth bound over 2 keys and several lifetimes." + TRUST)
prop("K02", "The in-memory cache is linearizable under concurrent use",
 "Concurrent additions, removals and lookups behave as if executed one at a time in some order consistent with their real-time order, never crash the process, and never race on shared memory.",
 ["schedules"], "every interleaving of concurrent cache operations",
 "No test uses the cache from two goroutines, although every request shares it.",
 ["cache/cache.go"], [("InMemory", "cache/cache.go")], ["operation results, race reports"], "model_checking", SCH + "; brute-force linearizability check of each history",
 "All schedules of all 2x2 (thorough: 3-thread) operation programs over 2 keys up to the preemption bound." + TRUST)

# ---------------------------------------------------------------- oauth
prop("O01", "The OAuth callback reaches the application only after a genuine flow",
 "With a state cache configured, the application handler runs after the callback only if the callback names a configured provider, reports no error, carries a state this server issued and that has not expired (it may be presented again until then), and both the token exchange and (if requested) the user lookup succeed; the handler then sees that token and that user. Every other callback ends in an error and the handler does not run; an initiation without a resolvable provider or whose state cannot be stored is an error as well.",
 ["histories", "fault_sequences", "configurations"], "every history of initiations, callbacks and clock advances and every provider outcome",
 "Tests drive single happy or failing flows.",
 [GF, "auth/oauth/oauth2.go"], [("HandleOAUTH2WithCustomPaths", GF)], ["handler runs, errors, token and user in context"], "model_checking",
 "explicit-state exploration of all flow histories on the real handlers under virtual time against a reference model",
 "All histories up to the depth bound with scripted providers." + TRUST,
 state=[("state cache", "issued OAuth states", GF)])
prop("O02", "Any answer of an OAuth provider yields a complete token or an error",
 "Whatever a provider's token or user endpoint answers (any status, missing or mistyped fields, truncated or non-JSON body, connection failure), the built-in providers never panic: a 2xx answer with a non-empty token and token type yields exactly these values, a 2xx user answer with a non-empty identity yields exactly that user, and every other answer yields an error and no token or user. The answer's body is always closed, so no connection leaks.",
 ["fault_sequences", "inputs"], "every provider answer",
 "Tests answer with one good and one bad document per endpoint.",
 ["auth/oauth/github.go", "auth/oauth/google.go"], [("FetchAccessToken, FetchAuthenticatedUser", "auth/oauth/github.go")], ["returned token/user/error"], "fault_enumeration",
 "exhaustive enumeration of provider answers (statuses x field shapes x transport faults) on the real clients",
 "Full product of statuses and field shapes, truncation at every byte of a reference answer." + TRUST)
prop("O03", "The OAuth initiation redirect always carries the configured request",
 "For every provider configuration the initiation redirect points at the provider's authorize endpoint with the client id, the issued state, every configured scope plus the user-info scopes if user details are requested, the optional settings exactly as configured, and a redirect URI that routes back to this application's callback for that provider. The outcome for one request never depends on earlier or concurrent ones and the configured scope lists are never modified.",
 ["configurations", "histories", "schedules"], "every provider configuration, mount prefix and interleaving",
 "Tests check one URL per provider.",
 [GF, "auth/oauth/github.go", "auth/oauth/google.go"], [("InitiateUrl", "auth/oauth/github.go"), ("redirect URI construction", GF)], ["Location header"], "exploration",
 INB + " plus schedule exploration of concurrent initiations",
 "Full product of provider options, scope list shapes (including spare capacity) and mount prefixes; all schedules of two concurrent initiations." + TRUST)

prop("O04", "The code exchange presents the configured credentials to the provider",
 "Whatever the texts of the configured client id and secret, the redirect URI and the code of the callback, the token request of a built-in provider is a POST to its token endpoint whose parameters, read by a standard parser according to the request's content type and query, are exactly that client id, secret, code and, where the provider is sent one, redirect URI, each once. User requests present exactly the token and token type that were obtained.",
 ["inputs", "configurations"], "every text of credentials, code and token",
 "Tests compare one request with plain ASCII credentials.",
 ["auth/oauth/github.go", "auth/oauth/google.go"], [("FetchAccessToken, FetchAuthenticatedUser", "auth/oauth/github.go")], ["the requests received by the provider's endpoints"], "exploration", INB,
 "Full product of credential and code texts (reserved characters, non-ASCII, empty) against a recording transport." + TRUST)

# ---------------------------------------------------------------- responses
prop("S01", "Every kind of response sends exactly the status, headers, cookies and body given",
 "For every kind of response and every combination of status, headers, cookies and payload, the client receives that status, all those headers and cookies, a content type (the given one, else the kind's default), the nosniff header unless overridden, and exactly the payload bytes; a redirect carries its location instead of content type, nosniff and payload, and an adapted standard handler sends only what it writes itself; invalid statuses are reported as an error and nothing is sent. If the connection fails at any write the failure is returned, except for event streams, which end.",
 ["inputs", "fault_sequences"], "every response kind, field combination and writer fault point",
 "Tests check one response per kind with a recorder that never fails.",
 ["response/headers.go", "response/text.go", "response/json.go", "response/raw.go", "response/streaming.go", "response/template.go", "response/redirect.go", "response/adaptor.go", "response/hijack.go", "response/response.go", "handler/handler.go"],
 [("HttpResponse implementations", "response/*.go")], ["what the ResponseWriter received"], "fault_enumeration",
 "exhaustive enumeration of response shapes and writer fault points on the real code against a reference rendering",
 "Full product of kinds, statuses, header/cookie sets and payloads, and a fault at every write." + TRUST)
prop("S02", "Headers and cookies never leak from one response into another",
 "Header and cookie collections given to or obtained from a response are recycled between responses, yet a response never carries a header or cookie that was not set on it, in any sequence or interleaving of responses, including ones that fail or are written twice. A collection is never in use by two responses at once.",
 ["histories", "schedules"], "every sequence and interleaving of building, decorating and writing responses",
 "Tests write responses one at a time with a fresh pool.",
 ["response/response.go", "response/headers.go"], [("pooled maps and their release", "response/response.go")], ["headers and cookies sent by each response, race reports"], "model_checking",
 "explicit-state exploration of all operation sequences with a deterministic always-recycling pool, plus controlled-scheduler exploration with race detection",
 "All operation sequences up to the bound and all schedules of two responses up to the preemption bound; the pool is replaced by a maximally recycling one." + TRUST,
 state=[("header and cookie pools", "recycled maps", "response/response.go")])
prop("S03", "Server-sent events decode on the client to exactly the event that was sent",
 "For every event, the text sent, decoded by the standard event-stream algorithm, yields one event with the same type, the same last event id, the data items as data lines in order, and the same retry time (no event if it has no data items); line breaks embedded in any field can neither end the event early nor inject further fields. Consecutive events never merge.",
 ["inputs", "histories"], "every combination of event fields and every sequence of events",
 "Tests format a few events and compare strings.",
 ["response/sse.go"], [("ServerSentEvent.String", "response/sse.go")], ["bytes of the stream through a standard parser"], "exploration", INB,
 "All events over a field alphabet including line breaks and colons, all sequences of two." + TRUST)
prop("S04", "Event streams deliver every event promptly and end when they should",
 "A server-sent-event response is refused with status 500 and an error on anything but HTTP/2; otherwise the client receives status 200 with the event-stream content type and no-cache header, every generated event in order and flushed before the next one is awaited, starting from the last event id it reported. The response ends when the generator closes, when the client goes away, or when a write fails, and after the client is gone or a write failed nothing more is written.",
 ["histories", "fault_sequences", "schedules"], "every interleaving of event generation, client cancellation and write faults",
 "Tests stream a fixed list to a recorder.",
 ["response/sse.go"], [("HttpSSEResponse.Write", "response/sse.go")], ["writes and flushes seen by the client, return of the call"], "model_checking",
 "explicit-state exploration of all event/cancel/fault scripts on the real response, run to quiescence in a virtual-time bubble after each step",
 "All scripts up to the depth bound, with and without compression." + TRUST)
prop("S05", "Static assets are served faithfully and only from the assets directory",
 "A GET below the assets mapping path is answered with the exact bytes of the corresponding file inside the assets directory, a listing or redirect for a directory, or an error status; no request path, with any combination of dot segments, empty segments, encodings or letter case, ever obtains a file outside that directory. The mapping follows the configured context path.",
 ["inputs", "configurations"], "every request path and mapping configuration",
 "Tests do not serve any asset.",
 [GF, RT], [("assets route registration", GF)], ["status and body"], "exploration", INB,
 "All paths of up to 4-5 segments over an alphabet with dot segments against a scratch tree with a secret outside; several mapping configurations." + TRUST)

prop("S06", "A mux renders exactly the templates its configuration names",
 "A mux configured with a template path pattern (by default resources/templates/*.html) offers, under the base name of every matching file and under the names defined inside, the HTML templates of those files, with values escaped for HTML unless marked safe, and nothing else; if the pattern is malformed, names no file or a file that does not parse, making the mux fails with an error. A template given in the configuration is used as it is. Rendering one template never changes what another renders.",
 ["inputs", "configurations"], "every set of template files and every pattern",
 "The tests replace the template loader by a stub and never load a template file.",
 [GF, "response/template.go"], [("defaultTemplateFunc, ResourcesConfig.setDefaults", GF), ("HttpTemplateResponse.Write", "response/template.go")], ["construction error, rendered text, response body"], "exploration", INB,
 "All subsets of a set of template files (valid, broken, nested, referring to each other) x patterns, on scratch directories; every template executed directly and through a handler." + TRUST)

prop("W01", "Every request of a kept-alive connection gets exactly its own answer",
 "When a mux serves an HTTP/1.1 connection, every request sent on it is answered by exactly one well-formed response, in order, with the status, headers, cookies and body that this request gets alone; a body is sent only where the method and the status allow one, and a declared length is that of the body. A handler reads exactly the body its request carried. What one request did (an unread body, a failure, a panic, a response without a body, a streamed or compressed one) never shows in the later answers, and none of the mux's answers ends the connection, except by a handler's panic that nothing recovers or by a handler that takes the connection over, after which nothing but what that handler writes is sent.",
 ["inputs", "histories"], "every sequence of requests on a connection",
 "Tests call handlers with a recorder, which has neither framing nor a next request.",
 [GF, "response/"], [("MuxHandler.ServeHTTP", GF), ("HttpResponse implementations", "response/"), ("middlewares", "middleware/")], ["the bytes on the connection"], "exploration", INB,
 "Every response kind x status x method x stack x request body followed by a further request, all sequences of 2 (thorough: 3) of 32 requests that leave a connection in different states, sent one by one and at once; body and header sizes around powers of two. The server is net/http's on an in-memory connection; the goroutine schedule of each case is the one that happened." + TRUST)
prop("W02", "Event streams and requests that share a HTTP/2 connection do not disturb another",
 "When a mux serves a HTTP/2 connection, every event stream opened on it reaches its client event by event: each event is received, whole and decodable, before the next one is generated, whatever the other streams and requests on the connection do and whatever middlewares and content coding apply. Every generator gets the last event id its own client reported and a context that is done once its stream is over and not before. A stream ends when its generator closes it or its client leaves (even if the generator does not notice), the client of a closed stream sees a complete body, and the other streams and later requests of the connection go on undisturbed.",
 ["histories", "schedules"], "every interleaving of events, requests and ends on a connection",
 "Tests pass a recorder and a hand-made request; no HTTP/2 connection is opened.",
 ["response/sse.go", GF], [("HttpSSEResponse.Write", "response/sse.go"), ("MuxHandler.ServeHTTP", GF), ("CompressResponse", "middleware/compress.go")], ["what each client receives and when, the generator's context, the return of the handler"], "exploration", INB,
 "All orders of up to 3 (thorough: 5) events and ordinary requests on one stream x stacks x codings x ends; all interleavings of two streams' events with one request anywhere x stacks x pairs and orders of ends. Server and client are net/http's on an in-memory connection; goroutine schedules below this order are those that happened." + TRUST)

prop("X01", "The muxes and middleware instances of one process are independent",
 "Two muxes of one process never influence each other: the routes, case mode, common middlewares, error log, templates, assets and context path of one never show in what the other answers, and the same holds for two instances of one middleware (header values, allowed origins, nonces and their names, compression level, loggers, error pages, principals, permissions), on two muxes or on two routes of one. This holds in whatever order they are made, configured and used.",
 ["inputs", "histories"], "every order of making, configuring and using two muxes or middleware instances",
 "A test makes the mux or middleware it needs and uses it once; state that leaks between instances shows only in particular orders of making and using several.",
 [GF, "router/router.go", "middleware/security.go"], [("NewMuxHandler", GF), ("NewRouter", "router/router.go"), ("ResourcesConfig.setDefaults", GF)], ["answers of both muxes after every step, error logs, the settings each instance applies"], "exploration", INB,
 "All sequences of up to 4 (thorough: 5) registrations and common middlewares on two muxes with all requests on both after every step; all pairs of resource configurations over two directories x orders of use; two instances of nine middlewares x all request sequences up to 6 (thorough: 10)." + TRUST)

NOT_APPLICABLE = [
 dict(id="N01", title="CSRF nonces and OAuth states cannot be guessed",
  statement="An attacker who observed any number of CSRF nonces or OAuth states cannot predict another one.",
  over=["inputs"], text="every observer strategy", why="Unpredictability is a statement about a probability distribution, tests see samples only.",
  files=["middleware/csrf.go", GF], mech=[("generateNonce", "middleware/csrf.go"), ("generateUniqueId", GF)], observe=["issued nonces and states"],
  reason="Unguessability is a property of the distribution of random bits and of the generator's cryptographic strength; exhaustively exploring executions cannot decide it (every value is reachable in a correct and in a weak generator). Freshness (no value issued twice) is decided in C01, and that the values are drawn from the cryptographic source in N02."),
]

def line(p):
    return dict(id=p["id"], title=p["title"], statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
        anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in (p.get("state") or [])],
                     mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=p.get("hook")))

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P + NOT_APPLICABLE:
            f.write(json.dumps(line(p), ensure_ascii=False) + "\n")
    claimed = [l.strip() for l in open(os.path.join(ROOT, "tools", "claimed.txt")) if l.strip()]
    checks, na = [], []
    for p in P:
        if p["id"] in claimed:
            checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason="Check not built yet in this revision; the plan is in DESIGN.md."))
    for p in NOT_APPLICABLE:
        na.append(dict(property=p["id"], reason=p["reason"]))
    man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
        notes="Checks build from /repo's working tree into a scratch directory; schedule checks instrument a copy through go's -overlay, so /repo carries no hooks.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
main()
