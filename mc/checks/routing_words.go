package checks

import (
	"fmt"
	"strings"

	"gofremc/kit"
	"gofremc/ref"
)

// pathWords are segments of paths that servers are tempted to treat in a special way.
var pathWords = []string{"index.html", "index.htm", "index", "index.php", "default.aspx", "favicon.ico", "robots.txt", "sitemap.xml", "health", "healthz", "livez", "readyz", "ping", "status", "metrics", "version", "debug", "pprof", "vars", ".well-known", "security.txt", "apple-touch-icon.png", "ads.txt", "humans.txt", "manifest.json", "service-worker.js", "sw.js",
	".env", ".git", ".htaccess", ".DS_Store", ".hidden", "...", "....", "..a", "a..", "a..b", ".a", "a.", "a.b", ".%2e", "%2e%2e", "~", "~root", "a~", "a.bak", "#a#", "a.php", "a.html", "a.htm", "a.json", "a.xml", "a.js", "a.css", "a.map", "a.gz", "a.tar.gz", "a.asp", "a.cgi", "a.do", "a.exe", "a.min.js", "wp-admin", "wp-login.php", "cgi-bin", "phpmyadmin", "admin", "api", "v1", "v2", "static", "assets", "public", "WEB-INF", "META-INF", "graphql", "swagger", "docs", "oauth", "oauth2", "authorize", "initiate", "login", "logout", "callback", "user", "users", "me", "self", "all", "any", "new", "edit", "search", "trace",
	";jsessionid=1", "a;jsessionid=1", "a;v=1", ";", "a;", ";a", "a=b", "=", "a,b", ",", "a:b", "a:", "::", "a@b", "@", "$metadata", "$", "a!", "!", "a'b", "a\"b", "a`b", "(a)", "[a]", "<a>", "a|b", "a^b", "a+b", "+", "a b", " a", "a ", " a ", "\ta", "a\t", "a\n", "\u00a0a", "a\u00a0", "\ufeffa", "a\x00", "\x00", "a%", "%", "%41", "%2F", "a%2Fb", "%25", "%zz", "\\", "a\\b", "..\\a", "C:", "nul", "con", "aux", "LPT1", "-", "--", "-a", "_", "_a", "__proto__", "constructor", "0", "00", "-1", "1", "007", "1.5", "1e9", "NaN", "true", "false", "null", "nil", "undefined", "None", "ALL", "INDEX.HTML", "Favicon.ico", "http:", "https:", "http:x", "a?b", "a#b", "?", "#", "&", "a&b", "a=b&c=d", "{a}", "{", "}", "{}", "*", "**", "a*", "***",
	"\u00e9", "e\u0301", "\u00df", "\u0130", "\u212a", "\u017f", "\u2028", "\u200b", "\u202e", "\ufffd", "\U0001f600", "\u2025", "\uff0e\uff0e", "\u2215", "\xff", "\xc0\xae", "\xc0\xaf"}

type wordCase struct {
	Word string // quoted, as it need not be UTF-8
	Set  int
	CI   bool
}

// wordSets are lists of patterns; WORD stands for the word itself.
var wordSets = [][]string{
	{"/p", "/p/x", "/p/{v}/y", "/q/{v}/{w}", "/w/*/z", "/k/{v:^.+$}"},
	{"/", "/{v}", "/{v}/{w}", "/{v}/x/{w}/y"},
	{"/", "/s/**", "/t/**/x", "/*", "/*/{v}/**/e"},
	{"/WORD", "/p/WORD", "/{v}/WORD/{w}", "/WORD/WORD/{v}"},
	{"/pWORD", "/WORDp", "/p/xWORD*", "/q/*WORD"},
}

func wordPaths(w string) (out []string) {
	for _, f := range []string{"/W", "/W/", "/p/W", "/p/W/", "/p/W/y", "/p/x/W", "/q/W/W", "/q/W/a", "/q/a/W", "/w/W/z", "/k/W", "/k/W/", "/W/p", "/W/p/x", "/W/x", "/a/W", "/W/W", "/a/x/W/y", "/W/x/a/y", "/s/W", "/s/W/W", "/t/W/x", "/t/x/W", "/t/W/W/x", "/W/W/W/e", "/a/W/e", "/pW", "/Wp", "/p/xW", "/p/Wx", "/p/xWy", "/q/aW", "/q/Wa", "/a/W/b", "/W/W/a", "/p/W/x", "/p//W//y", "/./W", "/p/x/W/..", "/W/../p"} {
		out = append(out, strings.ReplaceAll(f, "W", w))
	}
	return out
}

// wordSpace checks what is dispatched (vars false) or the captured variables (vars true) of paths with odd words.
func wordSpace(r *kit.Run, vars bool) {
	r.Bound("words: %d words that look special x %d lists of patterns (also made of the word) x %d paths, with and without regard to case", len(pathWords)+len(oddWords), len(wordSets), len(wordPaths("w")))
	kit.Explore(r, "words", func(yield func(wordCase) bool) {
		for _, ws := range [][]string{pathWords, oddWords} {
			for _, w := range ws {
				if w == "" {
					continue
				}
				for s := range wordSets {
					for _, ci := range []bool{false, true} {
						if !yield(wordCase{fmt.Sprintf("%q", w), s, ci}) {
							return
						}
					}
				}
			}
		}
	}, func(c wordCase) *kit.Failure {
		var w string
		fmt.Sscanf(c.Word, "%q", &w)
		ascii := true
		for i := range w {
			ascii = ascii && w[i] < 0x80
		}
		if c.CI && !ascii {
			return nil // how other letters fold is the matter of R06
		}
		var pp []*ref.Pattern
		for _, s := range wordSets[c.Set] {
			if strings.Contains(s, "WORD") {
				if strings.ContainsAny(w, "/*{}?:") || w == "." || w == ".." {
					return nil
				}
				s = strings.ReplaceAll(s, "WORD", w)
			}
			if !ref.Specified(s) {
				continue
			}
			p, err := ref.ParsePattern(s, c.CI)
			if err != nil {
				continue
			}
			eq := false
			for _, q := range pp {
				eq = eq || ref.Equivalent(p, q)
			}
			if !eq {
				pp = append(pp, p)
			}
		}
		rt, rej, why := newRoutes(c.CI, pp)
		if rej >= 0 {
			return kit.Failf("words", "%s: registration of %q rejected: %v", c.Word, pp[rej].Raw, why)
		}
		for _, q := range wordPaths(w) {
			o, f := rt.serve("GET", q)
			if f != nil {
				return f
			}
			segs := ref.Normalise(q)
			if len(segs) > ref.MaxSegments || ref.MaxDepth(q) > ref.MaxSegments {
				continue
			}
			any, ok := false, false
			for i, p := range pp {
				m := p.Matches(segs)
				any = any || m
				ok = ok || m && o.Hit == i
			}
			if !vars {
				if ok != any || o.Hit >= 0 && !any {
					return kit.Failf("words "+c.Word, "patterns %q, GET %q: dispatched to %d, some pattern matches: %v", wordSets[c.Set], q, o.Hit, any)
				}
				if any {
					r.Seen(kit.Hash("words", c, q))
				}
				continue
			}
			if !ok {
				continue
			}
			p := pp[o.Hit]
			names := varNames(p)
			found := len(names) == 0
			for _, al := range p.Aligns(segs) {
				vs := p.Vars(segs, al)
				same := true
				for i, n := range names {
					same = same && o.Vars[i] == vs[n]
				}
				found = found || same
			}
			if !found {
				return kit.Failf("words "+c.Word, "pattern %q, GET %q: the variables %v read %q", p.Raw, q, names, o.Vars)
			}
			r.Seen(kit.Hash("words", c, q, o.Hit))
		}
		r.AddEvals(len(wordPaths(w)))
		return nil
	})
}
