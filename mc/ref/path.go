// Package ref holds the executable reference models, written from the property texts only.
package ref

import (
	"errors"
	"regexp"
	"slices"
	"strings"
)

type Kind int

const (
	Literal Kind = iota + 1
	ConstrainedVar
	Var
	WildText
	Star
	DoubleStar
)

type Seg struct {
	Kind Kind
	Text string // literal or wildcard text, or the regular expression of a constrained variable
	Name string
	Re   *regexp.Regexp
}

type Pattern struct {
	Raw  string
	CI   bool
	Segs []Seg
}

var ErrBad = errors.New("malformed")

// ParsePattern accepts exactly the well-formed patterns.
func ParsePattern(s string, ci bool) (*Pattern, error) {
	p := &Pattern{Raw: s, CI: ci}
	if s == "" || s[0] != '/' {
		return nil, ErrBad
	}
	if s == "/" {
		return p, nil
	}
	parts := strings.Split(s[1:], "/")
	if parts[len(parts)-1] == "" {
		parts = parts[:len(parts)-1]
	}
	for i, t := range parts {
		if t == "" {
			return nil, ErrBad
		}
		open, shut := t[0] == '{', t[len(t)-1] == '}'
		switch {
		case open != shut:
			return nil, ErrBad
		case open:
			if strings.Contains(t, "**") {
				return nil, ErrBad
			}
			name, re, has := strings.Cut(t[1:len(t)-1], ":")
			if name == "" {
				return nil, ErrBad
			}
			if !has {
				p.Segs = append(p.Segs, Seg{Kind: Var, Name: name})
				continue
			}
			if re == "" {
				return nil, ErrBad
			}
			full := re
			if ci {
				full = "(?i)" + re
			}
			rx, err := regexp.Compile(full)
			if err != nil {
				return nil, ErrBad
			}
			p.Segs = append(p.Segs, Seg{Kind: ConstrainedVar, Name: name, Text: re, Re: rx})
		case t == "*":
			p.Segs = append(p.Segs, Seg{Kind: Star})
		case t == "**":
			if i > 0 && p.Segs[i-1].Kind == DoubleStar {
				return nil, ErrBad
			}
			p.Segs = append(p.Segs, Seg{Kind: DoubleStar})
		case strings.Contains(t, "**"):
			return nil, ErrBad
		case strings.ContainsAny(t, "*?"):
			p.Segs = append(p.Segs, Seg{Kind: WildText, Text: t})
		default:
			p.Segs = append(p.Segs, Seg{Kind: Literal, Text: t})
		}
	}
	return p, nil
}

// Specified tells whether the property text decides the well-formedness of this pattern string
// (braces and colons in unusual places are left open).
func Specified(s string) bool {
	for _, t := range strings.Split(s, "/") {
		if t == "" {
			continue
		}
		inner := t
		if inner[0] == '{' {
			inner = inner[1:]
		}
		if inner != "" && inner[len(inner)-1] == '}' {
			inner = inner[:len(inner)-1]
		}
		if strings.ContainsAny(inner, "{}") || strings.Count(inner, ":") > 1 {
			return false
		}
	}
	return true
}

func MustParse(s string, ci bool) *Pattern {
	p, err := ParsePattern(s, ci)
	if err != nil {
		panic("ref: bad pattern " + s)
	}
	return p
}

// WildMatch: '*' any run of characters, '?' one character.
func WildMatch(pat, text string, ci bool) bool {
	p, t := []rune(pat), []rune(text)
	ok := make([]bool, len(t)+1)
	ok[0] = true
	for _, c := range p {
		next := make([]bool, len(t)+1)
		if c == '*' {
			any := false
			for i := range next {
				any = any || ok[i]
				next[i] = any
			}
		} else {
			for i := range t {
				if ok[i] && (c == '?' || c == t[i] || ci && strings.EqualFold(string(c), string(t[i]))) {
					next[i+1] = true
				}
			}
		}
		ok = next
	}
	return ok[len(t)]
}

func (s *Seg) Matches(text string, ci bool) bool {
	switch s.Kind {
	case Literal:
		if ci {
			return strings.EqualFold(s.Text, text)
		}
		return s.Text == text
	case ConstrainedVar:
		return s.Re.MatchString(text)
	case WildText:
		return WildMatch(s.Text, text, ci)
	}
	return true
}

// Aligns lists all ways to match the whole pattern against the whole path; an
// alignment gives for every pattern segment the number of path segments it takes.
// They come in order of the number of segments taken by the first `**`, then the second, ...
func (p *Pattern) Aligns(path []string) [][]int {
	var out [][]int
	cur := make([]int, 0, len(p.Segs))
	var rec func(pi, ui int)
	rec = func(pi, ui int) {
		if pi == len(p.Segs) {
			if ui == len(path) {
				out = append(out, append([]int(nil), cur...))
			}
			return
		}
		s := &p.Segs[pi]
		if s.Kind == DoubleStar {
			if pi == len(p.Segs)-1 {
				if ui < len(path) {
					cur = append(cur, len(path)-ui)
					rec(pi+1, len(path))
					cur = cur[:len(cur)-1]
				}
				return
			}
			for n := 0; ui+n <= len(path); n++ {
				cur = append(cur, n)
				rec(pi+1, ui+n)
				cur = cur[:len(cur)-1]
			}
			return
		}
		if ui < len(path) && s.Matches(path[ui], p.CI) {
			cur = append(cur, 1)
			rec(pi+1, ui+1)
			cur = cur[:len(cur)-1]
		}
	}
	rec(0, 0)
	return out
}

// Matches tells whether the pattern matches the path, without listing the alignments.
func (p *Pattern) Matches(path []string) bool {
	// ok[j]: the segments so far match the first j path segments
	ok := make([]bool, len(path)+1)
	ok[0] = true
	for i := range p.Segs {
		s := &p.Segs[i]
		next := make([]bool, len(path)+1)
		if s.Kind == DoubleStar {
			any := false
			for j := range ok {
				any = any || ok[j]
				next[j] = any
			}
			if i == len(p.Segs)-1 { // a last ** takes at least one segment
				return slices.Contains(ok[:len(path)], true)
			}
		} else {
			for j := range path {
				next[j+1] = ok[j] && s.Matches(path[j], p.CI)
			}
		}
		ok = next
	}
	return ok[len(path)]
}

func (p *Pattern) Match(path []string) bool { return len(p.Aligns(path)) > 0 }

// Vars gives the variable values under an alignment (the first variable of a name counts).
func (p *Pattern) Vars(path []string, al []int) map[string]string {
	m := map[string]string{}
	ui := 0
	for i := range p.Segs {
		s := &p.Segs[i]
		if s.Kind == Var || s.Kind == ConstrainedVar {
			if _, dup := m[s.Name]; !dup {
				m[s.Name] = path[ui]
			}
		}
		ui += al[i]
	}
	return m
}

func (s *Seg) sameText(o *Seg, ci bool) bool {
	if s.Kind == ConstrainedVar {
		return s.Text == o.Text
	}
	if ci {
		return strings.EqualFold(s.Text, o.Text)
	}
	return s.Text == o.Text
}

// Equivalent: the same segments apart from variable names and a trailing slash.
func Equivalent(a, b *Pattern) bool {
	if len(a.Segs) != len(b.Segs) {
		return false
	}
	for i := range a.Segs {
		if a.Segs[i].Kind != b.Segs[i].Kind || !a.Segs[i].sameText(&b.Segs[i], a.CI) {
			return false
		}
	}
	return true
}

// Compare is -1 if (a, aa) is more specific than (b, ba), 1 for the reverse, 0 if undecided.
func Compare(a *Pattern, aa []int, b *Pattern, ba []int) int {
	n := min(len(a.Segs), len(b.Segs))
	for i := 0; i < n; i++ {
		x, y := &a.Segs[i], &b.Segs[i]
		if x.Kind != y.Kind {
			if x.Kind < y.Kind {
				return -1
			}
			return 1
		}
		if !x.sameText(y, a.CI) {
			return 0
		}
		if x.Kind == DoubleStar && aa[i] != ba[i] {
			if aa[i] < ba[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

// Choice tells which of the patterns match and which of them may be chosen: those
// not beaten by another matching pattern.
func Choice(ps []*Pattern, path []string) (matching, best []int) {
	var als = make([][][]int, len(ps))
	for i, p := range ps {
		als[i] = p.Aligns(path)
		if len(als[i]) > 0 {
			matching = append(matching, i)
		}
	}
	for _, i := range matching {
		beaten := false
		for _, j := range matching {
			if i != j && Compare(ps[j], als[j][0], ps[i], als[i][0]) < 0 {
				beaten = true
				break
			}
		}
		if !beaten {
			best = append(best, i)
		}
	}
	return
}

// Normalise gives the segments of a request path (that starts with a slash or is empty).
func Normalise(p string) []string {
	var out []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return out
}

// MaxDepth is the largest number of segments held at any moment while normalising.
func MaxDepth(p string) int {
	d, m := 0, 0
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "":
		case "..":
			if d > 0 {
				d--
			}
		default:
			d++
			m = max(m, d)
		}
	}
	return m
}

const MaxSegments = 19
