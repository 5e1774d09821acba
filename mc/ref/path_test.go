package ref

import "testing"

func TestRefREADME(t *testing.T) {
	for _, c := range []struct {
		p, u string
		m    bool
	}{{"/a/abc*hij", "/a/abcdhij", true}, {"/a/abc*hij", "/a/abcdefgij", false}, {"/a/*/c", "/a/b/c", true}, {"/a/*/c", "/a/b/c/c", false},
		{"/a/abc?hij", "/a/abcdehij", false}, {"/a/**/z", "/a/b/c/d/z", true}, {"/a/**/z", "/a/z", true}, {"/a/**", "/a", false}, {"/a/**", "/a/b/c", true},
		{"/a/{n:^[0-9]{3}$}", "/a/123", true}, {"/a/{n:^[0-9]{3}$}", "/a/0124", false}} {
		if MustParse(c.p, false).Match(Normalise(c.u)) != c.m {
			t.Errorf("%v", c)
		}
	}
}
