package checks

import "sort"

// sizesTo lists every size up to small and the neighbours of every power of two up to max.
func sizesTo(small, max int) []int {
	m := map[int]bool{}
	for i := 0; i <= small; i++ {
		m[i] = true
	}
	for p := 1; p <= max; p *= 2 {
		for _, d := range []int{-1, 0, 1} {
			if n := p + d; n >= 0 && n <= max {
				m[n] = true
			}
		}
	}
	for _, n := range []int{10, 20, 50, 100, 200, 500, 1000, 2000, 5000, 10000, 50000, 100000} {
		for _, d := range []int{0, 1} {
			if n+d <= max {
				m[n+d] = true
			}
		}
	}
	var out []int
	for n := range m {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

// textOf is a text of n bytes in which every position is recognisable.
func textOf(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789abcdefghijklmnopqrstuvwxyz"[(i+i/36)%36]
	}
	return string(b)
}

// wideText is a text of n bytes with fewer characters, if it is long enough.
func wideText(n int) string {
	b := []byte(textOf(n))
	for i := 5; i+1 < n; i += 41 {
		copy(b[i:], "é")
	}
	return string(b)
}
