package schedchecks

import (
	"fmt"
	"strings"
	"time"

	"gofremc/kit"
	"gofremc/vsched"

	"github.com/ixtendio/gofre/cache"
)

func init() { all["K02"] = checkK02 }

// k02Op: a/b adds key A/B, s adds A with a life that is over already, r/q removes, c/d looks up.
type k02Hist struct {
	op        byte
	thread    int
	call, ret int
	val       bool
}

// clock is the order of calls and returns; threads run one at a time.
var hclock int

//go:norace
func tick() int { hclock++; return hclock }

func k02Do(c cache.Cache, op byte) bool {
	switch op {
	case 'a':
		c.Add("A", time.Hour)
	case 's':
		c.Add("A", -time.Second)
	case 'b':
		c.Add("B", time.Hour)
	case 'r':
		c.Remove("A")
	case 'q':
		c.Remove("B")
	case 'c':
		return c.Contains("A")
	case 'd':
		return c.Contains("B")
	}
	return false
}

// k02Lin searches an order of the operations that respects real time and the sequential meaning.
func k02Lin(h []k02Hist, a, b bool) bool {
	var rec func(done uint, a, b bool) bool
	rec = func(done uint, a, b bool) bool {
		if done == 1<<len(h)-1 {
			return true
		}
	next:
		for i, x := range h {
			if done&(1<<i) != 0 {
				continue
			}
			for j, y := range h {
				if done&(1<<j) == 0 && j != i && y.ret < x.call {
					continue next
				}
			}
			a2, b2 := a, b
			switch x.op {
			case 'a':
				a2 = true
			case 's', 'r':
				a2 = false
			case 'b':
				b2 = true
			case 'q':
				b2 = false
			case 'c':
				if x.val != a {
					continue
				}
			case 'd':
				if x.val != b {
					continue
				}
			}
			if rec(done|1<<i, a2, b2) {
				return true
			}
		}
		return false
	}
	return rec(0, a, b)
}

func k02Scenario(init string, progs []string, bound int) scenario {
	return scenario{Name: init + "|" + strings.Join(progs, "|"), Bound: bound, Fine: bound, New: func() program {
		c := cache.NewInMemory()
		a, b := false, false
		for i := 0; i < len(init); i++ {
			k02Do(c, init[i])
			switch init[i] {
			case 'a':
				a = true
			case 's':
				a = false
			case 'b':
				b = true
			}
		}
		hs := make([][]k02Hist, len(progs))
		hclock = 0
		var fs []func()
		for t, p := range progs {
			fs = append(fs, func() {
				for i := 0; i < len(p); i++ {
					x := k02Hist{op: p[i], thread: t, call: tick()}
					x.val = k02Do(c, p[i])
					x.ret = tick()
					hs[t] = append(hs[t], x)
				}
			})
		}
		return program{Threads: fs, Check: func(res *vsched.Result) (string, *kit.Failure) {
			var h []k02Hist
			for _, x := range hs {
				h = append(h, x...)
			}
			for _, op := range []byte("cd") {
				x := k02Hist{op: op, thread: -1, call: tick()}
				x.val = k02Do(c, op)
				x.ret = tick()
				h = append(h, x)
			}
			var sb strings.Builder
			for _, x := range h {
				fmt.Fprintf(&sb, "%d%c%v ", x.thread, x.op, x.val)
			}
			if !k02Lin(h, a, b) {
				return "", kit.Failf("linearizable", "no sequential order explains (thread, operation, result, call..return): %+v", h)
			}
			return sb.String(), nil
		}}
	}}
}

func words(alpha string, n int) []string {
	out := []string{}
	level := []string{""}
	for l := 0; l < n; l++ {
		var next []string
		for _, w := range level {
			for _, c := range alpha {
				next = append(next, w+string(c))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

func checkK02(r *kit.Run) {
	r.Rule = "one trace = one schedule of one concurrent program, its history checked for linearizability and races; states = nodes of the schedule tree; one distinct outcome = (program, results)"
	r.Assume = append(r.Assume, "operations are programs over two keys; statements of the cache are the scheduling points, every data race inside them is reported by the race detector")
	var scs []scenario
	bound := kit.Pick(r, 2, 3)
	ws := words("asbrcd", 2)
	inits := []string{"", "a"}
	for i, p := range ws {
		for _, q := range ws[i:] {
			for _, in := range inits {
				scs = append(scs, k02Scenario(in, []string{p, q}, bound))
			}
		}
	}
	r.Bound("2 threads x all programs of up to 2 operations over {add A, add A expired, add B, remove A, contains A, contains B}, from an empty cache and one holding A, up to %d preemptions", bound)
	for i, p := range "asbrc" {
		for j, q := range "asbrc" {
			for k, w := range "asbrcd" {
				if j < i || k < j {
					continue
				}
				scs = append(scs, k02Scenario("a", []string{string(p), string(q), string(w)}, bound), k02Scenario("", []string{string(p), string(q), string(w)}, bound))
			}
		}
	}
	r.Bound("3 threads of one operation each, up to %d preemptions", bound)
	if r.Thorough() {
		w3 := words("arc", 3)
		for i, p := range w3 {
			for _, q := range w3[i:] {
				if len(p) == 3 || len(q) == 3 {
					scs = append(scs, k02Scenario("", []string{p, q}, 2))
				}
			}
		}
		r.Bound("2 threads of up to 3 operations over {add A, remove A, contains A}, up to 2 preemptions")
	}
	runSched(r, "programs", scs, []int{0})
}
