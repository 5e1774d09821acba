// Package kit is the exhaustive explorer used by every check: it enumerates all
// cases of a finite space, runs each against the real code on all cores, counts
// what was covered and turns failures into replayable artefacts.
package kit

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"iter"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// Failure describes one violated case. Key identifies the case in the known findings file.
type Failure struct {
	Key string
	Msg string
}

func Failf(key, format string, a ...any) *Failure {
	return &Failure{Key: key, Msg: fmt.Sprintf(format, a...)}
}

type found struct {
	Space string          `json:"space"`
	Case  json.RawMessage `json:"case"`
	Key   string          `json:"key"`
	Msg   string          `json:"msg"`
}

// Run is one run of one check.
type Run struct {
	T        *testing.T
	Prop     string
	Tier     string
	Level    string
	Seed     int
	Rule     string
	Bounds   []string
	Assume   []string
	Replay   string // replay file to re-execute instead of exploring
	evals    atomic.Int64
	states   atomic.Int64
	trans    atomic.Int64
	traces   atomic.Int64
	extra    sync.Map
	shards   [64]shard
	sampleMu sync.Mutex
	samples  []any
	perSpace map[string]int
	mu       sync.Mutex
	fails    []found
	known    []found
	flaky    []found
	start    time.Time
	deadline time.Time
	capped   atomic.Bool
	knownSet map[string]string
	replay   *found
	Workers  int
	spaces   []string
	matched  bool
}

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// NewRun reads the run's parameters from the environment.
func NewRun(t *testing.T) *Run {
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	r := &Run{T: t, Prop: os.Getenv("MC_PROP"), Tier: env("MC_TIER", "quick"), Level: env("MC_LEVEL", "exploration"),
		Seed: seed, start: time.Now(), knownSet: map[string]string{}, Workers: runtime.GOMAXPROCS(0), perSpace: map[string]int{}}
	secs := 200
	if r.Tier == "thorough" {
		secs = 780
	}
	if s, err := strconv.Atoi(os.Getenv("MC_BUDGET_S")); err == nil {
		secs = s
	}
	r.deadline = r.start.Add(time.Duration(secs) * time.Second)
	for i := range r.shards {
		r.shards[i].m = map[uint64]struct{}{}
	}
	if f, err := os.Open(env("MC_KNOWN", "/verif/known_findings.txt")); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			// known: property=<id> key=<key> | <what>
			l := sc.Text()
			if !strings.HasPrefix(l, "known: property="+r.Prop+" key=") {
				continue
			}
			l = strings.TrimPrefix(l, "known: property="+r.Prop+" key=")
			key, what, _ := strings.Cut(l, " | ")
			r.knownSet[key] = what
		}
		f.Close()
	}
	if p := os.Getenv("MC_REPLAY"); p != "" {
		b, err := os.ReadFile(p)
		if err != nil {
			t.Fatal(err)
		}
		r.replay = &found{}
		if err := json.Unmarshal(b, r.replay); err != nil {
			t.Fatal(err)
		}
	}
	return r
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q for quick and th for thorough.
func Pick[T any](r *Run, q, th T) T {
	if r.Thorough() {
		return th
	}
	return q
}

func (r *Run) AddEvals(n int)       { r.evals.Add(int64(n)) }
func (r *Run) AddStates(n int)      { r.states.Add(int64(n)) }
func (r *Run) AddTransitions(n int) { r.trans.Add(int64(n)) }
func (r *Run) AddTraces(n int)      { r.traces.Add(int64(n)) }
func (r *Run) Bound(f string, a ...any) {
	r.mu.Lock()
	r.Bounds = append(r.Bounds, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

// Count adds to a named extra counter of the evidence.
func (r *Run) Count(name string, n int) {
	v, _ := r.extra.LoadOrStore(name, new(atomic.Int64))
	v.(*atomic.Int64).Add(int64(n))
}

// Max raises a named extra counter.
func (r *Run) Max(name string, n int) {
	v, _ := r.extra.LoadOrStore(name, new(atomic.Int64))
	c := v.(*atomic.Int64)
	for {
		o := c.Load()
		if int64(n) <= o || c.CompareAndSwap(o, int64(n)) {
			return
		}
	}
}

func Hash(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Seen records the signature of a distinct, non-trivial outcome and reports whether it is new.
func (r *Run) Seen(sig uint64) bool {
	if sig == 0 {
		return false
	}
	s := &r.shards[sig>>58]
	s.mu.Lock()
	_, ok := s.m[sig]
	if !ok && len(s.m) < 1<<17 {
		s.m[sig] = struct{}{}
	}
	s.mu.Unlock()
	return !ok
}

func (r *Run) SeenCount() int {
	n := 0
	for i := range r.shards {
		r.shards[i].mu.Lock()
		n += len(r.shards[i].m)
		r.shards[i].mu.Unlock()
	}
	return n
}

// Sample keeps a few actual cases per space for the evidence.
func (r *Run) Sample(space string, v any) {
	r.sampleMu.Lock()
	defer r.sampleMu.Unlock()
	if r.perSpace[space] >= 4 {
		return
	}
	r.perSpace[space]++
	r.samples = append(r.samples, map[string]any{"space": space, "case": v})
}

// Stop reports whether exploration should end (deadline passed or enough failures).
func (r *Run) Stop() bool {
	if r.capped.Load() {
		return true
	}
	if time.Now().After(r.deadline) {
		r.capped.Store(true)
		return true
	}
	r.mu.Lock()
	n := len(r.fails)
	r.mu.Unlock()
	return n >= 3
}

func (r *Run) Capped() { r.capped.Store(true) }

func guard[T any](f func(T) *Failure, c T) (fail *Failure) {
	defer func() {
		if p := recover(); p != nil {
			fail = Failf("panic:"+fmt.Sprint(p), "panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	return f(c)
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

type slot struct {
	since atomic.Int64 // unix nano, 0 = idle
	cpu   atomic.Int64
	name  atomic.Value
}

// CPUNow is the processor time this process has used, in nanoseconds.
func CPUNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// Explore runs f on every case of the space; f returns nil if the property held.
// f has to be deterministic: a failure is re-executed and only reported if it fails every time.
func Explore[T any](r *Run, space string, gen iter.Seq[T], f func(T) *Failure) {
	if r.replay != nil {
		if r.replay.Space != space {
			return
		}
		var c T
		if err := json.Unmarshal(r.replay.Case, &c); err != nil {
			r.T.Fatal(err)
		}
		r.matched = true
		if fl := guard(f, c); fl != nil {
			r.report(space, c, fl)
		}
		return
	}
	r.mu.Lock()
	r.spaces = append(r.spaces, space)
	r.mu.Unlock()
	if r.Stop() {
		return
	}
	ch := make(chan []T, 4*r.Workers)
	var wg sync.WaitGroup
	slots := make([]slot, r.Workers)
	done := make(chan struct{})
	go r.watch(space, slots, done)
	var cases atomic.Int64
	for w := 0; w < r.Workers; w++ {
		sl := &slots[w]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for batch := range ch {
				for _, c := range batch {
					if r.Stop() {
						break
					}
					sl.name.Store([]any{c})
					sl.cpu.Store(CPUNow())
					sl.since.Store(time.Now().UnixNano())
					n := cases.Add(1)
					if n <= 2 || n == 100 || n == 10000 {
						r.Sample(space, c)
					}
					fl := guard(f, c)
					if fl != nil {
						again := 0
						for i := 0; i < 5; i++ {
							if guard(f, c) != nil {
								again++
							}
						}
						if again == 5 {
							r.report(space, c, fl)
						} else {
							r.mu.Lock()
							r.flaky = append(r.flaky, mkFound(space, c, fl))
							r.mu.Unlock()
						}
					}
					sl.since.Store(0)
				}
			}
		}()
	}
	batch := make([]T, 0, 64)
	size := 1
	for c := range gen {
		batch = append(batch, c)
		if len(batch) >= size {
			ch <- batch
			batch = make([]T, 0, 64)
			if size < 64 {
				size++
			}
			if r.Stop() {
				break
			}
		}
	}
	if len(batch) > 0 {
		ch <- batch
	}
	close(ch)
	wg.Wait()
	close(done)
	r.Count("cases_"+space, int(cases.Load()))
}

// watch turns a case that never ends into a violation: single cases take micro- to milliseconds.
func (r *Run) watch(space string, slots []slot, done chan struct{}) {
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case <-done:
			return
		case <-tick.C:
		}
		for i := range slots {
			s := slots[i].since.Load()
			if s == 0 {
				continue
			}
			wall := time.Since(time.Unix(0, s))
			cpu := time.Duration(CPUNow() - slots[i].cpu.Load())
			if (wall > 40*time.Second && cpu > 30*time.Second) || wall > 150*time.Second {
				if slots[i].since.Load() != s {
					continue
				}
				cs := slots[i].name.Load().([]any)[0]
				r.report(space, cs, Failf("hang", "the case did not end within %v", wall))
				r.Finish()
			}
		}
	}
}

func mkFound(space string, c any, fl *Failure) found {
	b, err := json.Marshal(c)
	if err != nil {
		b, _ = json.Marshal(fmt.Sprint(c))
	}
	return found{Space: space, Case: b, Key: fl.Key, Msg: fl.Msg}
}

func (r *Run) report(space string, c any, fl *Failure) {
	fd := mkFound(space, c, fl)
	r.mu.Lock()
	defer r.mu.Unlock()
	if what, ok := r.knownSet[fl.Key]; ok {
		for _, k := range r.known {
			if k.Key == fl.Key {
				return
			}
		}
		fd.Msg = what
		r.known = append(r.known, fd)
		return
	}
	r.fails = append(r.fails, fd)
}

// Left is the time until the deadline.
func (r *Run) Left() time.Duration { return time.Until(r.deadline) }

// Flaky records a failure that did not reproduce; it is shown but not reported as a violation.
func (r *Run) Flaky(space string, c any, fl *Failure) {
	r.mu.Lock()
	r.flaky = append(r.flaky, mkFound(space, c, fl))
	r.mu.Unlock()
}

// Report records a failure found outside Explore.
func (r *Run) Report(space string, c any, fl *Failure) { r.report(space, c, fl) }

// ReplayCase returns the case to replay if the run replays this space.
func (r *Run) ReplayCase(space string, c any) (replaying, mine bool) {
	if r.replay == nil {
		return false, false
	}
	if r.replay.Space != space {
		return true, false
	}
	if err := json.Unmarshal(r.replay.Case, c); err != nil {
		r.T.Fatal(err)
	}
	r.matched = true
	return true, true
}

// Finish writes the evidence and ends the process with the verdict.
func (r *Run) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.replay != nil {
		for _, f := range r.fails {
			fmt.Printf("REPLAYED property=%s space=%s: %s\n", r.Prop, f.Space, f.Msg)
		}
		if !r.matched {
			fmt.Println("replay: no space named", r.replay.Space)
		}
		fmt.Printf("replay: violated=%v\n", len(r.fails) > 0)
		if len(r.fails) > 0 {
			os.Exit(1)
		}
		os.Exit(0)
	}
	cov := map[string]any{}
	ev := r.evals.Load()
	if ev == 0 {
		r.extra.Range(func(k, v any) bool {
			if strings.HasPrefix(k.(string), "cases_") {
				ev += v.(*atomic.Int64).Load()
			}
			return true
		})
	}
	if len(r.samples) == 0 {
		r.samples = append(r.samples, "none")
	}
	cov["samples"] = r.samples
	cov["exhaustive"] = !r.capped.Load() && len(r.fails) == 0
	cov["bounds"] = r.Bounds
	if r.Level == "model_checking" {
		st := r.states.Load()
		if st == 0 {
			st = int64(r.SeenCount())
		}
		cov["states"] = st
		cov["transitions"] = r.trans.Load()
		tv := r.traces.Load()
		if tv == 0 {
			tv = ev
		}
		cov["traces_validated_against_impl"] = tv
		cov["rule"] = r.Rule
		cov["distinct_outcomes"] = r.SeenCount()
	} else {
		cov["evaluations"] = ev
		cov["distinct_nontrivial"] = r.SeenCount()
		cov["rule"] = r.Rule
	}
	counters := map[string]int64{}
	r.extra.Range(func(k, v any) bool {
		counters[k.(string)] = v.(*atomic.Int64).Load()
		return true
	})
	cov["counters"] = counters
	if len(r.flaky) > 0 {
		cov["unreproducible"] = r.flaky
	}
	evd := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"assumptions": r.Assume, "wall_s": time.Since(r.start).Seconds(), "violations": len(r.fails),
		"known_findings": r.known,
	}
	b, err := json.MarshalIndent(evd, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		os.Exit(3)
	}
	out := env("MC_OUT", "/verif/evidence")
	os.MkdirAll(out, 0o755)
	if err := os.WriteFile(filepath.Join(out, r.Prop+".json"), b, 0o644); err != nil {
		fmt.Println("evidence:", err)
		os.Exit(3)
	}
	sort.Slice(r.known, func(i, j int) bool { return r.known[i].Key < r.known[j].Key })
	for _, k := range r.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.Msg)
	}
	keys := make([]string, 0)
	for k, v := range counters {
		keys = append(keys, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(keys)
	fmt.Printf("%s %s: evals=%d distinct=%d states=%d transitions=%d exhaustive=%v wall=%.1fs %s\n", r.Prop, r.Tier, ev, r.SeenCount(),
		r.states.Load(), r.trans.Load(), cov["exhaustive"], time.Since(r.start).Seconds(), strings.Join(keys, " "))
	if len(r.flaky) > 0 {
		fmt.Printf("note: %d failures did not reproduce, first: %s %s: %s\n", len(r.flaky), r.flaky[0].Space, r.flaky[0].Case, r.flaky[0].Msg)
	}
	if len(r.fails) > 0 {
		for i, f := range r.fails {
			p := filepath.Join(out, fmt.Sprintf("replay-%s-%d.json", r.Prop, i))
			b, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s %s\n  key=%s\n  %s\n", r.Prop, p, f.Space, f.Case, f.Key, f.Msg)
		}
		os.Exit(1)
	}
	os.Exit(0)
}
