// Package schedchecks explores all schedules, up to a preemption bound, of small concurrent
// programs over the real (instrumented) code.
package schedchecks

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"gofremc/kit"
	"gofremc/vsched"
)

// program is one execution: threads and what has to hold after they ended. It returns a signature of the outcome.
type program struct {
	Threads []func()
	Check   func(res *vsched.Result) (sig string, fail *kit.Failure)
}

// scenario makes fresh programs; New runs in the bubble, uncontrolled.
type scenario struct {
	Name  string
	Bound int // preemptions
	Fine  int // how many of them may lie inside functions, the others only at function entries and synchronising operations
	New   func() program
}

type schedCase struct {
	Scenario  string            `json:"scenario"`
	Decisions []vsched.Decision `json:"decisions"`
	Pool      int               `json:"pool,omitempty"`
}

type wfail struct {
	Case schedCase
	Key  string
	Msg  string
}

type workerOut struct {
	Runs, Steps, States, Diverged int
	MaxSteps                      int
	PerBound                      [8]int
	Capped                        bool
	Sigs                          []uint64
	Fails                         []wfail
	Samples                       []schedCase
	Scenarios                     int
	Partial                       []string
	Blind                         int
}

type explorer struct {
	t     *testing.T
	out   workerOut
	sigs  map[uint64]bool
	until time.Time
	races int
	pool  int
	dead  bool // an execution is still going on
}

func (e *explorer) exec(sc scenario, dec []vsched.Decision) (pts []vsched.Point, fail *kit.Failure) {
	vsched.ResetPools()
	vsched.PoolMode = e.pool
	var res vsched.Result
	var sig string
	// a reported race fails the test and ends the goroutine that called synctest.Test
	done := make(chan struct{})
	go func() {
		defer close(done)
		synctest.Test(e.t, func(t *testing.T) {
			p := sc.New()
			res = vsched.Run(dec, p.Threads)
			if res.Deadlock || res.Endless {
				return
			}
			sig, fail = p.Check(&res)
		})
	}()
	if fail := e.await(done); fail != nil || e.dead {
		return nil, fail
	}
	if res.Deadlock {
		fail = kit.Failf("deadlock", "threads wait for each other and nothing can wake them")
	} else if res.Endless {
		fail = kit.Failf("endless", "the execution did not end within %d scheduling points", vsched.MaxSteps)
	}
	e.out.Runs++
	e.out.Steps += res.Steps
	if res.Steps > e.out.MaxSteps {
		e.out.MaxSteps = res.Steps
	}
	if res.Diverged {
		e.out.Diverged++
	}
	if n := vsched.RaceErrors(); n > e.races {
		e.races = n
		fail = &kit.Failure{Key: "race", Msg: raceText()}
	}
	if sig != "" && len(e.sigs) < 1<<16 {
		e.sigs[kit.Hash(sc.Name, sig)] = true
	}
	return res.Points, fail
}

// await is for executions that do not even reach a scheduling point again. One that keeps a processor busy
// never ends; one that is blocked where the bubble cannot tell is beyond this engine, and says nothing.
func (e *explorer) await(done chan struct{}) *kit.Failure {
	select {
	case <-done:
		return nil
	case <-time.After(40 * time.Second):
	}
	for i := 0; i < 3; i++ {
		cpu := kit.CPUNow()
		select {
		case <-done:
			return nil
		case <-time.After(20 * time.Second):
		}
		if kit.CPUNow()-cpu < int64(3*time.Second) {
			break
		}
		if i == 2 {
			e.dead = true
			return kit.Failf("endless", "the execution does not end and reaches no further scheduling point")
		}
	}
	e.dead, e.out.Capped, e.out.Blind = true, true, e.out.Blind+1
	return nil
}

func raceText() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(kv, "log_path="); ok {
			b, _ := os.ReadFile(p + "." + strconv.Itoa(os.Getpid()))
			s := string(b)
			if len(s) > 1100 {
				s = s[:1100]
			}
			return "data race:\n" + s
		}
	}
	return "data race"
}

func (e *explorer) stop() bool {
	if len(e.out.Fails) >= 2 || e.dead {
		return true
	}
	if time.Now().After(e.until) {
		e.out.Capped = true
		return true
	}
	return false
}

// deadline is when a scenario that searches on its own has to stop (real time, which a bubble hides)
var deadline int64 = 1 << 62

func realTime() int64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return tv.Sec
}

var current *explorer

// addStates counts what a scenario explored on its own.
func addStates(states, transitions int, complete bool) {
	if current != nil {
		current.out.States += states
		current.out.Steps += transitions
		if !complete {
			current.out.Capped = true
		}
	}
}

type node struct {
	dec  []vsched.Decision
	cost int
	fine int
}

// explore visits every schedule of the scenario with at most Bound preemptions whose first deviation falls to this worker.
func (e *explorer) explore(sc scenario, mine func(child int) bool) {
	e.out.Scenarios++
	queues := make([][]node, sc.Bound+1)
	queues[0] = []node{{}}
	root := true
	var visit func(n node)
	visit = func(n node) {
		if e.stop() {
			return
		}
		pts, fail := e.exec(sc, n.dec)
		isRoot := root
		root = false
		if !isRoot || mine(-1) {
			e.out.PerBound[n.cost]++
			if len(e.out.Samples) < 3 {
				e.out.Samples = append(e.out.Samples, schedCase{sc.Name, n.dec, e.pool})
			}
		} else {
			e.out.Runs--
			e.out.Steps -= len(pts)
		}
		from := 0
		if k := len(n.dec); k > 0 {
			from = n.dec[k-1].Step + 1
		}
		if !isRoot || mine(-1) {
			e.out.States += len(pts) - from
		}
		if fail != nil {
			e.out.Fails = append(e.out.Fails, wfail{schedCase{sc.Name, append([]vsched.Decision{}, n.dec...), e.pool}, fail.Key, fail.Msg})
			return
		}
		// the points are overwritten by the next execution
		type alt struct{ step, to, cost, fine int }
		var alts []alt
		for k := from; k < len(pts); k++ {
			p := pts[k]
			def := int(p.Cur)
			c := n.cost + 1
			if def < 0 {
				c = n.cost
				for i := 0; ; i++ {
					if p.Enabled&(1<<i) != 0 {
						def = i
						break
					}
				}
			}
			fine := n.fine
			if p.Fine && def >= 0 && c > n.cost {
				fine++
			}
			if c > sc.Bound || fine > sc.Fine {
				continue
			}
			for i := 0; i < vsched.MaxThreads; i++ {
				if i != def && p.Enabled&(1<<i) != 0 {
					alts = append(alts, alt{k, i, c, fine})
				}
			}
		}
		for i, a := range alts {
			if isRoot && !mine(i) {
				continue
			}
			d := make([]vsched.Decision, len(n.dec)+1)
			copy(d, n.dec)
			d[len(n.dec)] = vsched.Decision{Step: a.step, To: a.to}
			c := node{d, a.cost, a.fine}
			if a.cost == sc.Bound && n.cost == sc.Bound {
				visit(c)
			} else if a.cost == sc.Bound && sc.Bound > 0 {
				visit(c)
			} else {
				queues[a.cost] = append(queues[a.cost], c)
			}
		}
	}
	for b := 0; b <= sc.Bound; b++ {
		for len(queues[b]) > 0 {
			n := queues[b][0]
			queues[b] = queues[b][1:]
			visit(n)
			if e.stop() {
				e.out.Partial = append(e.out.Partial, sc.Name)
				return
			}
		}
	}
}

// runSched explores the scenarios on all cores, each worker a process of its own.
// pools lists the recycling policies of the pools to explore.
func runSched(r *kit.Run, space string, scs []scenario, pools []int) {
	runOn(r, space, scs, pools, os.Args[0])
}

// runPlain is runSched without race detection.
func runPlain(r *kit.Run, space string, scs []scenario, pools []int) {
	bin := os.Getenv("MC_NORACE_BIN")
	if bin == "" {
		bin = os.Args[0]
	}
	runOn(r, space, scs, pools, bin)
}

func runOn(r *kit.Run, space string, scs []scenario, pools []int, bin string) {
	if re := os.Getenv("MC_SCEN"); re != "" { // development only
		var keep []scenario
		for _, s := range scs {
			if regexp.MustCompile(re).MatchString(s.Name) {
				keep = append(keep, s)
			}
		}
		scs = keep
	}
	byName := map[string]scenario{}
	for _, s := range scs {
		if _, dup := byName[s.Name]; dup {
			panic("duplicate scenario " + s.Name)
		}
		byName[s.Name] = s
	}
	var rc schedCase
	if replaying, mine := r.ReplayCase(space, &rc); replaying {
		if mine {
			sc, ok := byName[rc.Scenario]
			if !ok {
				r.T.Fatalf("no scenario %q", rc.Scenario)
			}
			e := &explorer{t: r.T, sigs: map[uint64]bool{}, pool: rc.Pool}
			if _, fail := e.exec(sc, rc.Decisions); fail != nil {
				r.Report(space, rc, fail)
			}
		}
		return
	}
	wn := runtime.NumCPU()
	if wn > 8 {
		wn = 8
	}
	if w := os.Getenv("MC_WORKER"); w != "" {
		var sp string
		var wi int
		sp, idx, _ := strings.Cut(w, "/")
		wi, _ = strconv.Atoi(idx)
		if sp != space {
			return
		}
		secs, _ := strconv.Atoi(os.Getenv("MC_WORKER_S"))
		e := &explorer{t: r.T, sigs: map[uint64]bool{}, until: time.Now().Add(time.Duration(secs) * time.Second)}
		current = e
		deadline = realTime() + int64(secs)
		many := len(scs) >= 8*wn
		for _, pm := range pools {
			e.pool = pm
			for i, sc := range scs {
				if e.stop() {
					if e.out.Capped {
						e.out.Partial = append(e.out.Partial, sc.Name)
					}
					continue
				}
				if many {
					if i%wn == wi {
						e.explore(sc, func(int) bool { return true })
					}
				} else {
					e.explore(sc, func(c int) bool { return (i+c+1)%wn == wi })
				}
			}
		}
		for s := range e.sigs {
			e.out.Sigs = append(e.out.Sigs, s)
		}
		b, _ := json.Marshal(e.out)
		if err := os.WriteFile(os.Getenv("MC_WORKER_OUT"), b, 0o644); err != nil {
			panic(err)
		}
		os.Exit(0)
	}
	if !vsched.RaceEnabled {
		panic("built without -race")
	}
	if os.Getenv("MC_INPROC") != "" {
		return
	}
	dir, err := os.MkdirTemp("", "schedw")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	secs := int(r.Left().Seconds()) - 5
	if secs < 5 {
		secs = 5
	}
	outs := make([]workerOut, wn)
	var wg sync.WaitGroup
	var mu sync.Mutex
	crashed := ""
	for w := 0; w < wn; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			of := filepath.Join(dir, strconv.Itoa(w)+".json")
			c := exec.Command(bin, "-test.run", "^TestMC$", "-test.timeout", "0")
			c.Env = append(os.Environ(), fmt.Sprintf("MC_WORKER=%s/%d", space, w), "MC_WORKER_S="+strconv.Itoa(secs), "MC_WORKER_OUT="+of, "GOMAXPROCS=2", "GOGC=400")
			o, err := c.CombinedOutput()
			b, rerr := os.ReadFile(of)
			if err != nil || rerr != nil || json.Unmarshal(b, &outs[w]) != nil {
				mu.Lock()
				if len(o) > 6000 {
					o = o[:6000]
				}
				crashed = fmt.Sprintf("worker %d of %s: %v\n%s", w, space, err, o)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if crashed != "" {
		fmt.Println(crashed)
		os.Exit(2)
	}
	for _, o := range outs {
		r.AddTraces(o.Runs)
		r.AddTransitions(o.Steps)
		r.AddStates(o.States)
		r.Count("schedules_"+space, o.Runs)
		r.Count("diverged_"+space, o.Diverged)
		r.Max("max_points_"+space, o.MaxSteps)
		for b, n := range o.PerBound {
			if n > 0 {
				r.Count(fmt.Sprintf("schedules_with_%d_preemptions_%s", b, space), n)
			}
		}
		for _, s := range o.Sigs {
			r.Seen(s)
		}
		for _, s := range o.Samples {
			r.Sample(space, s)
		}
		if o.Blind > 0 {
			r.Bound("%s: a schedule led to where the engine cannot see whether a thread is blocked; the exploration of one worker ended there", space)
		}
		if o.Capped {
			r.Capped()
			if len(o.Partial) > 0 {
				r.Bound("time ran out in scenario %s of %s", o.Partial[0], space)
			}
		}
	}
	r.Count("scenarios_"+space, len(scs)*len(pools))
	// confirm the first few failures in a fresh process each
	n := 0
	for _, o := range outs {
		for _, f := range o.Fails {
			if n >= 3 {
				break
			}
			n++
			if f.Key == "endless" {
				n = 3
			}
			ok := true
			for i := 0; i < 2 && ok; i++ {
				ok = confirm(dir, space, f)
			}
			if ok {
				r.Report(space, f.Case, &kit.Failure{Key: f.Key, Msg: f.Msg})
			} else {
				r.Flaky(space, f.Case, &kit.Failure{Key: f.Key, Msg: f.Msg})
			}
		}
	}
}

func confirm(dir, space string, f wfail) bool {
	rp := filepath.Join(dir, "replay.json")
	b, _ := json.Marshal(map[string]any{"space": space, "case": f.Case, "key": f.Key, "msg": f.Msg})
	os.WriteFile(rp, b, 0o644)
	c := exec.Command(os.Args[0], "-test.run", "^TestMC$", "-test.timeout", "0")
	c.Env = append(os.Environ(), "MC_REPLAY="+rp)
	o, _ := c.CombinedOutput()
	return strings.Contains(string(o), "replay: violated=true")
}
