// Package vsched runs a few threads of real code one at a time under a chosen schedule.
// The code under test calls Y before its statements (inserted by ../instr); a thread only
// hands over control where the schedule says so, where it blocks, and where it ends.
// Hand-overs are invisible to the race detector: two accesses that only the schedule orders
// are still reported as a race.
//
// An execution runs inside a synctest bubble: the scheduler uses synctest.Wait to learn that
// the running thread has parked, finished or blocked on a real channel or timer.
package vsched

import (
	"sync"
	"testing/synctest"
	"time"
	"unsafe"
)

func getg() uintptr

// MaxThreads bounds the threads of one execution, spawned ones included.
const MaxThreads = 12

// MaxSteps bounds the scheduling points recorded per execution.
const MaxSteps = 1 << 17

// Decision deviates from the default schedule: at scheduling point Step thread To continues.
type Decision struct {
	Step int `json:"s"`
	To   int `json:"t"`
}

// Point is one recorded scheduling point. Cur is the thread that reached it (-1: it blocked or ended there).
type Point struct {
	Cur     int8
	Fine    bool // inside a function; otherwise at a function's entry or a synchronising operation
	Enabled uint16
}

type state struct {
	on      bool
	n       int
	cur     int
	step    int
	next    int // step of the next decision, -1 if none
	dec     []Decision
	di      int
	g       [MaxThreads]uintptr
	ready   [MaxThreads]bool
	done    [MaxThreads]bool
	wait    [MaxThreads]unsafe.Pointer
	chn     [MaxThreads]bool // waits for a channel
	ch      [MaxThreads]chan struct{}
	forced  bool // the running thread parked because it ran too long
	since   int
	trace   [MaxSteps]Point
	wg      *sync.WaitGroup
	spawned int
	acts    int // scheduling points reached
	ended   int
}

var s state

//go:norace
func me() int {
	g := getg()
	for i := 0; i < s.n; i++ {
		if s.g[i] == g {
			return i
		}
	}
	return -1
}

//go:norace
func mask() uint16 {
	var m uint16
	for i := 0; i < s.n; i++ {
		if s.ready[i] {
			m |= 1 << i
		}
	}
	return m
}

// Y is a scheduling point at a function's entry or a synchronising operation.
//
//go:norace
func Y() { point(false) }

// F is a scheduling point before a statement inside a function.
//
//go:norace
func F() { point(true) }

//go:norace
func point(fine bool) {
	if !s.on {
		return
	}
	if s.cur < 0 || s.g[s.cur] != getg() {
		if i := me(); i >= 0 { // woken by a real channel or timer
			park(i, true)
		}
		return
	}
	s.acts++
	st := s.step
	s.step++
	if st < MaxSteps {
		s.trace[st] = Point{int8(s.cur), fine, mask() | 1<<s.cur}
	}
	if st == s.next {
		park(s.cur, true)
	} else if st-s.since > 20000 {
		s.forced = true
		park(s.cur, true)
	}
}

//go:norace
func park(i int, ready bool) {
	raceOff()
	c := s.ch[i]
	s.ready[i] = ready
	<-c
	raceOn()
}

//go:norace
func block(i int, p unsafe.Pointer) {
	s.wait[i] = p
	park(i, false)
	s.wait[i] = nil
}

//go:norace
func wake(p unsafe.Pointer) {
	if !s.on {
		return
	}
	for i := 0; i < s.n; i++ {
		if s.wait[i] == p {
			s.wait[i] = nil
			s.ready[i] = true
		}
	}
}

//go:norace
func thread(i int, f func()) {
	s.g[i] = getg()
	park(i, true)
	f()
	raceOff()
	s.done[i] = true
	s.ended++
	s.g[i] = 0
	raceOn()
	s.wg.Done()
}

//go:norace
func startThread(f func()) bool {
	if s.n >= MaxThreads {
		return false
	}
	i := s.n
	s.ready[i], s.done[i], s.wait[i], s.chn[i], s.g[i] = false, false, nil, false, 0
	raceOff()
	s.ch[i] = make(chan struct{}, 1)
	raceOn()
	s.wg.Add(1)
	s.n++
	go thread(i, f)
	return true
}

// Go starts f as a controlled thread when called from one, else as a plain goroutine.
//
//go:norace
func Go(f func()) {
	if !s.on || me() < 0 || !startThread(f) {
		go f()
		return
	}
	s.spawned++
	Y()
}

// Result describes one execution.
type Result struct {
	Steps    int
	Points   []Point // valid until the next execution
	Diverged bool    // a decision could not be followed
	Deadlock bool    // threads remain that nothing can wake
	Endless  bool    // the execution did not end within MaxSteps scheduling points
	Switches int
}

// Run executes the threads under the decisions; it has to be called inside a synctest bubble.
//
//go:norace
func Run(dec []Decision, fs []func()) (res Result) {
	if s.on {
		panic("vsched: nested run")
	}
	s.n, s.cur, s.step, s.dec, s.di, s.spawned, s.since, s.acts, s.ended = 0, -1, 0, dec, 0, 0, 0, 0, 0
	var wg sync.WaitGroup
	s.wg = &wg
	setNext()
	for _, f := range fs {
		startThread(f)
	}
	s.on = true
	raceOff()
	idle := time.Millisecond
	var idled time.Duration
	last := -1
	retried, acts, ended := false, -1, -1
	for {
		synctest.Wait()
		all := true
		for i := 0; i < s.n; i++ {
			if !s.done[i] {
				all = false
			}
		}
		if all {
			break
		}
		m := mask()
		if s.acts != acts || s.ended != ended {
			acts, ended = s.acts, s.ended
			retried = false
			idle, idled = time.Millisecond, 0
		}
		if m == 0 && !retried { // a channel may have moved unnoticed
			retried = true
			Moved()
			m = mask()
		}
		if m == 0 {
			retried = false
			if idled > 1000*time.Hour {
				res.Deadlock = true
				break
			}
			s.cur = -1
			idled += idle
			time.Sleep(idle)
			idle *= 2
			continue
		}
		if s.step >= MaxSteps {
			res.Endless = true
			break
		}
		to := -1
		if s.forced {
			s.forced = false
			for k := 1; k <= s.n; k++ {
				if i := (s.cur + k) % s.n; m&(1<<i) != 0 {
					to = i
					break
				}
			}
		} else if s.cur >= 0 && s.ready[s.cur] && s.step-1 == s.next {
			to = s.take(m)
			if to < 0 {
				to = s.cur
			}
		} else {
			// the running thread blocked or ended: a free choice
			st := s.step
			s.step++
			s.trace[st] = Point{-1, false, m}
			if st == s.next {
				to = s.take(m)
			}
			if to < 0 {
				for i := 0; i < s.n; i++ {
					if m&(1<<i) != 0 {
						to = i
						break
					}
				}
			}
		}
		if s.di < 0 {
			res.Diverged = true
			s.di = len(s.dec)
		}
		if to != last {
			res.Switches++
			last = to
		}
		s.cur = to
		s.since = s.step
		s.ready[to] = false
		s.ch[to] <- struct{}{}
	}
	s.on = false
	raceOn()
	if !res.Deadlock && !res.Endless {
		wg.Wait()
	}
	if s.di < len(s.dec) {
		res.Diverged = true
	}
	res.Steps = s.step
	if s.step < MaxSteps {
		res.Points = s.trace[:s.step]
	} else {
		res.Points = s.trace[:]
	}
	return res
}

//go:norace
func setNext() {
	if s.di < len(s.dec) {
		s.next = s.dec[s.di].Step
	} else {
		s.next = -1
	}
}

// take consumes the decision for this step and returns its thread, -1 if that thread cannot run.
//
//go:norace
func (x *state) take(m uint16) int {
	to := x.dec[x.di].To
	x.di++
	setNext()
	if to >= x.n || m&(1<<to) == 0 {
		x.di = -1
		x.next = -1
		return -1
	}
	return to
}
