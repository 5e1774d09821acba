package vsched

import (
	"sync"
	"unsafe"
)

// The types below stand in for those of package sync in the instrumented code.

type Locker = sync.Locker
type WaitGroup = sync.WaitGroup
type Cond = sync.Cond

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (x *Mutex) Lock() {
	i := -1
	if active() {
		i = me()
	}
	if i < 0 {
		x.m.Lock()
		return
	}
	Y()
	for !x.m.TryLock() {
		block(i, unsafe.Pointer(x))
	}
}

func (x *Mutex) TryLock() bool { Y(); return x.m.TryLock() }

func (x *Mutex) Unlock() {
	x.m.Unlock()
	wake(unsafe.Pointer(x))
	Y()
}

type RWMutex struct{ m sync.RWMutex }

func (x *RWMutex) Lock() {
	i := -1
	if active() {
		i = me()
	}
	if i < 0 {
		x.m.Lock()
		return
	}
	Y()
	for !x.m.TryLock() {
		block(i, unsafe.Pointer(x))
	}
}

func (x *RWMutex) TryLock() bool  { Y(); return x.m.TryLock() }
func (x *RWMutex) TryRLock() bool { Y(); return x.m.TryRLock() }

func (x *RWMutex) RLock() {
	i := -1
	if active() {
		i = me()
	}
	if i < 0 {
		x.m.RLock()
		return
	}
	Y()
	for !x.m.TryRLock() {
		block(i, unsafe.Pointer(x))
	}
}

func (x *RWMutex) Unlock() {
	x.m.Unlock()
	wake(unsafe.Pointer(x))
	Y()
}

func (x *RWMutex) RUnlock() {
	x.m.RUnlock()
	wake(unsafe.Pointer(x))
	Y()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (x *RWMutex) RLocker() Locker { return (*rlocker)(x) }

//go:norace
func active() bool { return s.on }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Map is a sync.Map with a scheduling point before each operation.
type Map struct{ m sync.Map }

func (x *Map) Load(k any) (any, bool)           { Y(); return x.m.Load(k) }
func (x *Map) Store(k, v any)                   { Y(); x.m.Store(k, v) }
func (x *Map) Delete(k any)                     { Y(); x.m.Delete(k) }
func (x *Map) LoadOrStore(k, v any) (any, bool) { Y(); return x.m.LoadOrStore(k, v) }
func (x *Map) LoadAndDelete(k any) (any, bool)  { Y(); return x.m.LoadAndDelete(k) }
func (x *Map) Swap(k, v any) (any, bool)        { Y(); return x.m.Swap(k, v) }
func (x *Map) CompareAndSwap(k, o, n any) bool  { Y(); return x.m.CompareAndSwap(k, o, n) }
func (x *Map) CompareAndDelete(k, o any) bool   { Y(); return x.m.CompareAndDelete(k, o) }
func (x *Map) Range(f func(k, v any) bool)      { Y(); x.m.Range(f) }
func (x *Map) Clear()                           { Y(); x.m.Clear() }

// Pool recycles as much as possible: Get returns the object put last, without regard to
// processors or garbage collections. A real pool may do the same.
type Pool struct {
	New   func() any
	items [64]item
	n     int
	known bool
}

type item struct {
	v   any
	tag *byte
}

var poolMu sync.Mutex
var pools []*Pool

// ResetPools empties every pool.
//
//go:norace
func ResetPools() {
	for _, p := range pools {
		p.n = 0
		p.items = [64]item{}
	}
}

// PoolMode selects what Get returns: 0 the object put last, 1 the one put first, 2 always a new one.
var PoolMode int

//go:norace
func (p *Pool) pop() (it item) {
	raceOff()
	poolMu.Lock()
	if p.n > 0 {
		switch PoolMode {
		case 0:
			p.n--
			it = p.items[p.n]
			p.items[p.n] = item{}
		case 1:
			it = p.items[0]
			for i := 1; i < p.n; i++ {
				p.items[i-1] = p.items[i]
			}
			p.n--
			p.items[p.n] = item{}
		}
	}
	poolMu.Unlock()
	raceOn()
	return it
}

//go:norace
func (p *Pool) push(it item) {
	raceOff()
	poolMu.Lock()
	if !p.known {
		p.known = true
		pools = append(pools, p)
	}
	if p.n < len(p.items) {
		p.items[p.n] = it
		p.n++
	}
	poolMu.Unlock()
	raceOn()
}

func (p *Pool) Get() any {
	Y()
	it := p.pop()
	if it.tag != nil {
		raceAcquire(unsafe.Pointer(it.tag))
		return it.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	Y()
	tag := new(byte)
	raceRelease(unsafe.Pointer(tag))
	p.push(item{v, tag})
}

// PoolItems lists what the pools hold.
func PoolItems() (out [][]any) {
	poolMu.Lock()
	defer poolMu.Unlock()
	for _, p := range pools {
		var l []any
		for i := 0; i < p.n; i++ {
			l = append(l, p.items[i].v)
		}
		out = append(out, l)
	}
	return out
}
