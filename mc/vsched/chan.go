package vsched

import (
	"reflect"
	"unsafe"
)

// Buffered channels serve as locks, semaphores and free lists, and may have been made before the
// execution began; the bubble cannot tell when a goroutine is blocked on one of those. Sends and
// receives on them are tried without blocking, and a thread that cannot go on is handed back to the
// scheduler. An operation on an unbuffered channel is left as it is.

func chanPtr[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func mine() int {
	if !active() {
		return -1
	}
	return me()
}

func Send[T any](c chan<- T) func(T) {
	return func(v T) {
		i := -1
		if cap(c) > 0 {
			i = mine()
		}
		if i < 0 {
			c <- v
			return
		}
		p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
		Y()
		for {
			select {
			case c <- v:
				wake(p)
				return
			default:
				blockChan(i, p)
			}
		}
	}
}

func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[T any](c <-chan T) (v T, ok bool) {
	i := -1
	if cap(c) > 0 {
		i = mine()
	}
	if i < 0 {
		v, ok = <-c
		return
	}
	p := chanPtr(c)
	Y()
	for {
		select {
		case v, ok = <-c:
			wake(p)
			return
		default:
			blockChan(i, p)
		}
	}
}

// Close is for the built-in close.
func Close[T any](c chan<- T) {
	close(c)
	wake(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
}

// Moved wakes whoever waits for a channel: a select statement, which is not tried as above, went on.
//
//go:norace
func Moved() {
	if !s.on {
		return
	}
	for i := 0; i < s.n; i++ {
		if s.chn[i] {
			s.wait[i] = nil
			s.ready[i] = true
		}
	}
}

//go:norace
func blockChan(i int, p unsafe.Pointer) {
	s.chn[i] = true
	block(i, p)
	s.chn[i] = false
}

// GoCall starts f(args...) as Go does.
func GoCall(f any, args ...any) { goCall(f, args, false) }

// GoSpread starts f(args...) whose last argument is the slice of the variadic ones.
func GoSpread(f any, args ...any) { goCall(f, args, true) }

func goCall(f any, args []any, spread bool) {
	fv := reflect.ValueOf(f)
	t := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 {
			pt = t.In(t.NumIn() - 1)
			if !spread {
				pt = pt.Elem()
			}
		} else {
			pt = t.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(pt) {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	Go(func() {
		if spread {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	})
}
