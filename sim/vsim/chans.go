package vsim

import (
	"sync/atomic"
	"unsafe"
)

// Channel operations of the code under test.  Blocking is decided by the
// simulator; values go through the real channel when it has a buffer, and from
// waiter to waiter when it has none.

// chanState is who waits at an unbuffered channel.
type chanState struct {
	key   unsafe.Pointer
	recvq []*waiter
	sendq []*waiter
}

// waiter is one side of a rendezvous.
type waiter struct {
	sel *selection
	idx int
	v   any // value to hand over
	set func(v any)
}

// selection is one blocked operation, or one blocked select.
type selection struct {
	done bool
	idx  int
	rel  atomic.Int32 // orders the other side before this one
	ack  atomic.Int32 // orders this side before the other one
}

// Push and Cut are append and delete without the runtime's own race
// annotations.
//
//go:norace
func Push[T any](s []T, v T) []T {
	if len(s) == cap(s) {
		n := make([]T, len(s), 2*len(s)+8)
		for i := range s {
			n[i] = s[i]
		}
		s = n
	}
	s = s[:len(s)+1]
	s[len(s)-1] = v
	return s
}

//go:norace
func Cut[T any](s []T, i int) []T {
	for ; i+1 < len(s); i++ {
		s[i] = s[i+1]
	}
	var zero T
	s[len(s)-1] = zero
	return s[:len(s)-1]
}

var chanStates []*chanState

//go:norace
func stateOf(key unsafe.Pointer, add bool) *chanState {
	for _, c := range chanStates {
		if c.key == key {
			return c
		}
	}
	if !add {
		return nil
	}
	c := &chanState{key: key}
	chanStates = Push(chanStates, c)
	return c
}

//go:norace
func drop(key unsafe.Pointer, sel *selection) {
	for i, c := range chanStates {
		if c.key != key {
			continue
		}
		c.recvq = without(c.recvq, sel)
		c.sendq = without(c.sendq, sel)
		if len(c.recvq)+len(c.sendq) == 0 {
			chanStates = Cut(chanStates, i)
		}
		return
	}
}

//go:norace
func without(q []*waiter, sel *selection) []*waiter {
	keep := q[:0]
	for _, x := range q {
		if x.sel != sel {
			keep = Push(keep, x)
		}
	}
	for i := len(keep); i < len(q); i++ {
		q[i] = nil
	}
	return keep
}

//go:norace
func keyOf[C any](ch *C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(ch)) }

// Case is one case of a select.
type Case interface {
	try() bool
	queue(sel *selection, idx int)
	key() unsafe.Pointer
}

// RecvCase is a receive.
type RecvCase[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

// SendCase is a send.
type SendCase[T any] struct {
	c chan<- T
	v T
}

// CaseRecv is <-c.
func CaseRecv[T any](c <-chan T) *RecvCase[T] { return &RecvCase[T]{c: c} }

// CaseSend is c <- v, in two steps: a value need only be assignable.
func CaseSend[T any](c chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{c, v} }
}

//go:norace
func (r *RecvCase[T]) key() unsafe.Pointer { return keyOf(&r.c) }

//go:norace
func (r *RecvCase[T]) try() bool {
	select {
	case r.V, r.OK = <-r.c:
		Wake(r.key())
		return true
	default:
	}
	if r.c == nil || cap(r.c) > 0 {
		return false
	}
	if c := stateOf(r.key(), false); c != nil {
		for _, s := range c.sendq {
			if s.sel.done {
				continue
			}
			s.sel.done, s.sel.idx = true, s.idx
			s.sel.ack.Load()
			s.sel.rel.Store(1)
			r.V, _ = s.v.(T)
			r.OK = true
			Wake(r.key())
			return true
		}
	}
	return false
}

//go:norace
func (r *RecvCase[T]) queue(sel *selection, idx int) {
	if r.c == nil || cap(r.c) > 0 {
		return
	}
	c := stateOf(r.key(), true)
	c.recvq = Push(c.recvq, &waiter{sel: sel, idx: idx, set: func(v any) { r.V, _ = v.(T); r.OK = true }})
}

//go:norace
func (s *SendCase[T]) key() unsafe.Pointer { return keyOf(&s.c) }

//go:norace
func (s *SendCase[T]) try() bool {
	select {
	case s.c <- s.v:
		Wake(s.key())
		return true
	default:
	}
	if s.c == nil || cap(s.c) > 0 {
		return false
	}
	if c := stateOf(s.key(), false); c != nil {
		for _, r := range c.recvq {
			if r.sel.done {
				continue
			}
			r.sel.done, r.sel.idx = true, r.idx
			r.sel.ack.Load()
			r.set(s.v)
			r.sel.rel.Store(1)
			Wake(s.key())
			return true
		}
	}
	return false
}

//go:norace
func (s *SendCase[T]) queue(sel *selection, idx int) {
	if s.c == nil || cap(s.c) > 0 {
		return
	}
	c := stateOf(s.key(), true)
	c.sendq = Push(c.sendq, &waiter{sel: sel, idx: idx, v: s.v})
}

// Select chooses and performs one of the cases; -1 is the default case.
//
//go:norace
func Select(def bool, cases ...Case) int {
	if !active {
		return selectNative(def, cases)
	}
	Point()
	// any ready case may be chosen.
	start := 0
	if len(cases) > 1 {
		start = int(choose() % uint64(len(cases)))
	}
	var sel *selection
	defer func() {
		if sel != nil {
			for _, c := range cases {
				drop(c.key(), sel)
			}
		}
	}()
	for {
		for i := range cases {
			k := (start + i) % len(cases)
			if cases[k].try() {
				return k
			}
		}
		if def {
			return -1
		}
		if sel == nil {
			sel = &selection{}
			sel.ack.Store(1)
			for i, c := range cases {
				c.queue(sel, i)
			}
		}
		block(nil, cases)
		if sel.done {
			sel.rel.Load()
			return sel.idx
		}
		if !active {
			return selectNative(def, cases)
		}
	}
}

func selectNative(def bool, cases []Case) int {
	for {
		for i, c := range cases {
			if c.try() {
				return i
			}
		}
		if def {
			return -1
		}
		if active {
			return Select(def, cases...)
		}
		nap()
	}
}

// Send is ch <- v, in two steps: a value need only be assignable.
func Send[T any](ch chan<- T) func(T) { return func(v T) { send(ch, v) } }

//go:norace
func send[T any](ch chan<- T, v T) {
	if !active {
		ch <- v
		return
	}
	Select(false, &SendCase[T]{ch, v})
}

// Recv2 is v, ok := <-ch.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if !active {
		v, ok := <-ch
		return v, ok
	}
	r := &RecvCase[T]{c: ch}
	Select(false, r)
	return r.V, r.OK
}

// Recv is <-ch.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// ChanIt ranges over a channel.
type ChanIt[T any] struct{ c <-chan T }

// ChanIter returns a zero loop variable and an iterator for c.
func ChanIter[T any](c <-chan T) (T, *ChanIt[T]) {
	var v T
	return v, &ChanIt[T]{c}
}

// Next receives a value and stores it through the pointer unless it is nil.
func (it *ChanIt[T]) Next(p *T) bool {
	v, ok := Recv2(it.c)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// Close is close(ch).
//
//go:norace
func Close[T any](ch chan<- T) {
	close(ch)
	if active {
		Wake(keyOf(&ch))
		Point()
	}
}
