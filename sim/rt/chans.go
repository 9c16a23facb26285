package rt

import (
	"iter"
	"reflect"
	"unsafe"
)

// Simulated channel operations. Inside a simulation the buffered part of a
// channel is used through non-blocking operations; rendezvous on unbuffered
// channels (and blocking in general) is modelled here.

type chanState struct {
	addr   unsafe.Pointer
	ch     any // keeps the channel alive, so that its address is not reused
	sendq  []*sendWait
	recvs  int // receivers waiting
	closed bool
	next   *chanState
}

type sendWait struct {
	v     any
	taken bool
}

// All channel operations of a run are ordered for the race detector by this
// one address: channels synchronise anyway.
var chanLock byte

func enter() { Y(siteChan); RaceAcquire(unsafe.Pointer(&chanLock)) }
func leave() { RaceReleaseMerge(unsafe.Pointer(&chanLock)) }

func block(on unsafe.Pointer, what string) {
	leave()
	Block(on, what)
	RaceAcquire(unsafe.Pointer(&chanLock))
}

//go:norace
func chanList() *chanState { return S.chans }

//go:norace
func setChanList(c *chanState) { S.chans = c }

func chanOf(ch any) *chanState {
	p := reflect.ValueOf(ch).UnsafePointer()
	for c := chanList(); c != nil; c = c.next {
		if c.addr == p {
			return c
		}
	}
	c := &chanState{addr: p, ch: ch, next: chanList()}
	setChanList(c)
	return c
}

// Send replaces `ch <- v`.
func Send[T any](ch chan<- T) func(v T) {
	return func(v T) {
		if !Active() {
			ch <- v
			return
		}
		enter()
		defer leave()
		if ch == nil {
			for {
				block(nil, "send on nil channel")
			}
		}
		st := chanOf(ch)
		for {
			select {
			case ch <- v:
				Wake(st.addr)
				return
			default:
			}
			if cap(ch) == 0 {
				w := &sendWait{v: v}
				st.sendq = append(st.sendq, w)
				Wake(st.addr)
				for !w.taken {
					if st.closed {
						ch <- v // panics
					}
					block(st.addr, "chan send")
				}
				return
			}
			block(st.addr, "chan send")
		}
	}
}

// tryRecv attempts a receive without blocking.
func tryRecv[T any](ch <-chan T, st *chanState) (v T, ok, done bool) {
	select {
	case v, ok = <-ch:
		Wake(st.addr)
		return v, ok, true
	default:
	}
	for len(st.sendq) > 0 {
		w := st.sendq[0]
		st.sendq = st.sendq[1:]
		if w.taken {
			continue
		}
		w.taken = true
		Wake(st.addr)
		v, _ = w.v.(T)
		return v, true, true
	}
	return v, false, false
}

// Recv2 replaces `v, ok := <-ch`.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	enter()
	defer leave()
	if ch == nil {
		for {
			block(nil, "receive from nil channel")
		}
	}
	st := chanOf(ch)
	for {
		if v, ok, done := tryRecv(ch, st); done {
			return v, ok
		}
		st.recvs++
		Wake(st.addr)
		block(st.addr, "chan receive")
		st.recvs--
	}
}

// Recv replaces `<-ch`.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// RangeChan replaces `range ch`.
func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Close replaces close(ch).
func Close[T any](ch chan<- T) {
	if !Active() {
		close(ch)
		return
	}
	enter()
	defer leave()
	close(ch)
	st := chanOf(ch)
	st.closed = true
	Wake(st.addr)
}

// Case is one case of a select.
type Case interface {
	try() bool
	waiting(int)
}

// RecvCase is a receive case; V and OK hold what was received.
type RecvCase[T any] struct {
	V  T
	OK bool
	ch <-chan T
}

// CR makes a receive case.
func CR[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) try() (done bool) {
	if c.ch == nil {
		return false
	}
	if !Active() {
		select {
		case c.V, c.OK = <-c.ch:
			return true
		default:
			return false
		}
	}
	c.V, c.OK, done = tryRecv(c.ch, chanOf(c.ch))
	return done
}

func (c *RecvCase[T]) waiting(d int) {
	if c.ch != nil {
		st := chanOf(c.ch)
		st.recvs += d
		if d > 0 {
			Wake(st.addr)
		}
	}
}

// SendCase is a send case.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

// CS makes a send case.
func CS[T any](ch chan<- T) func(v T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}

func (c *SendCase[T]) waiting(int) {}

func (c *SendCase[T]) try() bool {
	if c.ch == nil {
		return false
	}
	select {
	case c.ch <- c.v:
		if Active() {
			Wake(chanOf(c.ch).addr)
		}
		return true
	default:
	}
	if !Active() || cap(c.ch) > 0 {
		return false
	}
	st := chanOf(c.ch)
	pend := 0
	for _, w := range st.sendq {
		if !w.taken {
			pend++
		}
	}
	if pend < st.recvs {
		st.sendq = append(st.sendq, &sendWait{v: c.v})
		Wake(st.addr)
		return true
	}
	return false
}

var selAny byte

// Select replaces the select statement; it returns the index of the case
// taken, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	sim := Active()
	off := 0
	if sim {
		enter()
		defer leave()
		if len(cases) > 1 {
			off = selOffset(len(cases))
		}
	}
	for {
		for i := range cases {
			j := (i + off) % len(cases)
			if cases[j].try() {
				return j
			}
		}
		if hasDefault {
			return -1
		}
		if !sim {
			continue
		}
		for _, c := range cases {
			c.waiting(1)
		}
		block(unsafe.Pointer(&selAny), "select")
		for _, c := range cases {
			c.waiting(-1)
		}
	}
}

//go:norace
func selOffset(n int) int { return int(next(&S.cur.rng) >> 8 % uint64(n)) }
