// Package sync is what the instrumented library gets when it imports "sync".
// Blocking goes through the simulator's scheduler; happens-before edges are
// reported to the race detector exactly where the real package has them.
package sync

import (
	real "sync"
	"unsafe"

	"github.com/markusmobius/go-dateparser/zzsim/rt"
)

// Locker is sync.Locker.
type Locker = real.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	_      byte
}

//go:norace
func (m *Mutex) Lock() {
	rt.YLock()
	p := unsafe.Pointer(m)
	for m.locked {
		rt.Block(p, "Mutex.Lock")
	}
	m.locked = true
	rt.RaceAcquire(p)
}

//go:norace
func (m *Mutex) TryLock() bool {
	rt.YLock()
	if m.locked {
		return false
	}
	m.locked = true
	rt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic(rt.Fatal{Msg: "sync: unlock of unlocked mutex"})
	}
	p := unsafe.Pointer(m)
	rt.RaceRelease(p)
	m.locked = false
	rt.Wake(p)
	rt.YLock()
}

// RWMutex is sync.RWMutex, including its preference for waiting writers.
type RWMutex struct {
	w       bool
	wWait   int32
	readers int32
	ra, wa  byte
}

//go:norace
func (m *RWMutex) Lock() {
	rt.YLock()
	p := unsafe.Pointer(m)
	m.wWait++
	for m.w || m.readers > 0 {
		rt.Block(p, "RWMutex.Lock")
	}
	m.wWait--
	m.w = true
	rt.RaceAcquire(unsafe.Pointer(&m.ra))
	rt.RaceAcquire(unsafe.Pointer(&m.wa))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	rt.YLock()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	rt.RaceAcquire(unsafe.Pointer(&m.ra))
	rt.RaceAcquire(unsafe.Pointer(&m.wa))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic(rt.Fatal{Msg: "sync: Unlock of unlocked RWMutex"})
	}
	rt.RaceRelease(unsafe.Pointer(&m.wa))
	m.w = false
	rt.Wake(unsafe.Pointer(m))
	rt.YLock()
}

//go:norace
func (m *RWMutex) RLock() {
	rt.YLock()
	p := unsafe.Pointer(m)
	for m.w || m.wWait > 0 {
		rt.Block(p, "RWMutex.RLock")
	}
	m.readers++
	rt.RaceAcquire(unsafe.Pointer(&m.wa))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	rt.YLock()
	if m.w || m.wWait > 0 {
		return false
	}
	m.readers++
	rt.RaceAcquire(unsafe.Pointer(&m.wa))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic(rt.Fatal{Msg: "sync: RUnlock of unlocked RWMutex"})
	}
	rt.RaceReleaseMerge(unsafe.Pointer(&m.ra))
	m.readers--
	rt.Wake(unsafe.Pointer(m))
	rt.YLock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) isDone() bool {
	if o.done {
		rt.RaceAcquire(unsafe.Pointer(&o.done))
		return true
	}
	return false
}

//go:norace
func (o *Once) setDone() {
	rt.RaceRelease(unsafe.Pointer(&o.done))
	o.done = true
}

func (o *Once) Do(f func()) {
	rt.YLock()
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var once Once
	var valid bool
	var p any
	var result T
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		result = f()
		f = nil
		valid = true
	}
	return func() T {
		once.Do(g)
		if !valid {
			panic(p)
		}
		return result
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	type pair struct {
		a T1
		b T2
	}
	g := OnceValue(func() pair { a, b := f(); return pair{a, b} })
	return func() (T1, T2) { r := g(); return r.a, r.b }
}

// Pool is sync.Pool as a deterministic LIFO: whatever was put last comes back
// first, to whichever task asks.
type Pool struct {
	New func() any
	top *poolItem
}

type poolItem struct {
	v    any
	next *poolItem
	tok  byte
}

//go:norace
func (p *Pool) Put(x any) {
	rt.YLock()
	if x == nil {
		return
	}
	it := &poolItem{v: x, next: p.top}
	rt.RaceRelease(unsafe.Pointer(&it.tok))
	p.top = it
}

//go:norace
func (p *Pool) Get() any {
	rt.YLock()
	it := p.top
	if it == nil {
		if p.New == nil {
			return nil
		}
		return p.New()
	}
	p.top = it.next
	rt.RaceAcquire(unsafe.Pointer(&it.tok))
	return it.v
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	a byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		rt.RaceReleaseMerge(unsafe.Pointer(&w.a))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		rt.Wake(unsafe.Pointer(w))
	}
	rt.YLock()
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	rt.YLock()
	for w.n > 0 {
		rt.Block(unsafe.Pointer(w), "WaitGroup.Wait")
	}
	rt.RaceAcquire(unsafe.Pointer(&w.a))
}

// Go is WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	head *condWaiter
}

type condWaiter struct {
	woken bool
	next  *condWaiter
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) enqueue() *condWaiter {
	w := &condWaiter{}
	pp := &c.head
	for *pp != nil {
		pp = &(*pp).next
	}
	*pp = w
	return w
}

//go:norace
func (w *condWaiter) wait() {
	for !w.woken {
		rt.Block(unsafe.Pointer(w), "Cond.Wait")
	}
}

func (c *Cond) Wait() {
	w := c.enqueue()
	c.L.Unlock()
	w.wait()
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if w := c.head; w != nil {
		c.head = w.next
		w.woken = true
		rt.Wake(unsafe.Pointer(w))
	}
	rt.YLock()
}

//go:norace
func (c *Cond) Broadcast() {
	for w := c.head; w != nil; w = w.next {
		w.woken = true
		rt.Wake(unsafe.Pointer(w))
	}
	c.head = nil
	rt.YLock()
}

// Map is sync.Map with a controlled Range order.
type Map struct{ m real.Map }

func (m *Map) Load(k any) (any, bool)           { rt.YLock(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { rt.YLock(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { rt.YLock(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { rt.YLock(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { rt.YLock(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { rt.YLock(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, old, new any) bool {
	rt.YLock()
	return m.m.CompareAndSwap(k, old, new)
}
func (m *Map) CompareAndDelete(k, old any) bool { rt.YLock(); return m.m.CompareAndDelete(k, old) }
func (m *Map) Clear()                           { rt.YLock(); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	rt.YLock()
	snap := map[any]any{}
	m.m.Range(func(k, v any) bool { snap[k] = v; return true })
	for k := range rt.MapIter(4, snap) {
		v, ok := m.m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}
