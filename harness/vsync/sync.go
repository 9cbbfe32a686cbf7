package vsync

import (
	"runtime"
	"sync"
	"unsafe"
)

type Locker interface {
	Lock()
	Unlock()
}

// ---------------------------------------------------------------- Mutex

// Mutex is locked iff held. Managed threads, and everything on one processor
// without asynchronous preemption, need no more than a plain variable.
type Mutex struct {
	held  bool
	owner uint64
}

//go:norace
func (m *Mutex) ready() bool { return !m.held }

//go:norace
func (m *Mutex) take() { m.held, m.owner = true, goid() }

//go:norace
func (m *Mutex) mine() bool { return m.held && m.owner == goid() }

//go:norace
func (m *Mutex) Lock() {
	if m.held && m.owner == goid() && (current() < 0) {
		panic(Deadlock{"Lock of a mutex that the goroutine already holds"})
	}
	waitFor(m)
	m.take()
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	PointHere()
	if m.held {
		return false
	}
	m.take()
	raceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	raceReleaseMerge(unsafe.Pointer(m))
	m.held = false
}

// ---------------------------------------------------------------- RWMutex

type RWMutex struct {
	w       bool
	r       int
	waiting int // writers that wait: they keep new readers out
	owner   uint64
	rowner  uint64 // the goroutine that read-locked last
	a, b    byte   // addresses for the race detector
}

type rwWriter RWMutex
type rwReader RWMutex

//go:norace
func (m *rwWriter) ready() bool { return !m.w && m.r == 0 }

//go:norace
func (m *rwReader) ready() bool { return !m.w && m.waiting == 0 }

//go:norace
func (m *RWMutex) Lock() {
	if current() < 0 && ((m.w && m.owner == goid()) || (m.r > 0 && m.rowner == goid())) {
		panic(Deadlock{"Lock of a read-write mutex that the goroutine already holds"})
	}
	PointHere()
	m.waiting++
	if !(!m.w && m.r == 0) {
		waitFor((*rwWriter)(m))
	}
	m.waiting--
	m.w, m.owner = true, goid()
	raceAcquire(unsafe.Pointer(&m.a))
	raceAcquire(unsafe.Pointer(&m.b))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	PointHere()
	if m.w || m.r > 0 {
		return false
	}
	m.w, m.owner = true, goid()
	raceAcquire(unsafe.Pointer(&m.a))
	raceAcquire(unsafe.Pointer(&m.b))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.a))
	m.w = false
}

//go:norace
func (m *RWMutex) RLock() {
	if m.w && m.owner == goid() && current() < 0 {
		panic(Deadlock{"RLock of a read-write mutex that the goroutine has locked"})
	}
	waitFor((*rwReader)(m))
	m.r++
	m.rowner = goid()
	raceAcquire(unsafe.Pointer(&m.a))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	PointHere()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	m.rowner = goid()
	raceAcquire(unsafe.Pointer(&m.a))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.b))
	m.r--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// ---------------------------------------------------------------- Once

type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func (o *Once) Do(f func()) {
	PointHere()
	if o.isDone() {
		raceAcquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer func() {
			raceRelease(unsafe.Pointer(o))
			o.setDone()
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// ---------------------------------------------------------------- WaitGroup

type WaitGroup struct{ n int }

//go:norace
func (g *WaitGroup) ready() bool { return g.n == 0 }

//go:norace
func (g *WaitGroup) Add(d int) {
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(g))
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	waitFor(g)
	raceAcquire(unsafe.Pointer(g))
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	go func() {
		defer g.Done()
		f()
	}()
}

// ---------------------------------------------------------------- Cond

type Cond struct {
	L       Locker
	tickets int
	served  int
}

type condWait struct {
	c *Cond
	n int
}

//go:norace
func (w *condWait) ready() bool { return w.c.served > w.n }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) ticket() int { c.tickets++; return c.tickets - 1 }

func (c *Cond) Wait() {
	w := &condWait{c, c.ticket()}
	c.L.Unlock()
	waitFor(w)
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if c.served < c.tickets {
		c.served++
	}
}

//go:norace
func (c *Cond) Broadcast() { c.served = c.tickets }

// ---------------------------------------------------------------- Map

// Map delegates to the real one; each operation is a scheduling point.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { PointHere(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { PointHere(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { PointHere(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { PointHere(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { PointHere(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { PointHere(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { PointHere(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { PointHere(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { PointHere(); m.m.Range(f) }
func (m *Map) Clear()                           { PointHere(); m.m.Clear() }

// ---------------------------------------------------------------- Pool

// Pool hands out what was put last: the harshest reuse there is.
type Pool struct {
	New   func() any
	items []any
}

//go:norace
func (p *Pool) pop() (any, bool) {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x, true
	}
	return nil, false
}

//go:norace
func (p *Pool) push(x any) { p.items = append(p.items, x) }

func (p *Pool) Get() any {
	PointHere()
	if x, ok := p.pop(); ok {
		raceAcquire(unsafe.Pointer(p))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	PointHere()
	raceReleaseMerge(unsafe.Pointer(p))
	p.push(x)
}

func init() { runtime.GOMAXPROCS(1) }
