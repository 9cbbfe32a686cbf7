// Package vsync stands in for package sync in builds of the code under test.
//
// Sequentially (no exploration running) it behaves like sync, except that a
// goroutine that waits for a lock it holds itself panics with Deadlock.
// While an exploration runs, the goroutines it has started are scheduled
// cooperatively: every operation that can wait, and every atomic operation,
// is a scheduling point at which the next thread is taken from a prescribed
// sequence of choices. Hand-offs are plain variable accesses in functions
// that the race detector does not instrument, so that it sees only the
// happens-before edges that the code under test creates itself.
package vsync

import (
	"fmt"
	"runtime"
	"time"
	"unsafe"
)

// Deadlock is the value that a certain self-deadlock panics with.
type Deadlock struct{ What string }

func (d Deadlock) Error() string { return "deadlock: " + d.What }

//go:linkname goid runtime.verifGoid
func goid() uint64

const maxThreads = 8

type thread struct {
	id   uint64 // goid, 0 before it has started
	done bool
	// what the thread waits for: wait == nil means that it can run
	wait waiter
}

type waiter interface{ ready() bool }

// Point is one scheduling decision.
type Point struct {
	Enabled [maxThreads]int8 // thread numbers, the running one first if it can go on
	N       int              // number of enabled threads
	Choice  int              // index into Enabled
	Running bool             // the running thread could have gone on
}

// Exec is one execution.
type Exec struct {
	Points   []Point // valid until the next Run
	Deadlock bool
	Diverged bool // a prescribed choice was not available
	Long     bool // more scheduling points than can be recorded
	Free     bool // control was lost (waiting the scheduler cannot see)
	Panics   []interface{}
	Steps    int
}

type sched struct {
	on             bool
	threads        [maxThreads]thread
	n              int
	turn           int // thread that may run
	prefix         []int
	np             int
	dead           bool
	diverged, long bool
	free           bool
	steps          int
	base           int // goroutines there were before
}

const maxPoints = 4096

var s sched
var points [maxPoints]Point

//go:norace
func current() int {
	if !s.on {
		return -1
	}
	id := goid()
	for i := 0; i < s.n; i++ {
		if s.threads[i].id == id {
			return i
		}
	}
	return -1
}

// Active reports whether an exploration is running.
//
//go:norace
func Active() bool { return s.on && !s.free }

//go:norace
func enabled(i int) bool {
	t := &s.threads[i]
	if t.done {
		return false
	}
	return t.wait == nil || t.wait.ready()
}

// pick chooses the thread to run next; me may be done or waiting.
//
//go:norace
func pick(me int) int {
	var en [maxThreads]int8
	n := 0
	running := enabled(me)
	if running {
		en[n] = int8(me)
		n++
	}
	for i := 0; i < s.n; i++ {
		if i != me && enabled(i) {
			en[n] = int8(i)
			n++
		}
	}
	if n == 0 {
		return -1
	}
	if n == 1 {
		return int(en[0])
	}
	c := 0
	k := s.np
	if k < len(s.prefix) {
		c = s.prefix[k]
		if c >= n {
			s.diverged = true
			c = 0
		}
	}
	if k >= maxPoints {
		s.long = true
		return int(en[0])
	}
	points[k] = Point{Enabled: en, N: n, Choice: c, Running: running}
	s.np++
	return int(en[c])
}

//go:norace
func alldone() bool {
	for i := 0; i < s.n; i++ {
		if !s.threads[i].done {
			return false
		}
	}
	return true
}

//go:norace
func handover(me int) {
	s.steps++
	next := pick(me)
	if next < 0 {
		if !alldone() {
			if runtime.NumGoroutine() > s.base+s.n {
				s.free = true // goroutines of the code's own may help
			} else {
				s.dead = true
			}
		}
		return
	}
	s.turn = next
}

// yield is a scheduling point of managed thread me, which waits until ready
// (nil: no need to wait).
//
//go:norace
func yield(me int, ready waiter) {
	t := &s.threads[me]
	t.wait = ready
	handover(me)
	for s.turn != me || s.dead {
		if s.free {
			break
		}
		runtime.Gosched()
	}
	if s.free {
		for ready != nil && !ready.ready() {
			runtime.Gosched()
		}
	}
	t.wait = nil
}

// Point is a scheduling point of its own.
//
//go:norace
func PointHere() {
	if me := current(); me >= 0 && !s.free {
		yield(me, nil)
	}
}

// waitFor is a scheduling point; the caller goes on when ready holds, and
// nothing else runs between that moment and the return.
//
//go:norace
func waitFor(ready waiter) {
	me := current()
	if me < 0 || s.free {
		for !ready.ready() {
			runtime.Gosched()
		}
		return
	}
	yield(me, ready)
}

//go:norace
func finish(me int) {
	s.threads[me].done = true
	if !s.free {
		handover(me)
	}
}

//go:norace
func begin(me int) {
	s.threads[me].id = goid()
	for s.turn != me && !s.free {
		runtime.Gosched()
	}
}

//go:norace
func setup(n int, prefix []int) {
	s.n = n
	for i := range s.threads {
		s.threads[i] = thread{}
	}
	s.prefix = prefix
	s.np, s.diverged, s.long = 0, false, false
	s.dead, s.free, s.steps = false, false, 0
	s.turn = -1
	s.base = runtime.NumGoroutine()
	s.on = true
}

//go:norace
func started() bool {
	for i := 0; i < s.n; i++ {
		if s.threads[i].id == 0 {
			return false
		}
	}
	return true
}

//go:norace
func begun() { s.turn = pick(0) }

// MaxIdle is how many times the controller may find that nothing has
// happened before it concludes that control is lost.
var MaxIdle = 3000000

//go:norace
func drive() {
	last, idle := -1, 0
	var since time.Time
	for !alldone() && !s.dead {
		runtime.Gosched()
		if s.steps != last {
			last, idle = s.steps, 0
			since = time.Time{}
			continue
		}
		idle++
		if idle > MaxIdle {
			idle = 0
			if !s.free {
				s.free = true
				continue
			}
			// out of control: only time tells
			if since.IsZero() {
				since = time.Now()
			} else if time.Since(since) > 30*time.Second {
				s.dead = true
				return
			}
		}
	}
}

// Run executes the bodies as threads under the given choices (0 after the
// prefix). After a deadlock the goroutines are left behind.
func Run(prefix []int, bodies []func()) *Exec {
	x := &Exec{Panics: make([]interface{}, len(bodies))}
	setup(len(bodies), prefix)
	var sync1 byte
	raceRelease(unsafe.Pointer(&sync1))
	for i, b := range bodies {
		i, b := i, b
		go func() {
			begin(i)
			defer func() {
				if r := recover(); r != nil {
					x.Panics[i] = fmt.Sprint(r)
				}
				raceReleaseMerge(unsafe.Pointer(&sync1))
				finish(i)
			}()
			b()
		}()
	}
	for !started() {
		runtime.Gosched()
	}
	begun()
	drive()
	raceAcquire(unsafe.Pointer(&sync1))
	stop(x)
	return x
}

//go:norace
func stop(x *Exec) {
	x.Deadlock = s.dead
	x.Steps = s.steps
	x.Diverged = s.diverged
	x.Long = s.long
	x.Free = s.free
	x.Points = points[:s.np]
	s.on = false
}
