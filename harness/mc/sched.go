package main

import (
	"fmt"

	"verif.local/vsync"
)

// explore runs every schedule of the threads that mk makes, with at most
// bound preemptions (bound < 0: all schedules), and calls check after each.
// mk must make everything anew. It stops at limit executions.
func (x *X) explore(bound, limit int, mk func() (bodies []func(), check func(schedule func() string))) {
	var prefix []int
	free, diverged := 0, 0
	for n := 1; ; n++ {
		bodies, check := mk()
		ex := vsync.Run(prefix, bodies)
		pts := append([]vsync.Point(nil), ex.Points...)
		x.Traces++
		x.Transitions += int64(ex.Steps)
		x.Tick()
		schedule := func() string { return describe(pts) }
		for i, p := range ex.Panics {
			if p != nil {
				x.stopped = x.stopped || ex.Deadlock
				Failf("thread %d panics: %v (%s)", i, p, schedule())
			}
		}
		if ex.Deadlock {
			x.stopped = true // its goroutines are still there
			Failf("deadlock (%s)", schedule())
		}
		x.States += int64(len(pts)) + 1
		check(schedule)
		if ex.Free {
			x.count("executions out of control", 1)
			x.Capped = true
			if free++; free > 2 {
				return
			}
		}
		if ex.Long {
			x.Capped = true
		}
		if ex.Diverged {
			x.count("executions that diverged", 1)
			x.Capped = true
			if diverged++; diverged > 20 {
				return
			}
		}
		// the next schedule: the last point at which another thread can be
		// chosen within the bound
		cost := make([]int, len(pts)+1)
		for i, p := range pts {
			cost[i+1] = cost[i]
			if p.Running && p.Choice != 0 {
				cost[i+1]++
			}
		}
		i := len(pts) - 1
		for ; i >= 0; i-- {
			p := pts[i]
			if p.Choice+1 >= p.N {
				continue
			}
			if c := cost[i]; bound >= 0 && p.Running && c+1 > bound {
				continue
			}
			break
		}
		if i < 0 {
			return
		}
		if n >= limit {
			x.count("scenarios cut at the limit of executions", 1)
			x.Capped = true
			return
		}
		prefix = prefix[:0]
		for _, p := range pts[:i] {
			prefix = append(prefix, p.Choice)
		}
		prefix = append(prefix, pts[i].Choice+1)
	}
}

func describe(pts []vsync.Point) string {
	s := "schedule"
	for _, p := range pts {
		s += fmt.Sprintf(" %d", p.Enabled[p.Choice])
	}
	return s
}

var clock int

// tick is a moment of an execution; moments order the calls of the threads.
//
//go:norace
func tick() int { clock++; return clock }
