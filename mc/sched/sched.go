// Package sched runs goroutines one at a time and decides, at every point that
// instrumented code passes, which of them goes on.
//
// Nothing here orders the goroutines in the eyes of the race detector: they
// hand over through variables it does not watch. So it reports an access that
// the code under test does not itself put in order, whatever the schedule.
package sched

import (
	"fmt"
	"runtime"
)

const maxG = 4

// Preempt tells a run to go on with goroutine To before it takes step Step.
type Preempt struct{ Step, To int }

// Deadlock is what blocked goroutines panic with when none can go on.
type Deadlock struct{}

func (Deadlock) Error() string { return "deadlock: every goroutine waits for a lock" }

var (
	on       bool
	cur      int
	steps    int
	alone    int // steps since the last switch
	n        int
	finished [maxG]bool
	blocked  [maxG]bool
	order    [maxG]int
	plan     []Preempt
	dead     bool
	switches int
	trace    [1 << 17]int8
)

// fair is how long a goroutine may run before another that can go on gets its
// turn in any case (it may be spinning, waiting for the other).
const fair = 50000

// Run runs the functions as goroutines under the plan; whenever a goroutine
// ends or blocks, the first in the order that can go on does. It returns how
// many points were passed.
//
//go:norace
func Run(fs []func(), ord []int, p []Preempt) (taken, switched int, deadlocked bool) {
	if len(fs) > maxG {
		panic("sched: too many goroutines")
	}
	n, steps, alone, dead, switches = len(fs), 0, 0, false, 0
	plan = p
	for i := range fs {
		finished[i], blocked[i] = false, false
		order[i] = ord[i]
	}
	cur = ord[0]
	on = true
	var done [maxG]chan bool
	for i, f := range fs {
		done[i] = make(chan bool)
		go start(i, f, done[i])
	}
	for i := range fs {
		<-done[i]
	}
	on = false
	return steps, switches, dead
}

//go:norace
func start(i int, f func(), done chan bool) {
	wait(i)
	defer func() {
		r := recover()
		finish(i)
		close(done)
		if r != nil {
			if _, ok := r.(Deadlock); !ok {
				panic(fmt.Sprint("sched: a goroutine must recover: ", r))
			}
		}
	}()
	f()
}

//go:norace
func wait(me int) {
	for cur != me && !dead {
		runtime.Gosched()
	}
}

//go:norace
func finish(me int) {
	finished[me] = true
	if to := next(me); to >= 0 {
		give(to)
	} else {
		for i := 0; i < n; i++ {
			if !finished[i] {
				dead = true
			}
		}
	}
}

//go:norace
func give(to int) {
	cur = to
	alone = 0
	switches++
}

// next is the first that can go on, other than me; -1 if there is none.
//
//go:norace
func next(me int) int {
	for k := 0; k < n; k++ {
		if i := order[k]; i != me && !finished[i] && !blocked[i] {
			return i
		}
	}
	return -1
}

// Point is where another goroutine may go on.
//
//go:norace
func Point() {
	if !on || dead {
		return
	}
	me := cur
	if steps < len(trace) {
		trace[steps] = int8(me)
	}
	steps++
	alone++
	if len(plan) > 0 && plan[0].Step == steps {
		to := plan[0].To
		plan = plan[1:]
		if to != me && to < n && !finished[to] && !blocked[to] {
			give(to)
			wait(me)
			return
		}
	}
	if alone > fair {
		alone = 0
		for k := 1; k < n; k++ {
			if to := (me + k) % n; !finished[to] && !blocked[to] {
				give(to)
				wait(me)
				return
			}
		}
	}
}

// Blocked is called by a goroutine that cannot go on until another has made
// progress.
//
//go:norace
func Blocked() {
	if !on {
		runtime.Gosched()
		return
	}
	me := cur
	if dead {
		panic(Deadlock{})
	}
	blocked[me] = true
	to := next(me)
	if to < 0 {
		dead = true
		panic(Deadlock{})
	}
	give(to)
	wait(me)
	if dead {
		panic(Deadlock{})
	}
	blocked[me] = false
}

// Progress lets those that are blocked try again.
//
//go:norace
func Progress() {
	for i := 0; i < n; i++ {
		blocked[i] = false
	}
}

// Trace tells which goroutine took each step of the last run, as far as is
// remembered.
//
//go:norace
func Trace() []int8 {
	k := steps
	if k > len(trace) {
		k = len(trace)
	}
	t := make([]int8, k)
	for i := range t {
		t[i] = trace[i]
	}
	return t
}

// On tells whether goroutines are being scheduled.
//
//go:norace
func On() bool { return on && !dead }
