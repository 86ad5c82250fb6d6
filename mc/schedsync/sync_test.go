package schedsync

import (
	"testing"

	"verif/mc/sched"
)

// all runs two goroutines with every place for one or two preemptions.
func all(t *testing.T, fs func() []func(), each func(dead bool)) {
	n := 0
	for a := 0; a < 20; a++ {
		for b := a; b < 20; b++ {
			for to := 0; to < 2; to++ {
				f := fs()
				_, _, dead := sched.Run(f, []int{0, 1}, []sched.Preempt{{Step: a + 1, To: 1}, {Step: b + 2, To: to}})
				each(dead)
				n++
			}
		}
	}
}

func TestLostUpdate(t *testing.T) {
	seen := map[int]bool{}
	x := 0
	all(t, func() []func() {
		x = 0
		f := func() {
			sched.Point()
			v := x
			sched.Point()
			x = v + 1
			sched.Point()
		}
		return []func(){f, f}
	}, func(bool) { seen[x] = true })
	if !seen[1] || !seen[2] || len(seen) != 2 {
		t.Fatal(seen)
	}
}

func TestLocked(t *testing.T) {
	x := 0
	all(t, func() []func() {
		x = 0
		var mu Mutex
		f := func() {
			sched.Point()
			mu.Lock()
			sched.Point()
			v := x
			sched.Point()
			x = v + 1
			mu.Unlock()
			sched.Point()
		}
		return []func(){f, f}
	}, func(dead bool) {
		if x != 2 || dead {
			t.Fatal(x, dead)
		}
	})
}

func deadlocks(t *testing.T, a, b func(l, m *RWMutex)) (n int) {
	all(t, func() []func() {
		var l, m RWMutex
		return []func(){func() { a(&l, &m) }, func() { b(&l, &m) }}
	}, func(dead bool) {
		if dead {
			n++
		}
	})
	return n
}

func TestDeadlock(t *testing.T) {
	both := func(first, second *RWMutex) {
		sched.Point()
		first.Lock()
		sched.Point()
		second.Lock()
		sched.Point()
		second.Unlock()
		first.Unlock()
	}
	if deadlocks(t, func(l, m *RWMutex) { both(l, m) }, func(l, m *RWMutex) { both(m, l) }) == 0 {
		t.Fatal("not found")
	}
	if deadlocks(t, func(l, m *RWMutex) { both(l, m) }, func(l, m *RWMutex) { both(l, m) }) != 0 {
		t.Fatal("found where there is none")
	}
	// a reader that reads again, and a writer in between
	if deadlocks(t, func(l, m *RWMutex) {
		sched.Point()
		l.RLock()
		sched.Point()
		l.RLock()
		sched.Point()
		l.RUnlock()
		l.RUnlock()
	}, func(l, m *RWMutex) {
		sched.Point()
		l.Lock()
		sched.Point()
		l.Unlock()
	}) == 0 {
		t.Fatal("not found")
	}
}

func TestOnceAndPool(t *testing.T) {
	n, made := 0, 0
	all(t, func() []func() {
		var o Once
		n, made = 0, 0
		p := Pool{New: func() any { made++; return new(int) }}
		f := func() {
			sched.Point()
			o.Do(func() { sched.Point(); n++; sched.Point() })
			sched.Point()
			v := p.Get().(*int)
			sched.Point()
			*v++
			p.Put(v)
			sched.Point()
		}
		return []func(){f, f}
	}, func(dead bool) {
		if n != 1 || dead || made < 1 || made > 2 {
			t.Fatal(n, made, dead)
		}
	})
}
