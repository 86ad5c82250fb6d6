// Package schedsync stands in for package sync in instrumented code: what
// blocks there asks the scheduler here. The locks are those of package sync
// inside, so that the race detector sees the order that they bring about.
package schedsync

import (
	"sync"
	"sync/atomic"

	"verif/mc/sched"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex is a sync.Mutex.
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	for !m.mu.TryLock() {
		sched.Blocked()
	}
}
func (m *Mutex) TryLock() bool { return m.mu.TryLock() }
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	sched.Progress()
}

// RWMutex is a sync.RWMutex: a writer that waits keeps new readers out.
type RWMutex struct {
	mu      sync.RWMutex
	writers int // that wait
}

//go:norace
func (m *RWMutex) waiting(d int) int {
	m.writers += d
	return m.writers
}

func (m *RWMutex) Lock() {
	if m.mu.TryLock() {
		return
	}
	m.waiting(1)
	defer m.waiting(-1)
	for !m.mu.TryLock() {
		sched.Blocked()
	}
}
func (m *RWMutex) TryLock() bool { return m.mu.TryLock() }
func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	sched.Progress()
}
func (m *RWMutex) RLock() {
	for m.waiting(0) > 0 || !m.mu.TryRLock() {
		sched.Blocked()
	}
}
func (m *RWMutex) TryRLock() bool { return m.waiting(0) == 0 && m.mu.TryRLock() }
func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	sched.Progress()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is a sync.Once.
type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 0 {
		o.m.Lock()
		defer o.m.Unlock()
		if o.done.Load() == 0 {
			defer o.done.Store(1)
			f()
		}
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}

// Pool is a sync.Pool that always hands out what was put there last, to
// whoever asks. As with the real one, putting an item orders what came before
// with what comes after getting that item, and nothing else.
type Pool struct {
	New func() any

	head *item
}

type item struct {
	v    any
	flag atomic.Uint32
	next *item
}

//go:norace
func (p *Pool) push(it *item) { it.next, p.head = p.head, it }

//go:norace
func (p *Pool) pop() *item {
	it := p.head
	if it != nil {
		p.head = it.next
	}
	return it
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	it := &item{v: v}
	it.flag.Store(1)
	p.push(it)
}

func (p *Pool) Get() any {
	if it := p.pop(); it != nil {
		it.flag.Load()
		return it.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
