// Package simsync stands in for package sync inside a simulated run.
package simsync

import (
	"sync"

	"github.com/rmera/boo/zsim/simrt"
)

type (
	Map    = sync.Map
	Locker = sync.Locker
)

type queue []*simrt.Task

func (q *queue) wait(why string) {
	*q = append(*q, simrt.Self())
	simrt.Block(why)
}

func (q *queue) wakeAll() {
	for _, t := range *q {
		simrt.MakeReady(t)
	}
	*q = nil
}

func (q *queue) wakeOne() {
	if len(*q) > 0 {
		t := (*q)[0]
		*q = (*q)[1:]
		simrt.MakeReady(t)
	}
}

func off() bool { return !simrt.Active() || simrt.Dead() }

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	q      queue
}

func (m *Mutex) Lock() {
	if off() {
		m.locked = true
		return
	}
	simrt.SyncPoint(20, 0)
	for m.locked {
		m.q.wait("mutex lock")
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if off() {
		return true
	}
	simrt.SyncPoint(21, 0)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if off() {
		m.locked = false
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.q.wakeAll()
	simrt.SyncPoint(22, 0)
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w  bool
	rs int
	ww int
	q  queue
}

func (m *RWMutex) Lock() {
	if off() {
		return
	}
	simrt.SyncPoint(23, 0)
	m.ww++
	for m.w || m.rs > 0 {
		m.q.wait("rwmutex lock")
	}
	m.ww--
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	if off() {
		return true
	}
	simrt.SyncPoint(24, 0)
	if m.w || m.rs > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if off() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.q.wakeAll()
	simrt.SyncPoint(25, 0)
}

func (m *RWMutex) RLock() {
	if off() {
		return
	}
	simrt.SyncPoint(26, 0)
	for m.w || m.ww > 0 {
		m.q.wait("rwmutex rlock")
	}
	m.rs++
}

func (m *RWMutex) TryRLock() bool {
	if off() {
		return true
	}
	simrt.SyncPoint(27, 0)
	if m.w || m.ww > 0 {
		return false
	}
	m.rs++
	return true
}

func (m *RWMutex) RUnlock() {
	if off() {
		return
	}
	if m.rs <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.rs--
	m.q.wakeAll()
	simrt.SyncPoint(28, 0)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker is RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	q queue
}

func (w *WaitGroup) Add(d int) {
	if off() {
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.wakeAll()
	}
	simrt.SyncPoint(29, 0)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if off() {
		return
	}
	simrt.SyncPoint(30, 0)
	for w.n > 0 {
		w.q.wait("waitgroup wait")
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	q queue
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if off() {
		return
	}
	t := simrt.Self()
	c.q = append(c.q, t)
	simrt.NoPreempt(c.L.Unlock)
	simrt.Block("cond wait")
	c.L.Lock()
}

func (c *Cond) Signal() {
	if off() {
		return
	}
	c.q.wakeOne()
	simrt.SyncPoint(31, 0)
}

func (c *Cond) Broadcast() {
	if off() {
		return
	}
	c.q.wakeAll()
	simrt.SyncPoint(32, 0)
}

// Pool is sync.Pool without its per-processor caches.
type Pool struct {
	New func() any
	s   []any
}

func (p *Pool) Get() any {
	if n := len(p.s); n > 0 {
		v := p.s[n-1]
		p.s = p.s[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v != nil {
		p.s = append(p.s, v)
	}
}
