package simrt

import (
	"fmt"
	"sort"
	"time"
	"unsafe"
)

type waiter struct {
	t     *Task
	v     any
	isSel int // case index in a select, -1 otherwise
	live  *bool
}

// chanState models one Go channel; the real channel is only its identity.
type chanState struct {
	id     int
	keep   any // keeps the real channel, and so its address, alive
	cap    int
	buf    []any
	recvq  []*waiter
	sendq  []*waiter
	closed bool
}

func ptrOf[C any](ch C) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func (r *Run) state(p uintptr, keep any, c int) *chanState {
	s := r.chans[p]
	if s == nil {
		r.nchan++
		s = &chanState{id: r.nchan, keep: keep, cap: c}
		r.chans[p] = s
	}
	return s
}

func popLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if *w.live {
			*w.live = false
			return w
		}
	}
	return nil
}

func hasLive(q []*waiter) bool {
	for _, w := range q {
		if *w.live {
			return true
		}
	}
	return false
}

// trySend completes a send if it can.
func (s *chanState) trySend(v any) bool {
	if s.closed {
		panic("send on closed channel")
	}
	if w := popLive(&s.recvq); w != nil {
		w.t.val, w.t.ok, w.t.sel = v, true, w.isSel
		MakeReady(w.t)
		return true
	}
	if len(s.buf) < s.cap {
		s.buf = append(s.buf, v)
		return true
	}
	return false
}

// tryRecv completes a receive if it can.
func (s *chanState) tryRecv() (v any, ok, done bool) {
	if len(s.buf) > 0 {
		v = s.buf[0]
		s.buf = s.buf[1:]
		if w := popLive(&s.sendq); w != nil {
			s.buf = append(s.buf, w.v)
			w.t.ok, w.t.sel = true, w.isSel
			MakeReady(w.t)
		}
		return v, true, true
	}
	if w := popLive(&s.sendq); w != nil {
		w.t.ok, w.t.sel = true, w.isSel
		MakeReady(w.t)
		return w.v, true, true
	}
	if s.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (s *chanState) close() {
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
	for {
		w := popLive(&s.recvq)
		if w == nil {
			break
		}
		w.t.val, w.t.ok, w.t.sel = nil, false, w.isSel
		MakeReady(w.t)
	}
	for {
		w := popLive(&s.sendq)
		if w == nil {
			break
		}
		w.t.ok, w.t.sel = false, w.isSel
		MakeReady(w.t)
	}
}

// SendTo returns the function that sends on ch.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

func send[T any](ch chan<- T, v T) {
	if !Active() {
		ch <- v
		return
	}
	if cur.killed {
		Goexit()
	}
	if ch == nil {
		Block("send on nil channel")
	}
	r := R
	s := r.state(ptrOf(ch), ch, cap(ch))
	syncPoint(2, uint64(s.id))
	if s.trySend(v) {
		r.logf("send ch%d", s.id)
		syncPoint(3, uint64(s.id))
		return
	}
	live := true
	s.sendq = append(s.sendq, &waiter{t: cur, v: v, isSel: -1, live: &live})
	t := cur
	Block(fmt.Sprintf("send on channel %d (%T)", s.id, v))
	if !t.ok {
		panic("send on closed channel")
	}
}

func conv[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is the two-value receive.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	if cur.killed {
		Goexit()
	}
	if ch == nil {
		Block("receive on nil channel")
	}
	r := R
	s := r.state(ptrOf(ch), ch, cap(ch))
	syncPoint(4, uint64(s.id))
	if v, ok, done := s.tryRecv(); done {
		r.logf("recv ch%d", s.id)
		syncPoint(5, uint64(s.id))
		return conv[T](v), ok
	}
	if v, ok, done := foreign(ch); done {
		return v, ok
	}
	live := true
	t := cur
	s.recvq = append(s.recvq, &waiter{t: t, isSel: -1, live: &live})
	t.poll = func() bool {
		if v, ok, done := foreign(ch); done {
			live = false
			t.val, t.ok = v, ok
			MakeReady(t)
			return true
		}
		return false
	}
	var z T
	Block(fmt.Sprintf("receive on channel %d (%T)", s.id, z))
	v, ok := t.val, t.ok
	t.val = nil
	return conv[T](v), ok
}

// foreign reads a value that code outside the simulator (context, say) put in
// the real channel; instrumented code never does.
func foreign[T any](ch <-chan T) (v T, ok, done bool) {
	select {
	case v, ok = <-ch:
		return v, ok, true
	default:
		return v, false, false
	}
}

// Close closes ch.
func Close[T any](ch chan<- T) {
	if !Active() {
		close(ch)
		return
	}
	if cur.killed {
		return
	}
	if ch == nil {
		panic("close of nil channel")
	}
	s := R.state(ptrOf(ch), ch, cap(ch))
	syncPoint(6, uint64(s.id))
	s.close()
	R.logf("close ch%d", s.id)
	syncPoint(7, uint64(s.id))
}

// Len is len(ch).
func Len[T any](ch chan T) int { return lenOf(ptrOf(ch), ch == nil, len(ch)) }

// LenR is len of a receive-only channel.
func LenR[T any](ch <-chan T) int { return lenOf(ptrOf(ch), ch == nil, len(ch)) }

// LenS is len of a send-only channel.
func LenS[T any](ch chan<- T) int { return lenOf(ptrOf(ch), ch == nil, len(ch)) }

func lenOf(p uintptr, isnil bool, real int) int {
	if !Active() || isnil {
		return real
	}
	if s := R.chans[p]; s != nil {
		return len(s.buf)
	}
	return real
}

// Case is one communication of a select.
type Case struct {
	send bool
	s    *chanState
	v    any
	try  func() (any, bool, bool)
	real func() // performs nothing; native select is not supported outside runs
}

// CR is a receive case.
func CR[T any](ch <-chan T) Case {
	if !Active() {
		panic("simrt: select outside a simulated run")
	}
	if ch == nil {
		return Case{}
	}
	return Case{s: R.state(ptrOf(ch), ch, cap(ch)), try: func() (any, bool, bool) { v, ok, done := foreign(ch); return v, ok, done }}
}

// CS is a send case.
func CS[T any](ch chan<- T) func(T) Case {
	return func(v T) Case {
		if !Active() {
			panic("simrt: select outside a simulated run")
		}
		if ch == nil {
			return Case{send: true}
		}
		return Case{send: true, s: R.state(ptrOf(ch), ch, cap(ch)), v: v}
	}
}

// Select runs a select statement and returns the chosen case (-1: default).
func Select(hasDefault bool, cases ...Case) int {
	if cur.killed {
		Goexit()
	}
	r, t := R, cur
	syncPoint(8, uint64(len(cases)))
	var rdy []int
	for i, c := range cases {
		if c.s == nil {
			continue
		}
		if c.send {
			if c.s.closed || hasLive(c.s.recvq) || len(c.s.buf) < c.s.cap {
				rdy = append(rdy, i)
			}
		} else if c.s.closed || len(c.s.buf) > 0 || hasLive(c.s.sendq) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[r.C.Next("select", uint64(len(rdy)))]
		c := cases[i]
		if c.send {
			c.s.trySend(c.v)
		} else {
			v, ok, _ := c.s.tryRecv()
			t.val, t.ok = v, ok
		}
		r.logf("select case %d", i)
		return i
	}
	for i, c := range cases {
		if c.try != nil {
			if v, ok, done := c.try(); done {
				t.val, t.ok = v, ok
				return i
			}
		}
	}
	if hasDefault {
		return -1
	}
	live := true
	for i, c := range cases {
		if c.s == nil {
			continue
		}
		w := &waiter{t: t, v: c.v, isSel: i, live: &live}
		if c.send {
			c.s.sendq = append(c.s.sendq, w)
		} else {
			c.s.recvq = append(c.s.recvq, w)
		}
	}
	t.poll = func() bool {
		for i, c := range cases {
			if c.try != nil {
				if v, ok, done := c.try(); done {
					live = false
					t.val, t.ok, t.sel = v, ok, i
					MakeReady(t)
					return true
				}
			}
		}
		return false
	}
	Block("select")
	if cases[t.sel].send && !t.ok {
		panic("send on closed channel")
	}
	return t.sel
}

// Got is the value the receive case of the last select delivered.
func Got[T any](ch <-chan T) T {
	v := cur.val
	cur.val = nil
	return conv[T](v)
}

// Got2 is the two-value form of Got.
func Got2[T any](ch <-chan T) (T, bool) {
	v, ok := cur.val, cur.ok
	cur.val = nil
	return conv[T](v), ok
}

// BlockForever is select{}.
func BlockForever() {
	if !Active() {
		select {}
	}
	if cur.killed {
		Goexit()
	}
	Block("empty select")
}

// Entry is one entry of a map being ranged over.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live tells whether the entry is still in the map.
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

// V is the entry's current value.
func (e Entry[K, V]) V() V { return e.m[e.K] }

// MapIter orders the entries of m by a choice instead of Go's runtime.
func MapIter[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	out := make([]Entry[K, V], 0, len(m))
	for k := range m {
		out = append(out, Entry[K, V]{k, m})
	}
	keys := make(map[K]string, len(m))
	for k := range m {
		keys[k] = fmt.Sprint(k)
	}
	sort.SliceStable(out, func(i, j int) bool { return keys[out[i].K] < keys[out[j].K] })
	if Active() && !cur.killed && len(out) > 1 {
		for i := 0; i < len(out)-1; i++ {
			j := i + int(R.C.Next("map-order", uint64(len(out)-i)))
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// Timer is a pending simulated timer.
type Timer struct {
	at   time.Duration
	seq  int
	f    func()
	dead bool
}

// After schedules f at d from now on the virtual clock.
func After(d time.Duration, f func()) *Timer {
	r := R
	r.tseq++
	if d < 0 {
		d = 0
	}
	tm := &Timer{at: r.now + d, seq: r.tseq, f: f}
	r.timers = append(r.timers, tm)
	return tm
}

// Stop cancels a timer.
func (t *Timer) Stop() bool {
	was := !t.dead
	t.dead = true
	return was
}

// Now is the virtual clock.
func Now() time.Duration {
	if R == nil {
		return 0
	}
	return R.now
}

func (r *Run) fireTimer() bool {
	best := -1
	for i, t := range r.timers {
		if t.dead {
			continue
		}
		if best < 0 || t.at < r.timers[best].at || t.at == r.timers[best].at && t.seq < r.timers[best].seq {
			best = i
		}
	}
	if best < 0 {
		r.timers = nil
		return false
	}
	t := r.timers[best]
	r.timers = append(r.timers[:best], r.timers[best+1:]...)
	t.dead = true
	if t.at > r.now {
		r.now = t.at
	}
	t.f()
	return true
}

// TrySendModel puts v on ch if it can, without blocking (timers use it).
func TrySendModel[T any](ch chan T, v T) {
	R.state(ptrOf(ch), ch, cap(ch)).trySend(v)
}
