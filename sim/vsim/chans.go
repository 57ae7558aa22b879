package vsim

import "unsafe"

// Channels keep their native type and, where buffered or closed, their native
// state. Goroutines never block natively: they queue here.

type waiter struct {
	t    *Task
	send bool
	val  any
	ok   bool
	done bool
	sel  *selState
	idx  int
	sync *byte // address for happens-before edges of a rendezvous
}

type selState struct {
	fired int // index of the case that completed, -1 while none
}

type chanQ struct {
	key   unsafe.Pointer
	recvq []*waiter
	sendq []*waiter
}

//go:norace
func (s *Sched) findQ(key unsafe.Pointer) *chanQ {
	for _, q := range s.chans {
		if q.key == key {
			return q
		}
	}
	return nil
}

//go:norace
func (s *Sched) getQ(key unsafe.Pointer) *chanQ {
	if q := s.findQ(key); q != nil {
		return q
	}
	q := &chanQ{key: key}
	s.chans = append(s.chans, q)
	return q
}

//go:norace
func (s *Sched) dropQ(q *chanQ) {
	if len(q.recvq) > 0 || len(q.sendq) > 0 {
		return
	}
	out := s.chans[:0]
	for _, o := range s.chans {
		if o != q {
			out = append(out, o)
		}
	}
	for i := len(out); i < len(s.chans); i++ {
		s.chans[i] = nil
	}
	s.chans = out
}

//go:norace
func pop(l []*waiter) (w *waiter, rest []*waiter) {
	for len(l) > 0 {
		w, l = l[0], l[1:]
		if w.done || (w.sel != nil && w.sel.fired >= 0) || w.t.state == tsDone {
			continue
		}
		return w, l
	}
	return nil, nil
}

//go:norace
func (w *waiter) complete(s *Sched) {
	w.done = true
	if w.sel != nil {
		w.sel.fired = w.idx
	}
	s.ready(w.t)
}

// takeSend removes a waiting sender.
//
//go:norace
func takeSend(key unsafe.Pointer) *waiter {
	s := cur
	q := s.findQ(key)
	if q == nil {
		return nil
	}
	var w *waiter
	w, q.sendq = pop(q.sendq)
	if w != nil {
		raceAcquire(unsafe.Pointer(w.sync))
		raceRelease(unsafe.Pointer(w.sync))
	}
	s.dropQ(q)
	return w
}

//go:norace
func takeRecv(key unsafe.Pointer) *waiter {
	s := cur
	q := s.findQ(key)
	if q == nil {
		return nil
	}
	var w *waiter
	w, q.recvq = pop(q.recvq)
	if w != nil {
		raceAcquire(unsafe.Pointer(w.sync))
		raceRelease(unsafe.Pointer(w.sync))
	}
	s.dropQ(q)
	return w
}

//go:norace
func completeWaiter(w *waiter) { w.complete(cur) }

//go:norace
func enqueue(key unsafe.Pointer, send bool, val any, sel *selState, idx int) *waiter {
	s := cur
	w := &waiter{t: s.cur, send: send, val: val, sel: sel, idx: idx, sync: new(byte)}
	raceRelease(unsafe.Pointer(w.sync))
	q := s.getQ(key)
	if send {
		q.sendq = append(q.sendq, w)
	} else {
		q.recvq = append(q.recvq, w)
	}
	return w
}

//go:norace
func dequeue(key unsafe.Pointer, w *waiter) {
	s := cur
	q := s.findQ(key)
	if q == nil {
		return
	}
	q.recvq = without(q.recvq, w)
	q.sendq = without(q.sendq, w)
	s.dropQ(q)
}

//go:norace
func without(l []*waiter, w *waiter) []*waiter {
	out := l[:0]
	for _, o := range l {
		if o != w {
			out = append(out, o)
		}
	}
	return out
}

//go:norace
func blockChan(why string) {
	s := cur
	s.cur.onChan = true
	s.block(why)
	s.cur.onChan = false
}

//go:norace
func acquireW(w *waiter) { raceAcquire(unsafe.Pointer(w.sync)) }

// Poke lets tasks blocked on channels look again.
//
//go:norace
func Poke() {
	s := cur
	if s == nil || s.killing {
		return
	}
	for _, t := range s.tasks {
		if t.state == tsBlocked && t.onChan {
			s.ready(t)
		}
	}
}

//go:norace
func wakeQ(key unsafe.Pointer) {
	s := cur
	if s == nil {
		return
	}
	q := s.findQ(key)
	if q == nil {
		return
	}
	for _, w := range q.recvq {
		s.ready(w.t)
	}
	for _, w := range q.sendq {
		s.ready(w.t)
	}
}

//go:norace
func inSim() bool { return cur != nil && !cur.killing }

//go:norace
func goexitIfKilling() {
	if cur != nil && cur.killing {
		cur.endKilled()
	}
}

func chanKey[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// tryRecv performs a receive if it can be done at once.
func tryRecv[T any](c <-chan T) (v T, ok, done bool) {
	select {
	case v, ok = <-c:
		// a blocked sender can now use the buffer; it does so itself, for the race
		// detector looks at who sends
		if ok {
			wakeQ(chanKey(c))
		}
		return v, ok, true
	default:
	}
	if w := takeSend(chanKey(c)); w != nil {
		v, _ = w.value().(T)
		completeWaiter(w)
		return v, true, true
	}
	return v, false, false
}

func trySend[T any](c chan<- T, v T) bool {
	key := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	if cap(c) == 0 {
		if w := takeRecv(key); w != nil {
			w.put(v)
			completeWaiter(w)
			return true
		}
	}
	select {
	case c <- v: // panics when closed
		if w := takeRecv(key); w != nil {
			// hand the oldest buffered element to the waiting receiver
			rc := *(*<-chan T)(unsafe.Pointer(&c))
			w.put(<-rc)
			completeWaiter(w)
		}
		return true
	default:
		return false
	}
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-c
		return v, ok
	}
	goexitIfKilling()
	SyncPoint()
	for {
		if c != nil {
			if v, ok, done := tryRecv(c); done {
				return v, ok
			}
		}
		w := enqueue(chanKey(c), false, nil, nil, 0)
		blockChan("channel receive")
		if w.isDone() {
			acquireW(w)
			v, _ := w.value().(T)
			return v, w.open()
		}
		dequeue(chanKey(c), w)
	}
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// SendTo is c <- v, written SendTo(c)(v).
func SendTo[T any](c chan<- T) func(v T) {
	return func(v T) {
		if !Active() {
			c <- v
			return
		}
		goexitIfKilling()
		SyncPoint()
		for {
			if c != nil && trySend(c, v) {
				SyncPoint()
				return
			}
			w := enqueue(*(*unsafe.Pointer)(unsafe.Pointer(&c)), true, v, nil, 0)
			blockChan("channel send")
			if w.isDone() {
				acquireW(w)
				return
			}
			dequeue(*(*unsafe.Pointer)(unsafe.Pointer(&c)), w)
		}
	}
}

// Close is close(c).
func Close[T any](c chan<- T) {
	if Killing() {
		defer func() { recover() }()
	}
	SyncPoint()
	close(c)
	wakeQ(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
}

// ChanSeq ranges over a channel.
func ChanSeq[T any](c <-chan T) func(yield func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Forever is select{}.
func Forever() {
	if !Active() {
		select {}
	}
	for {
		blockChan("select with no cases")
	}
}

// Case is one communication of a select.
type Case interface {
	try() bool
	enq(sel *selState, idx int)
	deq()
	finish()
}

// RecvC is a receive case.
type RecvC[T any] struct {
	c  <-chan T
	v  T
	ok bool
	w  *waiter
}

func RecvCase[T any](c <-chan T) *RecvC[T] { return &RecvC[T]{c: c} }

func (r *RecvC[T]) try() bool {
	if r.c == nil {
		return false
	}
	var done bool
	r.v, r.ok, done = tryRecv(r.c)
	return done
}
func (r *RecvC[T]) enq(sel *selState, idx int) {
	if r.c != nil {
		r.w = enqueue(chanKey(r.c), false, nil, sel, idx)
	}
}
func (r *RecvC[T]) deq() {
	if r.w != nil {
		dequeue(chanKey(r.c), r.w)
	}
}
func (r *RecvC[T]) finish() {
	acquireW(r.w)
	r.v, _ = r.w.value().(T)
	r.ok = r.w.open()
}

// V returns the received value.
func (r *RecvC[T]) V() T { return r.v }

// V2 returns the received value and whether the channel was open.
func (r *RecvC[T]) V2() (T, bool) { return r.v, r.ok }

// SendC is a send case.
type SendC[T any] struct {
	c chan<- T
	v T
	w *waiter
}

func SendCase[T any](c chan<- T) func(v T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{c: c, v: v} }
}

func (r *SendC[T]) try() bool { return r.c != nil && trySend(r.c, r.v) }
func (r *SendC[T]) enq(sel *selState, idx int) {
	if r.c != nil {
		r.w = enqueue(*(*unsafe.Pointer)(unsafe.Pointer(&r.c)), true, r.v, sel, idx)
	}
}
func (r *SendC[T]) deq() {
	if r.w != nil {
		dequeue(*(*unsafe.Pointer)(unsafe.Pointer(&r.c)), r.w)
	}
}
func (r *SendC[T]) finish() { acquireW(r.w) }

// The generic functions are instrumented by the race detector, so they leave
// the shared fields of waiters to these.
//
//go:norace
func (w *waiter) put(v any) { w.val, w.ok = v, true }

//go:norace
func (w *waiter) value() any { return w.val }

//go:norace
func (w *waiter) open() bool { return w.ok }

//go:norace
func (w *waiter) isDone() bool { return w.done }

//go:norace
func (sel *selState) winner() int { return sel.fired }

// Select performs one of the cases; -1 is the default case.
func Select(hasDefault bool, cases ...Case) int {
	if !Active() {
		panic("vsim: select outside a simulation")
	}
	goexitIfKilling()
	SyncPoint()
	for {
		// which ready case wins is the environment's choice
		n := len(cases)
		off := 0
		if n > 1 {
			off = Choose(n)
		}
		for i := 0; i < n; i++ {
			j := (i + off) % n
			if cases[j].try() {
				return j
			}
		}
		if hasDefault {
			return -1
		}
		sel := &selState{fired: -1}
		for i, c := range cases {
			c.enq(sel, i)
		}
		blockChan("select")
		f := sel.winner()
		for _, c := range cases {
			c.deq()
		}
		if f >= 0 {
			cases[f].finish()
			return f
		}
	}
}
