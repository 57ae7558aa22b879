// Package sync replaces the standard package of that name in instrumented
// code: the simulator decides who gets a lock and who waits.
package sync

import (
	"unsafe"

	"github.com/oov/psd/verifsim/vsim"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	gen    int64
	locked bool
	q      vsim.WaitQ
}

//go:norace
func (m *Mutex) reset() {
	if g := vsim.Gen(); m.gen != g {
		m.gen, m.locked = g, false
	}
}

// Lock locks m.
//
//go:norace
func (m *Mutex) Lock() {
	if vsim.Killing() {
		return
	}
	m.reset()
	vsim.SyncPoint()
	for m.locked {
		m.q.Wait("mutex")
	}
	m.locked = true
	vsim.Acquire(unsafe.Pointer(m))
}

// TryLock tries to lock m.
//
//go:norace
func (m *Mutex) TryLock() bool {
	if vsim.Killing() {
		return true
	}
	m.reset()
	vsim.SyncPoint()
	if m.locked {
		return false
	}
	m.locked = true
	vsim.Acquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks m.
//
//go:norace
func (m *Mutex) Unlock() {
	if vsim.Killing() {
		return
	}
	m.reset()
	if !m.locked {
		vsim.Crash("sync: unlock of unlocked mutex")
	}
	vsim.Release(unsafe.Pointer(m))
	m.locked = false
	m.q.WakeAll()
	vsim.SyncPoint()
}

// RWMutex is a simulated sync.RWMutex.
type RWMutex struct {
	gen     int64
	writer  bool
	readers int
	pending int // writers waiting: they block new readers
	q       vsim.WaitQ
	rs, ws  byte
}

//go:norace
func (m *RWMutex) reset() {
	if g := vsim.Gen(); m.gen != g {
		m.gen, m.writer, m.readers, m.pending = g, false, 0, 0
	}
}

//go:norace
func (m *RWMutex) Lock() {
	if vsim.Killing() {
		return
	}
	m.reset()
	vsim.SyncPoint()
	m.pending++
	for m.writer || m.readers > 0 {
		m.q.Wait("rwmutex (write)")
	}
	m.pending--
	m.writer = true
	vsim.Acquire(unsafe.Pointer(&m.ws))
	vsim.Acquire(unsafe.Pointer(&m.rs))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if vsim.Killing() {
		return true
	}
	m.reset()
	vsim.SyncPoint()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vsim.Acquire(unsafe.Pointer(&m.ws))
	vsim.Acquire(unsafe.Pointer(&m.rs))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if vsim.Killing() {
		return
	}
	m.reset()
	if !m.writer {
		vsim.Crash("sync: Unlock of unlocked RWMutex")
	}
	vsim.Release(unsafe.Pointer(&m.ws))
	m.writer = false
	m.q.WakeAll()
	vsim.SyncPoint()
}

//go:norace
func (m *RWMutex) RLock() {
	if vsim.Killing() {
		return
	}
	m.reset()
	vsim.SyncPoint()
	for m.writer || m.pending > 0 {
		m.q.Wait("rwmutex (read)")
	}
	m.readers++
	vsim.Acquire(unsafe.Pointer(&m.ws))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if vsim.Killing() {
		return true
	}
	m.reset()
	vsim.SyncPoint()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	vsim.Acquire(unsafe.Pointer(&m.ws))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if vsim.Killing() {
		return
	}
	m.reset()
	if m.readers <= 0 {
		vsim.Crash("sync: RUnlock of unlocked RWMutex")
	}
	vsim.Release(unsafe.Pointer(&m.rs))
	m.readers--
	m.q.WakeAll()
	vsim.SyncPoint()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	gen int64
	n   int
	q   vsim.WaitQ
}

//go:norace
func (w *WaitGroup) reset() {
	if g := vsim.Gen(); w.gen != g {
		w.gen, w.n = g, 0
	}
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if vsim.Killing() {
		return
	}
	w.reset()
	if d < 0 {
		vsim.Release(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
	vsim.SyncPoint()
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if vsim.Killing() {
		return
	}
	w.reset()
	vsim.SyncPoint()
	for w.n > 0 {
		w.q.Wait("WaitGroup")
	}
	vsim.Acquire(unsafe.Pointer(w))
}

// Go runs f in a goroutine of the group.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsim.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is a simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		o.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// Pool is a simulated sync.Pool: which pooled item Get returns, if any, is the
// environment's choice, as with the real one.
type Pool struct {
	New   func() any
	gen   int64
	items []poolItem
}

type poolItem struct {
	v    any
	sync *byte
}

//go:norace
func (p *Pool) take() (v any, ok bool) {
	if g := vsim.Gen(); p.gen != g {
		p.gen, p.items = g, nil
	}
	n := len(p.items)
	if n == 0 {
		return nil, false
	}
	// 0: the most recently put item; n: the pool was emptied
	i := vsim.Choose(n + 1)
	if i == n {
		if vsim.Choose(4) != 0 {
			i = 0
		} else {
			return nil, false
		}
	}
	i = n - 1 - i
	it := p.items[i]
	var out []poolItem
	for j := range p.items {
		if j != i {
			out = append(out, p.items[j])
		}
	}
	p.items = out
	vsim.Acquire(unsafe.Pointer(it.sync))
	return it.v, true
}

// Get takes an item.
func (p *Pool) Get() any {
	vsim.SyncPoint()
	if v, ok := p.take(); ok {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put adds an item.
//
//go:norace
func (p *Pool) Put(v any) {
	if v == nil || vsim.Killing() {
		return
	}
	if g := vsim.Gen(); p.gen != g {
		p.gen, p.items = g, nil
	}
	it := poolItem{v: v, sync: new(byte)}
	vsim.Release(unsafe.Pointer(it.sync))
	p.items = append(p.items, it)
	vsim.SyncPoint()
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L Locker
	q vsim.CondQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if vsim.Killing() {
		return
	}
	c.wait()
	c.L.Lock()
}

func (c *Cond) wait() {
	// no scheduling point between unlocking and queueing is possible in
	// vsim's cooperative order, except those Unlock itself makes: queue first.
	t := c.q.Prepare()
	c.L.Unlock()
	c.q.Park(t, "condition")
}

func (c *Cond) Signal()    { c.q.Signal(false); vsim.SyncPoint() }
func (c *Cond) Broadcast() { c.q.Signal(true); vsim.SyncPoint() }

// Map is sync.Map with a chosen Range order; values are guarded by a Mutex.
type Map struct {
	m   Mutex
	gen int64
	mm  map[any]any
}

func (m *Map) lock() {
	m.m.Lock()
	if m.mm == nil {
		m.mm = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) {
	m.lock()
	defer m.m.Unlock()
	v, ok := m.mm[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Clear() {
	m.lock()
	defer m.m.Unlock()
	m.mm = map[any]any{}
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.lock()
	defer m.m.Unlock()
	if o, ok := m.mm[k]; ok {
		return o, true
	}
	m.mm[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.lock()
	defer m.m.Unlock()
	o, ok := m.mm[k]
	delete(m.mm, k)
	return o, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.lock()
	defer m.m.Unlock()
	o, ok := m.mm[k]
	m.mm[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.lock()
	defer m.m.Unlock()
	if v, ok := m.mm[k]; ok && v == o {
		m.mm[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.lock()
	defer m.m.Unlock()
	if v, ok := m.mm[k]; ok && v == o {
		delete(m.mm, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.lock()
	type kv struct{ k, v any }
	var l []kv
	for k, v := range vsim.MapSeq(m.mm) {
		l = append(l, kv{k, v})
	}
	m.m.Unlock()
	for _, e := range l {
		if !f(e.k, e.v) {
			return
		}
	}
}
