package ctlsync

import (
	"sync"
	"unsafe"
)

type Locker = sync.Locker

// RWMutex prefers writers, like the real one: once a writer waits, no further
// reader gets in.
type RWMutex struct {
	announced bool // a writer waits or holds
	held      bool
	readers   int
	rs, ws    uint32
}

//go:norace
func (m *RWMutex) lock() {
	t := cur()
	if t == nil {
		if m.announced || m.readers > 0 {
			blocked("self-deadlock: Lock of a locked RWMutex")
		}
	} else {
		t.k, t.rw = kAnnounce, m
		point(t)
	}
	m.announced = true
	if t != nil && m.readers > 0 {
		t.k, t.rw = kDrain, m
		point(t)
	}
	m.held = true
}

func (m *RWMutex) Lock() {
	m.lock()
	acquire(unsafe.Pointer(&m.rs))
	acquire(unsafe.Pointer(&m.ws))
}

//go:norace
func (m *RWMutex) checkHeld() {
	if !m.held {
		blocked("Unlock of an unlocked RWMutex")
	}
}

//go:norace
func (m *RWMutex) unlock() { m.held, m.announced = false, false }

func (m *RWMutex) Unlock() {
	m.checkHeld()
	release(unsafe.Pointer(&m.rs))
	m.unlock()
	yield()
}

//go:norace
func (m *RWMutex) rlock() {
	if t := cur(); t == nil {
		if m.announced {
			blocked("self-deadlock: RLock of a locked RWMutex")
		}
	} else {
		t.k, t.rw = kRLock, m
		point(t)
	}
	m.readers++
}

func (m *RWMutex) RLock() {
	m.rlock()
	acquire(unsafe.Pointer(&m.rs))
}

//go:norace
func (m *RWMutex) checkRHeld() {
	if m.readers <= 0 {
		blocked("RUnlock of an unlocked RWMutex")
	}
}

//go:norace
func (m *RWMutex) runlock() { m.readers-- }

func (m *RWMutex) RUnlock() {
	m.checkRHeld()
	releaseMerge(unsafe.Pointer(&m.ws))
	m.runlock()
	yield()
}

//go:norace
func (m *RWMutex) tryLock() bool {
	if m.announced || m.readers > 0 {
		return false
	}
	m.announced, m.held = true, true
	return true
}

func (m *RWMutex) TryLock() bool {
	yield()
	if !m.tryLock() {
		return false
	}
	acquire(unsafe.Pointer(&m.rs))
	acquire(unsafe.Pointer(&m.ws))
	return true
}

//go:norace
func (m *RWMutex) tryRLock() bool {
	if m.announced {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) TryRLock() bool {
	yield()
	if !m.tryRLock() {
		return false
	}
	acquire(unsafe.Pointer(&m.rs))
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Mutex struct {
	locked bool
	s      uint32
}

//go:norace
func (m *Mutex) lock() {
	if t := cur(); t == nil {
		if m.locked {
			blocked("self-deadlock: Lock of a locked Mutex")
		}
	} else {
		t.k, t.mu = kMutex, m
		point(t)
	}
	m.locked = true
}

func (m *Mutex) Lock() {
	m.lock()
	acquire(unsafe.Pointer(&m.s))
}

//go:norace
func (m *Mutex) checkHeld() {
	if !m.locked {
		blocked("Unlock of an unlocked Mutex")
	}
}

//go:norace
func (m *Mutex) unlock() { m.locked = false }

func (m *Mutex) Unlock() {
	m.checkHeld()
	release(unsafe.Pointer(&m.s))
	m.unlock()
	yield()
}

//go:norace
func (m *Mutex) tryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) TryLock() bool {
	yield()
	if !m.tryLock() {
		return false
	}
	acquire(unsafe.Pointer(&m.s))
	return true
}

type Once struct {
	done, running bool
	s             uint32
}

//go:norace
func (o *Once) enter() (run bool) {
	if t := cur(); t == nil {
		if o.running {
			blocked("self-deadlock: recursive Once.Do")
		}
	} else {
		t.k, t.once = kOnce, o
		point(t)
	}
	if o.done {
		return false
	}
	o.running = true
	return true
}

//go:norace
func (o *Once) leave() { o.done, o.running = true, false }

func (o *Once) Do(f func()) {
	if !o.enter() {
		acquire(unsafe.Pointer(&o.s))
		return
	}
	defer func() {
		release(unsafe.Pointer(&o.s))
		o.leave()
		yield()
	}()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type WaitGroup struct {
	n int
	s uint32
}

//go:norace
func (w *WaitGroup) add(d int) { w.n += d }

func (w *WaitGroup) Add(d int) {
	if d < 0 {
		releaseMerge(unsafe.Pointer(&w.s))
	}
	w.add(d)
}
func (w *WaitGroup) Done() { w.Add(-1); yield() }

//go:norace
func (w *WaitGroup) wait() {
	if t := cur(); t == nil {
		if w.n > 0 {
			blocked("WaitGroup.Wait blocks forever")
		}
	} else {
		t.k, t.wg = kWait, w
		point(t)
	}
}
func (w *WaitGroup) Wait() {
	w.wait()
	acquire(unsafe.Pointer(&w.s))
}

// Cond wakes all waiters (spurious wakeups are what callers have to expect).
type Cond struct {
	L    Locker
	wake *bool
	s    uint32
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) flag() *bool {
	if c.wake == nil {
		c.wake = new(bool)
	}
	return c.wake
}

//go:norace
func (c *Cond) wait(f *bool) {
	t := cur()
	if t == nil {
		blocked("Cond.Wait blocks forever")
	}
	t.k, t.tick = kSema, f
	point(t)
}

func (c *Cond) Wait() {
	f := c.flag()
	c.L.Unlock()
	c.wait(f)
	acquire(unsafe.Pointer(&c.s))
	c.L.Lock()
}

//go:norace
func (c *Cond) signal() {
	if c.wake != nil {
		*c.wake = true
		c.wake = nil
	}
}

func (c *Cond) Signal() { c.Broadcast() }
func (c *Cond) Broadcast() {
	releaseMerge(unsafe.Pointer(&c.s))
	c.signal()
	yield()
}

// Pool hands out what was put last.
type Pool struct {
	New   func() interface{}
	mu    sync.Mutex
	items []interface{}
}

func (p *Pool) Get() interface{} {
	yield()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	yield()
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { yield(); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { yield(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	yield()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	yield()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k interface{})                      { yield(); m.m.Delete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) { yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n interface{}) bool   { yield(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o interface{}) bool    { yield(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v interface{}) bool)       { yield(); m.m.Range(f) }
