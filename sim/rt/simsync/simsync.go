// Package simsync has the API of package sync on top of the simulator's
// scheduler.
package simsync

import (
	rsync "sync"
	"unsafe"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simatomic"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzsim/simrt"
)

type Locker = rsync.Locker

// Mutex barges: any waiter or newcomer may win after an Unlock.
type Mutex struct {
	locked bool
	q      simrt.WaitQ
}

//go:norace
func (m *Mutex) lock() {
	simrt.Y(0)
	for m.locked {
		simrt.Block(&m.q)
	}
	m.locked = true
}

//go:norace
func (m *Mutex) Lock() {
	m.lock()
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) tryLock() bool {
	simrt.Y(0)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !m.tryLock() {
		return false
	}
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	simrt.RaceRelease(unsafe.Pointer(m))
	m.unlock()
}

//go:norace
func (m *Mutex) unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	simrt.WakeAll(&m.q)
	simrt.Y(0)
}

// RWMutex: a waiting writer blocks new readers, as in package sync.
type RWMutex struct {
	readers int
	writer  bool
	wwait   int
	q       simrt.WaitQ
	rsem    byte
	wsem    byte
}

//go:norace
func (m *RWMutex) rlock() {
	simrt.Y(0)
	for m.writer || m.wwait > 0 {
		simrt.Block(&m.q)
	}
	m.readers++
}

//go:norace
func (m *RWMutex) RLock() {
	m.rlock()
	simrt.RaceAcquire(unsafe.Pointer(&m.rsem))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Y(0)
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.rsem))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.wsem))
	m.runlock()
}

//go:norace
func (m *RWMutex) runlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	simrt.WakeAll(&m.q)
	simrt.Y(0)
}

//go:norace
func (m *RWMutex) lock() {
	simrt.Y(0)
	if m.writer || m.readers > 0 {
		m.wwait++
		for m.writer || m.readers > 0 {
			simrt.Block(&m.q)
		}
		m.wwait--
	}
	m.writer = true
}

//go:norace
func (m *RWMutex) Lock() {
	m.lock()
	simrt.RaceAcquire(unsafe.Pointer(&m.rsem))
	simrt.RaceAcquire(unsafe.Pointer(&m.wsem))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Y(0)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	simrt.RaceAcquire(unsafe.Pointer(&m.rsem))
	simrt.RaceAcquire(unsafe.Pointer(&m.wsem))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	simrt.RaceRelease(unsafe.Pointer(&m.rsem))
	m.unlock()
}

//go:norace
func (m *RWMutex) unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	simrt.WakeAll(&m.q)
	simrt.Y(0)
}

type rlocker RWMutex

//go:norace
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:norace
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

//go:norace
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once.
type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) isDone() bool {
	simrt.Y(0)
	return o.done
}

//go:norace
func (o *Once) setDone() {
	simrt.RaceReleaseMerge(unsafe.Pointer(o))
	o.done = true
}

//go:norace
func (o *Once) Do(f func()) {
	if o.isDone() {
		simrt.RaceAcquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.isDone() {
		simrt.RaceAcquire(unsafe.Pointer(o))
		return
	}
	defer o.setDone()
	f()
}

//go:norace
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

//go:norace
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

//go:norace
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup.
type WaitGroup struct {
	n int
	q simrt.WaitQ
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(w))
	}
	w.add(d)
}

//go:norace
func (w *WaitGroup) add(d int) {
	simrt.Y(0)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.WakeAll(&w.q)
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	w.wait()
	simrt.RaceAcquire(unsafe.Pointer(w))
}

//go:norace
func (w *WaitGroup) wait() {
	simrt.Y(0)
	for w.n > 0 {
		simrt.Block(&w.q)
	}
}

//go:norace
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.PreGo()
	go func() {
		simrt.Y(0)
		defer w.Done()
		f()
	}()
}

// Cond.
type Cond struct {
	L    Locker
	head *cwait
}

//go:norace
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	w := &cwait{}
	c.enq(w)
	c.L.Unlock()
	c.sleep(w)
	c.L.Lock()
}

type cwait struct {
	sig bool
	nxt *cwait
	q   simrt.WaitQ
}

//go:norace
func (c *Cond) enq(w *cwait) {
	pp := &c.head
	for *pp != nil {
		pp = &(*pp).nxt
	}
	*pp = w
}

//go:norace
func (c *Cond) sleep(w *cwait) {
	for !w.sig {
		simrt.Block(&w.q)
	}
}

//go:norace
func (c *Cond) Signal() {
	simrt.Y(0)
	if w := c.head; w != nil {
		c.head = w.nxt
		w.sig = true
		simrt.WakeAll(&w.q)
	}
}

//go:norace
func (c *Cond) Broadcast() {
	simrt.Y(0)
	for w := c.head; w != nil; w = w.nxt {
		w.sig = true
		simrt.WakeAll(&w.q)
	}
	c.head = nil
}

// Pool returns any previously put item, or none: package sync promises no more.
type Pool struct {
	New   func() any
	items []any
}

//go:norace
func (p *Pool) take() (any, bool) {
	simrt.Y(0)
	if n := len(p.items); n > 0 && !simrt.Coin() {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x, true
	}
	return nil, false
}

//go:norace
func (p *Pool) Get() any {
	x, ok := p.take()
	if ok {
		simrt.RaceAcquire(unsafe.Pointer(p))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(p))
	p.put(x)
}

//go:norace
func (p *Pool) put(x any) {
	simrt.Y(0)
	if len(p.items) < 64 {
		p.items = simrt.Push(p.items, x)
	}
}

// Map is elsewhere because generic code it uses must be compiled like the rest
// of the program: this package is compiled without race instrumentation.
type Map = simatomic.SyncMap
