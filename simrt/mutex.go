package simrt

import (
	"sync"
	"unsafe"
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	real   sync.Mutex
	locked bool
	owner  int
	head   *Task
	tail   *Task
}

//go:noinline
func (m *Mutex) push(t *Task) {
	t.next = nil
	if m.tail == nil {
		m.head = t
	} else {
		m.tail.next = t
	}
	m.tail = t
}

// Lock locks m.
//
//go:noinline
func (m *Mutex) Lock() {
	t := cur
	if t == nil {
		m.real.Lock()
		return
	}
	if t.killed {
		return
	}
	syncPoint(t)
	for m.locked {
		m.push(t)
		block(t, "waiting for a mutex")
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
}

// TryLock tries to lock m.
//
//go:noinline
func (m *Mutex) TryLock() bool {
	t := cur
	if t == nil {
		return m.real.TryLock()
	}
	if t.killed {
		return true
	}
	syncPoint(t)
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks m.
//
//go:noinline
func (m *Mutex) Unlock() {
	t := cur
	if t == nil {
		m.real.Unlock()
		return
	}
	if t.killed {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.locked = false
	if w := m.head; w != nil {
		m.head = nil
		m.tail = nil
		// wake all: which of them gets the lock is a scheduling decision
		for w != nil {
			n := w.next
			w.next = nil
			unblock(w)
			w = n
		}
	}
	syncPoint(t)
}

// RWMutex replaces sync.RWMutex. A waiting writer holds off new readers.
type RWMutex struct {
	real sync.RWMutex
	w    bool
	r    int
	ww   int
	head *Task
	rel  byte
}

//go:noinline
func (m *RWMutex) wait(t *Task, why string) {
	t.next = m.head
	m.head = t
	block(t, why)
}

//go:noinline
func (m *RWMutex) wakeAll() {
	for m.head != nil {
		w := m.head
		m.head = w.next
		w.next = nil
		unblock(w)
	}
}

// Lock locks m for writing.
//
//go:noinline
func (m *RWMutex) Lock() {
	t := cur
	if t == nil {
		m.real.Lock()
		return
	}
	if t.killed {
		return
	}
	syncPoint(t)
	if m.w || m.r > 0 {
		m.ww++
		for m.w || m.r > 0 {
			m.wait(t, "waiting for a write lock")
		}
		m.ww--
	}
	m.w = true
	raceAcquire(unsafe.Pointer(m))
	raceAcquire(unsafe.Pointer(&m.rel))
}

// TryLock tries to lock m for writing.
//
//go:noinline
func (m *RWMutex) TryLock() bool {
	t := cur
	if t == nil {
		return m.real.TryLock()
	}
	if t.killed {
		return true
	}
	syncPoint(t)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	raceAcquire(unsafe.Pointer(m))
	raceAcquire(unsafe.Pointer(&m.rel))
	return true
}

// Unlock releases the write lock.
//
//go:noinline
func (m *RWMutex) Unlock() {
	t := cur
	if t == nil {
		m.real.Unlock()
		return
	}
	if t.killed {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.w = false
	m.wakeAll()
	syncPoint(t)
}

// RLock locks m for reading.
//
//go:noinline
func (m *RWMutex) RLock() {
	t := cur
	if t == nil {
		m.real.RLock()
		return
	}
	if t.killed {
		return
	}
	syncPoint(t)
	for m.w || m.ww > 0 {
		m.wait(t, "waiting for a read lock")
	}
	m.r++
	raceAcquire(unsafe.Pointer(m))
}

// TryRLock tries to lock m for reading.
//
//go:noinline
func (m *RWMutex) TryRLock() bool {
	t := cur
	if t == nil {
		return m.real.TryRLock()
	}
	if t.killed {
		return true
	}
	syncPoint(t)
	if m.w || m.ww > 0 {
		return false
	}
	m.r++
	raceAcquire(unsafe.Pointer(m))
	return true
}

// RUnlock releases a read lock.
//
//go:noinline
func (m *RWMutex) RUnlock() {
	t := cur
	if t == nil {
		m.real.RUnlock()
		return
	}
	if t.killed {
		return
	}
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.rel))
	m.r--
	if m.r == 0 {
		m.wakeAll()
	}
	syncPoint(t)
}

type rlocker RWMutex

//go:noinline
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:noinline
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
//
//go:noinline
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
	head *Task
}

// Add adds to the counter.
//
//go:noinline
func (w *WaitGroup) Add(n int) {
	t := cur
	if t == nil {
		w.real.Add(n)
		return
	}
	if t.killed {
		return
	}
	syncPoint(t)
	if n < 0 {
		raceReleaseMerge(unsafe.Pointer(w))
	}
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for w.head != nil {
			x := w.head
			w.head = x.next
			x.next = nil
			unblock(x)
		}
	}
}

// Done decrements the counter.
//
//go:noinline
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a task counted by w.
//
//go:noinline
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits for the counter to be zero.
//
//go:noinline
func (w *WaitGroup) Wait() {
	t := cur
	if t == nil {
		w.real.Wait()
		return
	}
	if t.killed {
		return
	}
	syncPoint(t)
	for w.n > 0 {
		t.next = w.head
		w.head = t
		block(t, "waiting for a wait group")
	}
	raceAcquire(unsafe.Pointer(w))
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
	edge byte
}

// Do runs f the first time.
//
//go:noinline
func (o *Once) Do(f func()) {
	if t := cur; t != nil {
		syncPoint(t)
	}
	if o.done {
		raceAcquire(unsafe.Pointer(&o.edge))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			raceRelease(unsafe.Pointer(&o.edge))
			o.done = true
		}()
		f()
	}
}

type condNode struct {
	t    *Task
	sig  bool
	next *condNode
}

// Cond replaces sync.Cond.
type Cond struct {
	L    sync.Locker
	head *condNode
	real *sync.Cond
}

// NewCond returns a condition variable.
//
//go:noinline
func NewCond(l sync.Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

// Wait waits to be signalled.
//
//go:noinline
func (c *Cond) Wait() {
	t := cur
	if t == nil {
		c.real.Wait()
		return
	}
	if t.killed {
		return
	}
	n := &condNode{t: t}
	p := &c.head
	for *p != nil {
		p = &(*p).next
	}
	*p = n
	c.L.Unlock()
	for !n.sig && !t.killed {
		block(t, "waiting for a condition")
	}
	raceAcquire(unsafe.Pointer(&c.head))
	c.L.Lock()
}

// Signal wakes one waiter.
//
//go:noinline
func (c *Cond) Signal() {
	t := cur
	if t == nil {
		c.real.Signal()
		return
	}
	raceReleaseMerge(unsafe.Pointer(&c.head))
	if n := c.head; n != nil {
		c.head = n.next
		n.sig = true
		unblock(n.t)
	}
	syncPoint(t)
}

// Broadcast wakes all waiters.
//
//go:noinline
func (c *Cond) Broadcast() {
	t := cur
	if t == nil {
		c.real.Broadcast()
		return
	}
	raceReleaseMerge(unsafe.Pointer(&c.head))
	for c.head != nil {
		n := c.head
		c.head = n.next
		n.sig = true
		unblock(n.t)
	}
	syncPoint(t)
}

// Pool replaces sync.Pool: last in, first out, never dropping anything.
type Pool struct {
	New   func() any
	items *poolItem
	gen   *Sim
	real  sync.Pool
}

type poolItem struct {
	v    any
	next *poolItem
	edge byte
}

// Get takes an item.
//
//go:noinline
func (p *Pool) Get() any {
	t := cur
	if t == nil {
		if v := p.real.Get(); v != nil {
			return v
		}
	} else {
		syncPoint(t)
		if p.gen == sim && p.items != nil {
			it := p.items
			p.items = it.next
			raceAcquire(unsafe.Pointer(&it.edge))
			return it.v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
//
//go:noinline
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	t := cur
	if t == nil {
		p.real.Put(v)
		return
	}
	if p.gen != sim {
		p.gen, p.items = sim, nil
	}
	it := &poolItem{v: v, next: p.items}
	raceRelease(unsafe.Pointer(&it.edge))
	p.items = it
	syncPoint(t)
}
