package simrt

import "unsafe"

// Channels used by simulated tasks live in a side table: the real channel is
// only an identity and a capacity. Outside a simulation the real operations
// are used.

type selGroup struct {
	t    *Task
	done bool
	idx  int
	val  any
	ok   bool
}

type waiter struct {
	g    *selGroup
	idx  int
	val  any // value to send
	next *waiter
}

type bufItem struct {
	v    any
	next *bufItem
}

type chanState struct {
	id     unsafe.Pointer
	cap    int
	n      int
	buf    *bufItem
	closed bool
	recvq  *waiter
	sendq  *waiter
	next   *chanState

	// For the race detector: as in the runtime, whoever puts an item into a
	// place of the buffer or takes one out synchronises with who used that
	// place before; without a buffer sender and receiver do with each other.
	// What a task that waits has done before, it leaves at its waiter; what
	// it learns from who completes it, it finds at its selGroup.
	places []byte
	left   []*waiter // waiters whose release belongs to a place
	sendx  int
	recvx  int
}

// usePlace synchronises the calling task at a place of the buffer.
//
//go:noinline
func (s *chanState) usePlace(i int) {
	raceAcquire(unsafe.Pointer(&s.places[i]))
	if s.left[i] != nil {
		raceAcquire(unsafe.Pointer(s.left[i]))
		s.left[i] = nil
	}
	raceReleaseMerge(unsafe.Pointer(&s.places[i]))
}

// nextPlace advances an index into the buffer.
//
//go:noinline
func (s *chanState) nextPlace(x *int) int {
	i := *x
	if *x++; *x == len(s.places) {
		*x = 0
	}
	return i
}

// chanID returns the identity of a channel whatever its static direction.
func chanID[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:noinline
func lookup(id unsafe.Pointer, c int) *chanState {
	for s := sim.chans; s != nil; s = s.next {
		if s.id == id {
			return s
		}
	}
	s := &chanState{id: id, cap: c, next: sim.chans}
	n := c
	if n > 4096 {
		n = 4096
	}
	s.places, s.left = make([]byte, n), make([]*waiter, n)
	sim.chans = s
	return s
}

//go:noinline
func popWaiter(q **waiter) *waiter {
	for *q != nil {
		w := *q
		*q = w.next
		if !w.g.done {
			return w
		}
	}
	return nil
}

//go:noinline
func pushWaiter(q **waiter, w *waiter) {
	for *q != nil {
		q = &(*q).next
	}
	*q = w
}

//go:noinline
func (s *chanState) pushBuf(v any) {
	p := &s.buf
	for *p != nil {
		p = &(*p).next
	}
	*p = &bufItem{v: v}
	s.n++
}

//go:noinline
func (s *chanState) complete(w *waiter, v any, ok bool) {
	raceReleaseMerge(unsafe.Pointer(w.g))
	w.g.done, w.g.idx, w.g.val, w.g.ok = true, w.idx, v, ok
	unblock(w.g.t)
}

// trySend attempts a send without blocking.
//
//go:noinline
func (s *chanState) trySend(v any) bool {
	if s.closed {
		panic("send on closed channel")
	}
	if w := popWaiter(&s.recvq); w != nil {
		if s.cap == 0 {
			raceAcquire(unsafe.Pointer(w))
		} else { // as if through the buffer
			i := s.nextPlace(&s.recvx)
			s.sendx = s.recvx
			s.usePlace(i)
			s.left[i] = w
		}
		s.complete(w, v, true)
		return true
	}
	if s.n < s.cap {
		s.usePlace(s.nextPlace(&s.sendx))
		s.pushBuf(v)
		return true
	}
	return false
}

// tryRecv attempts a receive without blocking.
//
//go:noinline
func (s *chanState) tryRecv() (v any, ok, done bool) {
	if s.n > 0 {
		i := s.nextPlace(&s.recvx)
		s.usePlace(i)
		v = s.buf.v
		s.buf = s.buf.next
		s.n--
		if w := popWaiter(&s.sendq); w != nil { // takes the place that came free
			s.sendx = s.recvx
			s.left[i] = w
			s.pushBuf(w.val)
			s.complete(w, nil, true)
		}
		return v, true, true
	}
	if w := popWaiter(&s.sendq); w != nil {
		raceAcquire(unsafe.Pointer(w))
		s.complete(w, nil, true)
		return w.val, true, true
	}
	if s.closed {
		raceAcquire(unsafe.Pointer(s))
		return nil, false, true
	}
	return nil, false, false
}

// Case is one case of a select.
type Case struct {
	id   unsafe.Pointer
	cap  int
	send bool
	val  any
}

// CaseRecv makes a receive case.
func CaseRecv[T any](ch <-chan T) Case { return Case{id: chanID(ch), cap: cap(ch)} }

// CaseSend makes a send case.
func CaseSend[T any](ch chan<- T, v T) Case {
	return Case{id: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap: cap(ch), send: true, val: v}
}

// Select performs a select; the index is -1 for the default case.
//
//go:noinline
func Select(def bool, cases ...Case) (int, any, bool) {
	t := cur
	if t == nil {
		panic("simrt: select outside a simulation")
	}
	if t.killed {
		return -1, nil, false
	}
	syncPoint(t)
	n := len(cases)
	start := 0
	if n > 1 {
		start = int(Mix(MapSalt, uint64(t.ID), uint64(t.step)) % uint64(n))
	}
	for k := 0; k < n; k++ {
		c := &cases[(start+k)%n]
		if c.id == nil {
			continue
		}
		s := lookup(c.id, c.cap)
		if c.send {
			if s.trySend(c.val) {
				return (start + k) % n, nil, true
			}
		} else if v, ok, done := s.tryRecv(); done {
			return (start + k) % n, v, ok
		}
	}
	if def {
		return -1, nil, false
	}
	g := &selGroup{t: t}
	for k := range cases {
		c := &cases[k]
		if c.id == nil {
			continue
		}
		s := lookup(c.id, c.cap)
		w := &waiter{g: g, idx: k, val: c.val}
		raceReleaseMerge(unsafe.Pointer(w))
		if c.send {
			pushWaiter(&s.sendq, w)
		} else {
			pushWaiter(&s.recvq, w)
		}
	}
	for !g.done && !t.killed {
		block(t, "waiting on a channel")
	}
	if g.done && cases[g.idx].id != nil {
		raceAcquire(unsafe.Pointer(g))
		if cases[g.idx].send && !g.ok {
			panic("send on closed channel")
		}
	}
	return g.idx, g.val, g.ok
}

// As converts a received value.
func As[T any](_ <-chan T, v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Send sends v on ch.
func Send[T any](ch chan<- T, v T) {
	if !Active() {
		ch <- v
		return
	}
	Select(false, CaseSend(ch, v))
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives from ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	_, v, ok := Select(false, CaseRecv(ch))
	return As(ch, v), ok
}

// Range receives the first value of a loop over a channel.
//
//go:noinline
func Range[T any](ch <-chan T) (c <-chan T, v T, ok bool) {
	v, ok = Recv2(ch)
	return ch, v, ok
}

// Close closes ch.
func Close[T any](ch chan<- T) {
	if !Active() {
		close(ch)
		return
	}
	closeChan(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
}

//go:noinline
func closeChan(id unsafe.Pointer, c int) {
	t := cur
	if t.killed {
		return
	}
	syncPoint(t)
	s := lookup(id, c)
	if s.closed {
		panic("close of closed channel")
	}
	raceReleaseMerge(unsafe.Pointer(s))
	s.closed = true
	for {
		w := popWaiter(&s.recvq)
		if w == nil {
			break
		}
		s.complete(w, nil, false)
	}
	for {
		w := popWaiter(&s.sendq)
		if w == nil {
			break
		}
		s.complete(w, nil, false)
	}
}

// Len returns the number of buffered items.
func Len[T any](ch <-chan T) int {
	if !Active() {
		return len(ch)
	}
	return chanLen(chanID(ch), cap(ch))
}

//go:noinline
func chanLen(id unsafe.Pointer, c int) int { return lookup(id, c).n }

// Offer does a non-blocking send from a timer hook.
func Offer[T any](ch chan<- T, v T) {
	offer(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), v)
}

//go:noinline
func offer(id unsafe.Pointer, c int, v any) {
	s := lookup(id, c)
	if !s.closed {
		s.trySend(v)
	}
}
