package simrt

import "unsafe"

// stimer is a pending timer, in a list ordered by deadline and creation.
type stimer struct {
	when int64
	seq  int64
	fn   func() // run as a new task
	hook func() // run by the scheduler itself
	next *stimer
	on   bool
	name string
	edge byte
}

// after returns the deadline d from now, saturating.
//
//go:noinline
func (s *Sim) after(d int64) int64 {
	if d > 0 && s.clock > (1<<63-1)-d {
		return 1<<63 - 1
	}
	return s.clock + d
}

//go:noinline
func (s *Sim) arm(t *stimer, when int64) {
	if when < s.clock {
		when = s.clock
	}
	s.tseq++
	t.when, t.seq, t.on = when, s.tseq, true
	p := &s.timers
	for *p != nil && (*p).when <= when {
		p = &(*p).next
	}
	t.next = *p
	*p = t
}

//go:noinline
func (s *Sim) disarm(t *stimer) bool {
	if !t.on {
		return false
	}
	p := &s.timers
	for *p != nil && *p != t {
		p = &(*p).next
	}
	if *p == t {
		*p = t.next
	}
	t.on = false
	return true
}

// beyond reports whether the clock is kept going by goroutines of the library
// alone.
//
//go:noinline
func (s *Sim) beyond() bool {
	h := s.Horizon
	if h == 0 {
		h = 3600e9
	}
	if s.timers.when-s.rest <= h { // both are at least 0
		return false
	}
	bg := false
	for _, t := range s.live {
		if (!t.bg || t.inLib || t.nap) && !t.parked {
			return false
		}
		bg = bg || t.bg
	}
	return bg
}

// fire advances the clock to the next deadline and fires every timer due.
//
//go:noinline
func (s *Sim) fire(idle bool) bool {
	if s.timers == nil {
		return false
	}
	if idle && s.beyond() {
		return false
	}
	w := s.timers.when
	if w > s.clock {
		s.clock = w
		s.seq++
		s.Ticks = append(s.Ticks, TickEvent{s.seq, w, idle})
	}
	for s.timers != nil && s.timers.when <= s.clock {
		t := s.timers
		s.timers = t.next
		t.on = false
		if t.hook != nil {
			t.hook()
			continue
		}
		s.Fired++
		n := s.addTask("timer", t.fn)
		tt := t
		n.fn = func() {
			raceAcquire(unsafe.Pointer(&tt.edge))
			tt.fn()
		}
		go s.body(n)
	}
	return true
}

// Timer is a simulated timer.
type Timer struct {
	t *stimer
	s *Sim
}

// AfterFunc runs fn as a new task after d nanoseconds.
//
//go:noinline
func AfterFunc(d int64, fn func()) *Timer {
	t := &Timer{&stimer{fn: fn}, sim}
	syncPoint(cur)
	raceReleaseMerge(unsafe.Pointer(&t.t.edge))
	sim.arm(t.t, sim.after(d))
	return t
}

// AfterHook runs fn in the scheduler after d nanoseconds.
//
//go:noinline
func AfterHook(d int64, fn func()) *Timer {
	t := &Timer{&stimer{hook: fn}, sim}
	syncPoint(cur)
	sim.arm(t.t, sim.after(d))
	return t
}

// Live reports whether the timer belongs to the running simulation.
//
//go:noinline
func (t *Timer) Live() bool { return t.s == sim && cur != nil }

// Stop disarms the timer.
//
//go:noinline
func (t *Timer) Stop() bool {
	if t.s != sim || cur == nil {
		return false
	}
	syncPoint(cur)
	return sim.disarm(t.t)
}

// Reset re-arms the timer.
//
//go:noinline
func (t *Timer) Reset(d int64) bool {
	if t.s != sim || cur == nil {
		return false
	}
	syncPoint(cur)
	was := sim.disarm(t.t)
	raceReleaseMerge(unsafe.Pointer(&t.t.edge))
	sim.arm(t.t, sim.after(d))
	return was
}

// Rearm arms the timer again from within its own hook.
//
//go:noinline
func (t *Timer) Rearm(d int64) { sim.arm(t.t, sim.after(d)) }

// Nap is Sleep for the harness: the clock has to get there.
//
//go:noinline
func Nap(d int64) {
	t := cur
	t.nap = true
	Sleep(d)
	t.nap = false
	sim.rest = sim.clock
}

// Sleep suspends the calling task for d nanoseconds.
//
//go:noinline
func Sleep(d int64) {
	t := cur
	if t == nil {
		return
	}
	if d <= 0 {
		syncPoint(t)
		return
	}
	st := &stimer{hook: func() { unblock(t) }}
	sim.arm(st, sim.after(d))
	block(t, "sleeping")
}
