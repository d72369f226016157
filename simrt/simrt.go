// Package simrt is a deterministic simulator for goroutines, locks, channels
// and time.
//
// Exactly one simulated task runs at any moment. Every task is a goroutine
// parked on a channel of its own; the scheduler (the goroutine that called
// Sim.Run) wakes one, and waits until that one traps back: because it blocked,
// finished, or came to a yield point at which it is to be preempted. Which
// task runs next, for how many yield points, and when the virtual clock moves
// is decided by a Policy drawing from one seeded generator, or by a list of
// recorded Deviations (replay). Nothing else can influence the order.
//
// The package is compiled without race instrumentation, and its own hand-over
// is hidden from the race detector, so that only the happens-before edges the
// simulated program itself establishes are visible to it.
//
// In task context nothing here may use maps, copy() or other runtime calls
// that report accesses to the race detector on behalf of their caller.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// RNG is a splitmix64 generator.
type RNG struct{ s uint64 }

// NewRNG returns a generator for the seed.
//
//go:noinline
func NewRNG(seed uint64) *RNG { return &RNG{seed} }

// Mix hashes some integers into one.
//
//go:noinline
func Mix(vs ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, v := range vs {
		h ^= v
		h += 0x9e3779b97f4a7c15
		h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
		h = (h ^ (h >> 27)) * 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h
}

// Next returns the next 64 random bits.
//
//go:noinline
func (r *RNG) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n); 0 if n <= 0.
//
//go:noinline
func (r *RNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Float returns a number in [0,1).
//
//go:noinline
func (r *RNG) Float() float64 { return float64(r.Next()>>11) / (1 << 53) }

// P returns true with probability p.
//
//go:noinline
func (r *RNG) P(p float64) bool { return r.Float() < p }

// Deviation is one scheduling decision that differs from the default ("keep
// running; when that is impossible run the runnable task with the lowest id;
// when there is none advance the clock").
type Deviation struct {
	Task  int   `json:"task"`            // the task that trapped, -1 when idle
	Step  int64 `json:"step"`            // its local step
	Ticks int   `json:"ticks,omitempty"` // timers fired (clock advanced) first
	Next  int   `json:"next"`            // the task to run next, -1: default
}

// PolicyKind selects how schedules are drawn.
type PolicyKind int

const (
	// Serial never preempts.
	Serial PolicyKind = iota
	// RandomWalk preempts after a geometric number of steps.
	RandomWalk
	// SyncPoints preempts at synchronisation operations only.
	SyncPoints
	// PCT runs tasks by random priority with a few random priority changes.
	PCT
	// HotSites preempts at a few chosen program points.
	HotSites
)

//go:noinline
func (k PolicyKind) String() string {
	return [...]string{"serial", "random-walk", "sync-points", "pct", "hot-sites"}[k]
}

// Policy configures the schedule generator.
type Policy struct {
	Kind   PolicyKind
	Mean   int     // RandomWalk: mean steps between preemptions
	Switch float64 // probability of switching at a trap (SyncPoints, HotSites)
	Depth  int     // PCT: number of priority change points
	Est    int     // PCT: estimated number of steps
	Tick   float64 // probability of advancing the clock at a trap (stalls)
	Sites  []int32 // HotSites
}

type state int8

const (
	runnable state = iota
	blocked
	done
)

type reason int8

const (
	rYield reason = iota
	rBlock
	rDone
)

// Task is one simulated goroutine.
type Task struct {
	ID     int
	Name   string
	step   int64
	stopAt int64
	site   int32
	state  state
	parked bool // blocked on purpose, by the harness
	killed bool
	inLib  bool // inside a library call (set by the harness)
	why    string
	prio   int
	wake   chan struct{}
	fn     func()
	next   *Task // waiter queue link
	devs   []Deviation
	devi   int
	edge   byte
	op     string
	client bool // spawned by the harness
	bg     bool // a goroutine the library started
	nap    bool
	turn   int64 // step at which it was last given the processor by choice
}

// fairness bounds the steps a task runs while others could: whoever spins
// waiting for another task gets to see it move, as with the real scheduler.
const fairness = 20000

// Panic is a panic that ended a task.
type Panic struct {
	Task  string
	Value string
	Stack string
}

// TickEvent is one advance of the virtual clock.
//
// At an idle one nothing was runnable: whatever an earlier advance had made
// due has run, or has blocked, before it.
type TickEvent struct {
	Seq   int64
	Clock int64
	Idle  bool
}

// Sim is one simulated execution.
type Sim struct {
	tasks    []*Task
	live     []*Task // not done, in id order
	mainWake chan struct{}
	rng      *RNG
	pol      Policy
	replay   bool
	byKey    map[[2]int64]Deviation
	idle     int64
	trapTask *Task
	trapWhy  reason
	syncTrap bool

	clock  int64
	timers *stimer
	tseq   int64
	seq    int64
	Ticks  []TickEvent

	steps    int64
	maxSteps int64
	killing  bool
	Recorded []Deviation
	Panics   []Panic
	Hang     bool
	Switches int
	Preempts int
	Stalls   int
	Fired    int
	Hash     uint64
	chans    *chanState
	pctPts   []int64
	pctLow   int
	trace    func(string)
	joinEdge byte
	known    int
	last     *Task
	lastWhy  reason
	spawned  int
	calm     bool
	rest     int64 // when the harness was last active

	// Horizon is how long after the harness was last active the clock may
	// advance while goroutines of the library keep it busy (0: an hour).
	Horizon int64
}

var (
	cur  *Task
	sim  *Sim
	hits []uint8
	hot  []uint8
)

// Register makes room for n program points (called by generated code).
//
//go:noinline
func Register(n int) {
	for len(hits) < n+1 {
		hits = append(hits, 0)
		hot = append(hot, 0)
	}
}

// Hits returns the reached flags of all program points.
//
//go:noinline
func Hits() []uint8 { return hits }

// New prepares an execution.
//
//go:noinline
func New(seed uint64, pol Policy, devs []Deviation, replay bool, maxSteps int64) *Sim {
	s := &Sim{
		mainWake: make(chan struct{}, 1),
		rng:      NewRNG(seed),
		pol:      pol,
		replay:   replay,
		maxSteps: maxSteps,
		Hash:     14695981039346656037,
	}
	if replay {
		s.byKey = map[[2]int64]Deviation{}
		for _, d := range devs {
			s.byKey[[2]int64{int64(d.Task), d.Step}] = d
		}
	}
	s.syncTrap = !replay && pol.Kind == SyncPoints
	return s
}

// SetTrace installs a sink for schedule events (replay only: it must not
// change the schedule).
//
//go:noinline
func (s *Sim) SetTrace(f func(string)) { s.trace = f }

//go:noinline
func (s *Sim) addTask(name string, fn func()) *Task {
	t := &Task{ID: s.spawned, Name: name, fn: fn, wake: make(chan struct{}, 1), stopAt: 1 << 62}
	s.spawned++
	s.tasks = append(s.tasks, t)
	s.live = append(s.live, t)
	return t
}

// Spawn adds a client task before Run.
//
//go:noinline
func (s *Sim) Spawn(name string, fn func()) *Task {
	t := s.addTask(name, fn)
	t.client = true
	raceReleaseMerge(unsafe.Pointer(&t.edge))
	go s.body(t)
	return t
}

// Go starts fn as a new task (or as a goroutine outside a simulation).
//
//go:noinline
func Go(fn func()) {
	t := cur
	if t == nil {
		go fn()
		return
	}
	s := sim
	n := s.addTask("go", fn)
	n.bg = true
	raceReleaseMerge(unsafe.Pointer(&n.edge))
	go s.body(n)
	syncPoint(t)
}

//go:noinline
func (s *Sim) body(t *Task) {
	raceOff()
	<-t.wake
	raceOn()
	raceAcquire(unsafe.Pointer(&t.edge))
	normal := false
	defer func() {
		if !normal && !t.killed {
			if r := recover(); r != nil {
				s.Panics = append(s.Panics, Panic{t.Name, fmt.Sprint(r), string(debug.Stack())})
			} // else: runtime.Goexit called by the task itself
		} else if t.killed {
			recover()
		}
		raceReleaseMerge(unsafe.Pointer(&s.joinEdge))
		raceOff()
		s.trapTask, s.trapWhy = t, rDone
		t.step++
		s.mainWake <- struct{}{}
		raceOn()
	}()
	if !t.killed {
		t.fn()
	}
	normal = true
}

// trap hands control to the scheduler and returns when the task runs again.
//
//go:noinline
func trap(t *Task, why reason) {
	if t.killed {
		return
	}
	s := sim
	raceOff()
	s.trapTask, s.trapWhy = t, why
	s.mainWake <- struct{}{}
	<-t.wake
	raceOn()
	if t.killed {
		runtime.Goexit()
	}
}

// Y is a yield point; the instrumenter puts one before every statement.
//
//go:noinline
func Y(site int32) {
	t := cur
	if t == nil {
		return
	}
	t.step++
	t.site = site
	hits[site] = 1
	if t.step >= t.stopAt || hot[site] != 0 {
		trap(t, rYield)
	}
}

// Yield is a yield point for harness code: an always-eligible one.
//
//go:noinline
func Yield() {
	if t := cur; t != nil {
		syncPoint(t)
	}
}

//go:noinline
func syncPoint(t *Task) {
	t.step++
	if t.step >= t.stopAt || sim.syncTrap {
		trap(t, rYield)
	}
}

// block suspends the task until unblock.
//
//go:noinline
func block(t *Task, why string) {
	if t.killed {
		return
	}
	t.step++
	t.state = blocked
	t.why = why
	trap(t, rBlock)
}

//go:noinline
func unblock(t *Task) {
	if t.state == blocked {
		t.state = runnable
	}
}

// Park blocks the calling task for ever, on purpose.
//
//go:noinline
func Park() {
	t := cur
	if t == nil {
		select {}
	}
	t.parked = true
	raceReleaseMerge(unsafe.Pointer(&sim.joinEdge)) // it will do nothing more
	block(t, "parked by the harness")
}

// InLib marks whether the calling task is inside a library call named op.
//
//go:noinline
func InLib(op string) {
	if t := cur; t != nil {
		t.inLib = op != ""
		sim.rest = sim.clock
		t.op = op
	}
}

// TaskID returns the id of the running task, -1 outside a simulation.
//
//go:noinline
func TaskID() int {
	if t := cur; t != nil {
		return t.ID
	}
	return -1
}

// Active reports whether the caller is a simulated task.
//
//go:noinline
func Active() bool { return cur != nil }

// Stamp returns the next event number and the virtual clock.
//
//go:noinline
func Stamp() (seq, clock int64) {
	s := sim
	if s == nil {
		return 0, 0
	}
	s.seq++
	return s.seq, s.clock
}

// Clock returns the virtual clock in nanoseconds.
//
//go:noinline
func Clock() int64 {
	if sim == nil {
		return 0
	}
	return sim.clock
}

//go:noinline
func (s *Sim) drawBudget(t *Task) {
	t.stopAt = 1 << 62
	if s.replay {
		for t.devi < len(t.devs) && t.devs[t.devi].Step <= t.step {
			t.devi++
		}
		if t.devi < len(t.devs) {
			t.stopAt = t.devs[t.devi].Step
		}
	} else {
		switch s.pol.Kind {
		case RandomWalk:
			if s.pol.Mean <= 1 {
				t.stopAt = t.step + 1
			} else {
				// geometric with the given mean
				n := int64(1)
				p := 1 / float64(s.pol.Mean)
				for !s.rng.P(p) && n < int64(20*s.pol.Mean) {
					n++
				}
				t.stopAt = t.step + n
			}
		case PCT:
			if len(s.pctPts) > 0 {
				d := s.pctPts[0] - s.steps
				if d < 1 {
					d = 1
				}
				t.stopAt = t.step + d
			}
		}
	}
	if t.stopAt > t.turn+fairness {
		t.stopAt = t.turn + fairness
	}
	if left := s.maxSteps - s.steps; t.stopAt-t.step > left {
		t.stopAt = t.step + left + 1
	}
}

// Calm ends the stalls: from now on the clock advances only when nothing can
// run.
//
//go:noinline
func (s *Sim) Calm() { s.calm = true }

// Run executes all tasks until none is left, all are stuck, or the step bound
// is exceeded.
//
//go:noinline
func (s *Sim) Run() {
	sim = s
	raceOff()
	for _, h := range s.pol.Sites {
		if !s.replay && s.pol.Kind == HotSites && int(h) < len(hot) {
			hot[h] = 1
		}
	}
	if !s.replay && s.pol.Kind == PCT && s.known == 0 {
		est := s.pol.Est
		if est < 10 {
			est = 1000
		}
		for i := 0; i < s.pol.Depth; i++ {
			s.pctPts = append(s.pctPts, int64(1+s.rng.Intn(est)))
		}
		for i := range s.pctPts {
			for j := i; j > 0 && s.pctPts[j] < s.pctPts[j-1]; j-- {
				s.pctPts[j], s.pctPts[j-1] = s.pctPts[j-1], s.pctPts[j]
			}
		}
	}
	last, lastWhy := s.last, s.lastWhy
	defer func() { s.last, s.lastWhy = last, lastWhy }()
	for {
		s.adopt()
		if s.steps > s.maxSteps {
			s.Hang = true
			break
		}
		t := s.pick(last, lastWhy)
		if t == nil {
			break
		}
		if t != last {
			s.Switches++
			lid, lsite := uint64(0), uint64(0)
			if last != nil {
				lid, lsite = uint64(last.ID+1), uint64(last.site)
				if lastWhy == rYield {
					s.Preempts++
				}
			}
			s.Hash = Mix(s.Hash, lid, lsite, uint64(t.ID+1), uint64(s.clock))
			if s.trace != nil {
				s.trace(fmt.Sprintf("t=%dns run task %d (%s) at step %d", s.clock, t.ID, t.Name, t.step))
			}
		}
		if t != last || lastWhy != rYield || t.step >= t.turn+fairness {
			t.turn = t.step
		}
		s.drawBudget(t)
		before := t.step
		cur = t
		t.wake <- struct{}{}
		<-s.mainWake
		cur = nil
		last, lastWhy = s.trapTask, s.trapWhy
		s.steps += last.step - before
		if lastWhy == rDone {
			last.state = done
			if last.client {
				s.rest = s.clock
			}
			for i, l := range s.live {
				if l == last {
					s.live = append(s.live[:i], s.live[i+1:]...)
					break
				}
			}
		}
	}
	for _, h := range s.pol.Sites {
		if int(h) < len(hot) {
			hot[h] = 0
		}
	}
	raceOn()
	raceAcquire(unsafe.Pointer(&s.joinEdge))
}

// adopt prepares newly spawned tasks.
//
//go:noinline
func (s *Sim) adopt() {
	for ; s.known < len(s.tasks); s.known++ {
		t := s.tasks[s.known]
		t.prio = 1000 + s.rng.Intn(1<<20)
		if s.replay {
			for k, d := range s.byKey {
				if k[0] == int64(t.ID) {
					t.devs = append(t.devs, d)
				}
			}
			for i := range t.devs {
				for j := i; j > 0 && t.devs[j].Step < t.devs[j-1].Step; j-- {
					t.devs[j], t.devs[j-1] = t.devs[j-1], t.devs[j]
				}
			}
		}
	}
}

// Steps returns the number of yield points passed.
//
//go:noinline
func (s *Sim) Steps() int64 { return s.steps }

// Now returns the final virtual clock.
//
//go:noinline
func (s *Sim) Now() int64 { return s.clock }

// Stop ends whatever tasks are left. Races are to be counted before it.
//
//go:noinline
func (s *Sim) Stop() {
	raceOff()
	s.killing = true
	for _, t := range s.tasks {
		if t.state == done {
			continue
		}
		t.killed = true
		cur = t
		t.wake <- struct{}{}
		<-s.mainWake
		cur = nil
		t.state = done
	}
	sim = nil
	raceOn()
}

// Unfinished lists the tasks that did not finish, with what they wait for.
//
//go:noinline
func (s *Sim) Unfinished() (lib, parked []string) {
	for _, t := range s.tasks {
		if t.state == done || t.bg && t.state == blocked && !t.parked && !t.inLib {
			continue // a goroutine of the library's own may wait for work
		}
		d := fmt.Sprintf("task %d (%s) in %q: %s", t.ID, t.Name, t.op, t.why)
		if t.parked {
			parked = append(parked, d)
		} else {
			lib = append(lib, d)
		}
	}
	return
}

//go:noinline
func (s *Sim) pick(last *Task, why reason) *Task {
	id, step := -1, s.idle
	if last != nil {
		id, step = last.ID, last.step
	}
	for {
		var cands []*Task
		for _, t := range s.live {
			if t.state == runnable {
				cands = append(cands, t)
			}
		}
		if len(cands) == 0 {
			// nothing can run: the clock jumps to the next timer
			if !s.fire(true) {
				return nil
			}
			s.adopt()
			s.idle++
			id, step, last = -1, s.idle, nil
			continue
		}
		def := cands[0]
		spent := false
		if last != nil && last.state == runnable {
			def = last
			if last.step >= last.turn+fairness {
				// its turn is over: the next in order
				spent = len(cands) > 1
				def = cands[0]
				for _, t := range cands {
					if t.ID > last.ID {
						def = t
						break
					}
				}
			}
		}
		ticks, next := 0, def
		if s.replay {
			d, ok := s.byKey[[2]int64{int64(id), step}]
			if ok {
				for i := 0; i < d.Ticks && !s.calm; i++ {
					if s.fire(false) {
						s.Stalls++
					}
				}
				s.adopt()
				for _, t := range s.live {
					if t.ID == d.Next && t.state == runnable {
						next = t
					}
				}
			}
			return next
		}
		if s.pol.Tick > 0 && !s.calm && s.rng.P(s.pol.Tick) {
			for s.fire(false) {
				ticks++
				s.Stalls++
				if !s.rng.P(0.3) {
					break
				}
			}
			if ticks > 0 {
				s.adopt()
				cands = cands[:0]
				for _, t := range s.live {
					if t.state == runnable {
						cands = append(cands, t)
					}
				}
			}
		}
		kind := s.pol.Kind
		if spent {
			kind = -1
		}
		switch kind {
		case Serial:
			next = cands[s.rng.Intn(len(cands))]
			if last != nil && last.state == runnable && !s.rng.P(0.5) {
				next = last
			}
		case RandomWalk:
			next = cands[s.rng.Intn(len(cands))]
		case SyncPoints, HotSites:
			if last == nil || last.state != runnable || s.rng.P(s.pol.Switch) {
				next = cands[s.rng.Intn(len(cands))]
			}
		case PCT:
			for len(s.pctPts) > 0 && s.pctPts[0] <= s.steps {
				s.pctPts = s.pctPts[1:]
				s.pctLow--
				if last != nil {
					last.prio = s.pctLow
				}
			}
			next = cands[0]
			for _, t := range cands {
				if t.prio > next.prio {
					next = t
				}
			}
		}
		if next != def || ticks > 0 {
			d := Deviation{Task: id, Step: step, Ticks: ticks, Next: next.ID}
			if next == def {
				d.Next = -1
			}
			s.Recorded = append(s.Recorded, d)
		}
		return next
	}
}
