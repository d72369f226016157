package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"verif/simrt"
)

// Plan is one complete simulated execution: workload, faults and schedule.
// Execute is a pure function of it and of the code under test.
type Plan struct {
	Prop     string            `json:"property"`
	Scenario string            `json:"scenario"`
	Run      int64             `json:"run"`
	Seed     uint64            `json:"seed"`
	Policy   simrt.Policy      `json:"policy"`
	Replay   bool              `json:"replay"` // schedule: follow Devs instead of drawing from Seed
	Devs     []simrt.Deviation `json:"devs,omitempty"`
	MapSalt  uint64            `json:"map_salt"`
	MaxSteps int64             `json:"max_steps"`

	Col   *ColPlan   `json:"col,omitempty"`
	E2E   *E2EPlan   `json:"e2e,omitempty"`
	Enc   *EncPlan   `json:"enc,omitempty"`
	Codec *CodecPlan `json:"codec,omitempty"`
	Buf   *BufPlan   `json:"buf,omitempty"`
	X     *XPlan     `json:"x,omitempty"`
}

// clone makes a deep copy.
func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// Viol is one observed breach of one or more properties.
type Viol struct {
	Class string   `json:"class"`
	Props []string `json:"properties"`
	Msg   string   `json:"message"`
}

// Outcome is what one execution produced.
type Outcome struct {
	Viols        []Viol
	Recorded     []simrt.Deviation
	Hash         uint64 // schedule
	LogHash      uint64 // observable events
	Log          []string
	Stats        map[string]int64
	SimNS        int64
	Steps        int64
	Switches     int
	Preempts     int
	Stalls       int
	Fired        int
	Inconclusive int
	Nontrivial   bool
	Races        int
}

// ctx collects what an execution does.
type ctx struct {
	plan  *Plan
	out   *Outcome
	trace bool
	race0 int
}

func newCtx(p *Plan, trace bool) *ctx {
	return &ctx{plan: p, trace: trace, out: &Outcome{Stats: map[string]int64{}, LogHash: 14695981039346656037}}
}

// viol records a violation. props is a list such as "C01 C03".
func (c *ctx) viol(class, props, format string, args ...any) {
	for _, v := range c.out.Viols {
		if v.Class == class && strings.Join(v.Props, " ") == props {
			return // one of each kind is enough
		}
	}
	c.out.Viols = append(c.out.Viols, Viol{class, strings.Fields(props), fmt.Sprintf(format, args...)})
}

// logf adds an observable event to the run's log.
func (c *ctx) logf(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	h := c.out.LogHash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	c.out.LogHash = h * 1099511628211
	if c.trace {
		c.out.Log = append(c.out.Log, s)
	}
}

func (c *ctx) stat(name string, n int64) { c.out.Stats[name] += n }

// newSim prepares the simulated process: package state as at process start.
func (c *ctx) newSim() *simrt.Sim {
	p := c.plan
	simrt.MapSalt = p.MapSalt
	simrt.ColdStart()
	c.race0 = simrt.RaceErrors()
	s := simrt.New(p.Seed, p.Policy, p.Devs, p.Replay, p.MaxSteps)
	if c.trace {
		s.SetTrace(func(m string) { c.out.Log = append(c.out.Log, "  ~ "+m) })
	}
	return s
}

// endSim gathers the measures of a finished simulation, and ends leftovers.
func (c *ctx) endSim(s *simrt.Sim) {
	o := c.out
	o.Races += simrt.RaceErrors() - c.race0
	s.Stop()
	o.Recorded = s.Recorded
	o.Hash = s.Hash
	o.SimNS += s.Now()
	o.Steps += s.Steps()
	o.Switches += s.Switches
	o.Preempts += s.Preempts
	o.Stalls += s.Stalls
	o.Fired += s.Fired
	c.stat("sched.preemptions", int64(s.Preempts))
	c.stat("sched.stalls", int64(s.Stalls))
	c.stat("timer.fired", int64(s.Fired))
}

// panics reports the panics of the simulation against the property under
// check: whatever the property promises, the call did not deliver it.
func (c *ctx) panics(s *simrt.Sim, also string) bool {
	for _, p := range s.Panics {
		props := also
		if !strings.Contains(also, c.plan.Prop) {
			props = c.plan.Prop + " " + also
		}
		st := p.Stack
		if i := strings.Index(st, "panic("); i >= 0 {
			st = st[i:]
		}
		if len(st) > 1500 {
			st = st[:1500]
		}
		c.viol("panic", props, "task %s panicked: %s\n%s", p.Task, p.Value, st)
	}
	return len(s.Panics) > 0
}

func readPlan(file string) (*Plan, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	r := &ReplayFile{}
	if err := json.Unmarshal(b, r); err != nil {
		return nil, err
	}
	if r.Plan == nil {
		return nil, fmt.Errorf("%s: no plan", file)
	}
	return r.Plan, nil
}

// ReplayFile is what a violation leaves behind.
type ReplayFile struct {
	Property  string   `json:"property"`
	VerifSeed uint64   `json:"verif_seed"`
	Tier      string   `json:"tier"`
	Run       int64    `json:"run"`
	RaceBuild bool     `json:"race_build"`
	Violation Viol     `json:"violation"`
	Minimised string   `json:"minimised"`
	Plan      *Plan    `json:"plan"`
	Log       []string `json:"log"`
}

// Execute runs a plan.
func Execute(p *Plan, trace bool) *Outcome {
	c := newCtx(p, trace)
	switch p.Scenario {
	case "collector":
		runCol(c)
	case "e2e":
		runE2E(c)
	case "encoder":
		runEnc(c)
	case "codec":
		runCodec(c)
	case "buffers":
		runBuf(c)
	case "exchange":
		runX(c)
	default:
		panic("unknown scenario " + p.Scenario)
	}
	c.out.Nontrivial = c.out.Nontrivial || c.out.Preempts > 0
	return c.out
}

// pick returns one of the arguments.
func pick[T any](r *simrt.RNG, xs ...T) T { return xs[r.Intn(len(xs))] }

// genPolicy draws a scheduling policy.
func genPolicy(r *simrt.RNG, stalls bool) simrt.Policy {
	p := simrt.Policy{}
	switch n := r.Intn(100); {
	case n < 8:
		p.Kind = simrt.Serial
	case n < 38:
		p.Kind = simrt.RandomWalk
		p.Mean = pick(r, 1, 2, 3, 5, 10, 30, 100)
	case n < 58:
		p.Kind = simrt.SyncPoints
		p.Switch = pick(r, 0.1, 0.3, 0.5, 0.9)
	case n < 78:
		p.Kind = simrt.PCT
		p.Depth = 1 + r.Intn(4)
		p.Est = pick(r, 100, 300, 1000, 3000)
	default:
		p.Kind = simrt.HotSites
		p.Switch = pick(r, 0.3, 0.6, 0.9)
		n := 1 + r.Intn(5)
		for i := 0; i < n; i++ {
			p.Sites = append(p.Sites, hotSite(r))
		}
	}
	if stalls {
		p.Tick = pick(r, 0, 0, 0.02, 0.1, 0.3)
	}
	return p
}
