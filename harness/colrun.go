package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	stdtime "time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"verif/simrt"
	"verif/simrt/probe"
)

var colEpoch = stdtime.Date(2021, 5, 1, 0, 0, 0, 0, stdtime.UTC)

// build makes the TPDU of a part. The time stamp carries the part's number.
func (p *ColPart) build(i int) tpdu.TPDU {
	t := tpdu.TPDU{
		Direction:  tpdu.Direction(p.Type & 1),
		FirstOctet: tpdu.FirstOctet(p.Type>>1) & 3,
		UD:         append(tpdu.UserData(nil), p.UD...),
		MR:         byte(i),
	}
	t.FirstOctet |= tpdu.FirstOctet(p.FO)
	t.PID, t.DCS = p.PID, tpdu.DCS(p.DCS)
	t.SCTS = tpdu.Timestamp{Time: colEpoch.Add(stdtime.Duration(i) * stdtime.Second)}
	a := tpdu.Address{TOA: p.TOA, Addr: p.Addr}
	x := tpdu.Address{TOA: 0x91, Addr: "777"}
	if p.Decoy == 1 {
		x = a
	} else if p.Decoy == 2 {
		x = tpdu.Address{TOA: 0x91, Addr: fmt.Sprint(9000 + i)}
	} else if p.Decoy == 3 {
		x = tpdu.Address{}
	}
	t.OA, t.DA, t.RA = x, x, x
	switch p.Type {
	case 0:
		t.OA = a
	case 3:
		t.DA = a
	default:
		t.OA, t.DA, t.RA = a, a, a
	}
	var udh tpdu.UserDataHeader
	add := func(ies []IE) {
		for _, e := range ies {
			udh = append(udh, tpdu.InformationElement{ID: e.ID, Data: append([]byte(nil), e.Data...)})
		}
	}
	add(p.Pre)
	switch {
	case p.Wild != nil:
		add(p.Wild)
	case p.Multi && p.Wide:
		add([]IE{{8, []byte{byte(p.Ref >> 8), byte(p.Ref), byte(p.Count), byte(p.Seq)}}})
	case p.Multi:
		add([]IE{{0, []byte{byte(p.Ref), byte(p.Count), byte(p.Seq)}}})
	}
	add(p.Post)
	if udh != nil {
		t.UDH = udh
		t.FirstOctet |= 0x40
	}
	return t
}

func sameTPDU(a, b *tpdu.TPDU) bool {
	if a.Direction != b.Direction || a.FirstOctet != b.FirstOctet || a.OA != b.OA ||
		a.DA != b.DA || a.RA != b.RA || a.FCS != b.FCS || a.MR != b.MR || a.CT != b.CT ||
		a.MN != b.MN || a.PI != b.PI || a.ST != b.ST || a.PID != b.PID || a.DCS != b.DCS {
		return false
	}
	if !a.SCTS.Equal(b.SCTS.Time) || !a.DT.Equal(b.DT.Time) {
		return false
	}
	_, az := a.SCTS.Zone()
	_, bz := b.SCTS.Zone()
	if az != bz || a.VP.Format != b.VP.Format || a.VP.Duration != b.VP.Duration || a.VP.EFI != b.VP.EFI || !a.VP.Time.Equal(b.VP.Time.Time) {
		return false
	}
	return sameUDH(a.UDH, b.UDH) && string(a.UD) == string(b.UD)
}

func sameUDH(a, b tpdu.UserDataHeader) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ID != b[i].ID || string(a[i].Data) != string(b[i].Data) {
			return false
		}
	}
	return true
}

const (
	idNil     = -1
	idUnknown = -2 // not a part anybody handed in
	idAltered = -3 // such a part, but changed
)

// colEv is one recorded operation, or one call of the expiry handler.
type colEv struct {
	kind       byte // c collect, p pipes, x close, e expiry
	task       int
	part       int
	inv, ret   int64 // event numbers; ret is 0 if it never returned
	invC, retC int64 // virtual clock
	res        byte  // collect: P pending S set D duplicate I inconsistency C closed E other error M malformed result
	err        string
	set        []int
	snap       [][]int
	raw        []*tpdu.TPDU
	rawSnap    [][]*tpdu.TPDU
	tail       bool
	mut        bool
}

type colRun struct {
	c          *ctx
	pl         *ColPlan
	col        *sms.Collector
	exp        []tpdu.TPDU // expected contents, by part
	in         []tpdu.TPDU // what is handed in
	evs        []*colEv
	n          int
	over       bool
	nexp       int
	tail       bool
	unst       string // first instability of a snapshot
	reuse      string // first instability of a returned set
	reuseProps string
	ticks      []simrt.TickEvent
}

func (r *colRun) ev(kind byte) *colEv {
	if r.n >= len(r.evs) {
		r.over = true
		return &colEv{kind: kind}
	}
	e := r.evs[r.n]
	r.n++
	e.kind = kind
	e.task = simrt.TaskID()
	e.tail = r.tail
	return e
}

func (r *colRun) ident(t *tpdu.TPDU) int {
	if t == nil {
		return idNil
	}
	i := int(t.SCTS.Sub(colEpoch) / stdtime.Second)
	if i < 0 || i >= len(r.exp) {
		return idUnknown
	}
	if !sameTPDU(t, &r.exp[i]) {
		return idAltered
	}
	return i
}

func (r *colRun) idents(set []*tpdu.TPDU) []int {
	n := probe.Ptrs(set)
	_ = n
	out := make([]int, len(set))
	for i := 0; i < len(set); i++ {
		out[i] = r.ident(set[i])
	}
	return out
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// op performs one operation in task context.
func (r *colRun) op(o *ColOp) {
	switch o.Kind {
	case "collect":
		r.collect(o)
	case "pipes":
		r.pipes(o)
	case "close":
		e := r.ev('x')
		e.inv, e.invC = simrt.Stamp()
		simrt.InLib("Close")
		r.col.Close()
		simrt.InLib("")
		e.ret, e.retC = simrt.Stamp()
	case "sleep":
		simrt.Nap(o.D)
	case "yield":
		simrt.Yield()
	case "block":
		simrt.Park()
	}
}

func (r *colRun) collect(o *ColOp) {
	e := r.ev('c')
	e.part = o.Part
	e.inv, e.invC = simrt.Stamp()
	simrt.InLib("Collect")
	set, err := r.col.Collect(r.in[o.Part])
	simrt.InLib("")
	e.ret, e.retC = simrt.Stamp()
	e.raw = set
	switch {
	case err != nil && set != nil:
		e.res = 'M'
	case err == nil && set == nil:
		e.res = 'P'
	case err == nil:
		e.res = 'S'
		e.set = r.idents(set)
	case errors.Is(err, sms.ErrDuplicateSegment):
		e.res = 'D'
	case errors.Is(err, sms.ErrReassemblyInconsistency):
		e.res = 'I'
	case errors.Is(err, sms.ErrClosed):
		e.res = 'C'
	default:
		e.res = 'E'
	}
	if err != nil {
		e.err = err.Error()
	}
}

func (r *colRun) pipes(o *ColOp) {
	e := r.ev('p')
	e.inv, e.invC = simrt.Stamp()
	simrt.InLib("Pipes")
	m := r.col.Pipes()
	simrt.InLib("")
	e.ret, e.retC = simrt.Stamp()
	r.readSnapshot(e, m)
	if o.D > 0 {
		simrt.Nap(o.D)
	} else {
		simrt.Yield()
	}
	r.rereadSnapshot(e, "after a while")
	if o.Mut != "" && !r.pl.NoMut {
		e.mut = true
		for _, s := range e.rawSnap {
			switch o.Mut {
			case "clear":
				probe.Clear(s)
			case "reverse":
				probe.Reverse(s)
			}
		}
		if o.Mut == "drop" {
			for _, k := range sortedKeys(m) {
				delete(m, k)
			}
		}
	}
}

func sortedKeys(m map[string][]*tpdu.TPDU) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

//go:noinline
func (r *colRun) readSnapshot(e *colEv, m map[string][]*tpdu.TPDU) {
	ks := sortedKeys(m)
	e.snap = make([][]int, 0, len(ks))
	e.rawSnap = make([][]*tpdu.TPDU, 0, len(ks))
	for _, k := range ks {
		e.rawSnap = append(e.rawSnap, m[k])
		e.snap = append(e.snap, r.idents(m[k]))
	}
}

//go:noinline
func (r *colRun) rereadSnapshot(e *colEv, when string) {
	if e.mut || r.unst != "" {
		return
	}
	for i, s := range e.rawSnap {
		now := r.idents(s)
		if !equalInts(now, e.snap[i]) {
			r.unst = fmt.Sprintf("snapshot entry taken at event %d held %s, and %s it holds %s", e.ret, r.names(e.snap[i]), when, r.names(now))
			return
		}
	}
}

func (r *colRun) names(set []int) string {
	var sb strings.Builder
	sb.WriteString("[")
	for i, p := range set {
		if i > 0 {
			sb.WriteString(" ")
		}
		switch p {
		case idNil:
			sb.WriteString("-")
		case idUnknown:
			sb.WriteString("?")
		case idAltered:
			sb.WriteString("altered!")
		default:
			fmt.Fprintf(&sb, "p%d", p)
		}
	}
	sb.WriteString("]")
	return sb.String()
}

func (r *colRun) handler(set []*tpdu.TPDU) {
	e := r.ev('e')
	e.inv, e.invC = simrt.Stamp()
	e.raw = set
	e.set = r.idents(set)
	e.ret, e.retC = e.inv, e.invC
	k := r.nexp
	r.nexp++
	if len(r.pl.HActs) > 0 && k < 64 {
		for _, o := range r.pl.HActs[k%len(r.pl.HActs)] {
			if o.Kind == "collect" && k >= len(r.pl.HActs) {
				continue // each re-entrant part once
			}
			o := o
			r.op(&o)
		}
	}
}

func (pl *ColPlan) maxEvents() int {
	n := 0
	for _, t := range pl.Tasks {
		n += len(t)
	}
	for _, h := range pl.HActs {
		n += len(h)
	}
	return 2*n + 64*(1+maxActs(pl)) + len(pl.Tail) + 8
}

func maxActs(pl *ColPlan) int {
	m := 0
	for _, h := range pl.HActs {
		if len(h) > m {
			m = len(h)
		}
	}
	return m
}

func runCol(c *ctx) {
	r := execCol(c)
	if r == nil {
		return
	}
	checkCol(r)
	// A violation in a run with hostile parts breaks C08 if it goes away
	// without them.
	if c.plan.Prop == "C08" && len(c.out.Viols) > 0 && match(c.out, "C08") == nil {
		if q := c.plan.withoutHostile(); q != nil {
			if c.cleanWithout(q, func(c2 *ctx) {
				if r2 := execCol(c2); r2 != nil {
					checkCol(r2)
				}
			}) {
				v := c.out.Viols[0]
				c.viol("hostile-disturbs", "C08", "without the damaged and hostile parts this does not happen: %s", v.Msg)
			}
		}
	}
	// A violation in a run that modified snapshots breaks C07 only if it goes
	// away without the modification.
	if c.plan.Prop == "C07" && !r.pl.NoMut && len(c.out.Viols) > 0 && r.mutated() {
		q := c.plan.clone()
		q.Col.NoMut = true
		if c.cleanWithout(q, func(c2 *ctx) {
			if r2 := execCol(c2); r2 != nil {
				checkCol(r2)
			}
		}) {
			v := c.out.Viols[0]
			c.viol("snapshot-mutation", "C07", "clearing or rearranging the entries of a snapshot changed what the collector does: %s", v.Msg)
		}
	}
}

// cleanWithout tells whether a run's violation goes away with what the plan q
// leaves out: q shows none, neither in the run's schedule nor in others (which
// do not depend on whether the run is a replay).
func (c *ctx) cleanWithout(q *Plan, exec func(*ctx)) bool {
	for k := 0; k < 8; k++ {
		q := q.clone()
		switch k {
		case 0:
			q.Replay, q.Devs = true, c.plan.Devs
			if !c.plan.Replay {
				q.Devs = c.out.Recorded
			}
		case 1:
			q.Replay, q.Devs = false, nil
			q.Policy = simrt.Policy{Kind: simrt.Serial}
		default:
			q.Replay, q.Devs = false, nil
			q.Seed = simrt.Mix(q.Seed, uint64(k))
			q.Policy = simrt.Policy{Kind: simrt.RandomWalk, Mean: []int{1, 3, 10, 30, 100, 300}[k-2]}
		}
		c2 := newCtx(q, false)
		exec(c2)
		if len(c2.out.Viols) > 0 {
			return false
		}
	}
	return true
}

// withoutHostile is the plan without its damaged and hostile parts.
func (p *Plan) withoutHostile() *Plan {
	q := p.clone()
	n := 0
	for _, ops := range append(append([][]ColOp(nil), q.Col.Tasks...), q.Col.HActs...) {
		for i := range ops {
			o := &ops[i]
			if o.Kind != "collect" {
				continue
			}
			if c := q.Col.Parts[o.Part].cat(); c == catSeq || c == catType || c == catWild || c == catPass && q.Col.Parts[o.Part].Multi {
				o.Kind = "yield"
				n++
			}
		}
	}
	if n == 0 {
		return nil
	}
	return q
}

func (r *colRun) mutated() bool {
	for _, e := range r.evs[:r.n] {
		if e.mut {
			return true
		}
	}
	return false
}

// horizon bounds how long after the last operation anything may be left to
// do.
func (pl *ColPlan) horizon() int64 {
	h := int64(3600e9)
	add := func(d int64) {
		if d > 1<<63-1-h {
			h = 1<<63 - 1
		} else if d > 0 {
			h += d
		}
	}
	add(pl.D)
	add(pl.D)
	return h
}

// execCol runs the simulation; nil if it broke down (already reported).
func execCol(c *ctx) *colRun {
	pl := c.plan.Col
	r := &colRun{c: c, pl: pl}
	n := pl.maxEvents()
	evs := make([]colEv, n)
	r.evs = make([]*colEv, n)
	for i := range evs {
		r.evs[i] = &evs[i]
	}
	s := c.newSim()
	for i := range pl.Parts {
		r.exp = append(r.exp, pl.Parts[i].build(i))
		r.in = append(r.in, pl.Parts[i].build(i))
	}
	var opts []sms.CollectorOption
	if pl.Opt {
		var h func([]*tpdu.TPDU)
		if pl.Handler {
			h = r.handler
		}
		opts = append(opts, sms.WithReassemblyTimeout(stdtime.Duration(pl.D), h))
	}
	s.Spawn("setup", func() { r.col = sms.NewCollector(opts...) })
	s.Run()
	if s.Hang || r.col == nil {
		c.panics(s, "C08")
		c.viol("hang", "C06 C08", "NewCollector does not return")
		c.endSim(s)
		return nil
	}
	s.Horizon = pl.horizon()
	for i, ops := range pl.Tasks {
		ops := ops
		s.Spawn(fmt.Sprintf("client%d", i), func() {
			for k := range ops {
				r.op(&ops[k])
			}
		})
	}
	s.Run()
	also := "C08"
	stuck := func() bool {
		bad := c.panics(s, also)
		if s.Hang {
			c.viol("hang", "C06 C08", "no end after %d scheduling steps", c.plan.MaxSteps)
			bad = true
		}
		lib, _ := s.Unfinished()
		if len(lib) > 0 && !bad {
			props := "C04 C06"
			for _, e := range r.evs[:r.n] {
				if e.kind == 'x' {
					props = "C04 C05 C06"
				}
			}
			c.viol("stuck", props, "after callers stopped and time advanced, calls have not returned: %s", strings.Join(lib, "; "))
			bad = true
		}
		return bad
	}
	bad := stuck()
	if !bad {
		// everything has come to rest: look, and do what comes last
		s.Spawn("final", func() {
			r.pipes(&ColOp{})
			r.tail = true
			for k := range pl.Tail {
				r.op(&pl.Tail[k])
			}
		})
		s.Run()
		bad = stuck()
	}
	if !bad {
		s.Spawn("last", func() {
			if len(pl.Tail) > 0 {
				r.pipes(&ColOp{})
			}
			for _, e := range r.evs[:r.n] {
				if e.kind == 'p' {
					r.rereadSnapshot(e, "in the end")
				}
				if e.kind == 'c' && e.res == 'S' && r.reuse == "" {
					if now := r.idents(e.raw); !equalInts(now, e.set) {
						r.reuseProps = "C01 C02"
						r.reuse = fmt.Sprintf("the set returned at event %d was %s and has become %s", e.ret, r.names(e.set), r.names(now))
					}
				}
				if e.kind == 'e' && r.reuse == "" {
					if now := r.idents(e.raw); !equalInts(now, e.set) {
						r.reuseProps = "C02 C03"
						r.reuse = fmt.Sprintf("the set expired at event %d was %s and has become %s", e.ret, r.names(e.set), r.names(now))
					}
				}
			}
		})
		s.Run()
		bad = stuck()
	}
	r.ticks = s.Ticks
	for i := range r.in {
		if !sameTPDU(&r.in[i], &r.exp[i]) {
			c.viol("input-altered", "C14", "Collect changed the TPDU handed in: part %d", i)
		}
	}
	r.record()
	c.endSim(s)
	if r.over {
		c.viol("runaway", "C03 C06", "more than %d events: the handler is called over and over", len(r.evs))
		return nil
	}
	if bad {
		return nil
	}
	return r
}

// record writes the history to the log and counts what happened.
func (r *colRun) record() {
	c := r.c
	for i := range r.pl.Parts {
		p := &r.pl.Parts[i]
		if c.trace {
			c.logf("p%d: %s, part %d, category %d", i, p.ident(), p.Seq, p.cat())
		}
	}
	for _, e := range r.evs[:r.n] {
		switch e.kind {
		case 'c':
			c.logf("[%d,%d] t=%d..%d task %d Collect(p%d) = %c %s %s", e.inv, e.ret, e.invC, e.retC, e.task, e.part, e.res, r.names(e.set), e.err)
			c.stat("op.collect."+string(rune(e.res)), 1)
			if e.res == 'S' && r.pl.Parts[e.part].cat() == catOK {
				c.stat("msg.completed", 1)
			}
			switch r.pl.Parts[e.part].cat() {
			case catSeq:
				c.stat("fault.bad_sequence", 1)
			case catType:
				c.stat("fault.unsupported_type", 1)
			case catWild:
				c.stat("fault.contradictory_header", 1)
			}
			if e.res == 'D' {
				c.stat("fault.duplicate_delivered", 1)
			}
		case 'e':
			c.logf("[%d] t=%d task %d expired %s", e.inv, e.invC, e.task, r.names(e.set))
			c.stat("msg.expired", 1)
		case 'p':
			var sb strings.Builder
			for _, s := range e.snap {
				sb.WriteString(r.names(s))
			}
			c.logf("[%d,%d] t=%d..%d task %d Pipes() = %s", e.inv, e.ret, e.invC, e.retC, e.task, sb.String())
			c.stat("op.pipes", 1)
			if e.mut {
				c.stat("fault.snapshot_modified", 1)
			}
		case 'x':
			c.logf("[%d,%d] t=%d..%d task %d Close()", e.inv, e.ret, e.invC, e.retC, e.task)
			c.stat("fault.close", 1)
		}
	}
	for _, h := range r.pl.HActs {
		if r.nexp == 0 {
			break
		}
		for _, o := range h {
			c.stat("fault.handler_"+o.Kind, 1)
		}
	}
	if r.nexp > 0 {
		c.out.Nontrivial = true
	}
}
