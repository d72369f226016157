package main

import (
	"fmt"
	"math"
	"strings"
)

const never = math.MaxInt64

// occ is one acceptance of a part, and where the part went.
type occ struct {
	e            *colEv
	part         int
	dest         *colEv // completion, expiry or final snapshot
	remLo, remHi int64  // earliest and latest event at which it left the pending state
}

// member is what is known about a part found in a set.
type member struct{ inv, ret, invC, retC int64 }

type colCheck struct {
	*colRun
	closeInv, closeRet   int64 // events of the first Close, never if none
	closeInvC, closeRetC int64
	first, last          *colEv // snapshots taken at rest
	timed                bool   // expiries happen
	silent               bool   // ... and cannot be seen
	extra                string
	acc                  []accInfo
}

// seqAt is the event at which the clock first reached c.
func (k *colCheck) seqAt(c int64) int64 {
	for _, t := range k.ticks {
		if t.Clock >= c {
			return t.Seq
		}
	}
	return never
}

// settled is an event by which everything due at clock c has happened.
func (k *colCheck) settled(c int64) int64 {
	at := k.seqAt(c)
	if at == never {
		return never
	}
	for _, t := range k.ticks {
		if t.Seq > at && t.Idle {
			return t.Seq
		}
	}
	if k.first != nil && at < k.first.inv {
		return k.first.inv
	}
	return never
}

func (k *colCheck) cat(i int) int { return k.pl.Parts[i].cat() }

// isWild tells whether a set consists of contradictory TPDUs only (about which
// nothing is promised).
func (k *colCheck) isWild(set []int) bool {
	n := 0
	for _, p := range set {
		if p == idNil {
			continue
		}
		if p < 0 || k.cat(p) != catWild {
			return false
		}
		n++
	}
	return n > 0
}

// shape checks a set of parts of one message. It returns what is wrong and
// the properties that breaks.
func (k *colCheck) shape(set []int, full bool, props string) (string, string) {
	first := -1
	for _, p := range set {
		if p == idUnknown || p == idAltered {
			return "holds a TPDU that was never handed in like that: " + k.names(set), props
		}
		if p >= 0 {
			switch k.cat(p) {
			case catSeq, catType:
				return fmt.Sprintf("holds p%d, which was to be refused: %s", p, k.names(set)), props + " C02 C08"
			case catWild:
				return fmt.Sprintf("holds p%d, whose header is contradictory, with others: %s", p, k.names(set)), props + " C08"
			case catPass:
				return fmt.Sprintf("holds p%d, which is not part of a longer message: %s", p, k.names(set)), props
			}
			if first < 0 {
				first = p
			}
		}
	}
	if first < 0 {
		return "holds no part at all: " + k.names(set), props
	}
	f := &k.pl.Parts[first]
	for i, p := range set {
		if p < 0 {
			continue
		}
		q := &k.pl.Parts[p]
		if q.ident() != f.ident() {
			return fmt.Sprintf("mixes messages: p%d (%s) and p%d (%s)", first, f.ident(), p, q.ident()), props
		}
		if q.Seq != i+1 {
			return fmt.Sprintf("has part %d of the message at position %d: %s", q.Seq, i+1, k.names(set)), props
		}
	}
	if len(set) != f.Count {
		return fmt.Sprintf("has %d positions for a message of %d parts: %s", len(set), f.Count, k.names(set)), props
	}
	missing := 0
	for _, p := range set {
		if p == idNil {
			missing++
		}
	}
	if full && missing > 0 {
		return "is incomplete: " + k.names(set), props
	}
	if !full && missing == 0 {
		return "is complete: " + k.names(set), props + " C01"
	}
	return "", ""
}

func checkCol(r *colRun) {
	k := &colCheck{colRun: r, closeInv: never, closeRet: never}
	c := r.c
	evs := r.evs[:r.n]
	if r.unst != "" {
		c.viol("snapshot-unstable", "C07", "%s", r.unst)
	}
	if r.reuse != "" {
		c.viol("set-unstable", r.reuseProps, "%s", r.reuse)
	}
	for _, e := range evs {
		if e.kind == 'x' {
			if e.inv < k.closeInv {
				k.closeInv, k.closeInvC = e.inv, e.invC
			}
			if e.ret < k.closeRet {
				k.closeRet, k.closeRetC = e.ret, e.retC
			}
		}
	}
	// the snapshots at rest: the first is taken when everything has stopped
	for i, e := range evs {
		if e.kind == 'p' && (i+1 == len(evs) || evs[i+1].tail) && !e.tail {
			k.first = e
		}
		if e.kind == 'p' {
			k.last = e
		}
	}
	k.timed = r.pl.Opt && r.pl.D > 0
	k.silent = k.timed && !r.pl.Handler
	for _, o := range r.pl.HActs {
		for _, a := range o {
			if a.Kind != "pipes" {
				k.extra = " C06"
			}
		}
	}
	k.acceptances(evs)
	bad := k.results(evs)
	occs, bad2 := k.conserve(evs)
	if !bad && !bad2 {
		k.holds(evs, occs)
	}
	k.expiries(evs)
	k.snapshots(evs, occs)
	k.linearize(evs)
}

// results checks each call's own result.
func (k *colCheck) results(evs []*colEv) (bad bool) {
	c := k.c
	for _, e := range evs {
		if e.kind != 'c' {
			continue
		}
		p := &k.pl.Parts[e.part]
		what := fmt.Sprintf("Collect(p%d: %s, part %d) at event %d", e.part, p.ident(), p.Seq, e.inv)
		n0 := len(c.out.Viols)
		if e.inv > k.closeRet {
			if e.res != 'C' {
				c.viol("accepted-after-close", "C05", "%s, after Close had returned at event %d, gave %c %s %s", what, k.closeRet, e.res, k.names(e.set), e.err)
			}
			bad = bad || len(c.out.Viols) > n0
			continue
		}
		if e.res == 'C' {
			if e.ret < k.closeInv {
				c.viol("closed-while-open", "C02 C05", "%s failed as closed, but nobody had called Close", what)
			}
			bad = bad || len(c.out.Viols) > n0
			continue
		}
		switch p.cat() {
		case catWild:
			if e.res == 'S' && !k.isWild(e.set) {
				c.viol("wild-result", "C08", "%s: a TPDU with a contradictory header was returned with others: %s", what, k.names(e.set))
			}
		case catPass:
			if e.res != 'S' || len(e.set) != 1 || e.set[0] != e.part {
				c.viol("single", "C01", "%s: not one of several parts, but was not handed straight back alone and unaltered: %c %s %s", what, e.res, k.names(e.set), e.err)
			}
		case catSeq:
			if e.res == 'P' || e.res == 'S' || e.res == 'M' {
				c.viol("bad-sequence-accepted", "C02 C08", "%s: sequence number outside 1..count was not refused: %c %s", what, e.res, k.names(e.set))
			}
		case catType:
			if e.res == 'P' || e.res == 'S' || e.res == 'M' {
				c.viol("unsupported-accepted", "C02 C08", "%s: a part of an unsupported SMS type was not refused: %c %s", what, e.res, k.names(e.set))
			}
		case catOK:
			switch e.res {
			case 'I', 'E', 'M':
				c.viol("wrongly-refused", "C02", "%s: a well-formed part was refused: %s", what, e.err)
			case 'S':
				if w, ps := k.shape(e.set, true, "C01"); w != "" {
					c.viol("completed-set", ps, "%s: the set handed back %s", what, w)
				} else if e.set[p.Seq-1] != e.part {
					c.viol("completed-without-own", "C01", "%s: the set handed back %s does not hold the part that completed it", what, k.names(e.set))
				}
			}
		}
		bad = bad || len(c.out.Viols) > n0
	}
	return
}

// conserve matches acceptances with where the parts went.
func (k *colCheck) conserve(evs []*colEv) (occs []*occ, bad bool) {
	c := k.c
	byPart := map[int][]*occ{}
	dests := map[int][]*colEv{}
	var order []int
	for _, e := range evs {
		switch {
		case e.kind == 'c' && (e.res == 'P' || e.res == 'S') && k.cat(e.part) == catOK:
			o := &occ{e: e, part: e.part}
			if byPart[e.part] == nil {
				order = append(order, e.part)
			}
			byPart[e.part] = append(byPart[e.part], o)
			occs = append(occs, o)
		}
		if e.kind == 'c' && e.res == 'S' && k.cat(e.part) == catOK || e.kind == 'e' {
			for _, p := range e.set {
				if p >= 0 {
					dests[p] = append(dests[p], e)
				}
			}
		}
	}
	pendingIn := func(s *colEv) map[int]int {
		m := map[int]int{}
		if s != nil {
			for _, set := range s.snap {
				for _, p := range set {
					if p >= 0 {
						m[p]++
					}
				}
			}
		}
		return m
	}
	rest := pendingIn(k.last)
	// in events order, what was handed in to nobody's knowledge
	for p := range k.pl.Parts {
		n, m := len(byPart[p]), len(dests[p])+rest[p]
		if k.cat(p) == catWild || k.cat(p) == catPass {
			continue
		}
		where := func() string {
			var sb strings.Builder
			for _, d := range dests[p] {
				if d.kind == 'e' {
					fmt.Fprintf(&sb, " expired at %d;", d.inv)
				} else {
					fmt.Fprintf(&sb, " completed by p%d at %d;", d.part, d.inv)
				}
			}
			if rest[p] > 0 {
				sb.WriteString(" pending in the end;")
			}
			return sb.String()
		}
		switch {
		case m > n:
			props := "C02"
			for _, d := range dests[p] {
				if d.kind == 'e' && n > 0 {
					props = "C02 C03"
				}
			}
			if k.cat(p) == catType || k.cat(p) == catSeq {
				props += " C08"
			}
			c.viol("part-in-too-many-places", props, "p%d was accepted %d times but is found in %d places:%s", p, n, m, where())
			bad = true
		case m < n && !k.silent:
			props := "C02"
			if k.timed && k.closeInv == never {
				props = "C02 C03"
			}
			if k.closeInv != never {
				props = "C02 C05"
			}
			c.viol("part-lost", props+k.extra, "p%d was accepted %d times but is found in %d places:%s", p, n, m, where())
			bad = true
		}
	}
	if k.first != nil && k.timed && k.closeInv > k.first.inv {
		for _, set := range k.first.snap {
			if !k.isWild(set) {
				c.viol("never-expired", "C03"+k.extra, "all timers have run, and %s is still pending", k.names(set))
			}
		}
	}
	// match
	for p, os := range byPart {
		ds := append([]*colEv(nil), dests[p]...)
		if rest[p] > 0 {
			ds = append(ds, k.last)
		}
		if len(os) > 1 {
			clean := len(ds) == len(os)
			for i := 1; clean && i < len(os); i++ {
				// (a departure may come to light late)
				clean = clean && os[i-1].e.ret < os[i].e.inv && ds[i-1].kind != 'p' && ds[i-1].ret < os[i].e.inv
			}
			if !clean {
				// cannot tell which went where: know nothing
				for _, o := range os {
					o.remLo, o.remHi = o.e.inv, never
				}
				continue
			}
		}
		for i, o := range os {
			if i < len(ds) {
				o.dest = ds[i]
			}
		}
	}
	byEvent := map[*colEv][]*occ{}
	for _, o := range occs {
		if o.dest != nil {
			byEvent[o.dest] = append(byEvent[o.dest], o)
		}
	}
	for _, o := range occs {
		switch {
		case o.remHi != 0: // unknown
		case o.dest == nil: // silently expired
			// Which other parts shared its reassembly is unknown; they can only
			// have put the deadline off.
			o.remLo, o.remHi = k.seqAt(o.e.invC+k.pl.D), never
			if k.closeRet != never && o.e.invC+k.pl.D > k.closeRetC && !bad {
				c.viol("dropped-by-close", "C05", "p%d was pending when Close was called, and was neither expired nor kept", o.part)
			}
		case o.dest.kind == 'p':
			o.remLo, o.remHi = never, never
		case o.dest.kind == 'c':
			o.remLo, o.remHi = o.dest.inv, o.dest.ret
		case o.dest.kind == 'e':
			lo := int64(0)
			for _, x := range byEvent[o.dest] {
				if x.e.invC > lo {
					lo = x.e.invC
				}
			}
			o.remLo, o.remHi = k.seqAt(lo+k.pl.D), o.dest.inv
		}
	}
	return
}

// holds checks that duplicates, and only duplicates, are refused.
func (k *colCheck) holds(evs []*colEv, occs []*occ) {
	c := k.c
	type pos struct {
		id  string
		seq int
	}
	at := map[pos][]*occ{}
	for _, o := range occs {
		p := &k.pl.Parts[o.part]
		at[pos{p.ident(), p.Seq}] = append(at[pos{p.ident(), p.Seq}], o)
	}
	for _, e := range evs {
		if e.kind != 'c' || k.cat(e.part) != catOK {
			continue
		}
		p := &k.pl.Parts[e.part]
		os := at[pos{p.ident(), p.Seq}]
		switch e.res {
		case 'D':
			ok := false
			for _, o := range os {
				if o.e.inv < e.ret && o.remHi > e.inv {
					ok = true
				}
			}
			if !ok {
				c.viol("false-duplicate", "C02", "Collect(p%d: %s, part %d) at event %d was refused as a duplicate, but its position cannot have been held", e.part, p.ident(), p.Seq, e.inv)
			}
		case 'P', 'S':
			for _, o := range os {
				if o.e != e && o.e.ret < e.inv && e.ret < o.remLo {
					c.viol("duplicate-accepted", "C01 C02", "Collect(p%d: %s, part %d) at event %d was accepted, but its position was held by p%d", e.part, p.ident(), p.Seq, e.inv, o.part)
				}
			}
		}
	}
}

// accInfo sums up the acceptances of one part.
type accInfo struct {
	n                int
	minInvC, maxRetC int64
	e                *colEv
}

func (k *colCheck) acceptances(evs []*colEv) {
	k.acc = make([]accInfo, len(k.pl.Parts))
	for _, e := range evs {
		if e.kind == 'c' && (e.res == 'P' || e.res == 'S') {
			a := &k.acc[e.part]
			if a.n == 0 || e.invC < a.minInvC {
				a.minInvC = e.invC
			}
			if e.retC > a.maxRetC {
				a.maxRetC = e.retC
			}
			a.n++
			a.e = e
		}
	}
}

// bounds returns what is known about when a set's parts were accepted: the
// latest acceptance lies between lo and hi on the clock.
func (k *colCheck) bounds(set []int) (lo, hi int64, ok bool) {
	for _, p := range set {
		if p < 0 {
			continue
		}
		a := &k.acc[p]
		if a.n == 0 {
			return 0, 0, false
		}
		if a.minInvC > lo {
			lo = a.minInvC
		}
		if a.maxRetC > hi {
			hi = a.maxRetC
		}
	}
	return lo, hi, true
}

// expiries checks the calls of the expiry handler.
func (k *colCheck) expiries(evs []*colEv) {
	c := k.c
	for _, e := range evs {
		joined := e.kind == 'e' || e.kind == 'c' && e.res == 'S' && k.cat(e.part) == catOK
		if !joined || k.isWild(e.set) {
			continue
		}
		if e.kind == 'e' {
			if !k.timed {
				c.viol("expired-without-timeout", "C03", "no timeout is set, but %s expired", k.names(e.set))
				continue
			}
			if w, ps := k.shape(e.set, false, "C03"); w != "" {
				c.viol("expired-set", ps, "the set handed to the expiry handler at event %d %s", e.inv, w)
				continue
			}
			lo, hi, ok := k.bounds(e.set)
			if !ok {
				c.viol("expired-unaccepted", "C02 C03", "the set %s handed to the expiry handler at event %d holds parts that had not been accepted", k.names(e.set), e.inv)
				continue
			}
			if e.invC < lo+k.pl.D {
				c.viol("expired-early", "C03", "the set %s was handed to the expiry handler at t=%d, before its deadline %d (timeout %d after its latest part)", k.names(e.set), e.invC, lo+k.pl.D, k.pl.D)
			}
			if s := k.settled(hi + k.pl.D); e.inv > s {
				c.viol("expired-late", "C03"+k.extra, "the set %s was due at t=%d at the latest, but was not handed to the expiry handler before the clock moved on: it was at t=%d", k.names(e.set), hi+k.pl.D, e.invC)
			}
			if k.closeRet != never && lo+k.pl.D > k.closeRetC {
				c.viol("expired-after-close", "C05", "the set %s, due at t=%d, was handed to the expiry handler although Close had returned at t=%d", k.names(e.set), lo+k.pl.D, k.closeRetC)
			}
		}
		if !k.timed {
			continue
		}
		// no part may have joined a reassembly after its deadline
		for _, q := range e.set {
			if q < 0 || k.acc[q].n != 1 {
				continue
			}
			qe := k.acc[q].e
			hi, others := int64(-1), 0
			for _, o := range e.set {
				if o < 0 || o == q {
					continue
				}
				if k.acc[o].n != 1 {
					hi = never
					break
				}
				oe := k.acc[o].e
				if oe.inv > qe.ret {
					continue // came later
				}
				others++
				if oe.retC > hi {
					hi = oe.retC
				}
			}
			if others > 0 && hi != never && qe.invC > hi+k.pl.D {
				c.viol("joined-after-deadline", "C03", "p%d, handed in at t=%d, joined a reassembly %s whose deadline was t=%d at the latest", q, qe.invC, k.names(e.set), hi+k.pl.D)
			}
		}
	}
	// what should have expired before Close
	if k.timed && k.closeInv != never && k.last != nil {
		for _, set := range k.last.snap {
			if k.isWild(set) {
				continue
			}
			_, hi, ok := k.bounds(set)
			if ok && k.settled(hi+k.pl.D) < k.closeInv {
				c.viol("never-expired", "C03"+k.extra, "%s was due at t=%d at the latest, long before Close, and never expired", k.names(set), hi+k.pl.D)
			}
		}
	}
}

// snapshots checks what Pipes returned.
func (k *colCheck) snapshots(evs []*colEv, occs []*occ) {
	c := k.c
	for _, e := range evs {
		if e.kind != 'p' {
			continue
		}
		seen := map[string]bool{}
		in := map[int]bool{}
		badShape := false
		for _, set := range e.snap {
			if k.isWild(set) {
				continue
			}
			if w, ps := k.shape(set, false, "C07"); w != "" {
				c.viol("snapshot-entry", ps, "an entry of the snapshot taken at event %d %s", e.inv, w)
				badShape = true
				continue
			}
			for _, p := range set {
				if p < 0 {
					continue
				}
				in[p] = true
				if id := k.pl.Parts[p].ident(); seen[id] {
					c.viol("snapshot-twice", "C07", "the snapshot taken at event %d has two entries for %s", e.inv, id)
					badShape = true
				}
			}
			for _, p := range set {
				if p >= 0 {
					seen[k.pl.Parts[p].ident()] = true
				}
			}
		}
		if badShape {
			continue
		}
		for p := range in {
			ok := false
			for _, o := range occs {
				if o.part == p && o.e.inv < e.ret && o.remHi > e.inv {
					ok = true
				}
			}
			if !ok {
				c.viol("snapshot-stale", "C07", "the snapshot taken at event %d holds p%d, which was not pending", e.inv, p)
			}
		}
		for _, o := range occs {
			if o.e.ret < e.inv && o.remLo > e.ret && o.remHi > e.ret && !in[o.part] && !(k.silent && o.dest == nil) {
				c.viol("snapshot-incomplete", "C07", "the snapshot taken at event %d lacks p%d, which was pending", e.inv, o.part)
			}
		}
	}
}
