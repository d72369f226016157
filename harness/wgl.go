package main

import (
	"fmt"
	"sort"
)

// linOp is an operation of the history to linearise.
type linOp struct {
	e        *colEv
	inv, ret int64
}

// colState is the one-at-a-time collector: the held parts per identity.
type colState struct {
	pend   [][]int // by identity; nil: none pending
	closed bool
}

func (s *colState) key() string {
	b := make([]byte, 0, 64)
	if s.closed {
		b = append(b, 'x')
	}
	for i, p := range s.pend {
		if p == nil {
			continue
		}
		b = append(b, byte(i), byte(i>>8), '(')
		for _, v := range p {
			b = append(b, byte(v), byte(v>>8))
		}
		b = append(b, ')')
	}
	return string(b)
}

type linearizer struct {
	k     *colCheck
	ops   []linOp
	idx   map[string]int
	st    colState
	memo  map[string]bool
	nodes int
	cap   int
	lo    int
	bits  uint64 // linearised ops among lo..lo+63
}

const nodeCap = 150000

// linearize searches for an order of the operations, compatible with real
// time, in which a one-at-a-time collector gives the recorded results.
func (k *colCheck) linearize(evs []*colEv) {
	all, ok := k.search(evs, nil)
	if ok == linUnknown {
		k.c.out.Inconclusive++
		return
	}
	k.c.stat("lin.checked", 1)
	if ok == linYes {
		return
	}
	props := "C04 C02"
	why := "even without the Pipes calls"
	if _, o := k.search(evs, func(e *colEv) bool { return e.kind != 'p' }); o != linNo {
		props, why = "C04 C07", "without the Pipes calls there is one"
	} else if k.closeInv != never {
		_, o := k.search(evs, func(e *colEv) bool {
			return e.kind != 'x' && !(e.kind == 'c' && e.res == 'C') && !(e.kind == 'p' && e.inv > k.closeInv)
		})
		if o == linYes {
			props, why = "C04 C05", "without the Close calls there is one"
		}
	}
	k.c.viol("not-linearizable", props, "no order of the %d operations, consistent with real time, explains the results with a one-at-a-time collector (%s)", all, why)
}

const (
	linNo = iota
	linYes
	linUnknown
)

func (k *colCheck) search(evs []*colEv, keep func(*colEv) bool) (int, int) {
	l := &linearizer{k: k, idx: map[string]int{}, memo: map[string]bool{}}
	for _, e := range evs {
		if keep != nil && !keep(e) {
			continue
		}
		o := linOp{e, e.inv, e.ret}
		switch e.kind {
		case 'c':
			if k.cat(e.part) == catWild {
				continue
			}
		case 'e':
			if k.isWild(e.set) {
				continue
			}
			lo, _, ok := k.bounds(e.set)
			if !ok {
				continue // reported already
			}
			o.inv = k.seqAt(lo + k.pl.D)
			if o.inv >= e.inv {
				o.inv = e.inv // early: reported already
			}
			o.ret = e.inv
		}
		l.ops = append(l.ops, o)
	}
	sort.SliceStable(l.ops, func(i, j int) bool { return l.ops[i].inv < l.ops[j].inv })
	for i := range k.pl.Parts {
		p := &k.pl.Parts[i]
		if p.cat() == catOK {
			if _, ok := l.idx[p.ident()]; !ok {
				l.idx[p.ident()] = len(l.idx)
			}
		}
	}
	l.st.pend = make([][]int, len(l.idx))
	l.cap = nodeCap
	ok := l.dfs()
	if l.nodes >= l.cap {
		return len(l.ops), linUnknown
	}
	if ok {
		return len(l.ops), linYes
	}
	return len(l.ops), linNo
}

func (l *linearizer) dfs() bool {
	for l.bits&1 != 0 {
		l.bits >>= 1
		l.lo++
	}
	if l.lo >= len(l.ops) {
		return true
	}
	l.nodes++
	if l.nodes >= l.cap {
		return true
	}
	key := fmt.Sprintf("%d/%x/", l.lo, l.bits) + l.st.key()
	if l.memo[key] {
		return false
	}
	minRet := int64(never)
	for i := l.lo; i < len(l.ops) && l.ops[i].inv < minRet; i++ {
		if i-l.lo < 64 && l.bits>>(uint(i-l.lo))&1 == 1 {
			continue
		}
		if l.ops[i].ret < minRet {
			minRet = l.ops[i].ret
		}
	}
	lo, bits := l.lo, l.bits
	for i := lo; i < len(l.ops) && l.ops[i].inv <= minRet; i++ {
		if i-lo >= 64 {
			l.nodes = l.cap // too wide a window
			return true
		}
		if bits>>(uint(i-lo))&1 == 1 {
			continue
		}
		undos := l.apply(&l.ops[i])
		for _, try := range undos {
			undo := try()
			if undo == nil {
				continue
			}
			l.lo, l.bits = lo, bits|1<<uint(i-lo)
			if l.dfs() {
				return true
			}
			undo()
			l.lo, l.bits = lo, bits
		}
	}
	l.memo[key] = true
	return false
}

// apply returns the ways the operation can take effect in the current state;
// each changes the state and returns how to undo it, or nil if impossible.
func (l *linearizer) apply(o *linOp) []func() func() {
	k := l.k
	e := o.e
	nop := func() {}
	one := func(f func() func()) []func() func() { return []func() func(){f} }
	switch e.kind {
	case 'x':
		return one(func() func() {
			was := l.st.closed
			l.st.closed = true
			return func() { l.st.closed = was }
		})
	case 'p':
		// with silent expiries, whatever is due may have gone
		return one(func() func() {
			want := map[int][]int{}
			n := 0
			for _, set := range e.snap {
				if k.isWild(set) {
					continue
				}
				n++
				for _, p := range set {
					if p >= 0 {
						if i, ok := l.idx[k.pl.Parts[p].ident()]; ok {
							want[i] = set
						}
						break
					}
				}
			}
			if len(want) != n {
				return nil
			}
			var dropped []int
			old := make([][]int, len(l.st.pend))
			copy(old, l.st.pend)
			for i, p := range l.st.pend {
				w, ok := want[i]
				if p == nil {
					if ok {
						copy(l.st.pend, old)
						return nil
					}
					continue
				}
				if !ok {
					if !l.mayExpire(p, e.retC) {
						copy(l.st.pend, old)
						return nil
					}
					l.st.pend[i] = nil
					dropped = append(dropped, i)
					continue
				}
				if !equalInts(p, w) {
					copy(l.st.pend, old)
					return nil
				}
			}
			return func() { copy(l.st.pend, old) }
		})
	case 'e':
		return one(func() func() {
			for i, p := range l.st.pend {
				if p != nil && equalInts(p, e.set) {
					l.st.pend[i] = nil
					return func() { l.st.pend[i] = p }
				}
			}
			return nil
		})
	}
	// Collect
	if e.res == 'C' {
		return one(func() func() {
			if l.st.closed {
				return nop
			}
			return nil
		})
	}
	part := &k.pl.Parts[e.part]
	if part.cat() != catOK {
		return one(func() func() { // results have been checked by themselves
			if l.st.closed {
				return nil
			}
			return nop
		})
	}
	id := l.idx[part.ident()]
	step := func(expired bool) func() func() {
		return func() func() {
			if l.st.closed {
				return nil
			}
			old := l.st.pend[id]
			cur := old
			if expired {
				if cur == nil || !l.mayExpire(cur, e.retC) {
					return nil
				}
				cur = nil
			}
			if cur != nil && cur[part.Seq-1] != idNil {
				if e.res != 'D' {
					return nil
				}
				l.st.pend[id] = cur
				return func() { l.st.pend[id] = old }
			}
			if e.res == 'D' {
				return nil
			}
			next := make([]int, part.Count)
			left := 0
			for i := range next {
				next[i] = idNil
				if cur != nil {
					next[i] = cur[i]
				}
				if i == part.Seq-1 {
					next[i] = e.part
				}
				if next[i] == idNil {
					left++
				}
			}
			if left == 0 {
				if e.res != 'S' || !equalInts(next, e.set) {
					return nil
				}
				next = nil
			} else if e.res != 'P' {
				return nil
			}
			l.st.pend[id] = next
			return func() { l.st.pend[id] = old }
		}
	}
	if l.k.silent {
		return []func() func(){step(false), step(true)}
	}
	return one(step(false))
}

// mayExpire tells whether a pending reassembly can have expired unseen by the
// given time.
func (l *linearizer) mayExpire(p []int, clock int64) bool {
	if !l.k.silent {
		return false
	}
	lo, _, ok := l.k.bounds(p)
	return ok && clock >= lo+l.k.pl.D
}
