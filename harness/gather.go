package main

import (
	"bytes"
	"fmt"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"verif/simrt"
)

// A receiver that gathers the parts of messages itself, without a collector,
// and asks the completeness test what it has (C21).

// gEntry is a part the receiver holds.
type gEntry struct {
	t    *tpdu.TPDU
	key  string
	msg  int
	part int
	// what the sender put into the header
	ref, count, seq int
	multi, clear    bool
	wide            bool
}

type gBin struct {
	name string
	held []*gEntry // in order of arrival
	busy map[[2]int]bool
}

func (r *e2eRun) gather(f *e2eFrame, m *e2eMsg, t *tpdu.TPDU, what string) {
	c := r.c
	g := f.rx.cur
	e := &gEntry{t: t, key: f.key, msg: m.n, part: f.part}
	e.ref, e.count, e.seq, e.multi, e.clear = concatOf(m.wires[f.part].UDH)
	for _, ie := range m.wires[f.part].UDH {
		if ie.ID == 8 {
			e.wide = true
		}
	}
	if !e.clear {
		return
	}
	n, s, ref, ok := t.ConcatInfo()
	if ok != e.multi || ok && (n != e.count || s != e.seq || ref != e.ref) {
		c.viol("position", "C21", "%s: its header (%x) says part %d of %d, reference %d (segmented: %v), and is read as part %d of %d, reference %d (%v)", what, encodeUDH(m.wires[f.part].UDH), e.seq, e.count, e.ref, e.multi, s, n, ref, ok)
		return
	}
	name := fmt.Sprintf("%d %02x %s", m.ident().typ, m.toa, m.addr)
	if g.bins == nil {
		g.bins = map[string]*gBin{}
	}
	b := g.bins[name]
	if b == nil {
		b = &gBin{name: name, busy: map[[2]int]bool{}}
		g.bins[name] = b
	}
	b.held = append(b.held, e)
	h := r.hash(8, f.id, len(b.held))

	// what the receiver makes of it: the parts of the message, by position
	var list []*gEntry
	if !e.multi || e.count == 1 {
		list = []*gEntry{e}
	} else {
		slots := make([]*gEntry, e.count)
		for _, x := range b.held {
			if x.multi && x.ref == e.ref && x.count == e.count && x.wide == e.wide && slots[x.seq-1] == nil {
				slots[x.seq-1] = x
			}
		}
		for _, x := range slots {
			if x != nil {
				list = append(list, x)
			}
		}
	}
	// long lists are asked about now and then only, to bound the work
	long := len(list) > 30
	id := [2]int{e.ref, e.count}
	switch {
	case long && len(list) < e.count && !h.P(0.1):
	case len(list) > 1 && len(list) == e.count && b.busy[id]:
		// another task is just dealing with it
	default:
		whole := len(list) > 1 && len(list) == e.count
		if whole {
			b.busy[id] = true
		}
		if r.judge(list, what, "the parts so far, by position") {
			r.gathered(g, b, list, what, long || h.P(0.8))
		}
		if whole {
			delete(b.busy, id)
		}
	}
	for k := h.Intn(4); k > 0; k-- {
		if (long || len(b.held) > 60) && !h.P(0.1) {
			continue
		}
		l, how := r.probe(b, list, h)
		r.judge(l, what, how)
	}
	if h.P(0.03) {
		r.judge(nil, what, "nothing")
	}
}

// judge asks the completeness test about a list, which it must get right and
// leave alone.
func (r *e2eRun) judge(list []*gEntry, what, how string) bool {
	want, sure := completeList(list)
	if !sure {
		return false
	}
	arg := make([]*tpdu.TPDU, len(list), len(list)+1)
	for i, x := range list {
		arg[i] = x.t
	}
	got := sms.IsCompleteMessage(arg)
	c := r.c
	c.stat("op.completeness_asked", 1)
	if want {
		c.stat("op.complete_lists", 1)
	}
	for i, x := range list {
		if arg[i] != x.t || len(list) < 20 && wireOf(x.t).key() != x.key {
			c.viol("test-writes", "C21", "%s: the completeness test changed position %d of a list", what, i+1)
			return false
		}
	}
	if got != want {
		c.viol("completeness", "C21", "%s: %s (%s) is judged complete: %v", what, how, listString(list), got)
		return false
	}
	return got
}

func listString(list []*gEntry) string {
	var b bytes.Buffer
	for i, x := range list {
		if i == 12 {
			fmt.Fprintf(&b, ", and %d more", len(list)-i)
			break
		}
		if i > 0 {
			b.WriteString(", ")
		}
		if x.multi {
			fmt.Fprintf(&b, "%d of %d ref %d", x.seq, x.count, x.ref)
		} else {
			b.WriteString("unsegmented")
		}
	}
	if len(list) == 0 {
		return "empty"
	}
	return b.String()
}

// completeList says what the test has to find; sure is false for lists that
// mix short and long references of the same number.
func completeList(list []*gEntry) (complete, sure bool) {
	if len(list) == 0 {
		return false, true
	}
	if !list[0].multi {
		return len(list) == 1, true
	}
	complete, sure = len(list) == list[0].count, true
	for i, x := range list {
		if !x.multi || x.ref != list[0].ref || x.count != list[0].count || x.seq != i+1 {
			complete = false
		} else if x.wide != list[0].wide {
			sure = false
		}
	}
	return complete, sure || !complete
}

// probe makes up another list of what is at hand.
func (r *e2eRun) probe(b *gBin, list []*gEntry, h *simrt.RNG) ([]*gEntry, string) {
	l := append([]*gEntry(nil), list...)
	held := b.held
	any := func() *gEntry {
		if len(held) == 0 {
			return list[h.Intn(len(list))]
		}
		return held[h.Intn(len(held))]
	}
	switch h.Intn(11) {
	case 0:
		return append(l[:0], held...), "all that is held, in order of arrival"
	case 1:
		l = l[:0]
		for _, x := range held {
			if x.multi == list[0].multi && x.ref == list[0].ref && x.count == list[0].count {
				l = append(l, x)
			}
		}
		return l, "what has this reference, in order of arrival"
	case 2:
		l = l[:0]
		for _, x := range held {
			if h.P(0.5) {
				l = append(l, x)
			}
		}
		return l, "some of what is held"
	case 3:
		i, j := h.Intn(len(l)), h.Intn(len(l))
		l[i], l[j] = l[j], l[i]
		return l, "two parts changed round"
	case 4:
		// another part in one place, if possible one for the same place
		i := h.Intn(len(l))
		x := any()
		for k := 0; k < 6 && (x.seq != l[i].seq || x.msg == l[i].msg); k++ {
			x = any()
		}
		l[i] = x
		return l, "another part in one place"
	case 5:
		i := h.Intn(len(l) + 1)
		l = append(l, nil)
		copy(l[i+1:], l[i:])
		l[i] = any()
		return l, "a part too many"
	case 6:
		i := h.Intn(len(l))
		return append(l[:i], l[i+1:]...), "a part left out"
	case 7:
		i := h.Intn(len(l))
		return append(l[i:len(l):len(l)], l[:i]...), "begun elsewhere"
	case 8:
		i := h.Intn(len(l))
		l[i] = l[h.Intn(len(l))]
		return l, "one part in the place of another"
	case 9:
		// as many parts as announced, of whichever messages
		l = l[:0]
		for k := list[0].count; k > 0 && len(l) < 255; k-- {
			x := any()
			for i := 0; i < 8 && x.seq != len(l)+1; i++ {
				x = any()
			}
			l = append(l, x)
		}
		if len(l) == 0 {
			l = append(l, any())
		}
		return l, "as many parts as announced"
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l, "backwards"
}

// gathered takes a complete message out.
func (r *e2eRun) gathered(g *e2eGen, b *gBin, list []*gEntry, what string, take bool) {
	c := r.c
	arg := make([]*tpdu.TPDU, len(list))
	one := true
	for i, x := range list {
		arg[i] = x.t
		one = one && x.msg == list[0].msg
	}
	if one {
		m := r.msgs[list[0].msg]
		d, err := sms.Decode(arg)
		switch {
		case err != nil:
			c.viol("decode", "C21 C09", "message %d (%q) is judged complete and does not decode: %v", m.n, trim(string(m.text), 200), err)
		case !bytes.Equal(d, m.text):
			c.viol("decode", "C21 C09", "message %d (%s, %d parts) is judged complete and comes out as %q instead of %q", m.n, m.pl.Kind, m.parts, trim(string(d), 100), trim(string(m.text), 100))
		}
		m.deliver++
		c.stat("msg.delivered", 1)
	} else {
		c.stat("msg.reference_reused", 1)
	}
	if !take && len(list) > 1 {
		return
	}
	gone := map[*gEntry]bool{}
	for _, x := range list {
		gone[x] = true
	}
	var rest []*gEntry
	for _, x := range b.held {
		if !gone[x] {
			rest = append(rest, x)
		}
	}
	b.held = rest
}
