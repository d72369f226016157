package main

import (
	"fmt"
	"strings"
	stdtime "time"
	"unsafe"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"verif/simrt"
	"verif/simrt/probe"
)

// sentinelOption fills the spare capacity of option slices.
type sentinelOption struct{ n int }

func (sentinelOption) ApplyEncoderOption(*sms.Encoder) {}

// countersOption is a caller's own option: the fields are public.
type countersOption struct{ mc, cr tpdu.Counter }

func (o countersOption) ApplyEncoderOption(e *sms.Encoder) { e.MsgCount, e.ConcatRef = o.mc, o.cr }

// memory is caller memory that no call may change.
type memory struct {
	what string
	b    []byte                    // a byte slice, spare capacity included
	ints []int                     // an int slice, likewise
	udh  []tpdu.InformationElement // headers of information elements, likewise
	opts []sms.EncoderOption
	seg  []tpdu.SegmentationOption
	tp   *tpdu.TPDU
	sum  uint64
}

func fnv(h uint64, b []byte) uint64 {
	for i := 0; i < len(b); i++ {
		h = (h ^ uint64(b[i])) * 1099511628211
	}
	return h
}

func raw[T any](h uint64, p *T) uint64 {
	return fnv(h, unsafe.Slice((*byte)(unsafe.Pointer(p)), unsafe.Sizeof(*p)))
}

//go:noinline
func (m *memory) hash() uint64 {
	h := uint64(14695981039346656037)
	h = fnv(h, m.b)
	for i := range m.ints {
		h = raw(h, &m.ints[i])
	}
	for i := range m.udh {
		h = raw(h, &m.udh[i])
	}
	for i := range m.opts {
		h = raw(h, &m.opts[i])
	}
	for i := range m.seg {
		h = raw(h, &m.seg[i])
	}
	if m.tp != nil {
		h = raw(h, m.tp)
	}
	return h
}

// watch reads the memory in the open: the race detector sees it.
//
//go:noinline
func (m *memory) watch() {
	probe.Bytes(m.b)
	for i := range m.ints {
		probe.Load(&m.ints[i])
	}
	for i := range m.udh {
		probe.Load(&m.udh[i])
	}
	for i := range m.opts {
		probe.Load(&m.opts[i])
	}
	for i := range m.seg {
		probe.Load(&m.seg[i])
	}
	if m.tp != nil {
		probe.Load(m.tp)
	}
}

// encWorld is everything an encoding is made from: built once for the shared
// use, and again for every encoding made alone.
type encWorld struct {
	pl      *EncPlan
	private bool
	mem     []*memory
	opts    []sms.EncoderOption
	tmpls   []*tpdu.TPDU
	lists   [][]sms.EncoderOption
	ulists  [][]tpdu.UDEncodeOption
	encs    []*sms.Encoder
	encMC   []int // counter index of the encoder itself
	encCR   []int
	segs    [][]tpdu.SegmentationOption
	msgs    [][]byte
	cnts    []tpdu.Counter
}

func (w *encWorld) slack(n int) int {
	if w.private {
		return 0
	}
	return n
}

func (w *encWorld) keep(m *memory) {
	if !w.private {
		m.sum = m.hash()
		w.mem = append(w.mem, m)
	}
}

func (w *encWorld) bytes(what string, in []byte, slack int) []byte {
	b := make([]byte, len(in), len(in)+w.slack(slack))
	copy(b, in)
	x := b[:cap(b)]
	for i := len(in); i < len(x); i++ {
		x[i] = 0xA5
	}
	w.keep(&memory{what: what, b: x})
	return b
}

func (w *encWorld) udh(what string, in []IE, slack int) tpdu.UserDataHeader {
	if len(in) == 0 {
		return nil
	}
	u := make(tpdu.UserDataHeader, len(in), len(in)+w.slack(slack))
	x := u[:cap(u)]
	for i := range x {
		if i < len(in) {
			x[i] = tpdu.InformationElement{ID: in[i].ID, Data: w.bytes(what+" element", in[i].Data, slack)}
		} else {
			x[i] = tpdu.InformationElement{ID: 0xEE, Data: w.bytes(what+" spare element", []byte{0xE1, 0xE2, 0xE3, 0xE4}, 0)}
		}
	}
	w.keep(&memory{what: what + " header", udh: x})
	return u
}

func (w *encWorld) nli(what string, in []int, slack int) []int {
	n := make([]int, len(in), len(in)+w.slack(slack))
	copy(n, in)
	x := n[:cap(n)]
	for i := len(in); i < len(x); i++ {
		x[i] = 7777
	}
	w.keep(&memory{what: what + " character sets", ints: x})
	return n
}

func (w *encWorld) template(i int, o *EncOpt) tpdu.TPDU {
	t := tpdu.TPDU{}
	t.SetSmsType(tpdu.SmsSubmit)
	t.FirstOctet |= tpdu.FirstOctet(o.FO)
	t.DA = tpdu.Address{TOA: o.TOA, Addr: o.Addr}
	if o.Kind != "template" {
		t.DA = tpdu.Address{TOA: 0x91, Addr: "1234"}
	}
	t.MR = o.MR
	t.SetPID(o.PID)
	if o.DCS != 0 {
		t.SetDCS(o.DCS)
	}
	vp := tpdu.ValidityPeriod{}
	switch o.VP {
	case 1:
		vp.SetRelative(5 * stdtime.Minute * stdtime.Duration(1+int(o.PID)%100))
		t.SetVP(vp)
	case 2:
		vp.SetAbsolute(tpdu.Timestamp{Time: nthStamp(int(o.PID), 7).time()})
		t.SetVP(vp)
	case 3:
		vp.SetEnhanced(stdtime.Second*stdtime.Duration(int(o.PID)%200), byte(1+o.PID%3))
		t.SetVP(vp)
	}
	if len(o.UDH) > 0 {
		t.SetUDH(w.udh(fmt.Sprintf("template %d", i), o.UDH, o.Slack))
	}
	return t
}

func newCounter(c *EncCounter) tpdu.Counter {
	if c.Custom {
		return &hCounter{c.Start}
	}
	n := &sms.Counter{}
	for i := 0; i < c.Start; i++ {
		n.Count()
	}
	return n
}

// newEncWorld builds the shared (or a private) set of values.
func newEncWorld(pl *EncPlan, private bool) *encWorld {
	w := &encWorld{pl: pl, private: private}
	for i := range pl.Counters {
		c := pl.Counters[i]
		if private {
			c.Start = 0
		}
		w.cnts = append(w.cnts, newCounter(&c))
	}
	for i := range pl.Opts {
		o := &pl.Opts[i]
		t := w.template(i, o)
		tp := &t
		w.tmpls = append(w.tmpls, tp)
		w.keep(&memory{what: fmt.Sprintf("template %d", i), tp: tp})
		what := fmt.Sprintf("option %d", i)
		var x sms.EncoderOption
		switch o.Kind {
		case "template":
			x = sms.WithTemplate(t)
		case "udh":
			x = sms.WithTemplateOption(tpdu.WithUDH(w.udh(what, o.UDH, o.Slack)))
		case "da":
			x = sms.WithTemplateOption(tpdu.WithDA(tpdu.Address{TOA: o.TOA, Addr: o.Addr}))
		case "oa":
			x = sms.WithTemplateOption(tpdu.WithOA(tpdu.Address{TOA: o.TOA, Addr: o.Addr}))
		case "to":
			x = sms.To(o.Addr)
		case "from":
			x = sms.From(o.Addr)
		case "submit":
			x = sms.AsSubmit
		case "deliver":
			x = sms.AsDeliver
		case "8bit":
			x = sms.As8Bit
		case "ucs2":
			x = sms.AsUCS2
		case "dcs":
			x = sms.WithTemplateOption(tpdu.DCS(o.DCS))
		case "counters":
			x = countersOption{w.cnts[o.MC], w.cnts[o.CR]}
		case "all":
			x = sms.WithAllCharsets
		case "set":
			x = sms.WithCharset(w.nli(what, o.NLI, o.Slack)...)
		case "locking":
			x = sms.WithLockingCharset(w.nli(what, o.NLI, o.Slack)...)
		case "shift":
			x = sms.WithShiftCharset(w.nli(what, o.NLI, o.Slack)...)
		default:
			panic("option " + o.Kind)
		}
		w.opts = append(w.opts, x)
	}
	list := func(what string, s *EncSpec) []sms.EncoderOption {
		l := make([]sms.EncoderOption, len(s.Opts), len(s.Opts)+w.slack(s.Slack))
		x := l[:cap(l)]
		for i := range x {
			if i < len(s.Opts) {
				x[i] = w.opts[s.Opts[i]]
			} else {
				x[i] = sentinelOption{i}
			}
		}
		w.keep(&memory{what: what, opts: x})
		return l
	}
	for i := range pl.Lists {
		s := &pl.Lists[i]
		w.lists = append(w.lists, list(fmt.Sprintf("option list %d", i), s))
		var u []tpdu.UDEncodeOption
		for _, oi := range s.Opts {
			o := &pl.Opts[oi]
			what := fmt.Sprintf("option %d", oi)
			switch o.Kind {
			case "all":
				u = append(u, tpdu.WithAllCharsets)
			case "set":
				u = append(u, tpdu.WithCharset(w.nli(what, o.NLI, o.Slack)...))
			case "locking":
				u = append(u, tpdu.WithLockingCharset(w.nli(what, o.NLI, o.Slack)...))
			case "shift":
				u = append(u, tpdu.WithShiftCharset(w.nli(what, o.NLI, o.Slack)...))
			}
		}
		w.ulists = append(w.ulists, u)
	}
	nc := len(pl.Counters)
	for i := range pl.Encs {
		s := &pl.Encs[i]
		if s.Copy > 0 {
			e := *w.encs[s.Copy-1]
			w.encs = append(w.encs, &e)
			w.encMC = append(w.encMC, w.encMC[s.Copy-1])
			w.encCR = append(w.encCR, w.encCR[s.Copy-1])
			continue
		}
		e := sms.NewEncoder(list(fmt.Sprintf("options of encoder %d", i), s)...)
		w.encs = append(w.encs, e)
		mc, cr := nc+2*i, nc+2*i+1
		for _, oi := range s.Opts {
			if o := &pl.Opts[oi]; o.Kind == "counters" {
				mc, cr = o.MC, o.CR
			}
		}
		w.encMC, w.encCR = append(w.encMC, mc), append(w.encCR, cr)
	}
	for i := range pl.Segs {
		s := &pl.Segs[i]
		var so []tpdu.SegmentationOption
		if s.MC >= 0 {
			so = append(so, tpdu.WithMR(w.cnts[s.MC]))
		}
		if s.CR >= 0 {
			so = append(so, tpdu.WithConcatRef(w.cnts[s.CR]))
		}
		if s.Wide {
			so = append(so, tpdu.With16BitConcatRef)
		}
		l := make([]tpdu.SegmentationOption, len(so), len(so)+w.slack(s.Slack))
		x := l[:cap(l)]
		for k := range x {
			if k < len(so) {
				x[k] = so[k]
			} else {
				x[k] = tpdu.With16BitConcatRef
			}
		}
		w.keep(&memory{what: fmt.Sprintf("segmentation options %d", i), seg: x})
		w.segs = append(w.segs, l)
	}
	for i := range pl.Msgs {
		m := &pl.Msgs[i]
		in := m.Data
		if m.Text != "" {
			in = []byte(m.Text)
		}
		w.msgs = append(w.msgs, w.bytes(fmt.Sprintf("message %d", i), in, m.Slack))
	}
	return w
}

// encUse is the use of one number of a counter.
type encUse struct {
	cnt int
	mod int // 256, 65536, 0: the number itself
	val int
}

// encRec is what one operation did.
type encRec struct {
	op       *EncOp
	task     int
	inv, ret int64
	out      []tpdu.TPDU
	ud       tpdu.UserData
	udh      tpdu.UserDataHeader
	alpha    tpdu.Alphabet
	err      string
	full     string // everything, as returned
	masked   string // the same without the references
	n        int    // read, count
	uses     []encUse
	odd      string // what is wrong with the references within it
	mem      string // memory found changed after it
}

// sbuf is a string builder of the harness's own, which the race detector does
// not see.
type sbuf struct{ b []byte }

func (s *sbuf) Write(b []byte) (int, error)       { s.b = append(s.b, b...); return len(b), nil }
func (s *sbuf) WriteString(x string) (int, error) { s.b = append(s.b, x...); return len(x), nil }
func (s *sbuf) hex(b []byte) {
	const d = "0123456789abcdef"
	for i := 0; i < len(b); i++ {
		s.b = append(s.b, d[b[i]>>4], d[b[i]&15])
	}
}
func (s *sbuf) String() string { return string(s.b) }

// renderTPDU writes out a TPDU. ref masks the MR and the reference of the
// concatenation element.
func renderTPDU(sb *sbuf, t *tpdu.TPDU, mr, ref bool) {
	fmt.Fprintf(sb, "%v %02x ", t.Direction, byte(t.FirstOctet))
	if mr {
		sb.WriteString("mr ")
	} else {
		fmt.Fprintf(sb, "%02x ", t.MR)
	}
	fmt.Fprintf(sb, "oa %02x %q da %02x %q ra %02x %q fcs %02x ct %02x mn %02x pi %02x st %02x pid %02x dcs %02x ",
		t.OA.TOA, t.OA.Addr, t.DA.TOA, t.DA.Addr, t.RA.TOA, t.RA.Addr, t.FCS, t.CT, t.MN, byte(t.PI), t.ST, t.PID, byte(t.DCS))
	fmt.Fprintf(sb, "vp %d %d %d %d udh[", t.VP.Format, t.VP.Duration, t.VP.EFI, t.VP.Time.UnixNano())
	last := -1
	if ref {
		for i := range t.UDH {
			if id := t.UDH[i].ID; id == 0 || id == 8 {
				last = i
			}
		}
	}
	for i := range t.UDH {
		d := t.UDH[i].Data
		fmt.Fprintf(sb, "%02x:", t.UDH[i].ID)
		if i == last {
			if t.UDH[i].ID == 0 && len(d) == 3 {
				sb.WriteString("ref")
				sb.hex(d[1:])
				sb.WriteString(" ")
				continue
			}
			if t.UDH[i].ID == 8 && len(d) == 4 {
				sb.WriteString("ref")
				sb.hex(d[2:])
				sb.WriteString(" ")
				continue
			}
		}
		sb.hex(d)
		sb.WriteString(" ")
	}
	sb.WriteString("] ud ")
	sb.hex(t.UD)
	sb.WriteString("\n")
}

func (rec *encRec) render(masked bool, mr, ref bool) string {
	var sb sbuf
	sb.WriteString(rec.err)
	for i := range rec.out {
		renderTPDU(&sb, &rec.out[i], masked && mr, masked && ref && len(rec.out) > 1)
	}
	if rec.op.Kind == "userdata" {
		sb.hex(rec.ud)
		fmt.Fprintf(&sb, " alpha %d udh", rec.alpha)
		for i := range rec.udh {
			fmt.Fprintf(&sb, " %02x:", rec.udh[i].ID)
			sb.hex(rec.udh[i].Data)
		}
	}
	return sb.String()
}

// counters tells which counters an operation draws from. -1: none, -2: its own.
func (w *encWorld) counters(o *EncOp) (mc, cr int) {
	apply := func(list int) {
		if list > 0 {
			for _, oi := range w.pl.Lists[list-1].Opts {
				if x := &w.pl.Opts[oi]; x.Kind == "counters" {
					mc, cr = x.MC, x.CR
				}
			}
		}
	}
	switch o.Kind {
	case "encode":
		mc, cr = w.encMC[o.Enc], w.encCR[o.Enc]
		apply(o.List)
	case "pkg":
		mc, cr = -2, -2
		apply(o.List)
	case "segment":
		mc, cr = w.pl.Segs[o.Seg].MC, w.pl.Segs[o.Seg].CR
	default:
		mc, cr = -1, -1
	}
	return
}

// do performs an operation on the world's values.
func (w *encWorld) do(o *EncOp, rec *encRec) {
	var opts []sms.EncoderOption
	if o.List > 0 {
		opts = w.lists[o.List-1]
	}
	var err error
	switch o.Kind {
	case "encode":
		rec.out, err = w.encs[o.Enc].Encode(w.msgs[o.Msg], opts...)
	case "pkg":
		rec.out, err = sms.Encode(w.msgs[o.Msg], opts...)
	case "segment":
		rec.out = w.tmpls[o.Enc].Segment(w.msgs[o.Msg], w.segs[o.Seg]...)
	case "userdata":
		rec.ud, rec.udh, rec.alpha = tpdu.EncodeUserData(w.msgs[o.Msg], w.ulists[o.List-1]...)
	}
	if err != nil {
		rec.err = "error: " + err.Error() + "\n"
	}
	mc, cr := w.counters(o)
	rec.full = rec.render(false, false, false)
	rec.masked = rec.render(true, mc != -1 && mc != -2, cr != -1 && cr != -2)
}

// alone performs an operation on private values, in a fresh process state.
func encAlone(pl *EncPlan, o *EncOp) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("panic: %v", e)
		}
	}()
	simrt.ColdStart()
	w := newEncWorld(pl, true)
	rec := &encRec{op: o}
	w.do(o, rec)
	return rec.masked
}

// numbers extracts the references an operation used.
func (rec *encRec) numbers(w *encWorld) {
	mc, cr := w.counters(rec.op)
	n := len(rec.out)
	if rec.err != "" && n > 0 {
		rec.odd = "an error and a result"
		return
	}
	if n == 0 {
		return
	}
	if mc >= 0 {
		for i := range rec.out {
			rec.uses = append(rec.uses, encUse{mc, 256, int(rec.out[i].MR)})
		}
	}
	ref := -1
	for i := range rec.out {
		ie := -1
		for k, e := range rec.out[i].UDH {
			if e.ID == 0 && len(e.Data) == 3 || e.ID == 8 && len(e.Data) == 4 {
				if ie >= 0 {
					rec.odd = fmt.Sprintf("part %d carries two concatenation elements", i+1)
					return
				}
				ie = k
			}
		}
		if n == 1 {
			if ie >= 0 {
				rec.odd = "a single part carries a concatenation element"
			}
			return
		}
		if ie < 0 {
			rec.odd = fmt.Sprintf("part %d of %d carries no concatenation element", i+1, n)
			return
		}
		e := rec.out[i].UDH[ie]
		wide := e.ID == 8
		r, t, s := int(e.Data[0]), int(e.Data[len(e.Data)-2]), int(e.Data[len(e.Data)-1])
		if wide {
			r = int(e.Data[0])<<8 | int(e.Data[1])
		}
		want := rec.op.Kind == "segment" && w.pl.Segs[rec.op.Seg].Wide
		switch {
		case wide != want:
			rec.odd = fmt.Sprintf("part %d: 16-bit reference %v, should be %v", i+1, wide, want)
		case t != n:
			rec.odd = fmt.Sprintf("part %d says there are %d parts, there are %d", i+1, t, n)
		case s != i+1:
			rec.odd = fmt.Sprintf("part %d carries sequence number %d", i+1, s)
		case i > 0 && r != ref:
			rec.odd = fmt.Sprintf("part %d carries reference %d, part 1 carries %d", i+1, r, ref)
		}
		if rec.odd != "" {
			return
		}
		ref = r
		if i == 0 && cr >= 0 {
			mod := 256
			if wide {
				mod = 65536
			}
			rec.uses = append(rec.uses, encUse{cr, mod, r})
		}
	}
}

func runEnc(c *ctx) {
	pl := c.plan.Enc
	var recs [][]*encRec
	total := 0
	for ti := range pl.Tasks {
		var rs []*encRec
		for k := range pl.Tasks[ti] {
			rs = append(rs, &encRec{op: &pl.Tasks[ti][k], task: ti})
			total++
		}
		recs = append(recs, rs)
	}
	// What each operation gives when made alone.
	alone := map[EncOp]string{}
	for _, rs := range recs {
		for _, rec := range rs {
			k := *rec.op
			switch k.Kind {
			case "encode", "pkg", "segment", "userdata":
				if _, ok := alone[k]; !ok {
					alone[k] = encAlone(pl, &k)
				}
			}
		}
	}
	s := c.newSim()
	w := newEncWorld(pl, false)
	nc := len(pl.Counters)
	counter := func(i int) tpdu.Counter {
		if i < nc {
			return w.cnts[i]
		}
		if (i-nc)%2 == 0 {
			return w.encs[(i-nc)/2].MsgCount
		}
		return w.encs[(i-nc)/2].ConcatRef
	}
	// counters that exist only within an encoder start at zero
	ncnt := nc + 2*len(w.encs)
	check := func() string {
		for _, m := range w.mem {
			if m.hash() != m.sum {
				return m.what
			}
		}
		return ""
	}
	for ti := range recs {
		rs := recs[ti]
		s.Spawn(fmt.Sprintf("encoder%d", ti), func() {
			for _, rec := range rs {
				rec.inv, _ = simrt.Stamp()
				simrt.InLib(rec.op.Kind)
				switch rec.op.Kind {
				case "read":
					i := rec.op.Enc
					if i >= nc {
						i = w.encMC[i-nc]
					}
					rec.n = -1
					if x, ok := counter(i).(*sms.Counter); ok {
						rec.n = x.Read()
					}
				case "count":
					rec.n = counter(rec.op.Enc).Count()
				case "watch":
					for _, m := range w.mem {
						m.watch()
						simrt.Yield()
					}
				case "yield":
					simrt.Yield()
				default:
					w.do(rec.op, rec)
				}
				simrt.InLib("")
				rec.mem = check()
				rec.ret, _ = simrt.Stamp()
			}
		})
	}
	s.Run()
	bad := c.panics(s, "C10 C11")
	if s.Hang {
		c.viol("hang", c.plan.Prop, "no end after %d scheduling steps", c.plan.MaxSteps)
		bad = true
	}
	if lib, _ := s.Unfinished(); len(lib) > 0 && !bad {
		c.viol("stuck", c.plan.Prop, "calls have not returned: %s", strings.Join(lib, "; "))
		bad = true
	}
	after := make([]string, 0, total)
	var final []int
	if !bad {
		s.Spawn("final", func() {
			for _, rs := range recs {
				for _, rec := range rs {
					after = append(after, rec.render(false, false, false))
				}
			}
			for i := 0; i < ncnt; i++ {
				v := -1
				if x, ok := counter(i).(*sms.Counter); ok {
					v = x.Read()
				}
				final = append(final, v)
			}
		})
		s.Run()
		bad = c.panics(s, "C10 C11")
	}
	c.endSim(s)
	if bad {
		return
	}
	c.encJudge(w, recs, alone, after, final, ncnt)
}

func (c *ctx) encJudge(w *encWorld, recs [][]*encRec, alone map[EncOp]string, after []string, final []int, ncnt int) {
	pl := w.pl
	nc := len(pl.Counters)
	var all []*encRec
	for _, rs := range recs {
		all = append(all, rs...)
	}
	name := func(rec *encRec) string {
		o := rec.op
		switch o.Kind {
		case "encode":
			return fmt.Sprintf("task %d: encoding of message %d on encoder %d with option list %d", rec.task, o.Msg, o.Enc, o.List-1)
		case "pkg":
			return fmt.Sprintf("task %d: sms.Encode of message %d with option list %d", rec.task, o.Msg, o.List-1)
		case "segment":
			return fmt.Sprintf("task %d: segmentation of message %d with template %d and options %d", rec.task, o.Msg, o.Enc, o.Seg)
		case "userdata":
			return fmt.Sprintf("task %d: EncodeUserData of message %d with option list %d", rec.task, o.Msg, o.List-1)
		}
		return fmt.Sprintf("task %d: %s", rec.task, o.Kind)
	}
	enc := 0
	for i, rec := range all {
		if rec.op.Kind == "count" {
			rec.uses = []encUse{{rec.op.Enc, 0, rec.n}}
		}
		c.stat("op."+rec.op.Kind, 1)
		c.logf("%d-%d %s: %d parts %s %d", rec.inv, rec.ret, name(rec), len(rec.out), strings.TrimSpace(rec.err), rec.n)
		if want, ok := alone[*rec.op]; ok {
			enc++
			if rec.err != "" {
				c.stat("fault.failed_encoding", 1)
			}
			if len(rec.out) > 1 {
				c.stat("event.multipart", 1)
			}
			if want != rec.masked {
				c.viol("differs", "C11", "%s gives something else than alone:\n%s\nalone:\n%s", name(rec), rec.masked, want)
			}
			if after[i] != rec.full {
				c.viol("result-changed", "C11", "the result of the %s changed after it was returned:\n%s\nnow:\n%s", name(rec), rec.full, after[i])
			}
			rec.numbers(w)
			if rec.odd != "" {
				c.viol("parts", "C10", "%s: %s", name(rec), rec.odd)
			}
		}
		if rec.mem != "" {
			c.viol("memory", "C11", "caller memory (%s) was changed, seen after the %s", rec.mem, name(rec))
		}
	}
	if enc > 1 {
		c.out.Nontrivial = true
	}
	// The numbers of each counter.
	for k := 0; k < ncnt; k++ {
		start := 0
		if k < nc {
			start = pl.Counters[k].Start
		} else if e := (k - nc) / 2; (k-nc)%2 == 0 && w.encMC[e] != k || (k-nc)%2 == 1 && w.encCR[e] != k {
			continue // the encoder uses another
		}
		var low [256]int // how often each value modulo 256
		n := 0
		exact := map[int]int{}
		for _, rec := range all {
			for _, u := range rec.uses {
				if u.cnt != k {
					continue
				}
				n++
				if u.mod == 256 {
					low[u.val]++
				} else {
					exact[u.val]++
				}
			}
		}
		if n == 0 && final[k] <= start {
			if final[k] >= 0 && final[k] != start {
				c.viol("count", "C10", "counter %d reads %d though nothing was counted from %d on", k, final[k], start)
			}
			continue
		}
		bad := ""
		for v := start + 1; v <= start+n && bad == ""; v++ {
			switch {
			case exact[v] > 0:
				exact[v]--
			case v > 65535 && exact[v&0xffff] > 0:
				exact[v&0xffff]--
			case low[v&0xff] > 0:
				low[v&0xff]--
			default:
				bad = fmt.Sprintf("number %d (%d modulo 256) was not used", v, v&0xff)
			}
		}
		if bad != "" {
			c.viol("numbers", "C10", "counter %d, started at %d, gave %d numbers: %s; used: %s", k, start, n, bad, usesOf(all, k))
		}
		if final[k] >= 0 && final[k] != start+n {
			c.viol("count", "C10", "counter %d reads %d in the end; it started at %d and %d numbers were used", k, final[k], start, n)
		}
		// Reads against the counts made, and order in real time.
		if bad == "" {
			c.encOrder(w, all, k, start, n, name)
		}
	}
}

func usesOf(all []*encRec, k int) string {
	var sb strings.Builder
	for _, rec := range all {
		any := false
		for _, u := range rec.uses {
			if u.cnt == k {
				if !any {
					fmt.Fprintf(&sb, "task %d %s @%d-%d:", rec.task, rec.op.Kind, rec.inv, rec.ret)
					any = true
				}
				fmt.Fprintf(&sb, " %d", u.val)
				if u.mod == 65536 {
					sb.WriteString("w")
				}
			}
		}
		if any {
			sb.WriteString("; ")
		}
	}
	return sb.String()
}

// encOrder checks what was read, and that an encoding that began after another
// had ended has later numbers.
func (c *ctx) encOrder(w *encWorld, all []*encRec, k, start, n int, name func(*encRec) string) {
	type span struct {
		rec      *encRec
		n        int
		min, max int
	}
	var spans []span
	for _, rec := range all {
		sp := span{rec: rec}
		for _, u := range rec.uses {
			if u.cnt != k {
				continue
			}
			v := u.val
			if n <= 256 {
				if u.mod != 0 {
					v = (u.val - start - 1) & 0xff
					v += start + 1
				}
				if sp.n == 0 || v < sp.min {
					sp.min = v
				}
				if sp.n == 0 || v > sp.max {
					sp.max = v
				}
			}
			sp.n++
		}
		if sp.n > 0 {
			spans = append(spans, sp)
		}
	}
	if n <= 256 {
		for _, a := range spans {
			for _, b := range spans {
				if a.rec.ret < b.rec.inv && a.max > b.min {
					c.viol("order", "C10", "counter %d: the %s used %d, and the %s, begun later, used %d: at that time numbers were skipped", k, name(a.rec), a.max, name(b.rec), b.min)
				}
			}
		}
	}
	var reads []*encRec
	for _, rec := range all {
		if rec.op.Kind != "read" || rec.n < 0 {
			continue
		}
		i := rec.op.Enc
		if nc := len(w.pl.Counters); i >= nc {
			i = w.encMC[i-nc]
		}
		if i != k {
			continue
		}
		reads = append(reads, rec)
		lo, hi := start, start
		for _, sp := range spans {
			if sp.rec.ret < rec.inv {
				lo += sp.n
			}
			if sp.rec.inv < rec.ret {
				hi += sp.n
			}
		}
		if rec.n < lo || rec.n > hi {
			c.viol("read", "C10", "counter %d read %d; the counts made allow %d to %d", k, rec.n, lo, hi)
		}
	}
	for _, a := range reads {
		for _, b := range reads {
			if a.ret < b.inv && a.n > b.n {
				c.viol("read", "C10", "counter %d read %d and, later, %d", k, a.n, b.n)
			}
		}
	}
}
