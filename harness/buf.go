package main

import (
	"fmt"
	"strings"
	"unsafe"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"verif/simrt"
	"verif/simrt/probe"
)

// BufFrame is what arrives: a TPDU, perhaps in a PDU-mode frame.
type BufFrame struct {
	Octets []byte `json:"octets"`
	MO     bool   `json:"mo,omitempty"`
	Framed bool   `json:"framed,omitempty"`
	Method bool   `json:"method,omitempty"` // by TPDU.UnmarshalBinary
	Slack  int    `json:"slack,omitempty"`
	Early  bool   `json:"early,omitempty"` // buffer overwritten right away
}

// BufRecv is a receiver and its buffer.
type BufRecv struct {
	Frames  []int `json:"frames"`
	Ring    bool  `json:"ring,omitempty"` // a place of its own for each frame
	Collect bool  `json:"collect,omitempty"`
	Reuse   bool  `json:"reuse,omitempty"` // one TPDU, unmarshalled into again and again and copied
}

// BufSeg is a TPDU a caller made by hand, its data a piece of an arena.
type BufSeg struct {
	Off int  `json:"off"`
	Len int  `json:"len"`
	DCS byte `json:"dcs"`
	UDH []IE `json:"udh,omitempty"`
}

// BufOp is one use of received TPDUs.
type BufOp struct {
	Kind string  `json:"kind"` // decode, hand, scribble, complete, yield
	Set  int     `json:"set"`
	Opts []CSOpt `json:"opts,omitempty"`
	Own  bool    `json:"own,omitempty"` // the result is overwritten by its owner
}

// BufPlan is a workload of receiving into buffers and decoding.
type BufPlan struct {
	Frames []BufFrame `json:"frames"`
	Sets   [][]int    `json:"sets"`
	Recvs  []BufRecv  `json:"receivers"`
	Arena  []byte     `json:"arena,omitempty"`
	Segs   []BufSeg   `json:"segments,omitempty"`
	Hands  [][]int    `json:"hand_sets,omitempty"`
	Users  [][]BufOp  `json:"users"`
}

// genOther makes a TPDU of one of the other types.
func genOther(r *simrt.RNG) BufFrame {
	toa, addr := genAddr(r)
	data := func(dcs byte, fo byte) []byte {
		w := &wireTPDU{DCS: dcs, FO: fo}
		if fo&0x40 != 0 {
			w.UDH = genHeader(r)
		}
		n := r.Intn(40)
		if len(w.UDH) > 0 {
			n = r.Intn(20)
		}
		for ; n > 0; n-- {
			w.UD = append(w.UD, byte(r.Intn(128)))
		}
		if alphabetOf(dcs) == 2 && len(w.UD)%2 == 1 {
			w.UD = w.UD[1:]
		}
		return w.encodeUD()
	}
	dcs := pick[byte](r, 0, 4, 8, 0xf1, 0xf5)
	udhi := pick[byte](r, 0, 0x40)
	ts := func() []byte { return nthStamp(r.Intn(1000), 3).encode() }
	opt := func(fo byte) []byte {
		pi := byte(r.Intn(8))
		out := []byte{pi}
		d := byte(0)
		if pi&1 != 0 {
			out = append(out, byte(r.Next()))
		}
		if pi&2 != 0 {
			out = append(out, dcs)
			d = dcs
		}
		if pi&4 != 0 {
			out = append(out, data(d, fo)...)
		}
		return out
	}
	switch r.Intn(6) {
	case 0: // deliver report
		return BufFrame{MO: true, Octets: append([]byte{0 | udhi, byte(r.Next())}, opt(udhi)...)}
	case 1: // submit report
		b := []byte{1 | udhi, byte(r.Next())}
		o := opt(udhi)
		b = append(b, o[0])
		b = append(b, ts()...)
		return BufFrame{Octets: append(b, o[1:]...)}
	case 2: // submit
		vpf := byte(r.Intn(4))
		b := []byte{1 | vpf<<3 | udhi, byte(r.Next())}
		b = append(b, encodeAddr(toa, addr)...)
		b = append(b, 0, dcs)
		switch vpf {
		case 1:
			b = append(b, 1, 9, 0, 0, 0, 0, 0)
		case 2:
			b = append(b, byte(r.Next()))
		case 3:
			b = append(b, ts()...)
		}
		return BufFrame{MO: true, Octets: append(b, data(dcs, udhi)...)}
	case 3: // status report
		b := []byte{2 | udhi, byte(r.Next())}
		b = append(b, encodeAddr(toa, addr)...)
		b = append(b, ts()...)
		b = append(b, ts()...)
		b = append(b, byte(r.Next()))
		return BufFrame{Octets: append(b, opt(udhi)...)}
	case 4: // command
		b := []byte{2 | udhi, byte(r.Next()), 0, byte(r.Next()), byte(r.Next())}
		b = append(b, encodeAddr(toa, addr)...)
		return BufFrame{MO: true, Octets: append(b, data(4, udhi)...)}
	}
	w := &wireTPDU{FO: 4 | udhi, TOA: toa, Addr: addr, DCS: dcs, SCTS: nthStamp(r.Intn(1000), 3)}
	b := w.encodeDeliver()
	return BufFrame{Octets: append(b[:len(b)-1], data(dcs, udhi)...)}
}

// cutData makes the user data of a message, cut into parts.
func cutData(r *simrt.RNG) (dcs byte, parts [][]byte, ext []IE) {
	var data []byte
	unit := 1
	switch n := r.Intn(10); {
	case n < 3:
		for k := 1 + r.Intn(60); k > 0; k-- {
			data = append(data, byte(r.Intn(128)))
		}
		if r.P(0.5) {
			ext = append(ext, IE{25, []byte{byte(1 + r.Intn(13))}})
		}
		if r.P(0.5) {
			ext = append(ext, IE{24, []byte{byte(1 + r.Intn(13))}})
		}
	case n < 5:
		dcs = 4
		for k := 1 + r.Intn(60); k > 0; k-- {
			data = append(data, byte(r.Next()))
		}
	default:
		dcs, unit = 8, 2
		var t []rune
		for k := 1 + r.Intn(30); k > 0; k-- {
			if r.P(0.6) {
				t = append(t, wideRune(r, 0x10000, 0x110000))
			} else {
				t = append(t, wideRune(r, 0, 0x10000))
			}
		}
		data = utf16Bytes(string(t))
	}
	for n := 1 + r.Intn(4); n > 1 && len(data) > unit; n-- {
		k := unit * (1 + r.Intn(len(data)/unit))
		if len(data)-k < unit {
			break
		}
		parts = append(parts, data[:k])
		data = data[k:]
	}
	return dcs, append(parts, data), ext
}

func genBuf(r *simrt.RNG, prop string) *Plan {
	pl := &BufPlan{}
	p := &Plan{Prop: prop, Scenario: "buffers", Buf: pl, MaxSteps: 20000000}
	p.Seed, p.MapSalt = r.Next(), r.Next()
	p.Policy = genPolicy(r, true)
	if p.Policy.Kind == simrt.RandomWalk {
		p.Policy.Mean = pick(r, 1, 3, 10, 30, 100)
	}
	var order []int
	for nm := 1 + r.Intn(3); nm > 0; nm-- {
		dcs, parts, ext := cutData(r)
		toa, addr := genAddr(r)
		ref := r.Intn(256)
		var set []int
		for i, ud := range parts {
			w := &wireTPDU{FO: byte(r.Next()) & 0xa4, TOA: toa, Addr: addr, PID: byte(r.Next()), DCS: dcs, UD: ud, SCTS: nthStamp(r.Intn(1000), i)}
			w.UDH = append(w.UDH, ext...)
			if len(parts) > 1 {
				e := IE{0, []byte{byte(ref), byte(len(parts)), byte(i + 1)}}
				if r.P(0.3) {
					w.UDH = append(w.UDH, IE{0x70, []byte{1, 2, 3}})
				}
				w.UDH = append(w.UDH, e)
			}
			if len(w.UDH) > 0 {
				w.FO |= 0x40
			}
			set = append(set, len(pl.Frames))
			pl.Frames = append(pl.Frames, BufFrame{Octets: w.encodeDeliver()})
		}
		pl.Sets = append(pl.Sets, set)
		if len(set) > 1 && r.P(0.4) { // another set of the same parts
			i := r.Intn(len(set))
			pl.Sets = append(pl.Sets, set[i:], set[i:i+1])
		}
		if len(set) > 1 && r.P(0.3) {
			pl.Sets = append(pl.Sets, []int{set[len(set)-1], set[0]})
		}
	}
	for n := r.Intn(4); n > 0; n-- {
		f := genOther(r)
		pl.Sets = append(pl.Sets, []int{len(pl.Frames)})
		pl.Frames = append(pl.Frames, f)
	}
	if r.P(0.15) && len(pl.Frames) > 0 { // a damaged one
		f := pl.Frames[r.Intn(len(pl.Frames))]
		b := append([]byte(nil), f.Octets...)
		if r.P(0.5) {
			b = b[:r.Intn(len(b)+1)]
		} else {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
		f.Octets = b
		pl.Sets = append(pl.Sets, []int{len(pl.Frames)})
		pl.Frames = append(pl.Frames, f)
	}
	for i := range pl.Frames {
		f := &pl.Frames[i]
		f.Slack = pick(r, 0, 1, 8, 100)
		f.Early = r.P(0.6)
		f.Method = r.P(0.4)
		if r.P(0.3) {
			f.Framed = true
			f.Octets = encodeFrame(0x91, genDigits(r, r.Intn(12)), f.Octets)
		}
		order = append(order, i)
	}
	for i := range order {
		if r.P(0.5) {
			k := r.Intn(len(order))
			order[i], order[k] = order[k], order[i]
		}
	}
	nr := 1 + r.Intn(2)
	for i := 0; i < nr; i++ {
		pl.Recvs = append(pl.Recvs, BufRecv{Ring: r.P(0.6), Collect: r.P(0.6), Reuse: r.P(0.3)})
	}
	for _, f := range order {
		k := r.Intn(nr)
		pl.Recvs[k].Frames = append(pl.Recvs[k].Frames, f)
	}
	// A caller's own TPDUs, whose data lie side by side.
	if r.P(0.7) {
		for n := 1 + r.Intn(2); n > 0; n-- {
			dcs, parts, ext := cutData(r)
			if r.P(0.2) {
				ext = nil
			}
			var set []int
			for i, ud := range parts {
				s := BufSeg{Off: len(pl.Arena), Len: len(ud), DCS: dcs}
				s.UDH = append(s.UDH, ext...)
				if len(parts) > 1 {
					s.UDH = append(s.UDH, IE{0, []byte{7, byte(len(parts)), byte(i + 1)}})
				}
				pl.Arena = append(pl.Arena, ud...)
				for g := pick(r, 0, 0, 1, 4); g > 0; g-- {
					pl.Arena = append(pl.Arena, 0xA5)
				}
				set = append(set, len(pl.Segs))
				pl.Segs = append(pl.Segs, s)
			}
			pl.Hands = append(pl.Hands, set)
			if len(set) > 1 && r.P(0.5) {
				pl.Hands = append(pl.Hands, set[r.Intn(len(set)):])
			}
		}
		if len(pl.Segs) > 1 && r.P(0.3) { // a jumble
			var set []int
			for k := 1 + r.Intn(4); k > 0; k-- {
				set = append(set, r.Intn(len(pl.Segs)))
			}
			pl.Hands = append(pl.Hands, set)
		}
	}
	opts := func() []CSOpt {
		if r.P(0.6) {
			return nil
		}
		var out []CSOpt
		for _, o := range genCharset(r) {
			if o.Kind == "all" {
				continue
			}
			for i, n := range o.NLI {
				if n > 13 {
					o.NLI[i] = 13
				}
			}
			out = append(out, o)
		}
		return out
	}
	for nu := 1 + r.Intn(3); nu > 0; nu-- {
		var ops []BufOp
		for k := 1 + r.Intn(5); k > 0; k-- {
			o := BufOp{Kind: pick(r, "decode", "decode", "decode", "hand", "hand", "scribble", "scribble", "complete", "yield"), Opts: opts()}
			switch o.Kind {
			case "hand":
				if len(pl.Hands) == 0 {
					o.Kind = "decode"
				} else {
					o.Set = r.Intn(len(pl.Hands))
				}
			}
			if o.Kind == "decode" || o.Kind == "complete" {
				o.Set = r.Intn(len(pl.Sets))
			}
			if o.Kind == "scribble" {
				o.Set = r.Intn(len(pl.Frames))
			}
			if o.Kind != "decode" && o.Kind != "hand" {
				o.Opts = nil
			} else {
				o.Own = r.P(0.3)
			}
			ops = append(ops, o)
		}
		pl.Users = append(pl.Users, ops)
	}
	return p
}

// unmarshalInto makes a TPDU of a frame in a buffer, in a TPDU used before.
func (f *BufFrame) unmarshalInto(b []byte, t *tpdu.TPDU) (*tpdu.TPDU, error) {
	t.Direction = tpdu.MT
	if f.MO {
		t.Direction = tpdu.MO
	}
	if f.Framed {
		p, err := pdumode.UnmarshalBinary(b)
		if err != nil {
			return nil, err
		}
		b = p.TPDU
	}
	if err := t.UnmarshalBinary(b); err != nil {
		return nil, err
	}
	cp := *t
	return &cp, nil
}

// unmarshal makes a TPDU of a frame in a buffer.
func (f *BufFrame) unmarshal(b []byte) (*tpdu.TPDU, error) {
	if f.Framed {
		p, err := pdumode.UnmarshalBinary(b)
		if err != nil {
			return nil, err
		}
		b = p.TPDU
	}
	if f.Method {
		t := &tpdu.TPDU{}
		if f.MO {
			t.Direction = tpdu.MO
		}
		err := t.UnmarshalBinary(b)
		if err != nil {
			return nil, err
		}
		return t, nil
	}
	if f.MO {
		return sms.Unmarshal(b, sms.AsMO)
	}
	return sms.Unmarshal(b)
}

func renderOne(t *tpdu.TPDU, err error) string {
	var sb sbuf
	if err != nil {
		sb.WriteString("error: " + err.Error())
		return sb.String()
	}
	renderTPDU(&sb, t, false, false)
	return sb.String()
}

func smsDecodeCharsets(in []CSOpt) (out []sms.DecodeOption) {
	for _, o := range in {
		switch o.Kind {
		case "set":
			out = append(out, sms.WithCharset(o.NLI...))
		case "locking":
			out = append(out, sms.WithLockingCharset(o.NLI...))
		case "shift":
			out = append(out, sms.WithShiftCharset(o.NLI...))
		}
	}
	return
}

func decodeStr(set []*tpdu.TPDU, opts []CSOpt) ([]byte, string) {
	m, err := sms.Decode(set, smsDecodeCharsets(opts)...)
	return m, hexOf(m) + errStr(err)
}

func segTPDU(s *BufSeg, ud []byte) *tpdu.TPDU {
	t := &tpdu.TPDU{UD: ud}
	t.SetDCS(s.DCS)
	if len(s.UDH) > 0 {
		t.SetUDH(ies(s.UDH))
	}
	return t
}

// guard runs f and turns a panic into a result.
func guard(f func() string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("panic: %v", e)
		}
	}()
	return f()
}

func (pl *BufPlan) frameAlone(i int) string {
	simrt.ColdStart()
	return guard(func() string {
		f := &pl.Frames[i]
		t, err := f.unmarshal(append([]byte(nil), f.Octets...))
		return renderOne(t, err)
	})
}

func (pl *BufPlan) setAlone(set []int, opts []CSOpt) string {
	simrt.ColdStart()
	return guard(func() string {
		var ts []*tpdu.TPDU
		for _, i := range set {
			f := &pl.Frames[i]
			t, err := f.unmarshal(append([]byte(nil), f.Octets...))
			if err != nil {
				return "unusable"
			}
			ts = append(ts, t)
		}
		_, s := decodeStr(ts, opts)
		return s
	})
}

func (pl *BufPlan) handAlone(set []int, opts []CSOpt) string {
	simrt.ColdStart()
	return guard(func() string {
		var ts []*tpdu.TPDU
		for _, i := range set {
			s := &pl.Segs[i]
			ud := make([]byte, s.Len) // exactly
			copy(ud, pl.Arena[s.Off:])
			ts = append(ts, segTPDU(s, ud))
		}
		_, s := decodeStr(ts, opts)
		return s
	})
}

// bufFrame is the state of a received frame.
type bufFrame struct {
	want  string
	buf   []byte // its place in a ring
	t     *tpdu.TPDU
	got   string
	ready bool
	free  bool // its buffer may be overwritten
	edge  uint64
	scrib uint64 // orders those who overwrite the buffer
	bad   string
}

type bufRec struct {
	op      *BufOp
	want    string
	got     string
	skipped bool
	m       []byte
	later   string
	mem     string
}

func runBuf(c *ctx) {
	pl := c.plan.Buf
	fs := make([]bufFrame, len(pl.Frames))
	for i := range fs {
		fs[i].want = pl.frameAlone(i)
	}
	recs := make([][]*bufRec, len(pl.Users))
	for i := range pl.Users {
		for k := range pl.Users[i] {
			o := &pl.Users[i][k]
			rec := &bufRec{op: o}
			switch o.Kind {
			case "decode":
				rec.want = pl.setAlone(pl.Sets[o.Set], o.Opts)
			case "hand":
				rec.want = pl.handAlone(pl.Hands[o.Set], o.Opts)
			case "complete":
				rec.want = guard(func() string {
					simrt.ColdStart()
					var ts []*tpdu.TPDU
					for _, i := range pl.Sets[o.Set] {
						f := &pl.Frames[i]
						t, err := f.unmarshal(append([]byte(nil), f.Octets...))
						if err != nil {
							return "unusable"
						}
						ts = append(ts, t)
					}
					return fmt.Sprint(sms.IsCompleteMessage(ts))
				})
			}
			recs[i] = append(recs[i], rec)
		}
	}
	setWant := map[string]string{}
	for _, set := range pl.Sets {
		setWant[fmt.Sprint(set)] = pl.setAlone(set, nil)
	}
	s := c.newSim()
	// The caller's own TPDUs.
	arena := append(make([]byte, 0, len(pl.Arena)+64), pl.Arena...)
	full := arena[:cap(arena)]
	for i := len(arena); i < len(full); i++ {
		full[i] = 0xA5
	}
	arenaSum := fnv(1, full)
	var segs []*tpdu.TPDU
	var segWant []string
	for i := range pl.Segs {
		g := &pl.Segs[i]
		t := segTPDU(g, full[g.Off:g.Off+g.Len])
		segs = append(segs, t)
		segWant = append(segWant, renderOne(t, nil))
	}
	check := func() string {
		if fnv(1, full) != arenaSum {
			return "the memory that holds the user data of TPDUs was changed"
		}
		for i, t := range segs {
			if got := renderOne(t, nil); got != segWant[i] {
				return fmt.Sprintf("TPDU %s became %s", segWant[i], got)
			}
		}
		for i := range fs {
			if fs[i].ready && fs[i].t != nil {
				if got := renderOne(fs[i].t, nil); got != fs[i].want {
					return fmt.Sprintf("received TPDU %s became %s", fs[i].want, got)
				}
			}
		}
		return ""
	}
	var colBad string
	var col *sms.Collector
	s.Spawn("setup", func() { col = sms.NewCollector() })
	s.Run()
	for ri := range pl.Recvs {
		rv := &pl.Recvs[ri]
		size := 0
		for _, i := range rv.Frames {
			n := len(pl.Frames[i].Octets) + pl.Frames[i].Slack
			if rv.Ring {
				size += n
			} else if n > size {
				size = n
			}
		}
		buf := make([]byte, size)
		s.Spawn(fmt.Sprintf("receiver%d", ri), func() {
			off := 0
			var again tpdu.TPDU
			for _, i := range rv.Frames {
				f := &pl.Frames[i]
				st := &fs[i]
				b := buf[off : off+len(f.Octets)]
				mine := buf[off : off+len(f.Octets)+f.Slack]
				if rv.Ring {
					off += len(f.Octets) + f.Slack
				} else {
					mine = buf
				}
				probe.Put(b, f.Octets)
				sum := fnv(1, mine)
				simrt.InLib("Unmarshal")
				var t *tpdu.TPDU
				var err error
				if strings.HasPrefix(st.want, "panic: ") {
					st.got = st.want
				} else if rv.Reuse {
					t, err = f.unmarshalInto(b, &again)
				} else {
					t, err = f.unmarshal(b)
				}
				simrt.InLib("")
				if fnv(1, mine) != sum {
					st.bad = fmt.Sprintf("unmarshalling changed the receive buffer: %x into %x", f.Octets, b)
				}
				if st.got == "" {
					st.got = renderOne(t, err)
				}
				if f.Early {
					probe.Fill(mine, byte(0x80+i))
					if err == nil && t != nil {
						if got := renderOne(t, nil); got != st.want && st.bad == "" {
							st.bad = fmt.Sprintf("overwriting the receive buffer turned %s into %s", st.want, got)
						}
					}
				}
				if err == nil {
					st.t = t
				}
				st.buf = mine
				st.free = rv.Ring
				simrt.Publish(unsafe.Pointer(&st.edge))
				st.ready = true
				simrt.Yield()
				if rv.Collect && st.t != nil {
					simrt.InLib("Collect")
					set, err := col.Collect(*st.t)
					simrt.InLib("")
					if err == nil && set != nil {
						// which frames these are is known by what they are
						var is []int
						for _, x := range set {
							is = append(is, bufFind(fs, pl, x))
						}
						key := fmt.Sprint(is)
						want, ok := setWant[key]
						if ok {
							simrt.InLib("Decode")
							_, got := decodeStr(set, nil)
							simrt.InLib("")
							if got != want && colBad == "" {
								colBad = fmt.Sprintf("frames %s, collected and decoded, give %s instead of %s", key, got, want)
							}
						}
					}
				}
				if !rv.Ring || f.Early {
					continue
				}
				// overwritten by others, or by us in the end
			}
			if rv.Ring {
				simrt.Nap(1000)
				for _, i := range rv.Frames {
					simrt.Consume(unsafe.Pointer(&fs[i].scrib))
				}
			}
			probe.Fill(buf, 0x55)
			if rv.Ring {
				for _, i := range rv.Frames {
					simrt.Publish(unsafe.Pointer(&fs[i].scrib))
				}
			}
		})
	}
	// wait for a frame, and take over what its receiver did.
	wait := func(i int) bool {
		for k := 0; !fs[i].ready; k++ {
			if k > 20000 {
				return false
			}
			simrt.Nap(10)
		}
		simrt.Consume(unsafe.Pointer(&fs[i].edge))
		return true
	}
	for ui := range recs {
		rs := recs[ui]
		s.Spawn(fmt.Sprintf("user%d", ui), func() {
			for _, rec := range rs {
				o := rec.op
				switch o.Kind {
				case "decode", "complete":
					var ts []*tpdu.TPDU
					for _, i := range pl.Sets[o.Set] {
						if !wait(i) || fs[i].t == nil {
							rec.skipped = true
							break
						}
						ts = append(ts, fs[i].t)
					}
					if rec.skipped || rec.want == "unusable" || strings.HasPrefix(rec.want, "panic: ") {
						rec.skipped = true
						break
					}
					simrt.InLib(o.Kind)
					if o.Kind == "complete" {
						rec.got = fmt.Sprint(sms.IsCompleteMessage(ts))
					} else {
						rec.m, rec.got = decodeStr(ts, o.Opts)
					}
					simrt.InLib("")
				case "hand":
					if strings.HasPrefix(rec.want, "panic: ") {
						rec.skipped = true
						break
					}
					var ts []*tpdu.TPDU
					for _, i := range pl.Hands[o.Set] {
						ts = append(ts, segs[i])
					}
					simrt.InLib(o.Kind)
					rec.m, rec.got = decodeStr(ts, o.Opts)
					simrt.InLib("")
				case "scribble":
					if !wait(o.Set) || !fs[o.Set].free {
						rec.skipped = true
						break
					}
					b := fs[o.Set].buf
					scrib := unsafe.Pointer(&fs[o.Set].scrib)
					for k := 0; k < len(b); k += 1 + len(b)/3 {
						simrt.Consume(scrib)
						probe.Fill(b[k:min(k+1+len(b)/3, len(b))], byte(ui))
						simrt.Publish(scrib)
						simrt.Yield()
					}
				case "yield":
					simrt.Yield()
				}
				if o.Own && len(rec.m) > 0 {
					// all of it is the caller's
					probe.Fill(rec.m[:cap(rec.m)], 0x5a)
					rec.m = nil
				}
				rec.mem = check()
			}
		})
	}
	s.Run()
	bad := c.panics(s, "C14")
	if s.Hang {
		c.viol("hang", c.plan.Prop, "no end after %d scheduling steps", c.plan.MaxSteps)
		bad = true
	}
	if lib, _ := s.Unfinished(); len(lib) > 0 && !bad {
		c.viol("stuck", c.plan.Prop, "calls have not returned: %s", strings.Join(lib, "; "))
		bad = true
	}
	end := ""
	if !bad {
		end = check()
	}
	c.endSim(s)
	if bad {
		return
	}
	early, late := 0, 0
	for i := range fs {
		st := &fs[i]
		c.logf("frame %d %x: %s", i, pl.Frames[i].Octets, st.got)
		if pl.Frames[i].Early {
			early++
		} else {
			late++
		}
		if st.bad != "" {
			c.viol("buffer", "C14", "%s", st.bad)
		}
		if st.ready && st.got != st.want {
			c.viol("unmarshal-differs", "C14", "frame %x gives %s instead of %s", pl.Frames[i].Octets, st.got, st.want)
		}
	}
	c.stat("fault.buffer_overwritten_at_once", int64(early))
	c.stat("fault.buffer_overwritten_later", int64(late))
	if colBad != "" {
		c.viol("redecode", "C14", "%s", colBad)
	}
	if end != "" {
		c.viol("altered", "C14", "in the end: %s", end)
	}
	dec := 0
	for ui := range recs {
		for k, rec := range recs[ui] {
			c.stat("op."+rec.op.Kind, 1)
			c.logf("user %d op %d %s %d: %s", ui, k, rec.op.Kind, rec.op.Set, trim(rec.got, 200))
			if rec.mem != "" {
				c.viol("altered", "C14", "user %d, seen after %s of set %d: %s", ui, rec.op.Kind, rec.op.Set, rec.mem)
			}
			if rec.skipped {
				continue
			}
			if rec.got != rec.want {
				c.viol("redecode", "C14", "user %d: %s of set %d gives %s, alone it gives %s", ui, rec.op.Kind, rec.op.Set, rec.got, rec.want)
			}
			if rec.op.Kind == "decode" || rec.op.Kind == "hand" {
				dec++
				if got := hexOf(rec.m); !rec.op.Own && !strings.HasPrefix(rec.got, got) {
					c.viol("decoded-changed", "C14", "user %d: what decoding set %d gave changed from %s to %s", ui, rec.op.Set, rec.got, got)
				}
			}
		}
	}
	if dec > 0 {
		c.out.Nontrivial = true
	}
}

// bufFind finds the frame a collected TPDU came from.
func bufFind(fs []bufFrame, pl *BufPlan, t *tpdu.TPDU) int {
	s := renderOne(t, nil)
	for i := range fs {
		if fs[i].want == s {
			return i
		}
	}
	return -1
}
