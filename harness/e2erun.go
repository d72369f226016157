package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"strings"
	stdtime "time"
	"unicode/utf16"
	"unicode/utf8"
	"unsafe"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
	"verif/simrt"
)

// e2eFrame is one transmission of one part.
type e2eFrame struct {
	id, msg, part int
	rx            *e2eRx
	octets        []byte
	scTOA         byte
	scAddr        string
	key           string
}

// e2eMsg is what became of a message.
type e2eMsg struct {
	n       int
	dev     *E2EDev
	pl      *E2EMsg
	ok      bool // sent
	text    []byte
	parts   int
	slices  [][]byte // nil: parts do not stand alone
	wires   []*wireTPDU
	pdus    []tpdu.TPDU
	rx      *e2eRx
	toa     byte
	addr    string
	ref     int
	taint   bool
	deliver int
}

type e2eIdent struct {
	typ        tpdu.SmsType
	toa        byte
	addr       string
	ref, count int
}

type e2eGen struct {
	n       int
	col     *sms.Collector
	closing bool
	invoked map[[2]int]int
	acc     map[string]int
	done    map[string]int
	exp     map[string]int
	keys    []string // in order of first acceptance
	bins    map[string]*gBin
}

type e2eRx struct {
	n    int
	mo   bool
	cur  *e2eGen
	gens []*e2eGen
	bad  []e2eIdent
	badK map[string]bool
	keys map[string][2]int

	again tpdu.TPDU // unmarshalled into again and again
	busy  bool
	edge  uint64
}

type e2eRun struct {
	c      *ctx
	pl     *E2EPlan
	rx     []*e2eRx
	devs   []*e2eDevice
	msgs   []*e2eMsg
	frames int
	bads   int
	all    []*e2eFrame
}

type e2eDevice struct {
	d    *E2EDev
	enc  *sms.Encoder
	tmpl tpdu.TPDU
	mr   *hCounter
	cr   *hCounter
	rx   *e2eRx
}

// hCounter is a counter that starts anywhere.
type hCounter struct{ n int }

func (c *hCounter) Count() int { c.n++; return c.n }

func (r *e2eRun) hash(vs ...int) *simrt.RNG {
	us := []uint64{r.pl.NetSeed}
	for _, v := range vs {
		us = append(us, uint64(v))
	}
	return simrt.NewRNG(simrt.Mix(us...))
}

func runE2E(c *ctx) {
	execE2E(c)
	pl := c.plan.E2E
	c.blame((pl.Corrupt > 0 || len(pl.Hostile) > 0) && !pl.NoCorrupt, func(q *Plan) { q.E2E.NoCorrupt = true }, func(c2 *ctx) { execE2E(c2) })
}

// blame: what goes wrong with the other messages is the fault of the damaged
// traffic only if it does not happen without it.
func (c *ctx) blame(damage bool, without func(*Plan), exec func(*ctx)) {
	if c.plan.Prop != "C08" || !damage {
		return
	}
	var first *Viol
	for i := range c.out.Viols {
		v := &c.out.Viols[i]
		own := false
		for _, p := range v.Props {
			own = own || p == "C08"
		}
		if !own && first == nil {
			first = v
		}
	}
	if first != nil {
		q := c.plan.clone()
		without(q)
		if c.cleanWithout(q, exec) {
			c.viol("disturbed", "C08", "damaged traffic disturbed another message: %s", first.Msg)
		}
	}
}

func execE2E(c *ctx) *e2eRun {
	r := &e2eRun{c: c, pl: c.plan.E2E}
	s := c.newSim()
	s.Horizon = 7200e9 + 2*r.pl.Timeout
	s.Spawn("setup", r.setup)
	s.Run()
	for di := range r.devs {
		for t := 0; t < 2; t++ {
			var todo []*e2eMsg
			for _, m := range r.msgs {
				if m.pl.Dev == di && m.pl.Task == t {
					todo = append(todo, m)
				}
			}
			if len(todo) == 0 {
				continue
			}
			d := r.devs[di]
			s.Spawn(fmt.Sprintf("sender%d.%d", di, t), func() {
				for _, m := range todo {
					simrt.Nap(m.pl.Delay)
					r.send(d, m)
				}
			})
		}
	}
	for i, at := range r.pl.Restarts {
		i, at := i, at
		s.Spawn(fmt.Sprintf("restart%d", i), func() {
			simrt.Nap(at)
			rx := r.rx[i%len(r.rx)]
			old := rx.cur
			rx.cur = r.newGen(rx)
			old.closing = true
			c.logf("t=%d receiver %d restarts", simrt.Clock(), rx.n)
			simrt.InLib("Close")
			old.col.Close()
			simrt.InLib("")
			c.stat("fault.receiver_restart", 1)
		})
	}
	for i, seed := range r.pl.Hostile {
		i, seed := i, seed
		s.Spawn(fmt.Sprintf("hostile%d", i), func() {
			h := simrt.NewRNG(uint64(seed))
			simrt.Nap(int64(h.Intn(40e9)))
			if !r.pl.NoCorrupt {
				r.hostile(h)
			}
		})
	}
	bad := false
	stuck := func(when string) bool {
		if c.panics(s, "C08") {
			bad = true
		}
		if s.Hang {
			c.viol("hang", c.plan.Prop+" C08", "no end after %d scheduling steps, %s", c.plan.MaxSteps, when)
			bad = true
		}
		if lib, _ := s.Unfinished(); len(lib) > 0 && !bad {
			c.viol("stuck", c.plan.Prop+" C06", "calls have not returned, %s: %s", when, strings.Join(lib, "; "))
			bad = true
		}
		return bad
	}
	s.Run()
	if !stuck("in the faulty network") {
		// The faults stop: every message is sent once more and has to arrive.
		s.Calm()
		s.Spawn("final", func() { r.final() })
		s.Run()
	}
	if !stuck("after the faults stopped") {
		s.Spawn("settle", func() { r.settle() })
		s.Run()
		stuck("in the end")
	}
	c.endSim(s)
	if r.frames > 0 {
		c.out.Nontrivial = true
	}
	return r
}

func (r *e2eRun) newGen(rx *e2eRx) *e2eGen {
	g := &e2eGen{n: len(rx.gens), invoked: map[[2]int]int{}, acc: map[string]int{}, done: map[string]int{}, exp: map[string]int{}}
	var opts []sms.CollectorOption
	if r.pl.Timeout != 0 {
		var h func([]*tpdu.TPDU)
		if r.pl.Handler {
			h = func(set []*tpdu.TPDU) { r.expired(rx, g, set) }
		}
		opts = append(opts, sms.WithReassemblyTimeout(stdtime.Duration(r.pl.Timeout), h))
	}
	g.col = sms.NewCollector(opts...)
	rx.gens = append(rx.gens, g)
	return g
}

func (r *e2eRun) addRx(mo bool) *e2eRx {
	rx := &e2eRx{n: len(r.rx), mo: mo, badK: map[string]bool{}, keys: map[string][2]int{}}
	rx.cur = r.newGen(rx)
	r.rx = append(r.rx, rx)
	return rx
}

func ies(in []IE) tpdu.UserDataHeader {
	udh := tpdu.UserDataHeader{}
	for _, e := range in {
		udh = append(udh, tpdu.InformationElement{ID: e.ID, Data: append([]byte(nil), e.Data...)})
	}
	return udh
}

func encCharsets(in []CSOpt) (out []sms.EncoderOption) {
	for _, o := range in {
		switch o.Kind {
		case "all":
			out = append(out, sms.WithAllCharsets)
		case "set":
			out = append(out, sms.WithCharset(o.NLI...))
		case "locking":
			out = append(out, sms.WithLockingCharset(o.NLI...))
		case "shift":
			out = append(out, sms.WithShiftCharset(o.NLI...))
		}
	}
	return
}

func udCharsets(in []CSOpt) (out []tpdu.UDEncodeOption) {
	for _, o := range in {
		switch o.Kind {
		case "all":
			out = append(out, tpdu.WithAllCharsets)
		case "set":
			out = append(out, tpdu.WithCharset(o.NLI...))
		case "locking":
			out = append(out, tpdu.WithLockingCharset(o.NLI...))
		case "shift":
			out = append(out, tpdu.WithShiftCharset(o.NLI...))
		}
	}
	return
}

func (r *e2eRun) setup() {
	r.addRx(false)
	for i := range r.pl.Devices {
		d := &r.pl.Devices[i]
		v := &e2eDevice{d: d, mr: &hCounter{d.MsgCount}, cr: &hCounter{d.RefCount}, rx: r.rx[0]}
		if d.Mode == "direct" {
			v.rx = r.addRx(true)
		}
		r.devs = append(r.devs, v)
		if d.Style == "foreign" {
			continue
		}
		t := tpdu.TPDU{}
		if d.Mode == "deliver" {
			t.SetSmsType(tpdu.SmsDeliver)
			t.OA = tpdu.Address{TOA: d.TOA, Addr: d.Addr}
		} else {
			t.SetSmsType(tpdu.SmsSubmit)
			t.DA = tpdu.Address{TOA: d.PeerTOA, Addr: d.PeerAddr}
			switch d.VP {
			case 1:
				vp := tpdu.ValidityPeriod{}
				vp.SetRelative(5 * stdtime.Minute * stdtime.Duration(1+d.Stamp%100))
				t.SetVP(vp)
			case 2:
				vp := tpdu.ValidityPeriod{}
				vp.SetAbsolute(tpdu.Timestamp{Time: nthStamp(d.Stamp, 7).time()})
				t.SetVP(vp)
			case 3:
				vp := tpdu.ValidityPeriod{}
				vp.SetEnhanced(stdtime.Second*stdtime.Duration(d.Stamp%200), byte(1+d.Stamp%3))
				t.SetVP(vp)
			}
		}
		t.FirstOctet |= tpdu.FirstOctet(d.FO)
		t.SetPID(d.PID)
		if !d.DCSOpt && d.DCS != 0 {
			t.SetDCS(d.DCS)
		}
		headed := d.UDH0 || len(d.UDH) > 0
		if headed && !d.UDHOpt {
			t.SetUDH(ies(d.UDH))
		}
		opts := []sms.EncoderOption{sms.WithTemplate(t)}
		if d.DCSOpt {
			opts = append(opts, sms.WithTemplateOption(tpdu.DCS(d.DCS)))
			tpdu.DCS(d.DCS).ApplyTPDUOption(&t)
		}
		if headed && d.UDHOpt {
			opts = append(opts, sms.WithTemplateOption(tpdu.WithUDH(ies(d.UDH))))
			tpdu.WithUDH(ies(d.UDH)).ApplyTPDUOption(&t)
		}
		opts = append(opts, encCharsets(d.Charset)...)
		v.tmpl = t
		v.enc = sms.NewEncoder(opts...)
		v.enc.MsgCount, v.enc.ConcatRef = v.mr, v.cr
	}
	for i := range r.pl.Msgs {
		m := &r.pl.Msgs[i]
		r.msgs = append(r.msgs, &e2eMsg{n: i, pl: m, dev: &r.pl.Devices[m.Dev], rx: r.devs[m.Dev].rx})
	}
}

// content is what goes in, and what has to come out.
func (m *e2eMsg) content() (in, out []byte) {
	switch m.pl.Kind {
	case "8bit":
		return m.pl.Data, m.pl.Data
	case "ucs2", "cut16":
		return utf16Bytes(m.pl.Text), []byte(m.pl.Text)
	case "raw16":
		return m.pl.Data, []byte(string(utf16.Decode(unitsOf(m.pl.Data))))
	}
	return []byte(m.pl.Text), []byte(m.pl.Text)
}

func unitsOf(b []byte) []uint16 {
	u := make([]uint16, len(b)/2)
	for k := range u {
		u[k] = uint16(b[2*k])<<8 | uint16(b[2*k+1])
	}
	return u
}

// sevenSure: the text certainly fits the 7-bit alphabet.
func sevenSure(text string) bool {
	if strings.ContainsRune(text, 0x1b) {
		return false
	}
	_, ok := gsmSeptets(text)
	return ok
}

// encode makes the parts of a message.
func (r *e2eRun) encode(d *e2eDevice, m *e2eMsg) bool {
	c := r.c
	in, out := m.content()
	m.text = out
	if d.d.Style == "foreign" {
		return r.foreign(d, m, in)
	}
	arg := append(make([]byte, 0, len(in)), in...)
	dcs := d.d.DCS
	simrt.InLib("Encode")
	var pdus []tpdu.TPDU
	var err error
	if d.d.Style == "encoder" {
		var opts []sms.EncoderOption
		switch {
		case m.pl.Kind == "8bit" && alphabetOf(dcs) != 1:
			opts, dcs = append(opts, sms.As8Bit), 4
		case m.pl.Kind == "ucs2" && alphabetOf(dcs) != 2:
			opts, dcs = append(opts, sms.AsUCS2), 8
		}
		opts = append(opts, encCharsets(m.pl.Charset)...)
		pdus, err = d.enc.Encode(arg, opts...)
	} else {
		t := d.tmpl
		sopts := []tpdu.SegmentationOption{tpdu.WithMR(d.mr), tpdu.WithConcatRef(d.cr)}
		if d.d.Wide {
			sopts = append(sopts, tpdu.With16BitConcatRef)
		}
		ud := tpdu.UserData(arg)
		switch {
		case m.pl.Kind == "8bit":
			if alphabetOf(dcs) != 1 {
				t.SetDCS(4)
				dcs = 4
			}
		case m.pl.Kind == "ucs2":
			if alphabetOf(dcs) != 2 {
				t.SetDCS(8)
				dcs = 8
			}
		default:
			var udh tpdu.UserDataHeader
			var a tpdu.Alphabet
			ud, udh, a = tpdu.EncodeUserData(arg, append(udCharsets(d.d.Charset), udCharsets(m.pl.Charset)...)...)
			var x tpdu.DCS
			x, err = t.DCS.WithAlphabet(a)
			if err != nil {
				err = sms.ErrDcsConflict
			}
			t.SetDCS(byte(x))
			if udh != nil {
				t.SetUDH(append(append(tpdu.UserDataHeader(nil), t.UDH...), udh...))
			}
		}
		if err == nil {
			pdus = t.Segment(ud, sopts...)
		}
	}
	simrt.InLib("")
	if !bytes.Equal(arg, in) {
		c.viol("message-altered", "C11", "encoding changed the message handed in (message %d)", m.n)
	}
	if err != nil {
		legit := errors.Is(err, sms.ErrDcsConflict) && m.pl.Kind == "text" && dcs&0x80 != 0
		if legit && sevenSure(m.pl.Text) && alphabetOf(dcs) == 0 && dcs&0xc0 == 0xc0 {
			legit = false
		}
		if !legit {
			c.viol("encode", "C09", "message %d (%q, coding scheme %#02x) is refused: %v", m.n, trim(string(m.text), 200), dcs, err)
		}
		c.stat("op.encode_refused", 1)
		return false
	}
	if len(pdus) == 0 {
		if len(in) > 0 {
			c.viol("encode", "C09", "message %d (%q) is encoded into nothing", m.n, trim(string(m.text), 200))
		}
		return false
	}
	if len(pdus) > 255 {
		room := 140 - len(encodeUDH(d.d.UDH)) - 20
		if len(in)*2 < 255*room {
			c.viol("encode", "C09", "message %d of %d octets takes %d parts", m.n, len(in), len(pdus))
		}
		return false
	}
	m.parts = len(pdus)
	m.pdus = pdus
	if m.pl.Kind != "8bit" {
		r.slicesOf(m)
	}
	// what goes over the air
	for i := range pdus {
		b, err := pdus[i].MarshalBinary()
		if err != nil {
			c.viol("wire", "C09", "message %d part %d does not marshal: %v", m.n, i+1, err)
			return false
		}
		f := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tpdu.Address{TOA: d.d.SCTOA, Addr: d.d.SCAddr}}, TPDU: b}
		h, err := f.MarshalHexString()
		if err != nil {
			c.viol("wire", "C09", "message %d part %d cannot be framed: %v", m.n, i+1, err)
			return false
		}
		fb, err := hex.DecodeString(h)
		if err != nil {
			c.viol("wire", "C09", "message %d part %d: frame %q: %v", m.n, i+1, h, err)
			return false
		}
		toa, addr, tp, err := splitFrame(fb)
		if err != nil || addr != d.d.SCAddr || addr != "" && toa != d.d.SCTOA || !bytes.Equal(tp, b) {
			c.viol("wire", "C09", "message %d part %d: frame %s does not hold service centre %02x %q and TPDU %x", m.n, i+1, h, d.d.SCTOA, d.d.SCAddr, b)
			return false
		}
		var w *wireTPDU
		if d.d.Mode == "deliver" {
			w, err = parseDeliver(tp)
		} else {
			w, err = parseSubmit(tp)
		}
		if err != nil {
			c.viol("wire", "C09", "message %d part %d: TPDU %x: %v", m.n, i+1, tp, err)
			return false
		}
		wtoa, waddr := d.d.PeerTOA, d.d.PeerAddr
		if d.d.Mode == "deliver" {
			wtoa, waddr = d.d.TOA, d.d.Addr
		}
		if w.TOA != wtoa || w.Addr != waddr || w.PID != d.d.PID || w.FO&0xa4 != d.d.FO&0xa4 {
			c.viol("wire", "C09", "message %d part %d: TPDU %x carries flags %02x, address %02x %q, protocol %02x; the template has %02x, %02x %q, %02x", m.n, i+1, tp, w.FO, w.TOA, w.Addr, w.PID, d.d.FO, wtoa, waddr, d.d.PID)
			return false
		}
		if s := d.d.lost(w); s != "" {
			c.viol("wire", "C09", "message %d part %d of %d: TPDU %x: %s", m.n, i+1, len(pdus), tp, s)
			return false
		}
		m.wires = append(m.wires, w)
	}
	return r.identify(m)
}

// lost says what a part lacks of the template's header elements and validity
// period.
func (d *E2EDev) lost(w *wireTPDU) string {
	n := 0
	for _, e := range w.UDH {
		if n < len(d.UDH) && e.ID == d.UDH[n].ID && bytes.Equal(e.Data, d.UDH[n].Data) {
			n++
		}
	}
	if n < len(d.UDH) {
		return fmt.Sprintf("its header %x lacks element %02x:%x of the template", encodeUDH(w.UDH), d.UDH[n].ID, d.UDH[n].Data)
	}
	if d.Mode == "deliver" {
		return ""
	}
	var want []byte
	switch d.VP {
	case 1:
		want = []byte{byte(d.Stamp % 100)}
	case 2:
		want = nthStamp(d.Stamp, 7).encode()
	case 3:
		want = w.VP // its forms are another property's subject
	}
	if w.FO>>3&3 != []byte{0, 2, 3, 1}[d.VP] || !bytes.Equal(w.VP, want) {
		return fmt.Sprintf("validity period %x, form %d; the template has %x, form %d", w.VP, w.FO>>3&3, want, []int{0, 2, 3, 1}[d.VP])
	}
	return ""
}

// concatOf reads the concatenation element of a header: ok if there is exactly
// one such element.
func concatOf(udh []IE) (ref, count, seq int, ok, clear bool) {
	n := 0
	clear = true
	for _, e := range udh {
		switch {
		case e.ID == 0 && len(e.Data) == 3:
			ref, count, seq = int(e.Data[0]), int(e.Data[1]), int(e.Data[2])
			n++
		case e.ID == 8 && len(e.Data) == 4:
			ref, count, seq = int(e.Data[0])<<8|int(e.Data[1]), int(e.Data[2]), int(e.Data[3])
			n++
		case e.ID == 0 || e.ID == 8:
			clear = false
		}
	}
	return ref, count, seq, n == 1, clear && n <= 1
}

func (r *e2eRun) identify(m *e2eMsg) bool {
	for i, w := range m.wires {
		ref, count, seq, ok, clear := concatOf(w.UDH)
		if m.parts == 1 {
			if ok {
				// an element for one part of one: nothing wrong with that
				ok = count < 2
			}
			if ok || clear && !ok {
				continue
			}
		}
		if !ok || !clear || count != m.parts || seq != i+1 || i > 0 && ref != m.ref {
			r.c.viol("wire", "C09 C10", "message %d part %d of %d announces part %d of %d, reference %d (the first part: %d)", m.n, i+1, m.parts, seq, count, ref, m.ref)
			return false
		}
		m.ref = ref
	}
	if m.dev.Mode == "direct" {
		m.toa, m.addr = m.dev.PeerTOA, m.dev.PeerAddr
	} else {
		m.toa, m.addr = m.dev.TOA, m.dev.Addr
	}
	for _, b := range m.rx.bad {
		if b == m.ident() {
			m.taint = true
		}
	}
	if r.pl.Gather && m.parts > 1 {
		for _, o := range r.msgs {
			if o.ok && o.parts > 1 && o.rx == m.rx && o.ident() == m.ident() {
				o.taint, m.taint = true, true
			}
		}
	}
	m.ok = true
	return true
}

func (m *e2eMsg) ident() e2eIdent {
	t := tpdu.SmsDeliver
	if m.dev.Mode == "direct" {
		t = tpdu.SmsSubmit
	}
	return e2eIdent{t, m.toa, m.addr, m.ref, m.parts}
}

// slicesOf decodes each part on its own.
func (r *e2eRun) slicesOf(m *e2eMsg) {
	var all []byte
	for i := range m.pdus {
		t := m.pdus[i]
		s, err := sms.Decode([]*tpdu.TPDU{&t})
		if err != nil {
			r.c.viol("slice", "C13", "message %d: part %d of %d does not decode on its own: %v (data %x)", m.n, i+1, m.parts, err, trim(string(t.UD), 400))
			return
		}
		if !utf8.Valid(s) {
			r.c.viol("slice", "C13", "message %d: part %d of %d alone decodes to invalid UTF-8 %q", m.n, i+1, m.parts, s)
			return
		}
		m.slices = append(m.slices, s)
		all = append(all, s...)
	}
	if !bytes.Equal(all, m.text) {
		i := 0
		for i < len(all) && i < len(m.text) && all[i] == m.text[i] {
			i++
		}
		r.c.viol("slice", "C13", "message %d of %d parts: the parts decoded one by one make up something else than the text, from octet %d on: %q instead of %q", m.n, m.parts, i, trim(string(all[i:]), 60), trim(string(m.text[i:]), 60))
	}
}

// foreign makes the parts of a sender that is not this library.
func (r *e2eRun) foreign(d *e2eDevice, m *e2eMsg, in []byte) bool {
	if n := len(in); n == 0 || m.pl.Kind == "raw16" && (n%2 != 0 || in[n-2]&0xfc == 0xd8) {
		return false
	}
	dcs, data, unit := byte(0), in, 1
	switch m.pl.Kind {
	case "text":
		data, _ = gsmSeptets(m.pl.Text)
	case "8bit":
		dcs = 4
	default:
		dcs, unit = 8, 2
	}
	single, cap := 140/unit, 134/unit
	if d.d.Wide {
		cap = 133 / unit
	}
	if dcs == 0 {
		single, cap = 160, 153
		if d.d.Wide {
			cap = 152
		}
	}
	if len(m.pl.Extra) > 0 || m.pl.One {
		single, cap = single-20, cap-20
	}
	n := len(data) / unit
	var cuts [][]byte
	if n <= single && (m.pl.Cut == 0 || n < 2) {
		cuts = [][]byte{data}
	} else {
		if m.pl.Cut != 0 && m.pl.Cut < cap && n/m.pl.Cut < 200 {
			cap = m.pl.Cut
		}
		if cap < 2 && m.pl.Kind != "8bit" && m.pl.Kind != "cut16" && m.pl.Kind != "raw16" {
			cap = 2
		}
		for len(data) > 0 {
			k := min(cap*unit, len(data))
			if k < len(data) {
				switch m.pl.Kind {
				case "text":
					if data[k-1] == 0x1b {
						k--
					}
				case "ucs2":
					if data[k-2]&0xfc == 0xd8 {
						k -= 2
					}
				case "cut16", "raw16":
					// cut through a character if there is one within reach
					for j := k; j > k-8 && j > 2; j -= 2 {
						if data[j-2]&0xfc == 0xd8 {
							k = j
							break
						}
					}
				}
			}
			cuts = append(cuts, data[:k])
			data = data[k:]
		}
		if len(cuts) > 255 {
			return false
		}
	}
	m.parts = len(cuts)
	for i, cut := range cuts {
		h := r.hash(1, m.n, i)
		w := &wireTPDU{FO: byte(h.Next()) & 0xac, TOA: d.d.TOA, Addr: d.d.Addr, PID: d.d.PID, DCS: dcs, UD: cut}
		if m.parts > 1 || m.pl.One {
			w.FO |= 0x40
			e := IE{0, []byte{byte(m.pl.Ref), byte(m.parts), byte(i + 1)}}
			if d.d.Wide {
				e = IE{8, []byte{byte(m.pl.Ref >> 8), byte(m.pl.Ref), byte(m.parts), byte(i + 1)}}
			}
			w.UDH = []IE{e}
		}
		for k, e := range m.pl.Extra {
			w.FO |= 0x40
			if k%2 == 0 {
				w.UDH = append(w.UDH, e)
			} else {
				w.UDH = append([]IE{e}, w.UDH...)
			}
		}
		m.wires = append(m.wires, w)
		if m.pl.Kind == "text" {
			var sb strings.Builder
			for k := 0; k < len(cut); k++ {
				if cut[k] == 0x1b {
					k++
					sb.WriteRune(gsmExt[cut[k]])
				} else {
					sb.WriteRune(gsmDefault[cut[k]])
				}
			}
			m.slices = append(m.slices, []byte(sb.String()))
		} else if n := len(cut); unit == 2 && cut[n-2]&0xfc == 0xd8 {
			// the second half of its last character is in the next part
			m.slices = append(m.slices, nil)
		} else if unit == 2 {
			m.slices = append(m.slices, []byte(string(utf16.Decode(unitsOf(cut)))))
		}
	}
	return r.identify(m)
}

// send encodes a message and puts its parts on the network, again and again if
// that is the plan.
func (r *e2eRun) send(d *e2eDevice, m *e2eMsg) {
	if !r.encode(d, m) {
		return
	}
	r.c.logf("t=%d device %d sends message %d (%s, %d octets) in %d parts, reference %d", simrt.Clock(), m.pl.Dev, m.n, m.pl.Kind, len(m.text), m.parts, m.ref)
	r.c.stat("msg.sent", 1)
	r.c.stat("msg.parts", int64(m.parts))
	for i := 0; i < m.parts; i++ {
		r.transmit(m, i, 0)
	}
	for k, at := range m.pl.Resends {
		k, at := k, at
		simrt.AfterFunc(at, func() {
			for i := 0; i < m.parts; i++ {
				if r.hash(2, m.n, i, k).P(0.5) {
					r.c.stat("fault.part_resent", 1)
					r.transmit(m, i, k+1)
				}
			}
		})
	}
}

// frame is what the service centre makes of a part.
func (r *e2eRun) frame(m *e2eMsg, part int) *e2eFrame {
	n := r.frames
	r.frames++
	d := m.dev
	f := &e2eFrame{id: n, msg: m.n, part: part, rx: m.rx, scTOA: d.SCTOA, scAddr: d.SCAddr}
	h := r.hash(3, n)
	w := *m.wires[part]
	var tp []byte
	switch {
	case d.Mode == "direct":
		b, err := m.pdus[part].MarshalBinary()
		if err != nil {
			r.c.viol("wire", "C09", "message %d part %d does not marshal again: %v", m.n, part+1, err)
			return nil
		}
		tp = b
		w.VP = nil
	case d.Style == "foreign":
		w.SCTS = nthStamp(d.Stamp, n)
		tp = w.encodeDeliver()
	case d.Mode == "deliver":
		w.SCTS = nthStamp(d.Stamp, n)
		t := m.pdus[part]
		t.SCTS = tpdu.Timestamp{Time: w.SCTS.time()}
		b, err := t.MarshalBinary()
		if err != nil {
			r.c.viol("wire", "C09", "message %d part %d does not marshal with its time stamp: %v", m.n, part+1, err)
			return nil
		}
		w2, err := parseDeliver(b)
		if err != nil || w2.key() != w.key() {
			r.c.viol("wire", "C09", "message %d part %d with time stamp %v: TPDU %x (%v)", m.n, part+1, w.SCTS, b, err)
			return nil
		}
		tp = b
	default:
		w.FO = w.FO&0xc0 | byte(h.Next())&0x2c
		w.MR = 0
		w.VP = nil
		w.TOA, w.Addr = d.TOA, d.Addr
		w.SCTS = nthStamp(d.Stamp, n)
		tp = w.encodeDeliver()
	}
	f.key = w.key()
	if _, ok := m.rx.keys[f.key]; !ok {
		m.rx.keys[f.key] = [2]int{m.n, part}
	}
	f.octets = encodeFrame(d.SCTOA, d.SCAddr, tp)
	r.all = append(r.all, f)
	return f
}

func (r *e2eRun) transmit(m *e2eMsg, part, round int) {
	f := r.frame(m, part)
	if f == nil {
		return
	}
	h := r.hash(4, m.n, part, round)
	c := r.c
	copies := 1
	for h.P(r.pl.Dup) && copies < 4 {
		copies++
		c.stat("fault.frame_duplicated", 1)
	}
	for k := 0; k < copies; k++ {
		d := int64(0)
		if r.pl.MaxDelay > 0 {
			d = int64(h.Intn(int(r.pl.MaxDelay)))
		}
		if h.P(r.pl.Drop) {
			c.stat("fault.frame_dropped", 1)
			continue
		}
		c.stat("net.frame_delayed", 1)
		simrt.AfterFunc(d, func() { r.receive(f) })
	}
	for x := r.pl.Corrupt; x > 0; x-- {
		if h.P(x) {
			d := int64(0)
			if r.pl.MaxDelay > 0 {
				d = int64(h.Intn(int(r.pl.MaxDelay)))
			}
			k := simrt.NewRNG(h.Next())
			simrt.AfterFunc(d, func() {
				if !r.pl.NoCorrupt {
					r.corrupt(f, k)
				}
			})
		}
	}
}

// unmarshalAgain unmarshals into the receiver's one variable, if it has one
// and no other task is just using it, and returns a copy.
func (r *e2eRun) unmarshalAgain(rx *e2eRx, b []byte, mo bool) (*tpdu.TPDU, error) {
	if !r.pl.Reuse || rx.busy {
		return nil, nil
	}
	rx.busy = true
	simrt.Consume(unsafe.Pointer(&rx.edge))
	rx.again.Direction = tpdu.MT
	if mo {
		rx.again.Direction = tpdu.MO
	}
	err := rx.again.UnmarshalBinary(b)
	cp := rx.again
	simrt.Publish(unsafe.Pointer(&rx.edge))
	rx.busy = false
	r.c.stat("op.variable_reused", 1)
	if err != nil {
		return nil, err
	}
	return &cp, nil
}

// receive is the whole receive path for one good frame.
func (r *e2eRun) receive(f *e2eFrame) {
	c := r.c
	m := r.msgs[f.msg]
	h := r.hash(5, f.id, m.deliver)
	what := fmt.Sprintf("message %d part %d of %d", f.msg, f.part+1, m.parts)
	simrt.InLib("receive")
	defer simrt.InLib("")
	buf := append(make([]byte, 0, len(f.octets)+h.Intn(8)), f.octets...)
	var p *pdumode.PDU
	var err error
	if h.P(0.5) {
		s := hex.EncodeToString(buf)
		if h.P(0.5) {
			s = strings.ToUpper(s)
		}
		p, err = pdumode.UnmarshalHexString(s)
	} else {
		p, err = pdumode.UnmarshalBinary(buf)
	}
	if err != nil {
		c.viol("framing", "C09", "%s: frame %x is refused: %v", what, f.octets, err)
		return
	}
	if p.SMSC.Addr != f.scAddr || f.scAddr != "" && p.SMSC.TOA != f.scTOA {
		c.viol("framing", "C09", "%s: frame %x: service centre %02x %q instead of %02x %q", what, f.octets, p.SMSC.TOA, p.SMSC.Addr, f.scTOA, f.scAddr)
		return
	}
	var t *tpdu.TPDU
	if t, err = r.unmarshalAgain(f.rx, p.TPDU, f.rx.mo); t != nil || err != nil {
	} else if f.rx.mo {
		t, err = sms.Unmarshal(p.TPDU, sms.AsMO)
	} else if h.P(0.5) {
		t, err = sms.Unmarshal(p.TPDU)
	} else {
		t, err = sms.Unmarshal(p.TPDU, sms.AsMT)
	}
	if err != nil {
		c.viol("unmarshal", "C09", "%s: TPDU %x is refused: %v", what, p.TPDU, err)
		return
	}
	if !bytes.Equal(buf, f.octets) {
		c.viol("buffer-written", "C14", "%s: unmarshalling changed the receive buffer %x into %x", what, f.octets, buf)
	}
	if k := wireOf(t).key(); k != f.key {
		c.viol("altered", "C09", "%s: sent %s, received %s", what, f.key, k)
		return
	}
	clobber := func() {
		for i := range buf {
			buf[i] = 0xee
		}
		for i := range p.TPDU {
			p.TPDU[i] = 0xee
		}
	}
	late := h.P(0.3)
	if !late {
		clobber()
		if k := wireOf(t).key(); k != f.key {
			c.viol("buffer", "C14", "%s: overwriting the receive buffer turned %s into %s", what, f.key, k)
			return
		}
	}
	if r.pl.Gather {
		r.gather(f, m, t, what)
	} else {
		r.collect(f, m, t, what)
	}
	if late {
		clobber()
		if k := wireOf(t).key(); k != f.key {
			c.viol("buffer", "C14", "%s: overwriting the receive buffer after collecting turned %s into %s", what, f.key, k)
		}
	}
}

func (r *e2eRun) collect(f *e2eFrame, m *e2eMsg, t *tpdu.TPDU, what string) {
	c := r.c
	g := f.rx.cur
	pk := [2]int{f.msg, f.part}
	g.invoked[pk]++
	set, err := g.col.Collect(*t)
	res := "set"
	switch {
	case err != nil:
		res = err.Error()
	case set == nil:
		res = "pending"
	}
	c.logf("t=%d receiver %d.%d collects frame %d: %s: %s", simrt.Clock(), f.rx.n, g.n, f.id, what, res)
	multi := m.parts > 1
	switch {
	case err != nil && errors.Is(err, sms.ErrClosed) && g.closing:
		c.stat("fault.frame_lost_in_restart", 1)
	case m.taint:
		if set != nil {
			r.inspect(f.rx, set, what)
		}
	case err != nil && errors.Is(err, sms.ErrDuplicateSegment) && multi:
		c.stat("net.duplicate_refused", 1)
		if g.invoked[pk] < 2 {
			c.viol("refused", "C09", "%s: refused as a duplicate, and it was never seen before", what)
		}
	case err != nil:
		c.viol("refused", "C09", "%s: refused: %v", what, err)
	case set == nil:
		if !multi {
			c.viol("delivered", "C09", "%s: held back", what)
			return
		}
		r.accept(g, f.key)
	default:
		r.accept(g, f.key)
		if r.inspect(f.rx, set, what) {
			r.complete(f, g, m, set, what)
		}
	}
}

func (r *e2eRun) accept(g *e2eGen, key string) {
	if g.acc[key] == 0 {
		g.keys = append(g.keys, key)
	}
	g.acc[key]++
}

// inspect sees that a set does not mix good parts with others.
func (r *e2eRun) inspect(rx *e2eRx, set []*tpdu.TPDU, what string) bool {
	bad := -1
	for i, t := range set {
		if t == nil {
			continue
		}
		if _, ok := rx.keys[wireOf(t).key()]; !ok {
			bad = i
		}
	}
	if bad < 0 {
		return true
	}
	k := wireOf(set[bad]).key()
	if !rx.badK[k] {
		r.c.viol("invented", "C09", "%s: handed over in position %d: %s, which was never sent", what, bad+1, k)
		return false
	}
	for _, t := range set {
		if t == nil {
			continue
		}
		if mp, ok := rx.keys[wireOf(t).key()]; ok && !r.msgs[mp[0]].taint {
			r.c.viol("mixed", "C08", "%s: a set mixes a part of message %d with the foreign TPDU %s", what, mp[0], k)
		}
	}
	return false
}

// complete checks a set handed over as a whole message.
func (r *e2eRun) complete(f *e2eFrame, g *e2eGen, m *e2eMsg, set []*tpdu.TPDU, what string) {
	c := r.c
	own := false
	keys := make([]string, len(set))
	if len(set) != m.parts {
		c.viol("delivered", "C09", "%s: a set of %d parts is handed over", what, len(set))
		return
	}
	for i, t := range set {
		if t == nil {
			c.viol("delivered", "C09", "%s: handed over without part %d", what, i+1)
			return
		}
		keys[i] = wireOf(t).key()
		mp := f.rx.keys[keys[i]]
		if keys[i] != f.key && (mp[0] != m.n || mp[1] != i) {
			c.viol("delivered", "C09", "%s: in position %d is part %d of message %d", what, i+1, mp[1]+1, mp[0])
			return
		}
		own = own || keys[i] == f.key && i == f.part
		g.done[keys[i]]++
	}
	if !own {
		c.viol("delivered", "C09", "%s: the set handed over does not hold it", what)
		return
	}
	if !sms.IsCompleteMessage(set) {
		c.viol("delivered", "C09", "%s: the set handed over is taken for incomplete", what)
		return
	}
	m.deliver++
	h := r.hash(6, f.id)
	var opts []sms.DecodeOption
	if h.P(0.3) {
		opts = append(opts, sms.WithCharset(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13))
	}
	d1, err := sms.Decode(set, opts...)
	if err != nil {
		c.viol("decode", decProp(m), "message %d (%q) arrived whole and does not decode: %v", m.n, trim(string(m.text), 200), err)
		return
	}
	if !bytes.Equal(d1, m.text) {
		i := 0
		for i < len(d1) && i < len(m.text) && d1[i] == m.text[i] {
			i++
		}
		c.viol("decode", decProp(m), "message %d (%s, %d parts) comes out different from octet %d on: %q instead of %q", m.n, m.pl.Kind, m.parts, i, trim(string(d1[i:]), 60), trim(string(m.text[i:]), 60))
		return
	}
	c.stat("msg.delivered", 1)
	for i, t := range set {
		if k := wireOf(t).key(); k != keys[i] {
			c.viol("decode-writes", "C14", "%s: decoding changed part %d from %s to %s", what, i+1, keys[i], k)
			return
		}
	}
	if h.P(0.3) {
		d2, err := sms.Decode(set)
		if err != nil || !bytes.Equal(d1, d2) {
			c.viol("redecode", "C14", "%s: decoded again the message is %q (%v) instead of %q", what, d2, err, d1)
		}
	}
}

// decProp: the property that a whole message decoding wrong breaks.
func decProp(m *e2eMsg) string {
	if m.pl.Kind == "raw16" {
		return "C13"
	}
	return "C09"
}

// expired is the expiry handler of a receiver.
func (r *e2eRun) expired(rx *e2eRx, g *e2eGen, set []*tpdu.TPDU) {
	c := r.c
	what := fmt.Sprintf("receiver %d.%d, expiry", rx.n, g.n)
	held := 0
	mi := -1
	taint := false
	bad := false
	for i, t := range set {
		if t == nil {
			continue
		}
		held++
		k := wireOf(t).key()
		g.exp[k]++
		mp, ok := rx.keys[k]
		if !ok {
			bad = true
			continue
		}
		if r.msgs[mp[0]].taint {
			taint = true
		}
		if mi >= 0 && mi != mp[0] || mp[1] != i {
			if !taint {
				c.viol("delivered", "C09", "%s: part %d of message %d is in position %d of a set with parts of message %d", what, mp[1]+1, mp[0], i+1, mi)
			}
			return
		}
		mi = mp[0]
	}
	c.logf("t=%d %s: %d of %d parts of message %d", simrt.Clock(), what, held, len(set), mi)
	if bad {
		r.inspect(rx, set, what)
		sms.Decode(set[:0])
		for _, t := range set {
			if t != nil {
				sms.Decode([]*tpdu.TPDU{t})
			}
		}
		return
	}
	if mi < 0 {
		c.viol("delivered", "C09", "%s: an empty set", what)
		return
	}
	m := r.msgs[mi]
	if m.taint {
		return
	}
	if len(set) != m.parts || held == m.parts {
		c.viol("delivered", "C09", "%s: %d of %d parts of message %d, which has %d", what, held, len(set), mi, m.parts)
		return
	}
	c.stat("msg.expired", 1)
	if m.slices == nil {
		return
	}
	for i, t := range set {
		if t == nil {
			continue
		}
		s, err := sms.Decode([]*tpdu.TPDU{t})
		if m.slices[i] == nil {
			var half ucs2.ErrDanglingSurrogate
			if !errors.As(err, &half) {
				c.viol("slice", "C13", "%s: surviving part %d of %d of message %d, which ends with half a character, decodes to %q (%v)", what, i+1, m.parts, mi, s, err)
				return
			}
			c.stat("msg.halves", 1)
			continue
		}
		if err != nil || !bytes.Equal(s, m.slices[i]) {
			c.viol("slice", "C13", "%s: surviving part %d of %d of message %d decodes to %q (%v) instead of its slice %q", what, i+1, m.parts, mi, s, err, m.slices[i])
			return
		}
		c.stat("msg.survivors", 1)
	}
}

// final sends every message once more, without faults.
func (r *e2eRun) final() {
	for _, m := range r.msgs {
		if !m.ok {
			continue
		}
		before := m.deliver
		h := r.hash(7, m.n)
		ord := make([]int, m.parts)
		for i := range ord {
			ord[i] = i
			if j := h.Intn(i + 1); h.P(0.5) {
				ord[i], ord[j] = ord[j], ord[i]
			}
		}
		for _, i := range ord {
			f := r.frame(m, i)
			if f == nil {
				return
			}
			r.receive(f)
		}
		if n := m.deliver - before; n >= 1 && r.pl.Gather {
			// whole, as often as the receiver looked
		} else if n != 1 && !m.taint && len(r.c.out.Viols) == 0 {
			if r.pl.Gather {
				r.c.viol("liveness", "C21", "with no faults any more, all %d parts of message %d arrived, and it was never judged complete", m.parts, m.n)
				continue
			}
			r.c.viol("liveness", "C09", "with no faults any more, all %d parts of message %d arrived, and it was handed over %d times", m.parts, m.n, n)
		}
	}
}

// settle takes stock of what every receiver accepted and handed over.
func (r *e2eRun) settle() {
	c := r.c
	for _, rx := range r.rx {
		for _, g := range rx.gens {
			simrt.InLib("Pipes")
			snap := g.col.Pipes()
			simrt.InLib("")
			pend := map[string]int{}
			for _, name := range sortedKeys(snap) {
				set := snap[name]
				held := 0
				what := fmt.Sprintf("receiver %d.%d, still pending", rx.n, g.n)
				for _, t := range set {
					if t != nil {
						held++
						pend[wireOf(t).key()]++
					}
				}
				if held == len(set) || held == 0 {
					c.viol("delivered", "C09", "%s: a reassembly with %d of %d parts", what, held, len(set))
				}
				r.inspect(rx, set, what)
			}
			for _, k := range g.keys {
				mp := rx.keys[k]
				m := r.msgs[mp[0]]
				if m.taint || m.parts < 2 {
					continue
				}
				out := g.done[k] + g.exp[k] + pend[k]
				if g.acc[k] != out && (r.pl.Handler || r.pl.Timeout == 0 || out > g.acc[k]) {
					c.viol("conservation", "C09 C02", "receiver %d.%d: part %d of message %d was accepted %d times; %d in whole messages, %d expired, %d still pending", rx.n, g.n, mp[1]+1, mp[0], g.acc[k], g.done[k], g.exp[k], pend[k])
					return
				}
			}
		}
	}
}
