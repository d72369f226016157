package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	stdtime "time"
	"unsafe"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"verif/simrt"
)

// The exchange scenario: devices submit and command, service centres report,
// deliver and report on status, devices acknowledge; all six types of TPDU in
// PDU-mode frames over a faulty network, every octet and every value judged
// by an independent reading of 3GPP TS 23.040.

var xTypes = map[string]struct {
	mti  byte
	mo   bool
	typ  tpdu.SmsType
	room int
}{
	"submit":  {1, true, tpdu.SmsSubmit, 140},
	"deliver": {0, false, tpdu.SmsDeliver, 140},
	"command": {2, true, tpdu.SmsCommand, 130},
	"status":  {2, false, tpdu.SmsStatusReport, 131},
	"sreport": {1, false, tpdu.SmsSubmitReport, 151},
	"dreport": {0, true, tpdu.SmsDeliverReport, 158},
}

// headed reports whether there is a header, if an empty one.
func (t *XT) headed() bool {
	return t.Hdr0 || len(t.UDH) > 0
}

// header is the octets of the header.
func (t *XT) header() []byte {
	if t.Hdr0 {
		return []byte{0}
	}
	return encodeUDH(t.UDH)
}

func (t *XT) firstOctet() byte {
	fo := t.FO | xTypes[t.Type].mti
	if t.Type == "submit" {
		fo |= byte(t.VPF) << 3
	}
	if t.headed() {
		fo |= 0x40
	}
	return fo
}

// encode is the octets of a TPDU.
func (t *XT) encode() []byte {
	w := wireTPDU{FO: t.firstOctet(), DCS: t.DCS, UDH: t.UDH, UD: t.UD}
	if t.PI&2 == 0 && (t.Type == "status" || t.Type == "sreport" || t.Type == "dreport") {
		w.DCS = 0
	}
	out := []byte{t.firstOctet()}
	encodeUD := func() []byte {
		if h := t.header(); len(h) > 0 && len(w.UD) == 0 && alphabetOf(w.DCS) == 0 {
			// A header and no text: the length counts the septets that the
			// header fills, or also the one it ends in, and its fill bits.
			if t.Fill {
				n := (len(h)*8 + 6) / 7
				for len(h) < (n*7+7)/8 {
					h = append(h, 0)
				}
				return append([]byte{byte(n)}, h...)
			}
			return append([]byte{byte(len(h) * 8 / 7)}, h...)
		}
		return w.encodeUD()
	}
	optional := func() {
		if t.PI&1 != 0 {
			out = append(out, t.PID)
		}
		if t.PI&2 != 0 {
			out = append(out, t.DCS)
		}
		if t.PI&4 != 0 {
			out = append(out, encodeUD()...)
		}
	}
	switch t.Type {
	case "submit":
		out = append(out, t.MR)
		out = append(out, encodeAddr(t.TOA, t.Addr)...)
		out = append(out, t.PID, t.DCS)
		out = append(out, t.vp()...)
		out = append(out, encodeUD()...)
	case "deliver":
		out = append(out, encodeAddr(t.TOA, t.Addr)...)
		out = append(out, t.PID, t.DCS)
		out = append(out, t.SCTS.encode()...)
		out = append(out, encodeUD()...)
	case "command":
		out = append(out, t.MR, t.PID, t.CT, t.MN)
		out = append(out, encodeAddr(t.TOA, t.Addr)...)
		w.DCS = 4
		out = append(out, encodeUD()...)
	case "status":
		out = append(out, t.MR)
		out = append(out, encodeAddr(t.TOA, t.Addr)...)
		out = append(out, t.SCTS.encode()...)
		out = append(out, t.DT.encode()...)
		out = append(out, t.ST)
		if t.PI != 0 || t.Bare0 {
			out = append(out, t.PI)
		}
		optional()
	case "sreport", "dreport":
		if t.FCS != 0 {
			out = append(out, t.FCS)
		}
		out = append(out, t.PI)
		if t.Type == "sreport" {
			out = append(out, t.SCTS.encode()...)
		}
		optional()
	}
	return out
}

func (t *XT) vpStamp() stamp {
	return stamp{t.VP[0], t.VP[1], t.VP[2], t.VP[3], t.VP[4], t.VP[5], t.VP[6]}
}

func (t *XT) vp() []byte {
	switch t.VPF {
	case 1:
		b := make([]byte, 7)
		b[0] = byte(t.VP[0])
		switch t.VP[0] & 7 {
		case 1, 2:
			b[1] = byte(t.VP[1])
		case 3:
			b[1], b[2], b[3] = bcdSwap(t.VP[1]), bcdSwap(t.VP[2]), bcdSwap(t.VP[3])
		}
		return b
	case 2:
		return []byte{byte(t.VP[1])}
	case 3:
		return t.vpStamp().encode()
	}
	return nil
}

// relative is the period a relative validity period stands for (9.2.3.12.1).
func relative(v int) stdtime.Duration {
	switch {
	case v <= 143:
		return stdtime.Duration(v+1) * 5 * stdtime.Minute
	case v <= 167:
		return 12*stdtime.Hour + stdtime.Duration(v-143)*30*stdtime.Minute
	case v <= 196:
		return stdtime.Duration(v-166) * 24 * stdtime.Hour
	}
	return stdtime.Duration(v-192) * 7 * 24 * stdtime.Hour
}

func (t *XT) vpDuration() stdtime.Duration {
	switch {
	case t.VPF == 2, t.VPF == 1 && t.VP[0]&7 == 1:
		return relative(t.VP[1])
	case t.VPF == 1 && t.VP[0]&7 == 2:
		return stdtime.Duration(t.VP[1]) * stdtime.Second
	case t.VPF == 1 && t.VP[0]&7 == 3:
		return stdtime.Duration(t.VP[1])*stdtime.Hour + stdtime.Duration(t.VP[2])*stdtime.Minute + stdtime.Duration(t.VP[3])*stdtime.Second
	}
	return 0
}

func addrOf(toa byte, addr string, how int) tpdu.Address {
	if toa == 0x91 && how == 1 {
		return tpdu.NewAddress(tpdu.FromNumber("+" + addr))
	}
	if toa == 0x91 && how == 2 && (addr == "" || addr[0] != '+') {
		a := tpdu.NewAddress()
		a.SetNumber(addr)
		return a
	}
	if toa&0x80 != 0 && how == 3 {
		a := tpdu.NewAddress(func(a tpdu.Address) tpdu.Address { a.Addr = addr; return a })
		if len(addr)%2 == 1 {
			a.TOA |= 0x7f // as of some other address
		}
		a.SetNumberingPlan(tpdu.NumberingPlan(toa & 15))
		a.SetTypeOfNumber(tpdu.TypeOfNumber(toa >> 4 & 7))
		return a
	}
	return tpdu.Address{TOA: toa, Addr: addr}
}

// dcsOf is a coding scheme, put together from what it says where that can be.
func dcsOf(dcs byte, how int) byte {
	if how < 2 || dcs&0x80 != 0 && dcs&0xf8 != 0xf0 || dcs&0x0c == 0x0c {
		return dcs
	}
	d := tpdu.DCS(dcs &^ 0x0c)
	class := dcs&0x90 == 0x10 || dcs&0xf0 == 0xf0
	if class {
		d = tpdu.DCS(dcs & 0xe0)
		if dcs&0x80 != 0 {
			d = 0xf0
		}
	}
	steps := []func() error{
		func() (err error) { d, err = d.WithAlphabet(tpdu.Alphabet(dcs >> 2 & 3)); return },
		func() (err error) {
			if class {
				d, err = d.WithClass(tpdu.MessageClass(dcs & 3))
			}
			return
		},
	}
	for i := range steps {
		if steps[(i+how)%2]() != nil {
			return dcs
		}
	}
	return byte(d)
}

// build makes the TPDU with the library, in one of the ways there are.
// With how 2 and 3, prev is the variable that held what was sent before.
func (t *XT) build(how int, prev *tpdu.TPDU) (*tpdu.TPDU, error) {
	order := how / 4
	how %= 4
	x := xTypes[t.Type]
	a := addrOf(t.TOA, t.Addr, how)
	ud := tpdu.UserData(append([]byte(nil), t.UD...))
	var udh tpdu.UserDataHeader
	if len(t.UDH) > 0 {
		udh = ies(t.UDH)
	} else if t.Hdr0 {
		udh = tpdu.UserDataHeader{}
	}
	vp := tpdu.ValidityPeriod{}
	if how >= 2 {
		// set to something else before
		vp.SetEnhanced(5*stdtime.Minute, 0x41)
		vp.SetAbsolute(tpdu.Timestamp{Time: t.SCTS.time()})
		vp.SetRelative(30 * stdtime.Minute)
		if t.VPF == 0 {
			vp = tpdu.ValidityPeriod{}
		}
	}
	switch t.VPF {
	case 1:
		vp.SetEnhanced(t.vpDuration(), byte(t.VP[0]))
	case 2:
		vp.SetRelative(t.vpDuration())
	case 3:
		vp.SetAbsolute(tpdu.Timestamp{Time: t.vpStamp().time()})
	}
	rep := t.Type == "status" || t.Type == "sreport" || t.Type == "dreport"
	p := &tpdu.TPDU{}
	if prev != nil && how >= 2 {
		p = prev
		p.SetUD(nil)
		p.SetUDH(nil)
		if p.SmsType() == tpdu.SmsSubmit && t.Type == "submit" {
			p.FirstOctet &= 0x5b // the validity period is set again
		} else {
			p.SetVP(tpdu.ValidityPeriod{})
			p.FirstOctet &= 0x43
		}
		if how == 2 {
			p.PI = 0
		}
		p.PI &= tpdu.PiUDL
		p.DCS = 0
	}
	setters := func() {
		steps := []func(){
			func() {
				if !rep || t.PI&2 != 0 {
					p.SetDCS(dcsOf(t.DCS, how))
				}
			},
			func() {
				if !rep || t.PI&1 != 0 {
					p.SetPID(t.PID)
				}
			},
			func() {
				if !rep || t.PI&4 != 0 {
					if ud == nil {
						ud = tpdu.UserData{}
					}
					p.SetUD(ud)
				}
			},
			func() {
				if (!rep || t.PI&4 != 0) && udh != nil {
					p.SetUDH(udh)
				}
			},
			func() {
				if t.Type == "submit" {
					p.SetVP(vp)
				}
			},
		}
		for i := range steps {
			if order != 0 {
				i = (i + order) * 3 % len(steps)
			}
			steps[i]()
		}
	}
	switch how {
	case 0:
		p.Direction = tpdu.MT
		if x.mo {
			p.Direction = tpdu.MO
		}
		p.FirstOctet = tpdu.FirstOctet(t.firstOctet())
		if order > 2 {
			fo := p.FirstOctet&^3 | 3
			if t.Type == "submit" {
				fo = (fo ^ 0x18).WithVPF(tpdu.ValidityPeriodFormat(t.VPF))
			}
			p.FirstOctet = fo.WithMTI(tpdu.MessageType(x.mti))
		}
		p.PI = tpdu.PI(t.PI)
		p.PID, p.DCS, p.UD, p.UDH = t.PID, tpdu.DCS(t.DCS), ud, udh
		p.VP = vp
		p.OA, p.DA, p.RA = a, a, a
	case 1:
		var err error
		opts := []tpdu.Option{tpdu.WithDA(a), tpdu.WithOA(a)}
		if !rep || t.PI&2 != 0 {
			opts = append(opts, tpdu.DCS(t.DCS))
		}
		if udh != nil {
			opts = append(opts, tpdu.WithUDH(udh))
		}
		switch t.Type {
		case "submit":
			p, err = tpdu.NewSubmit(opts...)
		case "deliver":
			p, err = tpdu.NewDeliver(opts...)
		default:
			p, err = tpdu.New(append(opts, x.typ)...)
		}
		if err != nil {
			return nil, err
		}
		p.FirstOctet |= tpdu.FirstOctet(t.FO)
		p.RA = a
		udh = nil
		setters()
	case 2:
		if err := p.SetSmsType(x.typ); err != nil {
			return nil, err
		}
		p.FirstOctet |= tpdu.FirstOctet(t.FO)
		p.OA, p.DA, p.RA = a, a, a
		setters()
	case 3:
		p.OA, p.DA, p.RA = a, a, a
		setters()
		p.FirstOctet |= tpdu.FirstOctet(t.FO)
		if err := p.SetSmsType(x.typ); err != nil {
			return nil, err
		}
	}
	if rep {
		p.PI |= tpdu.PI(t.PI &^ 7) // reserved bits
	}
	p.MR, p.CT, p.MN, p.ST, p.FCS = t.MR, t.CT, t.MN, t.ST, t.FCS
	p.SCTS, p.DT = tpdu.Timestamp{Time: t.SCTS.time()}, tpdu.Timestamp{Time: t.DT.time()}
	return p, nil
}

// differs says in what a received TPDU differs from what was sent.
func (t *XT) differs(p *tpdu.TPDU) string {
	var sb strings.Builder
	cmp := func(what string, want, got any) {
		if want != got {
			fmt.Fprintf(&sb, " %s %v instead of %v;", what, got, want)
		}
	}
	addr := func(what string, a tpdu.Address) {
		cmp(what+" type", t.TOA, a.TOA)
		cmp(what, fmt.Sprintf("%q", t.Addr), fmt.Sprintf("%q", a.Addr))
		cmp(what+" type of number", int(t.TOA>>4&7), int(a.TypeOfNumber()))
		cmp(what+" numbering plan", int(t.TOA&15), int(a.NumberingPlan()))
		n := t.Addr
		if t.TOA>>4&7 == 1 {
			n = "+" + n
		}
		cmp(what+" number", fmt.Sprintf("%q", n), fmt.Sprintf("%q", a.Number()))
	}
	x := xTypes[t.Type]
	fo := t.firstOctet()
	cmp("type", int(x.typ), int(p.SmsType()))
	cmp("message type", int(fo&3), int(p.MTI()))
	cmp("first octet", fo, byte(p.FirstOctet))
	cmp("UDHI", fo&0x40 != 0, p.UDHI())
	f := p.FirstOctet
	dcs, ud := t.DCS, true
	switch t.Type {
	case "submit":
		cmp("RD", fo&4 != 0, f.RD())
		cmp("SRR", fo&0x20 != 0, f.SRR())
		cmp("RP", fo&0x80 != 0, f.RP())
		cmp("VPF", t.VPF, int(f.VPF()))
		cmp("MR", t.MR, p.MR)
		addr("DA", p.DA)
		cmp("PID", t.PID, p.PID)
		cmp("format of the validity period", t.VPF, int(p.VP.Format))
		switch t.VPF {
		case 3:
			cmp("validity period", t.vpStamp(), stampOf(p.VP.Time.Time))
			cmp("validity period", t.vpStamp().time().Unix(), p.VP.Time.Unix())
		case 1:
			cmp("EFI", byte(t.VP[0]), p.VP.EFI)
			cmp("kind of validity period", t.VP[0]&7, int(tpdu.EnhancedFormat(p.VP.EFI)))
			cmp("validity period", t.vpDuration(), stdtime.Duration(p.VP.Duration))
		case 2:
			cmp("validity period", t.vpDuration(), stdtime.Duration(p.VP.Duration))
		}
	case "deliver":
		cmp("MMS", fo&4 != 0, f.MMS())
		cmp("LP", fo&8 != 0, f.LP())
		cmp("SRI", fo&0x20 != 0, f.SRI())
		cmp("RP", fo&0x80 != 0, f.RP())
		addr("OA", p.OA)
		cmp("PID", t.PID, p.PID)
		cmp("SCTS", t.SCTS, stampOf(p.SCTS.Time))
		cmp("SCTS", t.SCTS.time().Unix(), p.SCTS.Unix())
	case "command":
		cmp("SRR", fo&0x20 != 0, f.SRR())
		cmp("MR", t.MR, p.MR)
		cmp("PID", t.PID, p.PID)
		cmp("CT", t.CT, p.CT)
		cmp("MN", t.MN, p.MN)
		addr("DA", p.DA)
		dcs = byte(p.DCS) // not carried
	case "status":
		cmp("MMS", fo&4 != 0, f.MMS())
		cmp("LP", fo&8 != 0, f.LP())
		cmp("SRQ", fo&0x20 != 0, f.SRQ())
		cmp("MR", t.MR, p.MR)
		addr("RA", p.RA)
		cmp("SCTS", t.SCTS, stampOf(p.SCTS.Time))
		cmp("DT", t.DT, stampOf(p.DT.Time))
		cmp("DT", t.DT.time().Unix(), p.DT.Unix())
		cmp("ST", t.ST, p.ST)
	case "sreport":
		cmp("SCTS", t.SCTS, stampOf(p.SCTS.Time))
	}
	if t.Type == "sreport" || t.Type == "dreport" {
		cmp("FCS", t.FCS, p.FCS)
	}
	if t.Type == "status" || t.Type == "sreport" || t.Type == "dreport" {
		cmp("PI", t.PI, byte(p.PI))
		cmp("PI with PID", t.PI&1 != 0, p.PI.PID())
		cmp("PI with DCS", t.PI&2 != 0, p.PI.DCS())
		cmp("PI with UDL", t.PI&4 != 0, p.PI.UDL())
		if t.PI&1 != 0 {
			cmp("PID", t.PID, p.PID)
		}
		if t.PI&2 == 0 {
			dcs = 0
		}
		ud = t.PI&4 != 0
	}
	cmp("DCS", dcs, byte(p.DCS))
	if t.Type != "command" {
		a, err := p.Alphabet()
		cmp("alphabet", alphabetOf(dcs), int(a))
		cmp("error of the alphabet", true, err == nil)
		if dcs&0x90 == 0x10 || dcs&0xf0 == 0xf0 {
			cl, err := p.DCS.Class()
			cmp("class", int(dcs&3), int(cl))
			cmp("error of the class", true, err == nil)
		}
		cmp("compression", dcs&0xa0 == 0x20, p.DCS.Compressed())
	}
	if !ud {
		if len(p.UD) != 0 || len(p.UDH) != 0 {
			fmt.Fprintf(&sb, " user data %x and header %v and none was sent;", []byte(p.UD), p.UDH)
		}
		return sb.String()
	}
	cmp("user data", hex.EncodeToString(t.UD), hex.EncodeToString(p.UD))
	cmp("elements", len(t.UDH), len(p.UDH))
	for i := 0; i < len(t.UDH) && i < len(p.UDH); i++ {
		cmp(fmt.Sprintf("element %d", i), fmt.Sprintf("%02x:%x", t.UDH[i].ID, t.UDH[i].Data), fmt.Sprintf("%02x:%x", p.UDH[i].ID, p.UDH[i].Data))
	}
	_, count, seq, one, clear := concatOf(t.UDH)
	if clear {
		n, s, _, ok := p.ConcatInfo()
		cmp("part", fmt.Sprint(one, count, seq), fmt.Sprint(ok, n, s))
		cmp("single part", !one, p.IsSingleSegment())
	}
	return sb.String()
}

type xNode struct {
	n     int
	sc    bool
	toa   byte
	addr  string
	scTOA byte
	scAdr string
	home  *xNode // a device's service centre
	reuse bool
	other bool

	pdu  pdumode.PDU
	tp   tpdu.TPDU
	busy bool
	edge uint64

	out     tpdu.TPDU
	outBusy bool

	col *sms.Collector // for what arrives damaged

	mr   int
	sent []*xFrame // submissions and commands, the latest last
	kept []*xKept
}

type xKept struct {
	t    *XT
	p    tpdu.TPDU
	what string
}

type xFrame struct {
	id     int
	t      XT
	from   *xNode
	to     *xNode
	about  *xFrame
	octets []byte
	tp     []byte
}

type xRun struct {
	c     *ctx
	pl    *XPlan
	devs  []*xNode
	scs   []*xNode
	all   []*xFrame
	n     int
	bads  int
	known bool
}

func (r *xRun) hash(vs ...int) *simrt.RNG {
	us := []uint64{r.pl.NetSeed}
	for _, v := range vs {
		us = append(us, uint64(v))
	}
	return simrt.NewRNG(simrt.Mix(us...))
}

func runX(c *ctx) {
	execX(c)
	c.blame(c.plan.X.Corrupt > 0 && !c.plan.X.NoCorrupt, func(q *Plan) { q.X.NoCorrupt = true }, execX)
}

func execX(c *ctx) {
	r := &xRun{c: c, pl: c.plan.X}
	s := c.newSim()
	s.Horizon = 7200e9
	for i, x := range r.pl.SCs {
		r.scs = append(r.scs, &xNode{n: i, sc: true, scTOA: x.TOA, scAdr: x.Addr, reuse: x.Reuse, other: x.Other})
	}
	for i, x := range r.pl.Devs {
		sc := r.scs[x.SC%len(r.scs)]
		r.devs = append(r.devs, &xNode{n: i, toa: x.TOA, addr: x.Addr, scTOA: sc.scTOA, scAdr: sc.scAdr, home: sc, reuse: x.Reuse, mr: x.MR})
	}
	for di, d := range r.devs {
		for t := 0; t < 2; t++ {
			var todo []int
			for i := range r.pl.Ops {
				if r.pl.Ops[i].Dev == di && r.pl.Ops[i].Task == t {
					todo = append(todo, i)
				}
			}
			if len(todo) == 0 {
				continue
			}
			d := d
			s.Spawn(fmt.Sprintf("device%d.%d", di, t), func() {
				for _, i := range todo {
					simrt.Nap(r.pl.Ops[i].Delay)
					r.do(d, &r.pl.Ops[i])
				}
			})
		}
	}
	ended := func(when string) bool {
		if c.panics(s, "C08") {
			return false
		}
		if s.Hang {
			c.viol("hang", c.plan.Prop+" C08", "no end after %d scheduling steps, %s", c.plan.MaxSteps, when)
			return false
		}
		if lib, _ := s.Unfinished(); len(lib) > 0 {
			c.viol("stuck", c.plan.Prop, "calls have not returned, %s: %s", when, strings.Join(lib, "; "))
			return false
		}
		return true
	}
	s.Run()
	if ended("in the exchange") {
		s.Spawn("end", func() {
			for _, ns := range [][]*xNode{r.devs, r.scs} {
				for _, n := range ns {
					for _, k := range n.kept {
						if d := k.t.differs(&k.p); d != "" {
							c.viol("changed-later", "C24 C14", "%s: right when it was received, and later:%s", k.what, d)
						}
					}
				}
			}
		})
		s.Run()
		ended("in the end")
	}
	c.endSim(s)
	if r.n > 0 {
		c.out.Nontrivial = true
	}
}

// do is one thing a device does.
func (r *xRun) do(d *xNode, o *XOp) {
	t := o.T
	if len(o.USSD) > 0 {
		r.ussd(o)
		return
	}
	if o.Text != "" {
		r.encode(d, o)
		return
	}
	t.MR = byte(d.mr)
	d.mr++
	r.send(d, d.home, t, o.Other, o.Build, nil)
}

// ussd sends a USSD string, whose end is all that says how long it is.
func (r *xRun) ussd(o *XOp) {
	c := r.c
	u := o.USSD
	n := len(u)
	// 23.038 6.1.2.3.1: seven bits left over, or a carriage return that ends
	// with an octet, are followed by a carriage return.
	s := u[:n:n]
	if n%8 == 7 || n%8 == 0 && u[n-1] == 13 {
		s = append(s, 13)
	}
	want := packSeptets(s, 0)
	in := u[:n:n]
	if n%8 == 1 && n > 1 && u[n-1] == 13 && u[n-2] == 13 {
		in = in[:n-1] // or u: the last may be there to keep the one before
	}
	r.n++
	h := r.hash(8, r.n)
	if !o.Other {
		simrt.InLib("Pack7BitUSSD")
		got := gsm7.Pack7BitUSSD(append([]byte(nil), u...), 0)
		simrt.InLib("")
		if !bytes.Equal(got, want) {
			c.viol("ussd", "C24", "the USSD string %x is packed as %x instead of %x", u, got, want)
			return
		}
	}
	c.stat("net.sent_ussd", 1)
	for k := 0; k < 3; k++ {
		if k > 0 && !h.P(r.pl.Dup) || h.P(r.pl.Drop) {
			continue
		}
		d := int64(0)
		if r.pl.MaxDelay > 0 {
			d = int64(h.Intn(int(r.pl.MaxDelay)))
		}
		cut := -1
		if h.P(r.pl.Corrupt) && !r.pl.NoCorrupt {
			cut = h.Intn(n + 1)
		}
		simrt.AfterFunc(d, func() {
			b := append([]byte(nil), want...)
			if cut >= 0 {
				b = b[:min(cut, len(b))]
				if cut%2 == 0 && len(b) > 0 {
					b[len(b)-1] ^= 1 << uint(cut%8)
				}
			}
			simrt.InLib("Unpack7BitUSSD")
			got := gsm7.Unpack7BitUSSD(b, 0)
			simrt.InLib("")
			if cut >= 0 {
				c.stat("fault.ussd_damaged", 1)
				return
			}
			if !bytes.Equal(got, u) && !bytes.Equal(got, in) {
				c.viol("ussd", "C24", "the USSD string %x, packed as %x, is unpacked as %x", u, want, got)
				return
			}
			c.stat("net.received_ussd", 1)
		})
	}
}

// encode sends a text with an encoder whose template the rest is.
func (r *xRun) encode(d *xNode, o *XOp) {
	t := o.T
	tmpl, err := t.build(o.Build, nil)
	if err != nil {
		r.c.viol("build", "C24", "template %+v: %v", t, err)
		return
	}
	tmpl.UD = nil
	e := sms.NewEncoder(sms.WithTemplate(*tmpl))
	start := d.mr
	cnt := &hCounter{d.mr - 1}
	e.MsgCount = cnt
	simrt.InLib("Encode")
	ps, err := e.Encode([]byte(o.Text))
	simrt.InLib("")
	if err != nil || len(ps) == 0 {
		r.c.viol("build", "C24 C09", "text %q does not encode with %+v: %v", o.Text, t, err)
		return
	}
	if d.mr != start {
		return // the device's other task took the numbers meanwhile: not sent
	}
	d.mr = cnt.n + 1
	for i := range ps {
		p := t
		p.MR = byte(start + i)
		p.UDH = nil
		for _, e := range ps[i].UDH {
			p.UDH = append(p.UDH, IE{e.ID, e.Data})
		}
		p.UD = ps[i].UD
		a, _ := ps[i].Alphabet()
		if a == tpdu.AlphaUCS2 {
			p.DCS |= 8
		}
		r.sendBuilt(d, d.home, p, &ps[i], nil)
	}
	r.c.stat("op.text_encoded", 1)
}

// send makes a TPDU and puts it on the network.
func (r *xRun) send(from, to *xNode, t XT, other bool, build int, about *xFrame) {
	if other {
		r.c.stat("op.made_by_others", 1)
		r.post(from, to, t, t.encode(), about)
		return
	}
	simrt.InLib("build")
	var prev *tpdu.TPDU
	if from.reuse && !from.outBusy {
		prev = &from.out
		from.outBusy = true
		r.c.stat("op.variable_sent_again", 1)
		defer func() { from.outBusy = false }()
	}
	p, err := t.build(build, prev)
	simrt.InLib("")
	if err != nil {
		r.c.viol("build", "C24", "%+v cannot be built: %v", t, err)
		return
	}
	r.sendBuilt(from, to, t, p, about)
}

func (r *xRun) sendBuilt(from, to *xNode, t XT, p *tpdu.TPDU, about *xFrame) {
	simrt.InLib("MarshalBinary")
	b, err := p.MarshalBinary()
	simrt.InLib("")
	if err != nil {
		r.c.viol("marshal", "C24", "%s %+v does not marshal: %v", t.Type, t, err)
		return
	}
	t.Bare0, t.Fill = false, false
	want := t.encode()
	if !bytes.Equal(b, want) {
		t.Fill = true // as good
		want = t.encode()
	}
	if !bytes.Equal(b, want) {
		r.c.viol("marshal", "C24", "%s %+v marshals to %x instead of %x", t.Type, t, b, want)
		return
	}
	r.post(from, to, t, b, about)
}

// post frames a TPDU and hands the frame to the network.
func (r *xRun) post(from, to *xNode, t XT, tp []byte, about *xFrame) {
	c := r.c
	id := r.n
	r.n++
	f := &xFrame{id: id, t: t, from: from, to: to, about: about, tp: tp}
	h := r.hash(1, id)
	want := encodeFrame(from.scTOA, from.scAdr, tp)
	if h.P(0.7) {
		p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tpdu.Address{TOA: from.scTOA, Addr: from.scAdr}}, TPDU: tp}
		simrt.InLib("PDU.Marshal")
		var got []byte
		var err error
		if h.P(0.5) {
			var s string
			s, err = p.MarshalHexString()
			if got, _ = hex.DecodeString(s); err == nil && got == nil {
				got = []byte{}
			}
		} else {
			got, err = p.MarshalBinary()
		}
		simrt.InLib("")
		if err != nil || !bytes.Equal(got, want) {
			c.viol("frame", "C24", "PDU of service centre %02x %q and TPDU %x marshals to %x (%v) instead of %x", from.scTOA, from.scAdr, tp, got, err, want)
			return
		}
	}
	f.octets = want
	r.all = append(r.all, f)
	if !from.sc && t.Type != "dreport" {
		from.sent = append(from.sent, f)
	}
	c.stat("net.sent_"+t.Type, 1)
	if c.trace {
		c.logf("t=%d frame %d: %s %x", simrt.Clock(), id, t.Type, f.octets)
	}
	copies := 1
	for h.P(r.pl.Dup) && copies < 3 {
		copies++
		c.stat("fault.frame_duplicated", 1)
	}
	delay := func() int64 {
		if r.pl.MaxDelay == 0 {
			return 0
		}
		return int64(h.Intn(int(r.pl.MaxDelay)))
	}
	for k := 0; k < copies; k++ {
		d, k := delay(), k
		if h.P(r.pl.Drop) {
			c.stat("fault.frame_dropped", 1)
			continue
		}
		c.stat("net.frame_delayed", 1)
		simrt.AfterFunc(d, func() { r.receive(f, k) })
	}
	for x := r.pl.Corrupt; x > 0; x-- {
		if h.P(x) {
			k := simrt.NewRNG(h.Next())
			d := delay()
			if !r.pl.NoCorrupt {
				simrt.AfterFunc(d, func() { r.damaged(f, k) })
			}
		}
	}
}

// take is the receive path up to the TPDU: the frame, then what is in it, into
// the receiver's one variable of each if it has such and it is free.
func (r *xRun) take(n *xNode, octets []byte, mo bool, h *simrt.RNG, k func(p *pdumode.PDU, t *tpdu.TPDU, frameErr, err error)) {
	simrt.InLib("receive")
	defer simrt.InLib("")
	b := append([]byte(nil), octets...)
	one := n.reuse && !n.busy
	p, t := &pdumode.PDU{}, &tpdu.TPDU{}
	if one {
		n.busy = true
		simrt.Consume(unsafe.Pointer(&n.edge))
		p, t = &n.pdu, &n.tp
		r.c.stat("op.variable_reused", 1)
	}
	var ferr, err error
	switch h.Intn(3) {
	case 0:
		s := hex.EncodeToString(b)
		if h.P(0.5) {
			s = strings.ToUpper(s)
		}
		if one {
			ferr = p.UnmarshalHexString(s)
		} else {
			p, ferr = pdumode.UnmarshalHexString(s)
		}
	case 1:
		ferr = p.UnmarshalBinary(b)
	default:
		if one {
			ferr = p.UnmarshalBinary(b)
		} else {
			p, ferr = pdumode.UnmarshalBinary(b)
		}
	}
	if ferr == nil {
		if one || h.P(0.3) {
			t.Direction = tpdu.MT
			if mo {
				t.Direction = tpdu.MO
			}
			err = t.UnmarshalBinary(p.TPDU)
		} else if mo {
			t, err = sms.Unmarshal(p.TPDU, sms.AsMO)
		} else if h.P(0.5) {
			t, err = sms.Unmarshal(p.TPDU)
		} else {
			t, err = sms.Unmarshal(p.TPDU, sms.AsMT)
		}
	}
	var pc pdumode.PDU
	var tc tpdu.TPDU
	if ferr == nil {
		pc = *p
		pc.TPDU = append([]byte(nil), p.TPDU...)
		if err == nil {
			tc = *t
		}
	}
	if h.P(0.5) {
		for i := range b {
			b[i] = 0xdd
		}
	}
	if one {
		simrt.Publish(unsafe.Pointer(&n.edge))
		n.busy = false
	}
	k(&pc, &tc, ferr, err)
}

// receive is the arrival of an undamaged frame.
func (r *xRun) receive(f *xFrame, copyNo int) {
	c, n := r.c, f.to
	h := r.hash(2, f.id, copyNo)
	what := fmt.Sprintf("frame %d (%s %x)", f.id, f.t.Type, f.octets)
	r.take(n, f.octets, xTypes[f.t.Type].mo, h, func(p *pdumode.PDU, t *tpdu.TPDU, ferr, err error) {
		if ferr != nil {
			c.viol("frame", "C24", "%s is refused: %v", what, ferr)
			return
		}
		if p.SMSC.Addr != f.from.scAdr || f.from.scAdr != "" && p.SMSC.TOA != f.from.scTOA {
			c.viol("frame", "C24", "%s: service centre %02x %q instead of %02x %q", what, p.SMSC.TOA, p.SMSC.Addr, f.from.scTOA, f.from.scAdr)
			return
		}
		if !bytes.Equal(p.TPDU, f.tp) {
			c.viol("frame", "C24", "%s: TPDU %x instead of %x", what, p.TPDU, f.tp)
			return
		}
		d := ""
		if err == nil {
			d = f.t.differs(t)
		}
		if (err != nil || d != "") && f.t.FCS == 0 && (f.t.Type == "sreport" || f.t.Type == "dreport") &&
			(err != nil || t.FCS == f.octets[len(f.octets)-len(f.tp)+1]) && knownFinding("C24", "report-without-cause") {
			// The TPDU of an acknowledging report is read as if it began with
			// a failure cause.
			c.stat("known.C24 report-without-cause", 1)
			return
		}
		if err != nil {
			c.viol("unmarshal", "C24", "%s is refused: %v", what, err)
			return
		}
		if d != "" {
			c.viol("altered", "C24", "%s was sent as %+v; received:%s", what, f.t, d)
			return
		}
		c.stat("net.received_"+f.t.Type, 1)
		if c.trace {
			c.logf("t=%d frame %d arrives, copy %d", simrt.Clock(), f.id, copyNo)
		}
		if h.P(0.5) && len(n.kept) < 40 {
			n.kept = append(n.kept, &xKept{&f.t, *t, what})
		}
		if !f.t.Bare0 && !f.t.Fill && h.P(0.5) {
			simrt.InLib("MarshalBinary")
			b, err := t.MarshalBinary()
			simrt.InLib("")
			if err != nil || !bytes.Equal(b, f.tp) {
				c.viol("remarshal", "C24", "%s, marshalled again: %x (%v)", what, b, err)
				return
			}
		}
		if f.t.Type == "status" {
			r.match(n, f, t, what)
		}
		if r.pl.Replies {
			r.reply(n, f, t, copyNo)
		}
	})
}

// match finds what a status report is about, as a device does.
func (r *xRun) match(n *xNode, f *xFrame, t *tpdu.TPDU, what string) {
	for i := len(n.sent) - 1; i >= 0 && i >= len(n.sent)-256; i-- {
		s := n.sent[i]
		if s.t.MR != t.MR {
			continue
		}
		r.c.stat("op.status_matched", 1)
		if s != f.about {
			for _, x := range n.sent[max(0, len(n.sent)-256):] {
				if x == f.about {
					r.c.viol("match", "C24", "%s is about frame %d and matches frame %d", what, f.about.id, s.id)
				}
			}
			return
		}
		if t.RA != (tpdu.Address{TOA: s.t.TOA, Addr: s.t.Addr}) {
			r.c.viol("match", "C24", "%s is about frame %d to %02x %q, and says %v", what, s.id, s.t.TOA, s.t.Addr, t.RA)
		}
		return
	}
	for _, x := range n.sent[max(0, len(n.sent)-256):] {
		if x == f.about {
			r.c.viol("match", "C24", "%s is about frame %d, and matches nothing", what, f.about.id)
		}
	}
}

// reply is what a receiver does about what it received.
func (r *xRun) reply(n *xNode, f *xFrame, t *tpdu.TPDU, copyNo int) {
	h := r.hash(3, f.id, copyNo)
	if !n.sc {
		if f.t.Type == "deliver" && h.P(0.8) {
			x := XT{Type: "dreport"}
			if h.P(0.75) {
				x.FCS = byte(0x80 | h.Intn(128))
			}
			genPI(h, &x, 158)
			r.send(n, n.home, x, h.P(0.2), h.Intn(24), f)
		}
		return
	}
	if f.t.Type != "submit" && f.t.Type != "command" {
		return
	}
	think := func() {
		if r.pl.Think > 0 && h.P(0.7) {
			simrt.InLib("")
			simrt.Nap(int64(h.Intn(int(r.pl.Think))))
		}
	}
	if h.P(0.8) {
		x := XT{Type: "sreport", SCTS: genStamp(h)}
		if h.P(0.75) {
			x.FCS = byte(0x80 | h.Intn(128))
		}
		genPI(h, &x, 151)
		r.send(n, f.from, x, n.other, h.Intn(24), f)
	}
	think()
	if f.t.Type == "submit" {
		// to the device of that number, built on what was received
		for _, d := range r.devs {
			if d.toa != f.t.TOA || d.addr != f.t.Addr || !h.P(0.8) {
				continue
			}
			x := f.t
			x.Type = "deliver"
			x.FO = f.t.FO&0x80 | byte(h.Next())&0x2c
			x.TOA, x.Addr = f.from.toa, f.from.addr
			x.VPF, x.MR = 0, 0
			x.SCTS = genStamp(h)
			if n.other {
				r.send(n, d, x, true, 0, f)
				continue
			}
			simrt.InLib("build")
			p, err := tpdu.NewDeliver(tpdu.WithOA(tpdu.Address{TOA: x.TOA, Addr: x.Addr}))
			if err != nil {
				r.c.viol("build", "C24", "NewDeliver: %v", err)
				return
			}
			p.SetPID(t.PID)
			p.SetDCS(byte(t.DCS))
			if x.Hdr0 {
				p.SetUDH(tpdu.UserDataHeader{})
			} else if len(t.UDH) > 0 {
				p.SetUDH(t.UDH)
			}
			p.SetUD(t.UD)
			p.SCTS = tpdu.Timestamp{Time: x.SCTS.time()}
			p.FirstOctet |= tpdu.FirstOctet(x.FO)
			simrt.InLib("")
			r.sendBuilt(n, d, x, p, f)
		}
	}
	if f.t.FO&0x20 == 0 {
		return
	}
	for k := 1 + h.Intn(2); k > 0; k-- {
		x := XT{Type: "status", FO: byte(h.Next()) & 0x0c, MR: f.t.MR, TOA: f.t.TOA, Addr: f.t.Addr, SCTS: genStamp(h), DT: genStamp(h)}
		if f.t.Type == "command" {
			x.FO |= 0x20
		}
		x.ST = byte(h.Next()) & pick[byte](h, 3, 0x7f, 0xff)
		genPI(h, &x, 131-len(x.Addr)/2)
		if x.PI == 0 && n.other {
			x.Bare0 = h.P(0.3)
		}
		// from what was received, if the library is at hand
		if !n.other && h.P(0.5) {
			simrt.InLib("build")
			p, err := x.build(h.Intn(24), nil)
			if err != nil {
				r.c.viol("build", "C24", "%+v: %v", x, err)
				return
			}
			p.MR, p.RA = t.MR, t.DA
			simrt.InLib("")
			r.sendBuilt(n, f.from, x, p, f)
		} else {
			r.send(n, f.from, x, n.other, h.Intn(24), f)
		}
		think()
	}
}

// damaged is the arrival of a damaged copy: nothing is promised of what is
// made of it, except that it is a result or an error.
func (r *xRun) damaged(f *xFrame, h *simrt.RNG) {
	b := append([]byte(nil), f.octets...)
	kind := ""
	at := len(b) - len(f.tp) // of the TPDU
	switch h.Intn(8) {
	case 0:
		kind = "bits_flipped"
		for n := 1 + h.Intn(4); n > 0; n-- {
			b[h.Intn(len(b))] ^= 1 << uint(h.Intn(8))
		}
	case 4:
		kind = "octets_changed"
		for n := 1 + h.Intn(2); n > 0; n-- {
			i := h.Intn(len(b))
			b[i] = pick(h, 0, 1, 2, 0x7f, 0x80, 0xff, byte(h.Next()), b[i]+1, b[i]-1)
		}
	case 5:
		kind = "header_octets_changed"
		for n := 1 + h.Intn(2); n > 0; n-- {
			i := min(at+h.Intn(16), len(b)-1)
			b[i] = pick(h, 0, 1, 7, 0x80, 0xff, byte(h.Next()), b[i]+1, b[i]-1)
		}
	case 6:
		kind = "type_changed"
		b[at] ^= byte(1 + h.Intn(3))
		if h.P(0.3) {
			b = b[:at+h.Intn(len(b)-at+1)]
		}
	case 7:
		kind = "random_octets"
		n := h.Intn(60)
		b = append(b[:at:at], make([]byte, n)...)
		for i := at; i < len(b); i++ {
			b[i] = byte(h.Next()) & pick[byte](h, 0xff, 0x0f)
		}
		if n > 0 {
			b[at] = b[at]&0xf8 | byte(h.Intn(4))
		}
	case 1:
		kind = "truncated"
		n := h.Intn(len(b))
		switch h.Intn(4) {
		case 0:
			n = len(b) - 1 - h.Intn(6) // only just
		case 1, 2: // just before or where the user data begins
			w := wireTPDU{FO: f.t.firstOctet(), DCS: f.t.DCS, UDH: f.t.UDH, UD: f.t.UD}
			n = len(b) - len(w.encodeUD()) + pick(h, 0, 1, 2, -1, -2)
		}
		n = max(0, min(n, len(b)-1))
		b = b[:n]
	case 2:
		kind = "extended"
		for n := 1 + h.Intn(20); n > 0; n-- {
			b = append(b, byte(h.Next()))
		}
	case 3:
		kind = "spliced"
		o := r.all[h.Intn(len(r.all))].octets
		b = append(b[:h.Intn(len(b)+1)], o[h.Intn(len(o)+1):]...)
	}
	r.c.stat("fault.frame_"+kind, 1)
	if r.c.trace {
		r.c.logf("t=%d damaged copy of frame %d: %x", simrt.Clock(), f.id, b)
	}
	r.take(f.to, b, xTypes[f.t.Type].mo != h.P(0.1), h, func(p *pdumode.PDU, t *tpdu.TPDU, ferr, err error) {
		if r.c.trace {
			r.c.logf("damaged: %v %v", ferr, err)
		}
		if ferr == nil && err == nil {
			if s := misread(p.TPDU, t); s != "" {
				r.c.viol("misread", "C08", "the TPDU %x is accepted: %s", p.TPDU, s)
			}
			simrt.InLib("MarshalBinary")
			t.MarshalBinary() // whatever that is
			if f.to.col == nil {
				f.to.col = sms.NewCollector()
			}
			cp := *t
			set, err := f.to.col.Collect(cp)
			if err != nil {
				set = []*tpdu.TPDU{&cp}
			}
			sms.IsCompleteMessage(set)
			sms.Decode(set)
			simrt.InLib("")
			r.c.stat("op.damaged_accepted", 1)
		}
	})
}
