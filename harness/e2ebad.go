package main

import (
	"encoding/hex"
	"fmt"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"verif/simrt"
)

// corrupt delivers a damaged copy of a frame.
func (r *e2eRun) corrupt(f *e2eFrame, h *simrt.RNG) {
	b := append([]byte(nil), f.octets...)
	kind := ""
	sc := 1 + int(b[0])
	switch h.Intn(9) {
	case 0, 1:
		kind = "bits_flipped"
		for n := 1 + h.Intn(4); n > 0; n-- {
			b[h.Intn(len(b))] ^= 1 << uint(h.Intn(8))
		}
	case 2:
		kind = "truncated"
		b = b[:h.Intn(len(b))]
	case 3:
		kind = "extended"
		for n := 1 + h.Intn(20); n > 0; n-- {
			b = append(b, byte(h.Next()))
		}
	case 4:
		kind = "spliced"
		o := r.all[h.Intn(len(r.all))].octets
		b = append(b[:h.Intn(len(b)+1)], o[h.Intn(len(o)+1):]...)
	case 5:
		kind = "random_octets"
		b = make([]byte, h.Intn(180))
		for i := range b {
			b[i] = byte(h.Next())
		}
		if len(b) > 2 && h.P(0.7) {
			b[0] = 0
			b[1] = b[1]&0xfc | byte(h.Intn(4))
		}
	case 6:
		kind = "header_octet_changed"
		// the octets around the start of the user data
		if m := r.msgs[f.msg]; m.ok {
			at := len(b) - len(m.wires[f.part].encodeUD()) + h.Intn(10) - 2
			if at > 0 && at < len(b) {
				b[at] = pick[byte](h, 0, 1, 2, 0xff, 0x80, byte(h.Next()), b[at]+1, b[at]-1)
			}
		}
	case 7:
		kind = "leading_octet_changed"
		at := sc + h.Intn(4)
		if h.P(0.2) {
			at = 0
		}
		if at < len(b) {
			b[at] = pick[byte](h, 0, 1, 0xff, byte(h.Next()), byte(h.Next()))
		}
	case 8:
		kind = "coding_scheme_changed"
		w := r.msgs[f.msg].wires[f.part]
		if at := len(b) - len(w.encodeUD()) - 8; !f.rx.mo && at > 0 {
			b[at] = byte(h.Next())
		}
	}
	r.c.stat("fault.frame_"+kind, 1)
	r.receiveBad(f.rx, b, h, kind)
}

// receiveBad puts octets nobody vouches for through the receive path.
func (r *e2eRun) receiveBad(rx *e2eRx, b []byte, h *simrt.RNG, kind string) {
	c := r.c
	r.bads++
	id := r.bads
	if c.trace {
		c.logf("t=%d receiver %d: bad frame %d (%s) %x", simrt.Clock(), rx.n, id, kind, b)
	}
	simrt.InLib("receive")
	defer simrt.InLib("")
	var p *pdumode.PDU
	var err error
	if h.P(0.5) {
		s := hex.EncodeToString(b)
		if h.P(0.1) && len(s) > 0 {
			x := []byte(s)
			x[h.Intn(len(x))] = byte(h.Next())
			s = string(x)
		}
		if h.P(0.05) && len(s) > 0 {
			s = s[:len(s)-1]
		}
		p, err = pdumode.UnmarshalHexString(s)
	} else {
		p, err = pdumode.UnmarshalBinary(b)
	}
	if err != nil {
		c.logf("bad frame %d: %v", id, err)
		c.stat("op.bad_frame_refused", 1)
		return
	}
	mo := rx.mo
	if h.P(0.15) {
		mo = !mo
	}
	var t *tpdu.TPDU
	if t, err = r.unmarshalAgain(rx, p.TPDU, mo); t != nil || err != nil {
	} else if mo {
		t, err = sms.Unmarshal(p.TPDU, sms.AsMO)
	} else {
		t, err = sms.Unmarshal(p.TPDU, sms.AsMT)
	}
	if err != nil {
		c.logf("bad frame %d: %v", id, err)
		c.stat("op.bad_tpdu_refused", 1)
		return
	}
	if s := misread(p.TPDU, t); s != "" {
		c.viol("misread", "C08", "the TPDU %x is accepted: %s", p.TPDU, s)
	}
	w := wireOf(t)
	r.taint(rx, t, w)
	rx.badK[w.key()] = true
	_, count, seq, one, clear := concatOf(w.UDH)
	typ := t.SmsType()
	set, err := rx.cur.col.Collect(*t)
	res := "set"
	if err != nil {
		res = err.Error()
	} else if set == nil {
		res = "pending"
	}
	c.logf("bad frame %d: type %d, header %v: %s", id, typ, w.UDH, res)
	c.stat("op.bad_tpdu_collected", 1)
	if one && clear && count >= 2 {
		ok := typ == tpdu.SmsDeliver || typ == tpdu.SmsSubmit
		switch {
		case !ok && err == nil:
			c.viol("refuse", "C08 C02", "a part (%d of %d) of the unsupported type %v is not refused (%s)", seq, count, typ, res)
		case (seq < 1 || seq > count) && err == nil:
			c.viol("refuse", "C08 C02", "a part with sequence number %d of %d is not refused (%s)", seq, count, res)
		}
		if !ok {
			c.stat("fault.unsupported_type", 1)
		} else if seq < 1 || seq > count {
			c.stat("fault.bad_sequence", 1)
		}
	} else if !clear || !one && len(w.UDH) > 0 {
		c.stat("fault.odd_header", 1)
	}
	if set == nil {
		return
	}
	if len(set) > 1 {
		r.inspect(rx, set, fmt.Sprintf("bad frame %d", id))
	}
	sms.IsCompleteMessage(set)
	sms.Decode(set)
	sms.Decode(set, sms.WithCharset(1+h.Intn(13)))
}

// taint notes which messages' identity a bad TPDU carries.
func (r *e2eRun) taint(rx *e2eRx, t *tpdu.TPDU, w *wireTPDU) {
	var cands [][2]int
	for _, e := range w.UDH {
		if e.ID == 0 && len(e.Data) >= 3 {
			cands = append(cands, [2]int{int(e.Data[0]), int(e.Data[1])})
		}
		if e.ID == 8 && len(e.Data) >= 4 {
			cands = append(cands, [2]int{int(e.Data[0])<<8 | int(e.Data[1]), int(e.Data[2])})
		}
	}
	if count, _, ref, ok := t.ConcatInfo(); ok {
		cands = append(cands, [2]int{ref, count})
	}
	for _, k := range cands {
		id := e2eIdent{t.SmsType(), w.TOA, w.Addr, k[0], k[1]}
		rx.bad = append(rx.bad, id)
		for _, m := range r.msgs {
			if m.ok && m.rx == rx && m.ident() == id && !m.taint {
				m.taint = true
				r.c.stat("msg.tainted", 1)
				r.c.logf("message %d shares its identity with a bad frame", m.n)
			}
		}
	}
}

// hostile makes up a frame.
func (r *e2eRun) hostile(h *simrt.RNG) {
	rx := r.rx[h.Intn(len(r.rx))]
	// aim at a message that is on its way, and miss it by a little
	toa, addr := genAddr(h)
	ref, count, seq := h.Intn(256), 2+h.Intn(5), 1
	var near []*e2eMsg
	for _, m := range r.msgs {
		if m.ok && m.parts > 1 && m.rx == rx {
			near = append(near, m)
		}
	}
	dcs := byte(0)
	same := false
	if len(near) > 0 && h.P(0.85) {
		m := near[h.Intn(len(near))]
		toa, addr, ref, count = m.toa, m.addr, m.ref, m.parts
		dcs = m.wires[0].DCS
		switch h.Intn(5) {
		case 0:
			toa, addr = neighbourAddr(h, toa, addr)
		case 1:
			ref = pick(h, ref+1, ref-1, ref+256, ref^0x80) & 0xffff
		case 2:
			count = pick(h, count+1, count-1, 255)
			if count > 255 || count < 2 {
				count = 9
			}
		case 3:
			same = true // the type will differ
		case 4:
			same = true
			seq = -1
		}
	}
	if seq > 0 {
		seq = 1 + h.Intn(count)
	} else {
		seq = pick(h, 0, count+1, 255)
		if seq <= count {
			seq = 0
		}
	}
	wide := ref > 255 || h.P(0.3)
	var udh []IE
	cc := IE{0, []byte{byte(ref), byte(count), byte(seq)}}
	if wide {
		cc = IE{8, []byte{byte(ref >> 8), byte(ref), byte(count), byte(seq)}}
	}
	if h.P(0.25) && !same {
		udh = genWild(h)
	} else {
		if h.P(0.3) {
			udh = append(udh, genHeader(h)...)
		}
		udh = append(udh, cc)
		if h.P(0.2) {
			udh = append(udh, genHeader(h)...)
		}
	}
	if h.P(0.3) {
		dcs = byte(h.Next())
	}
	if h.P(0.2) {
		// language elements of any length, also in whole messages
		if h.P(0.5) && !same {
			udh = nil
		}
		for k := 1 + h.Intn(2); k > 0; k-- {
			d := make([]byte, h.Intn(3))
			for i := range d {
				d[i] = byte(h.Intn(20))
			}
			udh = append(udh, IE{pick[byte](h, 24, 25), d})
		}
		dcs &= 0x12
	}
	n := h.Intn(20)
	ud := make([]byte, n&^1)
	for i := range ud {
		ud[i] = byte(h.Next()) & 0x7f
	}
	w := &wireTPDU{FO: 0x40, TOA: toa, Addr: addr, DCS: dcs, SCTS: nthStamp(h.Intn(1<<20), h.Intn(1000)), UDH: udh, UD: ud}
	typ := h.Intn(4)
	if same && seq >= 1 && seq <= count {
		typ = 1 + h.Intn(3) // never the type of the message itself
	}
	var tp []byte
	kind := ""
	body := w.encodeUD()
	ea := encodeAddr(toa, addr)
	scts := w.SCTS.encode()
	if !rx.mo {
		switch typ {
		case 0:
			tp = w.encodeDeliver()
		case 1: // submit report
			tp = append([]byte{0x41, byte(h.Intn(256)), 0x06}, scts...)
			tp = append(append(tp, dcs), body...)
		case 2: // status report
			tp = append([]byte{0x42, byte(h.Next())}, ea...)
			tp = append(append(tp, scts...), scts...)
			tp = append(tp, 0, 0x06, dcs)
			tp = append(tp, body...)
		case 3: // reserved
			tp = w.encodeDeliver()
			tp[0] |= 3
		}
	} else {
		switch typ {
		case 0: // submit
			tp = append([]byte{0x41, byte(h.Next())}, ea...)
			tp = append(append(tp, 0, dcs), body...)
		case 1: // deliver report
			tp = append([]byte{0x40, byte(h.Intn(256)), 0x06, dcs}, body...)
		case 2: // command
			w.DCS = 4
			tp = append([]byte{0x42, byte(h.Next()), 0, byte(h.Next()), 0}, ea...)
			tp = append(tp, w.encodeUD()...)
		case 3:
			tp = append([]byte{0x43, byte(h.Next())}, ea...)
			tp = append(append(tp, 0, dcs), body...)
		}
	}
	if n := len(udh); n > 0 && h.P(0.06) && len(tp) > len(body) {
		// an element runs past the end of the header, into the text
		if d := len(udh[n-1].Data); d > 0 {
			tp[len(tp)-len(body)+1] -= byte(1 + h.Intn(d))
			kind = ", element past the header"
			r.c.stat("fault.element_past_header", 1)
		}
	}
	r.c.stat("fault.hostile_frame", 1)
	b := encodeFrame(0x91, genDigits(h, h.Intn(12)), tp)
	r.receiveBad(rx, b, h, fmt.Sprintf("made up, type %d%s", typ, kind))
}
