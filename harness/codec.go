package main

import (
	"fmt"
	"strings"
	stdtime "time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/gsm7/charset"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
	"verif/simrt"
)

// CodecCall is one use of a codec.
type CodecCall struct {
	Kind   string  `json:"kind"`
	CS     int     `json:"cs"`  // locking character set, -1: default
	Ext    int     `json:"ext"` // shift character set, -1: default, -2: none
	Strict bool    `json:"strict,omitempty"`
	Shared int     `json:"shared,omitempty"` // shared codec (index+1)
	Sets   []CSOpt `json:"sets,omitempty"`
	Text   string  `json:"text,omitempty"`
	Data   []byte  `json:"data,omitempty"`
	Num    string  `json:"num,omitempty"`
	N      int     `json:"n,omitempty"`
}

// CodecPlan is a mixture of uses of codecs in a process that has just begun.
type CodecPlan struct {
	Shared []CodecCall   `json:"shared,omitempty"` // codecs made beforehand
	Tasks  [][]CodecCall `json:"tasks"`
}

func genCodec(r *simrt.RNG, prop string) *Plan {
	pl := &CodecPlan{}
	p := &Plan{Prop: prop, Scenario: "codec", Codec: pl, MaxSteps: 20000000}
	p.Seed, p.MapSalt = r.Next(), r.Next()
	p.Policy = genPolicy(r, false)
	if p.Policy.Kind == simrt.RandomWalk {
		p.Policy.Mean = pick(r, 1, 3, 10, 30, 100)
	}
	// The tasks of a run meet on few character sets.
	sets := []int{1 + r.Intn(13), 1 + r.Intn(13)}
	nli := func() int {
		switch n := r.Intn(100); {
		case n < 60:
			return sets[r.Intn(2)]
		case n < 80:
			return -1
		case n < 85:
			return pick(r, 0, 14, 99, -5)
		}
		return 1 + r.Intn(13)
	}
	text := func(cs, ext int) string {
		if r.P(0.15) {
			t := []rune(genText(r, 160, 153, 70, 67, r.P(0.1), false))
			if len(t) > 60 {
				t = t[:60]
			}
			return string(t)
		}
		src := [][]rune{allRunes[0], allRunes[100]}
		if cs > 0 && cs < 14 {
			src[0] = allRunes[cs]
		}
		if ext > 0 && ext < 14 {
			src[1] = allRunes[100+ext]
		}
		var t []rune
		for n := r.Intn(pick(r, 4, 12, 40)); n > 0; n-- {
			s := src[r.Intn(2)]
			t = append(t, s[r.Intn(len(s))])
		}
		if r.P(0.05) {
			t = append(t, pick(r, 0x1f600, 0x1b, 'ш'))
		}
		return string(t)
	}
	call := func() CodecCall {
		c := CodecCall{CS: nli(), Ext: nli()}
		if r.P(0.04) {
			c.Ext = -2
		}
		c.Strict = r.P(0.3)
		switch n := r.Intn(100); {
		case n < 20:
			c.Kind = "enc"
			c.Text = text(c.CS, c.Ext)
			if c.Ext == -2 {
				c.Ext = -1
			}
		case n < 39:
			c.Kind = "dec"
			for k := r.Intn(30); k > 0; k-- {
				if r.P(0.2) {
					c.Data = append(c.Data, 0x1b)
				} else {
					c.Data = append(c.Data, byte(r.Intn(130)))
				}
			}
		case n < 50:
			c.Kind = pick(r, "tabdec", "tabenc", "tabextdec", "tabextenc")
		case n < 61:
			c.Kind = "udenc"
			c.Sets = genCharset(r)
			c.Text = text(c.CS, c.Ext)
		case n < 72:
			c.Kind = "uddec"
			c.Sets = genCharset(r)
			if r.P(0.5) {
				c.Sets = nil
			}
			for k := r.Intn(30); k > 0; k-- {
				c.Data = append(c.Data, byte(r.Intn(128)))
			}
			c.N = pick(r, 0, 0, 0, 1, 2)
		case n < 78:
			c.Kind = "trip"
			c.Sets = genCharset(r)
			c.Text = text(c.CS, c.Ext)
			c.Num = pick(r, "", "+") + genDigits(r, 1+r.Intn(14))
		case n < 83:
			c.Kind = pick(r, "ucs2enc", "ucs2dec")
			c.Text = text(c.CS, c.Ext)
			for k := r.Intn(20); k > 0; k-- {
				c.Data = append(c.Data, pick(r, byte(r.Next()), 0xd8, 0xdc))
			}
		case n < 87:
			c.Kind = pick(r, "pack", "packussd")
			c.N = r.Intn(7)
			for k := r.Intn(20); k > 0; k-- {
				c.Data = append(c.Data, byte(r.Intn(128)))
			}
		case n < 96:
			c.Kind = "tpdu"
			c.N = r.Intn(256)
			c.Num = genDigits(r, 1+r.Intn(14))
			c.Text = text(0, 0)
		default:
			c.Kind = "smsc"
			c.Num = genDigits(r, 1+r.Intn(14))
			for k := r.Intn(10); k > 0; k-- {
				c.Data = append(c.Data, byte(r.Next()))
			}
			c.N = r.Intn(3)
		}
		return c
	}
	if r.P(0.5) {
		for n := 1 + r.Intn(2); n > 0; n-- {
			c := CodecCall{Kind: pick(r, "enc", "dec"), CS: nli(), Ext: nli(), Strict: r.P(0.3)}
			pl.Shared = append(pl.Shared, c)
		}
	}
	nt := 2 + r.Intn(3)
	for i := 0; i < nt; i++ {
		var cs []CodecCall
		for k := 1 + r.Intn(4); k > 0; k-- {
			c := call()
			if (c.Kind == "enc" || c.Kind == "dec") && len(pl.Shared) > 0 && r.P(0.4) {
				s := r.Intn(len(pl.Shared))
				if pl.Shared[s].Kind == c.Kind {
					c.Shared, c.CS, c.Ext, c.Strict = s+1, pl.Shared[s].CS, pl.Shared[s].Ext, pl.Shared[s].Strict
					if c.Kind == "enc" {
						c.Text = text(c.CS, c.Ext)
					}
				}
			}
			// the same thing at the same time
			if i > 0 && r.P(0.3) && len(pl.Tasks[i-1]) > len(cs) {
				c = pl.Tasks[i-1][len(cs)]
			}
			cs = append(cs, c)
		}
		pl.Tasks = append(pl.Tasks, cs)
	}
	return p
}

type codecShared struct {
	enc gsm7.Encoder
	dec gsm7.Decoder
}

func (c *CodecCall) encoder() gsm7.Encoder {
	var o []gsm7.EncoderOption
	if c.N&1 == 0 {
		if c.CS != -1 {
			o = append(o, gsm7.WithCharset(c.CS))
		}
		if c.Ext != -1 {
			o = append(o, gsm7.WithExtCharset(c.Ext))
		}
		return gsm7.NewEncoder(o...)
	}
	e := gsm7.NewEncoder()
	if c.CS != -1 {
		e = e.WithCharset(charset.NewEncoder(c.CS))
	}
	if c.Ext != -1 {
		e = e.WithExtCharset(charset.NewExtEncoder(c.Ext))
	}
	return e
}

func (c *CodecCall) decoder() gsm7.Decoder {
	var o []gsm7.DecoderOption
	if c.N&1 == 0 {
		if c.CS != -1 {
			o = append(o, gsm7.WithCharset(c.CS))
		}
		if c.Ext == -2 {
			o = append(o, gsm7.WithoutExtCharset)
		} else if c.Ext != -1 {
			o = append(o, gsm7.WithExtCharset(c.Ext))
		}
		if c.Strict {
			o = append(o, gsm7.Strict)
		}
		return gsm7.NewDecoder(o...)
	}
	d := gsm7.NewDecoder()
	if c.CS != -1 {
		d = d.WithCharset(charset.NewDecoder(c.CS))
	}
	if c.Ext != -1 {
		d = d.WithExtCharset(charset.NewExtDecoder(c.Ext))
	}
	if c.Strict {
		d = d.Strict()
	}
	return d
}

func digestTable[K ~byte | ~rune, V ~byte | ~rune](m map[K]V) string {
	var h uint64
	for k, v := range m {
		h += simrt.Mix(uint64(k), uint64(v))
	}
	return fmt.Sprintf("%d entries, digest %016x", len(m), h)
}

func hexOf(b []byte) string {
	var sb sbuf
	sb.hex(b)
	return sb.String()
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return " error: " + err.Error()
}

func udDecodeCharsets(in []CSOpt) (out []tpdu.UDDecodeOption) {
	for _, o := range in {
		nli := make([]int, 0, len(o.NLI))
		for _, n := range o.NLI {
			if n >= 0 && n < 14 {
				nli = append(nli, n)
			}
		}
		switch o.Kind {
		case "all":
			out = append(out, tpdu.WithAllCharsets)
		case "set":
			out = append(out, tpdu.WithCharset(nli...))
		case "locking":
			out = append(out, tpdu.WithLockingCharset(nli...))
		case "shift":
			out = append(out, tpdu.WithShiftCharset(nli...))
		}
	}
	return
}

// run makes the call and renders its result.
func (c *CodecCall) run(sh []*codecShared) (s string) {
	switch c.Kind {
	case "enc":
		var b []byte
		var err error
		if c.Shared > 0 && sh != nil {
			b, err = sh[c.Shared-1].enc.Encode([]byte(c.Text))
		} else {
			e := c.encoder()
			b, err = e.Encode([]byte(c.Text))
		}
		return hexOf(b) + errStr(err)
	case "dec":
		var b []byte
		var err error
		if c.Shared > 0 && sh != nil {
			b, err = sh[c.Shared-1].dec.Decode(c.Data)
		} else {
			d := c.decoder()
			b, err = d.Decode(c.Data)
		}
		return string(b) + errStr(err)
	case "tabdec":
		if c.CS == -1 {
			return digestTable(charset.DefaultDecoder())
		}
		return digestTable(charset.NewDecoder(c.CS))
	case "tabenc":
		if c.CS == -1 {
			return digestTable(charset.DefaultEncoder())
		}
		return digestTable(charset.NewEncoder(c.CS))
	case "tabextdec":
		if c.Ext == -1 {
			return digestTable(charset.DefaultExtDecoder())
		}
		return digestTable(charset.NewExtDecoder(c.Ext))
	case "tabextenc":
		if c.Ext == -1 {
			return digestTable(charset.DefaultExtEncoder())
		}
		return digestTable(charset.NewExtEncoder(c.Ext))
	case "udenc":
		ud, udh, a := tpdu.EncodeUserData([]byte(c.Text), udCharsets(c.Sets)...)
		s = fmt.Sprintf("%x %d", []byte(ud), a)
		for i := range udh {
			s += fmt.Sprintf(" %02x:%x", udh[i].ID, udh[i].Data)
		}
		return s
	case "uddec":
		var udh tpdu.UserDataHeader
		if c.CS > 0 {
			udh = append(udh, tpdu.InformationElement{ID: 25, Data: []byte{byte(c.CS)}})
		}
		if c.Ext > 0 {
			udh = append(udh, tpdu.InformationElement{ID: 24, Data: []byte{byte(c.Ext)}})
		}
		b, err := tpdu.DecodeUserData(c.Data, udh, tpdu.Alphabet(c.N), udDecodeCharsets(c.Sets)...)
		return string(b) + errStr(err)
	case "trip":
		opts := append([]sms.EncoderOption{sms.To(c.Num)}, encCharsets(c.Sets)...)
		ps, err := sms.Encode([]byte(c.Text), opts...)
		s = errStr(err)
		var set []*tpdu.TPDU
		for i := range ps {
			b, err := ps[i].MarshalBinary()
			s += hexOf(b) + errStr(err) + "\n"
			if err != nil {
				return s
			}
			t, err := sms.Unmarshal(b, sms.AsMO)
			s += errStr(err)
			if err != nil {
				return s
			}
			s += t.DA.Number()
			set = append(set, t)
		}
		m, err := sms.Decode(set)
		return s + string(m) + errStr(err)
	case "ucs2enc":
		return hexOf(ucs2.Encode([]rune(c.Text)))
	case "ucs2dec":
		rs, err := ucs2.Decode(c.Data)
		return string(rs) + errStr(err)
	case "pack":
		p := gsm7.Pack7Bit(c.Data, c.N)
		return hexOf(p) + " " + hexOf(gsm7.Unpack7Bit(p, c.N))
	case "packussd":
		p := gsm7.Pack7BitUSSD(c.Data, c.N)
		return hexOf(p) + " " + hexOf(gsm7.Unpack7BitUSSD(p, c.N))
	case "tpdu":
		t := tpdu.TPDU{}
		t.SetSmsType(tpdu.SmsType(c.N % 6))
		t.OA = tpdu.Address{TOA: 0x91, Addr: c.Num}
		t.DA, t.RA = t.OA, t.OA
		t.SCTS = tpdu.Timestamp{Time: nthStamp(c.N, 3).time()}
		t.DT = t.SCTS
		vp := tpdu.ValidityPeriod{}
		switch c.N / 6 % 4 {
		case 1:
			vp.SetRelative(stdtime.Duration(c.N) * stdtime.Hour)
		case 2:
			vp.SetAbsolute(t.SCTS)
		case 3:
			vp.SetEnhanced(stdtime.Duration(c.N%200)*stdtime.Second, byte(1+c.N%3))
		}
		if t.SmsType() == tpdu.SmsSubmit {
			t.SetVP(vp)
		}
		ud, udh, _ := tpdu.EncodeUserData([]byte(c.Text))
		t.UD = ud
		t.UDH = udh
		b, err := t.MarshalBinary()
		s = hexOf(b) + errStr(err)
		if err == nil {
			u := tpdu.TPDU{Direction: t.Direction}
			s += errStr(u.UnmarshalBinary(b))
			var sb sbuf
			renderTPDU(&sb, &u, false, false)
			s += sb.String() + u.OA.Number() + u.DCS.String() + u.SCTS.String()
		}
		return s
	case "smsc":
		p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tpdu.Address{TOA: 0x91, Addr: c.Num}}, TPDU: c.Data}
		h, err := p.MarshalHexString()
		s = h + errStr(err)
		q, err := pdumode.UnmarshalHexString(h)
		if err != nil {
			return s + errStr(err)
		}
		return s + q.SMSC.Addr + hexOf(q.TPDU)
	}
	panic("call " + c.Kind)
}

func (c *CodecCall) alone() (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("panic: %v", e)
		}
	}()
	simrt.ColdStart()
	return c.run(nil)
}

func runCodec(c *ctx) {
	pl := c.plan.Codec
	type rec struct {
		call      *CodecCall
		got, want string
	}
	var recs [][]*rec
	for i := range pl.Tasks {
		var rs []*rec
		for k := range pl.Tasks[i] {
			rs = append(rs, &rec{call: &pl.Tasks[i][k], want: pl.Tasks[i][k].alone()})
		}
		recs = append(recs, rs)
	}
	s := c.newSim()
	var sh []*codecShared
	for i := range pl.Shared {
		x := &codecShared{}
		if pl.Shared[i].Kind == "enc" {
			x.enc = pl.Shared[i].encoder()
		} else {
			x.dec = pl.Shared[i].decoder()
		}
		sh = append(sh, x)
	}
	for i := range recs {
		rs := recs[i]
		s.Spawn(fmt.Sprintf("user%d", i), func() {
			for _, x := range rs {
				simrt.InLib(x.call.Kind)
				x.got = x.call.tryRun(sh, x.want)
				simrt.InLib("")
			}
		})
	}
	s.Run()
	bad := c.panics(s, "C12")
	if s.Hang {
		c.viol("hang", c.plan.Prop, "no end after %d scheduling steps", c.plan.MaxSteps)
		bad = true
	}
	if lib, _ := s.Unfinished(); len(lib) > 0 && !bad {
		c.viol("stuck", c.plan.Prop, "calls have not returned: %s", strings.Join(lib, "; "))
		bad = true
	}
	c.endSim(s)
	if bad {
		return
	}
	for i := range recs {
		for k, x := range recs[i] {
			c.stat("call."+x.call.Kind, 1)
			c.logf("task %d call %d: %s cs %d ext %d: %q", i, k, x.call.Kind, x.call.CS, x.call.Ext, trim(x.got, 200))
			if x.got != x.want {
				c.viol("differs", "C12", "task %d: %s (character sets %d, %d) of %q%x gives\n%q\nalone:\n%q", i, x.call.Kind, x.call.CS, x.call.Ext, x.call.Text, x.call.Data, x.got, x.want)
			}
		}
	}
	if len(recs) > 1 {
		c.out.Nontrivial = true
	}
}

// tryRun lets a call panic that panics alone, too.
func (c *CodecCall) tryRun(sh []*codecShared, want string) (s string) {
	if strings.HasPrefix(want, "panic: ") {
		defer func() {
			if e := recover(); e != nil {
				s = fmt.Sprintf("panic: %v", e)
			}
		}()
	}
	return c.run(sh)
}
