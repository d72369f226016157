package main

import (
	stdtime "time"

	"verif/simrt"
)

// XT is the content of one TPDU of any of the six types, as the octets say it.
type XT struct {
	Type  string `json:"type"` // submit deliver command status sreport dreport
	FO    byte   `json:"fo"`   // without message type, format of validity period, header indicator
	MR    byte   `json:"mr"`
	TOA   byte   `json:"toa"`
	Addr  string `json:"addr"`
	PID   byte   `json:"pid"`
	DCS   byte   `json:"dcs"`
	CT    byte   `json:"ct"`
	MN    byte   `json:"mn"`
	ST    byte   `json:"st"`
	FCS   byte   `json:"fcs"`
	PI    byte   `json:"pi"`
	VPF   int    `json:"vpf"`
	VP    [7]int `json:"vp"` // EFI kind, octet/seconds, h, m, s
	SCTS  stamp  `json:"scts"`
	DT    stamp  `json:"dt"`
	UDH   []IE   `json:"udh,omitempty"`
	Hdr0  bool   `json:"hdr0,omitempty"` // a header without elements, announced nevertheless
	UD    []byte `json:"ud,omitempty"`
	Fill  bool   `json:"fill,omitempty"`  // a header without text is filled up to a septet
	Bare0 bool   `json:"bare0,omitempty"` // a parameter indicator though nothing follows
}

// XOp is something a device does.
type XOp struct {
	Dev   int    `json:"dev"`
	Task  int    `json:"task"`
	Delay int64  `json:"delay"`
	T     XT     `json:"tpdu"`
	Text  string `json:"text,omitempty"` // encoded by the device's encoder
	Build int    `json:"build"`
	Other bool   `json:"other,omitempty"` // made by a device without this library
	USSD  []byte `json:"ussd,omitempty"`  // a USSD string is sent instead
}

// XDev is a device.
type XDev struct {
	TOA   byte   `json:"toa"`
	Addr  string `json:"addr"`
	SC    int    `json:"sc"`
	MR    int    `json:"mr"`
	Reuse bool   `json:"reuse,omitempty"`
}

// XSC is a service centre.
type XSC struct {
	TOA   byte   `json:"toa"`
	Addr  string `json:"addr"`
	Reuse bool   `json:"reuse,omitempty"`
	Other bool   `json:"other,omitempty"` // its octets are made without this library
}

// XPlan is the exchange scenario.
type XPlan struct {
	Devs     []XDev  `json:"devices"`
	SCs      []XSC   `json:"centres"`
	Ops      []XOp   `json:"ops"`
	NetSeed  uint64  `json:"net_seed"`
	Drop     float64 `json:"drop"`
	Dup      float64 `json:"dup"`
	Corrupt  float64 `json:"corrupt"`
	MaxDelay int64   `json:"max_delay"`
	Think    int64   `json:"think"` // how long service centres take at most
	Replies  bool    `json:"replies"`

	NoCorrupt bool `json:"no_corrupt,omitempty"`
}

func genStamp(r *simrt.RNG) stamp {
	y := 1970 + r.Intn(100)
	m := 1 + r.Intn(12)
	last := stdtime.Date(y, stdtime.Month(m)+1, 0, 0, 0, 0, 0, stdtime.UTC).Day()
	s := stamp{y % 100, m, 1 + r.Intn(last), r.Intn(24), r.Intn(60), r.Intn(60), 0}
	switch n := r.Intn(10); {
	case n < 2:
	case n < 8:
		s.TZ = r.Intn(105) - 48
	default:
		s.TZ = r.Intn(159) - 79
	}
	if r.P(0.1) {
		s.D = last
	}
	return s
}

func genDCS(r *simrt.RNG) byte {
	switch n := r.Intn(10); {
	case n < 3:
		return 0
	case n < 5:
		return pick[byte](r, 4, 8)
	case n < 8:
		return byte(r.Intn(128))
	case n < 9:
		return 0xf0 | byte(r.Intn(16))
	default:
		return 0xc0 | byte(r.Intn(48))
	}
}

// genUD draws a header and user data that fit into max octets.
func genXUD(r *simrt.RNG, t *XT, max int) {
	if r.P(0.4) {
		t.UDH = genHeader(r)
		if r.P(0.3) {
			t.UDH = append(t.UDH, IE{0, []byte{byte(r.Next()), byte(2 + r.Intn(4)), byte(1 + r.Intn(2))}})
		}
		if len(encodeUDH(t.UDH)) > max-4 {
			t.UDH = nil
		}
	}
	t.Hdr0 = len(t.UDH) == 0 && r.P(0.05)
	left := max - len(t.header())
	if t.headed() {
		left-- // fill
	}
	switch alphabetOf(t.DCS) {
	case 0:
		n := left * 8 / 7
		n = pick(r, r.Intn(n+1), r.Intn(10), n, 7, 8, 15, 16)
		n = min(n, left*8/7)
		if t.headed() && r.P(0.05) {
			n = 0
		}
		t.Fill = n == 0 && r.P(0.5)
		for i := 0; i < n; i++ {
			t.UD = append(t.UD, byte(r.Intn(128)))
		}
		if n > 0 && r.P(0.3) {
			t.UD[n-1] = pick[byte](r, 0, 0x0d, 0x7f)
		}
	case 1:
		n := pick(r, r.Intn(left+1), left, 0, 1)
		for i := 0; i < n; i++ {
			t.UD = append(t.UD, byte(r.Next()))
		}
	case 2:
		n := pick(r, r.Intn(left/2+1), left/2, 0, 1)
		for i := 0; i < 2*n; i++ {
			t.UD = append(t.UD, byte(r.Next()))
		}
	}
}

func genVP(r *simrt.RNG, t *XT) {
	t.VPF = r.Intn(4)
	switch t.VPF {
	case 2:
		t.VP[1] = pick(r, r.Intn(256), 0, 1, 142, 143, 144, 167, 168, 196, 197, 255)
	case 3:
		s := genStamp(r)
		t.VP = [7]int{s.Y, s.M, s.D, s.H, s.Mi, s.S, s.TZ}
	case 1:
		t.VP[0] = r.Intn(4) | pick(r, 0, 0x40)
		switch t.VP[0] & 7 {
		case 1:
			t.VP[1] = pick(r, r.Intn(256), 0, 143, 255)
		case 2:
			t.VP[1] = pick(r, r.Intn(256), 255)
		case 3:
			t.VP[1], t.VP[2], t.VP[3] = pick(r, r.Intn(24), r.Intn(100), 99), r.Intn(60), r.Intn(60)
		}
	}
}

// genPI draws the optional parameters of a report.
func genPI(r *simrt.RNG, t *XT, max int) {
	t.PI = byte(r.Intn(8))
	if r.P(0.1) {
		t.PI |= byte(r.Intn(32)) << 3
	}
	if t.PI&1 != 0 {
		t.PID = byte(r.Next())
	}
	if t.PI&2 != 0 {
		t.DCS = genDCS(r)
	}
	if t.PI&4 != 0 {
		genXUD(r, t, max)
	}
}

func genX(r *simrt.RNG, prop string) *Plan {
	pl := &XPlan{}
	p := &Plan{Prop: prop, Scenario: "exchange", X: pl, MaxSteps: 60000000}
	p.Seed, p.MapSalt = r.Next(), r.Next()
	p.Policy = genPolicy(r, true)
	if p.Policy.Kind == simrt.RandomWalk {
		p.Policy.Mean = pick(r, 3, 10, 30, 100, 300)
	}
	if p.Policy.Kind == simrt.HotSites {
		p.Policy.Switch = pick(r, 0.05, 0.3)
	}
	sec := int64(1e9)
	pl.NetSeed = r.Next()
	pl.Drop = pick(r, 0, 0.02, 0.2)
	pl.Dup = pick(r, 0, 0.05, 0.3)
	pl.Corrupt = pick(r, 0, 0, 0.1, 0.4)
	if prop == "C08" {
		pl.Corrupt = pick(r, 0.3, 1, 2, 4)
	}
	pl.MaxDelay = pick(r, 0, sec, 30*sec)
	pl.Think = pick(r, 0, sec, 60*sec)
	pl.Replies = r.P(0.85)
	for n := 1 + r.Intn(2); n > 0; n-- {
		pl.SCs = append(pl.SCs, XSC{TOA: pick[byte](r, 0x91, 0x81, 0xa1), Addr: genDigits(r, pick(r, 0, 1, 5, 10, 11, 12, 19, 20)), Reuse: r.P(0.6), Other: r.P(0.4)})
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		d := XDev{SC: r.Intn(len(pl.SCs)), MR: pick(r, 0, 200, 254, 255, r.Intn(256)), Reuse: r.P(0.6)}
		d.TOA, d.Addr = genAddr(r)
		pl.Devs = append(pl.Devs, d)
	}
	n := 1 + r.Intn(8)
	if r.P(0.01) {
		n = 300 // the message references go round
	}
	for ; n > 0; n-- {
		o := XOp{Dev: r.Intn(len(pl.Devs)), Task: r.Intn(2), Build: r.Intn(24), Other: r.P(0.25)}
		if r.P(0.5) {
			o.Delay = int64(r.Intn(int(10 * sec)))
		}
		if r.P(0.08) {
			o.USSD = make([]byte, 1+r.Intn(pick(r, 9, 20, 182)))
			for i := range o.USSD {
				o.USSD[i] = byte(r.Intn(128))
			}
			if m := r.Intn(4); m > 0 {
				for i := len(o.USSD) - m; i < len(o.USSD); i++ {
					if i >= 0 {
						o.USSD[i] = pick[byte](r, 0, 1, 2, 13, 13, 13, 0x1a, 0x1b, 0x40, 0x7f)
					}
				}
			}
			pl.Ops = append(pl.Ops, o)
			continue
		}
		t := &o.T
		t.Type = pick(r, "submit", "submit", "submit", "command")
		to := r.Intn(len(pl.Devs) + 2)
		if to < len(pl.Devs) {
			t.TOA, t.Addr = pl.Devs[to].TOA, pl.Devs[to].Addr
		} else {
			t.TOA, t.Addr = genAddr(r)
		}
		t.PID = byte(r.Next()) & pick[byte](r, 0, 0xff)
		if t.Type == "submit" {
			t.FO = byte(r.Next()) & 0xa4
			t.DCS = genDCS(r)
			genVP(r, t)
			genXUD(r, t, 140)
			if r.P(0.2) && alphabetOf(t.DCS) == 0 && t.DCS&0x80 == 0 {
				t.UDH, t.UD, t.Hdr0 = nil, nil, false
				t.DCS &^= 0x0c
				o.Text = genText(r, 160, 153, 70, 67, false, false)
				o.Other = false
			}
		} else {
			t.FO = byte(r.Next()) & 0x20
			t.DCS = 4
			t.CT = byte(r.Next()) & pick[byte](r, 3, 0xff)
			t.MN = byte(r.Next())
			genXUD(r, t, 130)
		}
		pl.Ops = append(pl.Ops, o)
	}
	return p
}
