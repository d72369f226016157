package main

import (
	"unicode/utf16"
	"unicode/utf8"

	"verif/simrt"
)

// CSOpt is one option on the character sets an encoder may use.
type CSOpt struct {
	Kind string `json:"kind"` // all, set, locking, shift
	NLI  []int  `json:"nli,omitempty"`
}

// E2EDev is a sender: an encoder with its template, or a foreign device.
type E2EDev struct {
	TOA      byte    `json:"toa"`
	Addr     string  `json:"addr"`
	PeerTOA  byte    `json:"peer_toa"`
	PeerAddr string  `json:"peer_addr"`
	SCTOA    byte    `json:"sc_toa"`
	SCAddr   string  `json:"sc_addr"`
	Style    string  `json:"style"` // encoder, manual, foreign
	Mode     string  `json:"mode"`  // relay, deliver, direct
	Wide     bool    `json:"wide,omitempty"`
	PID      byte    `json:"pid"`
	DCS      byte    `json:"dcs"`
	DCSOpt   bool    `json:"dcs_as_option,omitempty"`
	FO       byte    `json:"fo"` // flags besides type, VPF and UDHI
	VP       int     `json:"vp,omitempty"`
	UDH      []IE    `json:"udh,omitempty"`
	UDH0     bool    `json:"udh_empty,omitempty"` // a header without elements
	UDHOpt   bool    `json:"udh_as_option,omitempty"`
	Charset  []CSOpt `json:"charset,omitempty"`
	MsgCount int     `json:"msg_count"`
	RefCount int     `json:"ref_count"`
	Stamp    int     `json:"stamp"`
}

// E2EMsg is one message to carry.
type E2EMsg struct {
	Dev     int     `json:"dev"`
	Task    int     `json:"task"`
	Kind    string  `json:"kind"` // text, 8bit, ucs2; on foreign devices also cut16 and raw16
	Text    string  `json:"text,omitempty"`
	Data    []byte  `json:"data,omitempty"`
	Charset []CSOpt `json:"charset,omitempty"`
	Ref     int     `json:"ref,omitempty"` // foreign devices
	Cut     int     `json:"cut,omitempty"` // foreign devices: units per part
	Delay   int64   `json:"delay,omitempty"`
	Resends []int64 `json:"resends,omitempty"`
	One     bool    `json:"one,omitempty"`   // foreign devices: a lone part says it is 1 of 1
	Extra   []IE    `json:"extra,omitempty"` // foreign devices: further elements
}

// E2EPlan is a network of senders, a service centre and receivers.
type E2EPlan struct {
	Timeout   int64    `json:"timeout"`
	Handler   bool     `json:"handler"`
	Devices   []E2EDev `json:"devices"`
	Msgs      []E2EMsg `json:"messages"`
	NetSeed   uint64   `json:"net_seed"`
	Drop      float64  `json:"drop"`
	Dup       float64  `json:"dup"`
	MaxDelay  int64    `json:"max_delay"`
	Restarts  []int64  `json:"restarts,omitempty"`
	Reuse     bool     `json:"reuse,omitempty"` // receivers unmarshal into one variable and copy
	Corrupt   float64  `json:"corrupt,omitempty"`
	Hostile   []int    `json:"hostile,omitempty"` // seeds of made-up frames
	NoCorrupt bool     `json:"no_corrupt,omitempty"`
	Gather    bool     `json:"gather,omitempty"` // receivers do without a collector
}

func genAddr(r *simrt.RNG) (byte, string) {
	switch n := r.Intn(10); {
	case n < 5:
		return pick[byte](r, 0x91, 0x81, 0xa1, 0x80, 0xc8, 0xff), genDigits(r, 1+r.Intn(15))
	case n < 7:
		return byte(0x80 | r.Intn(128)&^0x50 | pick(r, 0, 0x10, 0x40)), genDigits(r, r.Intn(21))
	default:
		n := 1 + r.Intn(11)
		var b []rune
		for i := 0; i < n; i++ {
			if r.P(0.7) {
				b = append(b, pick(r, 'A', 'b', 'Z', '0', '9', ' ', ':', '%', '@'))
			} else {
				s := byte(r.Intn(128))
				if s == 0x1b {
					s = 0
				}
				b = append(b, gsmDefault[s])
			}
		}
		return 0xd0 | byte(r.Intn(16)), string(b)
	}
}

func neighbourAddr(r *simrt.RNG, toa byte, addr string) (byte, string) {
	alnum := toa>>4&7 == 5
	switch r.Intn(5) {
	case 0:
		if !alnum {
			return toa ^ pick[byte](r, 1, 0x10, 0x30), addr
		}
		return toa ^ 1, addr
	case 1:
		if len([]rune(addr)) < 11 {
			return toa, addr + pick(r, "0", "1", "9")
		}
	case 2:
		if rs := []rune(addr); len(rs) > 1 {
			return toa, string(rs[:len(rs)-1])
		}
	case 3:
		if rs := []rune(addr); len(rs) > 0 {
			i := r.Intn(len(rs))
			if rs[i] != '7' {
				rs[i] = '7'
			} else {
				rs[i] = '3'
			}
			return toa, string(rs)
		}
	}
	return genAddr(r)
}

var allRunes = func() map[int][]rune {
	m := map[int][]rune{}
	for i := 0; i <= 13; i++ {
		m[i] = []rune(lockingChars[i])
		m[100+i] = []rune(shiftChars[i])
	}
	return m
}()

func randRune(r *simrt.RNG, max int) rune {
	for {
		c := rune(r.Intn(max))
		if utf8.ValidRune(c) {
			return c
		}
	}
}

// wideRune draws a character below max, at the edges of the encodings' ranges
// more often than others.
func wideRune(r *simrt.RNG, min, max int) rune {
	if r.P(0.06) {
		c := pick(r, 0, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffc, 0xfffd, 0xfffe, 0xffff,
			0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10fc00, 0x10ffff)
		if c >= min && c < max {
			return rune(c)
		}
	}
	if min > 0 {
		return rune(min + r.Intn(max-min))
	}
	return randRune(r, max)
}

// runeSource returns a generator of the characters of one text.
func runeSource(r *simrt.RNG, esc bool) func() rune {
	from := func(sets ...[]rune) func() rune {
		return func() rune {
			for {
				s := sets[r.Intn(len(sets))]
				if c := s[r.Intn(len(s))]; c != 0x1b || esc {
					return c
				}
			}
		}
	}
	switch n := r.Intn(100); {
	case n < 10:
		return func() rune { return rune(32 + r.Intn(95)) }
	case n < 25:
		return from(allRunes[0])
	case n < 35:
		return from(allRunes[0], allRunes[100])
	case n < 42:
		return from(allRunes[100])
	case n < 52:
		return from(allRunes[1+r.Intn(13)])
	case n < 60:
		return from(allRunes[0], allRunes[101+r.Intn(13)])
	case n < 68:
		k := 1 + r.Intn(13)
		return from(allRunes[k], allRunes[100+k])
	case n < 72:
		k := 1 + r.Intn(13)
		return from(allRunes[k], allRunes[100])
	case n < 75:
		return from(allRunes[1+r.Intn(13)], allRunes[101+r.Intn(13)])
	case n < 81:
		return func() rune { return wideRune(r, 0, 0x10000) }
	case n < 88:
		return func() rune { return wideRune(r, 0x10000, 0x110000) }
	case n < 94:
		return func() rune {
			if r.P(0.5) {
				return wideRune(r, 0x10000, 0x110000)
			}
			return wideRune(r, 0, 0x10000)
		}
	case n < 97:
		c := pick(r, 'a', '@', '{', '€', 'ß', rune(0x1f600), 'ह', '\r', 0xe000, 0xffff, 0xd7ff, 0xfeff)
		return func() rune { return c }
	default:
		c := pick(r, 'a', '@', '\n', 'Ω')
		d := pick(r, '€', '[', rune(0x1f600), 'ш')
		q := pick(r, 0.02, 0.1, 0.5)
		return func() rune {
			if r.P(q) {
				return d
			}
			return c
		}
	}
}

func septetLen(text string) (n int, ok bool) {
	s, ok := gsmSeptets(text)
	return len(s), ok
}

func utf16Len(text string) int { return len(utf16.Encode([]rune(text))) }

// genLen draws how many units a message has; cap is what a part can carry.
func genLen(r *simrt.RNG, single, cap int, big bool) int {
	switch n := r.Intn(100); {
	case big && n < 40:
		return cap*(20+r.Intn(230)) + r.Intn(cap)
	case big && n < 70:
		return cap*255 - r.Intn(3)*pick(r, 0, 1, 2, cap)
	case n < 10:
		return 1 + r.Intn(12)
	case n < 15:
		return r.Intn(3)
	case n < 35:
		return single - 2 + r.Intn(5)
	case n < 75:
		return cap*(2+r.Intn(3)) - 2 + r.Intn(5)
	default:
		return 1 + r.Intn(cap*4)
	}
}

// genText makes a text of about n units of its own alphabet.
func genText(r *simrt.RNG, single7, cap7, single16, cap16 int, esc, big bool) string {
	src := runeSource(r, esc)
	probe := make([]rune, 0, 8)
	for i := 0; i < 8; i++ {
		probe = append(probe, src())
	}
	_, seven := septetLen(string(probe))
	single, cap := single7, cap7
	if !seven && r.P(0.8) {
		single, cap = single16, cap16
	}
	n := genLen(r, single, cap, big)
	out := make([]rune, 0, n)
	out = append(out, probe...)
	if n < 8 {
		if n < 0 {
			n = 0
		}
		return string(probe[:n])
	}
	units := 0
	for _, c := range out {
		units += runeUnits(c, seven)
	}
	for units < n {
		c := src()
		if len(out) > 20 && r.P(0.02) {
			c = pick(r, '€', '{', 'a', ' ', '@') // something else in between
		}
		out = append(out, c)
		units += runeUnits(c, seven)
	}
	return string(out)
}

func runeUnits(c rune, seven bool) int {
	if seven {
		if _, ok := gsmExtRev[c]; ok {
			return 2
		}
		return 1
	}
	if c > 0xffff {
		return 2
	}
	return 1
}

func genCharset(r *simrt.RNG) []CSOpt {
	var out []CSOpt
	for n := r.Intn(3); n >= 0; n-- {
		nl := []int{}
		for k := 1 + r.Intn(3); k > 0; k-- {
			nl = append(nl, 1+r.Intn(13))
		}
		if r.P(0.02) {
			nl = append(nl, pick(r, 0, 14, 99, 255))
		}
		out = append(out, CSOpt{Kind: pick(r, "all", "set", "set", "locking", "shift"), NLI: nl})
	}
	for i := range out {
		if out[i].Kind == "all" {
			out[i].NLI = nil
		}
	}
	return out
}

func genHeader(r *simrt.RNG) []IE {
	var out []IE
	left := pick(r, 4, 12, 40, 100)
	for n := 1 + r.Intn(3); n > 0 && left > 2; n-- {
		id := byte(r.Intn(256))
		if id == 0 || id == 8 || id == 24 || id == 25 {
			id = 0x70
		}
		d := make([]byte, r.Intn(min(left-2, 1+left/2)+1))
		for i := range d {
			d[i] = byte(r.Next())
		}
		left -= 2 + len(d)
		out = append(out, IE{id, d})
	}
	return out
}

func genE2E(r *simrt.RNG, prop string) *Plan {
	pl := &E2EPlan{}
	p := &Plan{Prop: prop, Scenario: "e2e", E2E: pl, MaxSteps: 40000000}
	p.Seed, p.MapSalt = r.Next(), r.Next()
	p.Policy = genPolicy(r, true)
	if p.Policy.Kind == simrt.RandomWalk {
		p.Policy.Mean = pick(r, 10, 30, 100, 300, 1000)
	}
	if p.Policy.Kind == simrt.HotSites {
		p.Policy.Switch = pick(r, 0.05, 0.3)
	}
	big := r.P(0.006)
	sec := int64(1e9)
	pl.Timeout = pick(r, 0, 2*sec, 10*sec, 60*sec)
	pl.Handler = true
	if prop == "C13" && pl.Timeout == 0 {
		pl.Timeout = 10 * sec
	} else if pl.Timeout != 0 {
		pl.Handler = !r.P(0.1) || prop == "C13"
	}
	if prop == "C21" {
		pl.Timeout, pl.Gather = 0, true
	}
	pl.NetSeed = r.Next()
	pl.Drop = pick(r, 0, 0.02, 0.1, 0.3)
	pl.Dup = pick(r, 0, 0.05, 0.3, 1)
	if prop == "C13" {
		pl.Drop = pick(r, 0.1, 0.3, 0.6, 0.9)
	}
	pl.MaxDelay = pick(r, 0, sec, 5*sec, 30*sec)
	nd := 1 + r.Intn(3)
	if big {
		nd = 1
	}
	for i := 0; i < nd; i++ {
		d := E2EDev{}
		for {
			if i > 0 && r.P(0.7) {
				k := r.Intn(i)
				d.TOA, d.Addr = neighbourAddr(r, pl.Devices[k].TOA, pl.Devices[k].Addr)
			} else {
				d.TOA, d.Addr = genAddr(r)
			}
			ok := true
			for _, x := range pl.Devices {
				ok = ok && (x.TOA != d.TOA || x.Addr != d.Addr)
			}
			if ok {
				break
			}
		}
		d.PeerTOA, d.PeerAddr = genAddr(r)
		d.SCTOA = pick[byte](r, 0x91, 0x81, 0xa1)
		d.SCAddr = genDigits(r, pick(r, 0, 1, 5, 10, 11, 12, 19, 20))
		d.Style = pick(r, "encoder", "encoder", "encoder", "manual", "foreign")
		d.Mode = pick(r, "relay", "relay", "deliver", "direct")
		if prop == "C21" && r.P(0.4) {
			d.Style = "foreign"
		}
		if d.Style == "foreign" {
			d.Mode = "deliver"
		}
		d.Wide = d.Style != "encoder" && r.P(0.5)
		if r.P(0.5) {
			d.PID = byte(r.Intn(256))
		}
		switch n := r.Intn(100); {
		case n < 60:
		case n < 85:
			d.DCS = byte(r.Intn(128)) // any of the general groups
		case n < 90:
			d.DCS = 0xc0 | byte(r.Intn(32))
		case n < 94:
			d.DCS = 0xe0 | byte(r.Intn(16))
		case n < 99:
			d.DCS = 0xf0 | byte(r.Intn(16))
		default:
			d.DCS = byte(0x80 + r.Intn(64))
		}
		if prop == "C13" && alphabetOf(d.DCS) != 0 {
			d.DCS = 0
		}
		d.DCSOpt = r.P(0.3)
		if r.P(0.5) {
			d.FO = byte(r.Next()) & 0xa4
			if d.Mode == "deliver" {
				d.FO = byte(r.Next()) & 0xac
			}
		}
		if d.Mode != "deliver" && r.P(0.4) {
			d.VP = 1 + r.Intn(3)
		}
		if r.P(0.3) && !big && d.Style != "foreign" {
			d.UDH = genHeader(r)
			if r.P(0.15) {
				d.UDH, d.UDH0 = nil, true
			}
			d.UDHOpt = r.P(0.4)
		}
		if r.P(0.6) {
			d.Charset = genCharset(r)
		}
		d.MsgCount = pick(r, 0, 0, 200, 250, 255, 1<<31-3, 65530)
		d.RefCount = pick(r, 0, 0, 200, 253, 255, 65533, 511)
		d.Stamp = r.Intn(1 << 20)
		pl.Devices = append(pl.Devices, d)
	}
	nm := 1 + r.Intn(5)
	if big {
		nm = 1 + r.Intn(2)
	} else if prop == "C21" {
		nm = 1 + r.Intn(8)
	}
	for i := 0; i < nm; i++ {
		m := E2EMsg{Dev: r.Intn(nd)}
		d := &pl.Devices[m.Dev]
		m.Task = r.Intn(2)
		hl := 0
		if len(d.UDH) > 0 {
			hl = len(encodeUDH(d.UDH))
		} else if d.UDH0 {
			hl = 1
		}
		ch := hl + 5
		if d.Wide {
			ch++
		}
		if hl == 0 {
			ch++
		}
		single := 140 - hl
		cap := 140 - ch
		if r.P(0.2) {
			cap -= 3
		}
		s7, c7 := (single*8)/7, (cap*8)/7
		m.Kind = "text"
		switch alphabetOf(d.DCS) {
		case 1:
			m.Kind = "8bit"
		case 2:
			m.Kind = "ucs2"
		default:
			if prop != "C13" && d.DCS&0x80 == 0 {
				if r.P(0.1) {
					m.Kind = "8bit"
				} else if r.P(0.1) {
					m.Kind = "ucs2"
				}
			}
		}
		if d.Style == "foreign" {
			m.Kind = pick(r, "text", "8bit", "ucs2", "ucs2", "cut16")
			if prop == "C13" {
				m.Kind = pick(r, "text", "ucs2", "ucs2", "cut16")
			}
			m.Ref = i*37 + d.RefCount
			m.Cut = pick(r, 0, 0, 0, 1, 2, 3, 10, 39)
			if prop == "C21" {
				m.Cut = pick(r, 0, 1, 2, 2, 3, 3, 10, 39)
				if r.P(0.7) {
					m.Ref = d.RefCount + pick(r, 0, 0, 1, 256, 3, i)
				}
				m.One = r.P(0.3)
				for r.P(0.3) && len(m.Extra) < 3 {
					x := IE{pick[byte](r, 1, 3, 5, 0x0a, 0x70, 0x22), make([]byte, r.Intn(4))}
					for k := range x.Data {
						x.Data[k] = pick(r, 0, 1, 2, 3, 8, byte(r.Next()))
					}
					m.Extra = append(m.Extra, x)
				}
			}
		}
		switch m.Kind {
		case "8bit":
			n := genLen(r, single, cap, big)
			for k := 0; k < n; k++ {
				m.Data = append(m.Data, byte(r.Next()))
			}
			if r.P(0.05) {
				for k := range m.Data {
					m.Data[k] = pick[byte](r, 0, 0xff)
				}
			}
		case "ucs2", "cut16":
			m.Text = genText(r, single/2, cap/2, single/2, cap/2, true, big)
		default:
			m.Text = genText(r, s7, c7, single/2, cap/2, r.P(0.1), big)
		}
		if prop == "C21" && m.Cut > 0 && r.P(0.93) {
			// few, short parts
			n := 1 + r.Intn(m.Cut*pick(r, 2, 3, 5, 12))
			if rs := []rune(m.Text); len(rs) > n {
				m.Text = string(rs[:n])
			}
			if len(m.Data) > n {
				m.Data = m.Data[:n]
			}
		}
		if d.Style == "foreign" {
			if m.Kind == "cut16" && prop != "C21" && r.P(0.3) {
				// halves of characters that have no other half
				m.Kind, m.Data, m.Text = "raw16", utf16Bytes(m.Text), ""
				for k := 0; k < len(m.Data); k += 2 {
					if r.P(0.08) {
						m.Data[k] = pick[byte](r, 0xd8, 0xdb, 0xdc, 0xdf)
					}
				}
				if n := len(m.Data); n > 0 && m.Data[n-2]&0xfc == 0xd8 {
					m.Data[n-2] |= 4
				}
			}
			if m.Kind == "text" {
				// such a device knows the default alphabet only
				var rs []rune
				for _, c := range m.Text {
					_, a := gsmDefaultRev[c]
					_, b := gsmExtRev[c]
					if a || b {
						rs = append(rs, c)
					} else {
						rs = append(rs, rune('a'+c%26))
					}
				}
				m.Text = string(rs)
			}
		} else if r.P(0.25) {
			m.Charset = genCharset(r)
		}
		if r.P(0.6) {
			m.Delay = int64(r.Intn(int(20 * sec)))
		}
		for k := pick(r, 0, 0, 1, 2); k > 0; k-- {
			m.Resends = append(m.Resends, int64(r.Intn(int(40*sec))))
		}
		if prop == "C13" && r.P(0.6) {
			m.Resends = nil
		}
		pl.Msgs = append(pl.Msgs, m)
	}
	if prop != "C13" && r.P(0.3) {
		for k := 1 + r.Intn(3); k > 0; k-- {
			pl.Restarts = append(pl.Restarts, int64(r.Intn(int(40*sec))))
		}
	}
	if prop == "C08" {
		pl.Corrupt = pick(r, 0.1, 0.5, 1, 2)
		for k := r.Intn(12); k > 0; k-- {
			pl.Hostile = append(pl.Hostile, int(r.Next()>>1))
		}
	}
	pl.Reuse = r.P(0.3)
	return p
}
