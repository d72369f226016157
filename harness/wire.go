package main

import (
	"errors"
	"fmt"
	"strings"
	stdtime "time"
	"unicode/utf16"

	"github.com/warthog618/sms/encoding/tpdu"
)

// A second, independent reading and writing of the octets on the wire
// (3GPP TS 23.040, 23.038), for the service centre and the other senders of
// the simulated network.

type wireTPDU struct {
	FO   byte
	MR   byte
	TOA  byte
	Addr string
	PID  byte
	DCS  byte
	SCTS stamp
	VP   []byte
	UDH  []IE
	UD   []byte // septets, or octets
}

// stamp is a service centre time stamp: local time and quarters of an hour.
type stamp struct {
	Y, M, D, H, Mi, S int
	TZ                int
}

const digitSet = "0123456789*#abc"

func alphabetOf(dcs byte) int {
	switch {
	case dcs&0x80 == 0:
		a := int(dcs >> 2 & 3)
		if a == 3 {
			a = 0
		}
		return a
	case dcs&0xe0 == 0xc0:
		return 0
	case dcs&0xf0 == 0xe0:
		return 2
	case dcs&0xf0 == 0xf0:
		return int(dcs >> 2 & 1)
	}
	return 0
}

func packSeptets(s []byte, fill int) []byte {
	n := (len(s)*7 + fill + 7) / 8
	out := make([]byte, n)
	pos := fill
	for _, c := range s {
		for b := 0; b < 7; b++ {
			if c>>uint(b)&1 != 0 {
				out[pos/8] |= 1 << uint(pos%8)
			}
			pos++
		}
	}
	return out
}

func unpackSeptets(p []byte, fill, n int) []byte {
	out := make([]byte, n)
	pos := fill
	for i := range out {
		for b := 0; b < 7; b++ {
			if p[pos/8]>>uint(pos%8)&1 != 0 {
				out[i] |= 1 << uint(b)
			}
			pos++
		}
	}
	return out
}

var gsmDefaultRev = func() map[rune]byte {
	m := map[rune]byte{}
	for s := 127; s >= 0; s-- {
		if r, ok := gsmDefault[byte(s)]; ok && s != 0x1b {
			m[r] = byte(s)
		}
	}
	return m
}()

var gsmExtRev = func() map[rune]byte {
	m := map[rune]byte{}
	for s := 127; s >= 0; s-- {
		if r, ok := gsmExt[byte(s)]; ok {
			m[r] = byte(s)
		}
	}
	return m
}()

// gsmSeptets encodes text in the default alphabet and its extension.
func gsmSeptets(text string) ([]byte, bool) {
	var out []byte
	for _, r := range text {
		if s, ok := gsmDefaultRev[r]; ok {
			out = append(out, s)
		} else if s, ok := gsmExtRev[r]; ok {
			out = append(out, 0x1b, s)
		} else {
			return nil, false
		}
	}
	return out, true
}

var (
	errWire    = errors.New("malformed")
	errElement = errors.New("an element of the header is longer than the header")
)

func encodeAddr(toa byte, addr string) []byte {
	if toa>>4&7 == 5 {
		s, _ := gsmSeptets(addr)
		return append([]byte{byte((len(s)*7 + 3) / 4), toa}, packSeptets(s, 0)...)
	}
	out := []byte{byte(len(addr)), toa}
	for i := 0; i < len(addr); i += 2 {
		b := byte(strings.IndexByte(digitSet, addr[i]))
		if i+1 < len(addr) {
			b |= byte(strings.IndexByte(digitSet, addr[i+1])) << 4
		} else {
			b |= 0xf0
		}
		out = append(out, b)
	}
	return out
}

func decodeAddr(b []byte) (toa byte, addr string, n int, err error) {
	if len(b) < 2 {
		return 0, "", 0, errWire
	}
	l := int(b[0])
	toa = b[1]
	ol := (l + 1) / 2
	if len(b) < 2+ol {
		return 0, "", 0, errWire
	}
	v := b[2 : 2+ol]
	var sb strings.Builder
	if toa>>4&7 == 5 {
		for _, s := range unpackSeptets(v, 0, l*4/7) {
			r, ok := gsmDefault[s]
			if !ok || s == 0x1b {
				return 0, "", 0, errWire
			}
			sb.WriteRune(r)
		}
	} else {
		for i := 0; i < l; i++ {
			d := v[i/2] >> uint(4*(i%2)) & 15
			if d == 15 {
				return 0, "", 0, errWire
			}
			sb.WriteByte(digitSet[d])
		}
		if l%2 == 1 && v[ol-1]>>4 != 15 {
			return 0, "", 0, errWire
		}
	}
	return toa, sb.String(), 2 + ol, nil
}

func bcdSwap(v int) byte { return byte(v%10<<4 | v/10%10) }

func (s stamp) encode() []byte {
	tz, sign := s.TZ, byte(0)
	if tz < 0 {
		tz, sign = -tz, 8
	}
	return []byte{bcdSwap(s.Y), bcdSwap(s.M), bcdSwap(s.D), bcdSwap(s.H), bcdSwap(s.Mi), bcdSwap(s.S), bcdSwap(tz) | sign}
}

func decodeStamp(b []byte) (s stamp, err error) {
	if len(b) < 7 {
		return s, errWire
	}
	d := func(x byte) int { return int(x&15)*10 + int(x>>4) }
	s = stamp{d(b[0]), d(b[1]), d(b[2]), d(b[3]), d(b[4]), d(b[5]), d(b[6] &^ 8)}
	if b[6]&8 != 0 {
		s.TZ = -s.TZ
	}
	return s, nil
}

// nthStamp is the n-th of a series of distinct moments, with zone and all.
func nthStamp(base, n int) stamp {
	h := uint64(base)*0x9e3779b97f4a7c15 + uint64(n)*0xbf58476d1ce4e5b9
	h ^= h >> 29
	tz := int(h%105) - 48 // -12:00 .. +14:00
	if h>>20%4 == 0 {
		tz = 0
	}
	t := stdtime.Date(1970+base%99, stdtime.Month(1+base%12), 1+base%28, base%24, base%60, 0, 0, stdtime.UTC).Add(stdtime.Duration(n) * stdtime.Second)
	y := t.Year() % 100
	return stamp{y, int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second(), tz}
}

func (s stamp) time() stdtime.Time {
	y := s.Y + 1900
	if s.Y < 70 {
		y += 100
	}
	return stdtime.Date(y, stdtime.Month(s.M), s.D, s.H, s.Mi, s.S, 0, stdtime.FixedZone("", s.TZ*900))
}

func stampOf(t stdtime.Time) stamp {
	_, off := t.Zone()
	return stamp{t.Year() % 100, int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second(), off / 900}
}

func encodeUDH(udh []IE) []byte {
	if len(udh) == 0 {
		return nil
	}
	out := []byte{0}
	for _, e := range udh {
		out = append(out, e.ID, byte(len(e.Data)))
		out = append(out, e.Data...)
	}
	out[0] = byte(len(out) - 1)
	return out
}

func (w *wireTPDU) encodeUD() []byte {
	h := encodeUDH(w.UDH)
	if len(h) == 0 && w.FO&0x40 != 0 {
		h = []byte{0} // announced, and empty
	}
	if alphabetOf(w.DCS) == 0 {
		fill := (7 - len(h)*8%7) % 7
		n := (len(h)*8 + fill) / 7
		out := []byte{byte(n + len(w.UD))}
		out = append(out, h...)
		if len(w.UD) > 0 {
			out = append(out, packSeptets(w.UD, fill)...)
		}
		return out
	}
	out := []byte{byte(len(h) + len(w.UD))}
	out = append(out, h...)
	return append(out, w.UD...)
}

func (w *wireTPDU) decodeUD(b []byte) error {
	if len(b) < 1 {
		return errWire
	}
	udl := int(b[0])
	b = b[1:]
	octets := udl
	seven := alphabetOf(w.DCS) == 0
	if seven {
		octets = (udl*7 + 7) / 8
	}
	if len(b) != octets {
		return fmt.Errorf("%w: length %d announces %d octets, there are %d", errWire, udl, octets, len(b))
	}
	if octets > 140 {
		return fmt.Errorf("%w: %d octets of user data", errWire, octets)
	}
	hl := 0
	if w.FO&0x40 != 0 {
		if len(b) < 1 || len(b) < 1+int(b[0]) {
			return fmt.Errorf("%w: header longer than the user data", errWire)
		}
		hl = 1 + int(b[0])
		for i := 1; i < hl; {
			if i+2 > hl || i+2+int(b[i+1]) > hl {
				return errElement
			}
			w.UDH = append(w.UDH, IE{b[i], b[i+2 : i+2+int(b[i+1])]})
			i += 2 + int(b[i+1])
		}
	}
	if !seven {
		w.UD = b[hl:]
		if alphabetOf(w.DCS) == 2 && len(w.UD)%2 != 0 {
			return fmt.Errorf("%w: odd length of UCS-2 data", errWire)
		}
		return nil
	}
	fill := (7 - hl*8%7) % 7
	n := udl - (hl*8+fill)/7
	if n < 0 {
		return fmt.Errorf("%w: fewer septets than the header takes", errWire)
	}
	if n > 0 {
		w.UD = unpackSeptets(b[hl:], fill, n)
	}
	return nil
}

func (w *wireTPDU) encodeDeliver() []byte {
	out := []byte{w.FO}
	out = append(out, encodeAddr(w.TOA, w.Addr)...)
	out = append(out, w.PID, w.DCS)
	out = append(out, w.SCTS.encode()...)
	return append(out, w.encodeUD()...)
}

func parseDeliver(b []byte) (*wireTPDU, error) {
	if len(b) < 1 || b[0]&3 != 0 {
		return nil, errWire
	}
	w := &wireTPDU{FO: b[0]}
	toa, addr, n, err := decodeAddr(b[1:])
	if err != nil {
		return nil, fmt.Errorf("address: %w", err)
	}
	w.TOA, w.Addr = toa, addr
	b = b[1+n:]
	if len(b) < 9 {
		return nil, errWire
	}
	w.PID, w.DCS = b[0], b[1]
	if w.SCTS, err = decodeStamp(b[2:]); err != nil {
		return nil, err
	}
	return w, w.decodeUD(b[9:])
}

func parseSubmit(b []byte) (*wireTPDU, error) {
	if len(b) < 2 || b[0]&3 != 1 {
		return nil, errWire
	}
	w := &wireTPDU{FO: b[0], MR: b[1]}
	toa, addr, n, err := decodeAddr(b[2:])
	if err != nil {
		return nil, fmt.Errorf("address: %w", err)
	}
	w.TOA, w.Addr = toa, addr
	b = b[2+n:]
	vpl := []int{0, 7, 1, 7}[w.FO>>3&3]
	if len(b) < 2+vpl {
		return nil, errWire
	}
	w.PID, w.DCS = b[0], b[1]
	w.VP = b[2 : 2+vpl]
	return w, w.decodeUD(b[2+vpl:])
}

// misread says what is wrong with the library accepting octets as t, if anything:
// that the header's elements do not fit into it, or that t says something else.
func misread(tp []byte, t *tpdu.TPDU) string {
	var w *wireTPDU
	var err error
	switch t.SmsType() {
	case tpdu.SmsDeliver:
		w, err = parseDeliver(tp)
	case tpdu.SmsSubmit:
		w, err = parseSubmit(tp)
	default:
		return misreadOther(tp, t)
	}
	if err != nil {
		if err == errElement {
			return err.Error()
		}
		return ""
	}
	l := wireOf(t)
	if stampOf(w.SCTS.time()) != w.SCTS {
		l.SCTS = w.SCTS // no such moment
	}
	if a, b := w.key(), l.key(); a != b {
		return fmt.Sprintf("it says %s, and was read as %s", a, b)
	}
	return ""
}

// misreadOther is the same for commands and reports, whose failure cause is
// taken to be present (see report-without-cause).
func misreadOther(tp []byte, t *tpdu.TPDU) string {
	w := wireTPDU{FO: tp[0]}
	x := XT{FO: tp[0] &^ 0x43, Hdr0: tp[0]&0x40 != 0, Type: map[tpdu.SmsType]string{
		tpdu.SmsCommand: "command", tpdu.SmsStatusReport: "status",
		tpdu.SmsSubmitReport: "sreport", tpdu.SmsDeliverReport: "dreport"}[t.SmsType()]}
	if x.Type == "" {
		return ""
	}
	b := tp[1:]
	short, odd := false, false
	octet := func() (o byte) {
		if len(b) == 0 {
			short = true
			return 0
		}
		o, b = b[0], b[1:]
		return o
	}
	peer := func() {
		toa, addr, n, err := decodeAddr(b)
		if err != nil {
			short = true
			return
		}
		x.TOA, x.Addr, b = toa, addr, b[n:]
	}
	moment := func() (s stamp) {
		s, err := decodeStamp(b)
		if err == nil && stampOf(s.time()) != s {
			odd = true // no such moment
		}
		if err != nil {
			short = true
			return s
		}
		b = b[7:]
		return s
	}
	switch x.Type {
	case "command":
		x.MR, x.PID, x.CT, x.MN = octet(), octet(), octet(), octet()
		peer()
		w.DCS, x.PI = 4, 4
	case "status":
		x.MR = octet()
		peer()
		x.SCTS, x.DT = moment(), moment()
		x.ST = octet()
		if len(b) > 0 {
			x.PI = octet()
		}
	case "sreport":
		x.FCS, x.PI = octet(), octet()
		x.SCTS = moment()
	case "dreport":
		x.FCS, x.PI = octet(), octet()
	}
	if x.Type != "command" {
		if x.PI&1 != 0 {
			x.PID = octet()
		}
		if x.PI&2 != 0 {
			x.DCS = octet()
		}
		w.DCS = x.DCS
	}
	if short || odd || w.DCS&0xc0 == 0x80 {
		return ""
	}
	if x.PI&4 != 0 {
		if err := w.decodeUD(b); err != nil {
			if err == errElement {
				return err.Error()
			}
			return ""
		}
		x.UDH, x.UD = w.UDH, w.UD
	}
	if x.Type == "command" {
		x.PI = 0
	}
	if s := x.differs(t); s != "" {
		return "it was read with" + s
	}
	return ""
}

// key is everything the receiver is to see of a TPDU.
func (w *wireTPDU) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%02x %02x %02x/%q %02x %02x %v", w.FO, w.MR, w.TOA, w.Addr, w.PID, w.DCS, w.SCTS)
	for _, e := range w.UDH {
		fmt.Fprintf(&sb, " %02x:%x", e.ID, e.Data)
	}
	fmt.Fprintf(&sb, " %x", w.UD)
	return sb.String()
}

// wireOf is the same for what the library made of it.
func wireOf(t *tpdu.TPDU) *wireTPDU {
	w := &wireTPDU{FO: byte(t.FirstOctet), PID: t.PID, DCS: byte(t.DCS), UD: t.UD}
	if t.SmsType() == tpdu.SmsSubmit {
		w.MR, w.TOA, w.Addr = t.MR, t.DA.TOA, t.DA.Addr
	} else {
		w.TOA, w.Addr = t.OA.TOA, t.OA.Addr
		w.SCTS = stampOf(t.SCTS.Time)
	}
	for _, e := range t.UDH {
		w.UDH = append(w.UDH, IE{e.ID, e.Data})
	}
	return w
}

// splitFrame takes the service centre address off a PDU-mode frame.
func splitFrame(b []byte) (toa byte, addr string, tp []byte, err error) {
	if len(b) < 1 || len(b) < 1+int(b[0]) {
		return 0, "", nil, errWire
	}
	l := int(b[0])
	if l == 0 {
		return 0, "", b[1:], nil
	}
	var sb strings.Builder
	for i := 2; i < 1+l; i++ {
		for _, d := range []byte{b[i] & 15, b[i] >> 4} {
			if d == 15 {
				if i != l {
					return 0, "", nil, errWire
				}
				continue
			}
			sb.WriteByte(digitSet[d])
		}
	}
	return b[1], sb.String(), b[1+l:], nil
}

func encodeFrame(toa byte, addr string, tp []byte) []byte {
	if addr == "" {
		return append([]byte{0}, tp...)
	}
	a := encodeAddr(toa, addr)
	out := []byte{byte(len(a) - 1)}
	out = append(out, a[1:]...)
	return append(out, tp...)
}

func utf16Bytes(text string) []byte {
	var out []byte
	for _, u := range utf16.Encode([]rune(text)) {
		out = append(out, byte(u>>8), byte(u))
	}
	return out
}
