exec(open(__file__.rsplit('/',1)[0]+'/ref.py').read())
T='encoding/tpdu/tpdu.go'; V='encoding/tpdu/validityperiod.go'; S='encoding/tpdu/timestamp.go'; PD='encoding/pdumode/pdu.go'
opt='''	if t.PI.PID() {
		if len(src) <= ri {
			return NewDecodeError("pid", ri, ErrUnderflow)
		}
		t.PID = src[ri]
		ri++
	}
	if t.PI.DCS() {
		if len(src) <= ri {
			return NewDecodeError("dcs", ri, ErrUnderflow)
		}
		t.DCS = DCS(src[ri])
		ri++
	}
	if t.PI.UDL() {
		err := t.decodeUserData(src[ri:])
		if err != nil {
			return NewDecodeError("ud", ri, err)
		}
	}
	return nil
}
'''
tree('codecs',[
 (T,opt,'''	return t.unmarshalOptionals(ri, src)
}
'''),
 (T,'''func (t *TPDU) unmarshalSubmit(src []byte)''','''// parameter reads one octet for each parameter in turn.
type cursor struct {
	src []byte
	at  int
}

func (c *cursor) octet() (b byte, ok bool) {
	if ok = c.at < len(c.src); ok {
		b = c.src[c.at]
		c.at++
	}
	return
}

// unmarshalOptionals unmarshals the parameters that the PI says are present.
func (t *TPDU) unmarshalOptionals(ri int, src []byte) error {
	c := &cursor{src: src, at: ri}
	for _, p := range []struct {
		name    string
		present func() bool
		set     func(byte)
	}{
		{"pid", t.PI.PID, func(b byte) { t.PID = b }},
		{"dcs", t.PI.DCS, func(b byte) { t.DCS = DCS(b) }},
	} {
		if !p.present() {
			continue
		}
		b, ok := c.octet()
		if !ok {
			return NewDecodeError(p.name, c.at, ErrUnderflow)
		}
		p.set(b)
	}
	if !t.PI.UDL() {
		return nil
	}
	if err := t.decodeUserData(c.src[c.at:]); err != nil {
		return NewDecodeError("ud", c.at, err)
	}
	return nil
}

func (t *TPDU) unmarshalSubmit(src []byte)'''),
 (V,'''	switch {
	case d < time.Hour*12:
		t := byte(d / (time.Minute * 5))
		if t > 0 {
			t--
		}
		return t
	case d < time.Hour*24:
		return 119 + byte(d/(time.Minute*30))
	case d < time.Hour*24*30:
		return 166 + byte(d/(time.Hour*24))
	case d < time.Hour*24*7*63:
		return 192 + byte(d/(time.Hour*24*7))
	default:
		return 255
	}
}
''','''	for _, u := range relativeUnits {
		if d >= u.below {
			continue
		}
		n := int(d/u.unit) + u.offset
		if n < 0 {
			n = 0
		}
		return byte(n)
	}
	return 255
}

// relativeUnits are the units of a relative validity period, shortest first.
var relativeUnits = [...]struct {
	below, unit time.Duration
	offset      int
}{
	{12 * time.Hour, 5 * time.Minute, -1},
	{24 * time.Hour, 30 * time.Minute, 119},
	{30 * 24 * time.Hour, 24 * time.Hour, 166},
	{63 * 7 * 24 * time.Hour, 7 * 24 * time.Hour, 192},
}
'''),
 (S,'''	y := t.Year() % 100
	f := []int{y, int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second()}
	for i, v := range f {
		dst[i], err = bcd.Encode(v)
''','''	y, m, d := t.Date()
	h, min, s := t.Clock()
	for i, v := range [...]int{y % 100, int(m), d, h, min, s} {
		dst[i], err = bcd.Encode(v)
'''),
 (S,'''	loc := time.UTC
	if tz != 0 {
		tzoffset := tz * 15 * 60 // seconds east of UTC
		loc = time.FixedZone("SCTS", tzoffset)
	}
''','''	loc := zone(tz)
'''),
 (S,'''// MarshalBinary encodes the SCTS''','''var (
	zonesMu sync.RWMutex
	zones   = map[int]*time.Location{0: time.UTC}
)

// zone returns the time zone tz quarters of an hour east of UTC.
func zone(tz int) *time.Location {
	zonesMu.RLock()
	loc, ok := zones[tz]
	zonesMu.RUnlock()
	if ok {
		return loc
	}
	loc = time.FixedZone("SCTS", tz*15*60)
	zonesMu.Lock()
	defer zonesMu.Unlock()
	if l, ok := zones[tz]; ok {
		return l
	}
	zones[tz] = loc
	return loc
}

// MarshalBinary encodes the SCTS'''),
 (S,'''import (
''','''import (
	"sync"
'''),
 (PD,'''	b, err := hex.DecodeString(s)
	if err != nil {
		return err
	}
	return p.UnmarshalBinary(b)
''','''	bp := buffers.Get().(*[]byte)
	defer buffers.Put(bp)
	b := append((*bp)[:0], make([]byte, hex.DecodedLen(len(s)))...)
	*bp = b
	if _, err := hex.Decode(b, []byte(s)); err != nil {
		return err
	}
	if err := p.UnmarshalBinary(b); err != nil {
		return err
	}
	p.TPDU = append(make([]byte, 0, len(p.TPDU)), p.TPDU...)
	return nil
'''),
 (PD,'''// UnmarshalBinary decodes the binary form of the PDU provided by the modem.
//
// Returns''','''// buffers hold frames while they are unmarshalled.
var buffers = sync.Pool{New: func() interface{} { return new([]byte) }}

// UnmarshalBinary decodes the binary form of the PDU provided by the modem.
//
// Returns'''),
 (PD,'''	"encoding/hex"
''','''	"encoding/hex"
	"sync"
'''),
 ('encoding/tpdu/address.go','''	switch ton {
	case TonAlphanumeric:
		e := gsm7.NewEncoder().WithExtCharset(nil) // without escapes
		addr, err = e.Encode([]byte(a.Addr))
		if err != nil {
			return nil, EncodeError("addr", err)
		}
		l = (len(addr)*7 + 3) / 4
		addr = gsm7.Pack7Bit(addr, 0)
	default:
		addr, err = semioctet.Encode([]byte(a.Addr))
		if err != nil {
			return nil, EncodeError("addr", err)
		}
		l = len(a.Addr)
	}
''','''	if ton == TonAlphanumeric {
		addr, l, err = encodeAlphanumeric(a.Addr)
	} else {
		l = len(a.Addr)
		addr, err = semioctet.Encode([]byte(a.Addr))
	}
	if err != nil {
		return nil, EncodeError("addr", err)
	}
'''),
 ('encoding/tpdu/address.go','''// UnmarshalBinary unmarshals an Address from''','''// encodeAlphanumeric packs an alphanumeric address, and returns its length in
// semi-octets.
func encodeAlphanumeric(s string) ([]byte, int, error) {
	e := gsm7.NewEncoder().WithExtCharset(nil) // without escapes
	septets, err := e.Encode([]byte(s))
	if err != nil {
		return nil, 0, err
	}
	bits := 7 * len(septets)
	return gsm7.Pack7Bit(septets, 0), (bits + 3) / 4, nil
}

// UnmarshalBinary unmarshals an Address from'''),
])
