exec(open('/tmp/ref/ref.py').read())
E=[]
cs=open('/repo/encoding/gsm7/charset/charset.go').read()
a=cs.index('import "sync"'); b=cs.index('// DefaultDecoder returns')
new='''import (
	"sync"
	"sync/atomic"
)

var (
	decs sync.Map // *Decoder -> *decSlot
	encs atomic.Value // map[*Encoder]Encoder, copied on write
	encm sync.Mutex
)

type decSlot struct {
	once sync.Once
	d    Decoder
}

func lazyDecoder(d *Decoder, g decoderGenerator) Decoder {
	s, ok := decs.Load(d)
	if !ok {
		s, _ = decs.LoadOrStore(d, &decSlot{})
	}
	slot := s.(*decSlot)
	slot.once.Do(func() {
		if g == nil {
			slot.d = *d
		} else {
			slot.d = g()
		}
	})
	return slot.d
}

func lazyEncoder(e *Encoder, g encoderGenerator) Encoder {
	m, _ := encs.Load().(map[*Encoder]Encoder)
	if x, ok := m[e]; ok {
		return x
	}
	encm.Lock()
	defer encm.Unlock()
	m, _ = encs.Load().(map[*Encoder]Encoder)
	if x, ok := m[e]; ok {
		return x
	}
	n := make(map[*Encoder]Encoder, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	n[e] = g()
	encs.Store(n)
	return n[e]
}

'''
cs=cs[:a]+new+cs[b:]
g='encoding/gsm7/7bit.go'
src=open('/repo/'+g).read()
i=src.index('	p := make([]byte, 0, (len(u)*7+7'); j=src.index('// Unpack7Bit unpacks septets, packed into an 8bit array as per the packing\n// rules defined in 3GPP TS 23.038 Section 6.1.2.1, into')
src=src[:i]+'''	bits := fillBits + 7*len(u)
	p := make([]byte, (bits+7)/8)
	at := fillBits
	for _, s := range u {
		p[at>>3] |= s << uint(at&7)
		if at&7 > 1 && at>>3+1 < len(p) {
			p[at>>3+1] |= s >> uint(8-at&7)
		}
		at += 7
	}
	return p
}

'''+src[j:]
i=src.index('	u := make([]byte, 0, (len(p)*8+6'); j=src.index('// Pack7BitUSSD')
src=src[:i]+'''	var u []byte
	for at := fillBits; at+7 <= 8*len(p); at += 7 {
		v := int(p[at>>3])
		if at>>3+1 < len(p) {
			v |= int(p[at>>3+1]) << 8
		}
		u = append(u, byte(v>>uint(at&7))&0x7f)
	}
	return u
}

'''+src[j:]
E.append(('encoding/gsm7/gsm7.go','''	dst := make([]byte, 0, len(src))
	for _, u := range string(src) {
		if u == rune(esc) {''','''	var dst []byte
	for rest := src; len(rest) > 0; {
		u, n := utf8.DecodeRune(rest)
		rest = rest[n:]
		if u == rune(esc) {'''))
E.append(('encoding/gsm7/gsm7.go','import (\n	"fmt"\n','import (\n	"fmt"\n	"unicode/utf8"\n'))
t='encoding/tpdu/tpdu.go'
E.append((t,'''	pdus := make([]TPDU, count)
	concatRef := 1
	if cfg.cr != nil {
		concatRef = cfg.cr.Count()
	}
	for i := 0; i < count; i++ {
		pdus[i] = t
		if cfg.mr != nil {
			pdus[i].MR = byte(cfg.mr.Count())
		}
		udh := append(t.UDH[:0:0], t.UDH...)
		udh = append(udh, cfg.ief(concatRef, count, i+1))
		pdus[i].SetUDH(udh)
		pdus[i].UD = chunks[i]
	}
	return pdus''','''	concatRef := 1
	if cfg.cr != nil {
		concatRef = cfg.cr.Count()
	}
	var pdus []TPDU
	for i, c := range chunks {
		p := t
		p.UD = append(UserData(nil), c...)
		udh := make(UserDataHeader, len(t.UDH)+1)
		copy(udh, t.UDH)
		udh[len(t.UDH)] = cfg.ief(concatRef, count, i+1)
		p.SetUDH(udh)
		pdus = append(pdus, p)
	}
	if cfg.mr != nil {
		for i := range pdus {
			pdus[i].MR = byte(cfg.mr.Count())
		}
	}
	return pdus'''))
E.append((t,'''	bstart := 0
	bend := bs
	for bend < len(msg) {
		// don't split escapes
		if msg[bend-1] == esc && msg[bend-2] != esc {
			bend--
		}
		chunks = append(chunks, msg[bstart:bend])
		bstart = bend
		bend = bstart + bs
	}
	chunks = append(chunks, msg[bstart:])
	return chunks''','''	for len(msg) > bs {
		n := bs
		if msg[n-1] == esc && msg[n-2] != esc {
			n--
		}
		chunks = append(chunks, msg[:n:n])
		msg = msg[n:]
	}
	return append(chunks, msg)'''))
E.append((t,'''	b := bytes.NewBuffer(src)
	t.MR, err = b.ReadByte()
	if err != nil {
		return NewDecodeError("mr", len(src)-b.Len(), err)
	}
''','''	b := bytes.NewBuffer(src)
	if mr, err := b.ReadByte(); err == nil {
		t.MR = mr
	} else {
		return NewDecodeError("mr", len(src)-b.Len(), err)
	}
'''))
u='encoding/tpdu/userdata.go'
E.append((u,'''	udhl := 0
	for _, ie := range udh {
		udhl += ie.marshalledLen()
	}
	return udhl''','''	udhl := 2 * len(udh)
	for i := range udh {
		udhl += len(udh[i].Data)
	}
	return udhl'''))
E.append((u,'''	for i := len(udh) - 1; i >= 0; i-- {
		if udh[i].ID == id {
			return udh[i], true
		}
	}
	return InformationElement{}, false''','''	var found *InformationElement
	for i := range udh {
		if udh[i].ID == id {
			found = &udh[i]
		}
	}
	if found == nil {
		return InformationElement{}, false
	}
	return *found, true'''))
E.append((u,'''func (ie InformationElement) marshalledLen() int {
	return 2 + len(ie.Data)
}

''',''))
E.append((u,'''	if segments, seqno, mref, ok = udh.ConcatInfo8(); ok {
		return
	}
	return udh.ConcatInfo16()''','''	for _, f := range []func() (int, int, int, bool){udh.ConcatInfo8, udh.ConcatInfo16} {
		if s, n, r, k := f(); k {
			return s, n, r, k
		}
	}
	return 0, 0, 0, false'''))
E.append((u,'''		return []byte(string(m)), err
''','''		var b bytes.Buffer
		for _, r := range m {
			b.WriteRune(r)
		}
		return b.Bytes(), err
''')) if False else None
E.append(('encode.go','''	return int(atomic.AddInt64(&c.c, 1))''','''	for {
		o := atomic.LoadInt64(&c.c)
		if atomic.CompareAndSwapInt64(&c.c, o, o+1) {
			return int(o) + 1
		}
	}'''))
E.append(('sms.go','''	bl := 0
	ts := make([][]byte, len(segments))
''','''	var m []byte
''')); 
E.append(('sms.go','''		ts[i] = d
		bl += len(d)
''','''		m = append(m, d...)
'''))
E.append(('sms.go','''	m := make([]byte, 0, bl)
	for _, t := range ts {
		m = append(m, t...)
	}
	return m, nil''','''	if m == nil {
		m = []byte{}
	}
	return m, nil'''))
E.append(('sms.go','for i, s := range segments {\n		a, _','for _, s := range segments {\n		a, _'))
E.append(('encoding/bcd/bcd.go','''	msn := u % 10
	lsn := u / 10
	b := (msn << 4) | lsn
	return byte(b), nil''','''	return byte(u%10<<4 | u/10), nil'''))
E.append(('encoding/tpdu/address.go','''	a.TOA = toa
	return ri, nil''','''	*a = Address{toa, a.Addr}
	return ri, nil'''))
E=[e for e in E if e]
tree('d',E,{'encoding/gsm7/charset/charset.go':cs,g:src})
