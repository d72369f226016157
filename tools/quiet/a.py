exec(open('/tmp/ref/ref.py').read())
NEW='''
// identity is what the parts of one message have in common.
type identity struct {
	st       tpdu.SmsType
	toa      byte
	addr     string
	ref      int
	segments int
}

func (id identity) String() string {
	return strconv.Itoa(int(id.st)) + "/" + strconv.Itoa(int(id.toa)) + "/" + id.addr + "/" + strconv.Itoa(id.ref) + "/" + strconv.Itoa(id.segments)
}

func identify(pdu *tpdu.TPDU, segments, ref int) (id identity, err error) {
	id = identity{st: pdu.SmsType(), ref: ref, segments: segments}
	var a tpdu.Address
	switch id.st {
	case tpdu.SmsDeliver:
		a = pdu.OA
	case tpdu.SmsSubmit:
		a = pdu.DA
	default:
		return id, tpdu.ErrUnsupportedSmsType(id.st)
	}
	id.toa, id.addr = a.TOA, a.Addr
	return id, nil
}

type pipe struct {
	deadline *time.Timer
	parts    map[int]*tpdu.TPDU
	total    int
}

func newPipe(n int) *pipe { return &pipe{parts: make(map[int]*tpdu.TPDU), total: n} }

func (p *pipe) list() []*tpdu.TPDU {
	l := make([]*tpdu.TPDU, p.total)
	for i, t := range p.parts {
		l[i-1] = t
	}
	return l
}

// stop stops the timer and returns whether it can still be used.
func (p *pipe) stop() bool {
	if p.deadline == nil {
		return true
	}
	return p.deadline.Stop()
}

func (c *Collector) expire(id identity, p *pipe) {
	eh := c.expiryHandler
	c.mu.Lock()
	if q, found := c.pipes[id]; found && q == p {
		delete(c.pipes, id)
	}
	l := p.list()
	c.mu.Unlock()
	if eh == nil {
		return
	}
	eh(l)
}
'''
src=open('/repo/collect.go').read()
head=src[:src.index('// Collector ')] if '// Collector ' in src else None
import re
s=src
s=s[:s.index('func pduKey')]+NEW.lstrip()
s=re.sub(r'	sync.Mutex[^\n]*\n','	sync.Mutex // kept for compatibility\n	mu sync.RWMutex\n',s)
s=re.sub(r'pipes\s+map\[string\]\*pipe','pipes map[identity]*pipe',s)
s=s.replace('make(map[string]*pipe)','make(map[identity]*pipe)')
i=s.index('// Close shuts'); j=s.index('// identity is')
s=s[:i]+'''// Close shuts down the Collector and all active pipes.
func (c *Collector) Close() {
	c.mu.Lock()
	if !c.closed {
		c.closed = true
		for _, p := range c.pipes {
			p.stop()
		}
	}
	c.mu.Unlock()
}

// Pipes returns a snapshot of the reassembly pipes.
func (c *Collector) Pipes() map[string][]*tpdu.TPDU {
	c.mu.RLock()
	defer c.mu.RUnlock()
	m := make(map[string][]*tpdu.TPDU, len(c.pipes))
	for id, p := range c.pipes {
		m[id.String()] = p.list()
	}
	return m
}

// Collect adds a TPDU to the collection.
func (c *Collector) Collect(pdu tpdu.TPDU) ([]*tpdu.TPDU, error) {
	segments, seqno, ref, multi := pdu.ConcatInfo()
	multi = multi && segments >= 2
	if !multi {
		c.mu.RLock()
		closed := c.closed
		c.mu.RUnlock()
		if closed {
			return nil, ErrClosed
		}
		return []*tpdu.TPDU{&pdu}, nil
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	switch {
	case c.closed:
		return nil, ErrClosed
	case seqno == 0, seqno > segments:
		return nil, ErrReassemblyInconsistency
	}
	id, err := identify(&pdu, segments, ref)
	if err != nil {
		return nil, err
	}
	p, found := c.pipes[id]
	if found {
		if _, dup := p.parts[seqno]; dup {
			return nil, ErrDuplicateSegment
		}
	}
	if !found || !p.stop() {
		p = newPipe(segments)
		c.pipes[id] = p
	}
	p.parts[seqno] = &pdu
	if missing := segments - len(p.parts); missing == 0 {
		delete(c.pipes, id)
		return p.list(), nil
	}
	if c.duration > 0 || c.duration < 0 {
		q := p
		p.deadline = time.AfterFunc(c.duration, func() { c.expire(id, q) })
	}
	return nil, nil
}

'''+s[j:]
s=s.replace('	"fmt"\n','	"strconv"\n')
ENC=[('encode.go','''	// take the DCS in the template TPDU as a hint...
	alpha, _ := e.pdu.DCS.Alphabet()
	switch alpha {
	case tpdu.Alpha8Bit, tpdu.AlphaUCS2:
		return e.pdu.Segment(msg, sopts...), nil
	default:
''','''	// take the DCS in the template TPDU as a hint...
	if alpha, _ := e.pdu.DCS.Alphabet(); alpha == tpdu.Alpha8Bit || alpha == tpdu.AlphaUCS2 {
		return e.pdu.Segment(msg, sopts...), nil
	} else {
'''),('encode.go','''func (c *Counter) Count() int {
	return int(atomic.AddInt64(&c.c, 1))''','''func (c *Counter) Count() int {
	for {
		old := atomic.LoadInt64(&c.c)
		if atomic.CompareAndSwapInt64(&c.c, old, old+1) {
			return int(old + 1)
		}
	}''')]
T='encoding/tpdu/tpdu.go'
SEG=[(T,'''	for i := 0; i < count; i++ {
		pdus[i] = t
		if cfg.mr != nil {
			pdus[i].MR = byte(cfg.mr.Count())
		}
		udh := append(t.UDH[:0:0], t.UDH...)
		udh = append(udh, cfg.ief(concatRef, count, i+1))
		pdus[i].SetUDH(udh)
		pdus[i].UD = chunks[i]
	}
	return pdus
''','''	for i, ch := range chunks {
		p := &pdus[i]
		*p = t
		udh := make(UserDataHeader, len(t.UDH), len(t.UDH)+1)
		copy(udh, t.UDH)
		p.SetUDH(append(udh, cfg.ief(concatRef, count, i+1)))
		p.UD = ch
	}
	if cfg.mr != nil {
		for i := range pdus {
			pdus[i].MR = byte(cfg.mr.Count())
		}
	}
	return pdus
'''),(T,'''	chunks := make([][]byte, 0, count)
	bstart := 0
	bend := bs
	for bend < len(msg) {
		chunks = append(chunks, msg[bstart:bend])
		bstart = bend
		bend = bstart + bs
	}
	chunks = append(chunks, msg[bstart:])
	return chunks
''','''	chunks := make([][]byte, 0, count)
	for len(msg) > bs {
		chunks, msg = append(chunks, msg[:bs]), msg[bs:]
	}
	return append(chunks, msg)
''')]
tree('a',ENC+SEG,{'collect.go':subprocess.run(['gofmt'],input=s,capture_output=True,text=True,check=True).stdout})
