exec(open('/tmp/ref/ref.py').read())
src=open('/repo/collect.go').read()
i=src.index('// Close shuts'); j=src.index('func pduKey'); k=src.index('// pipe is a buffer')
s=src[:i]+'''
func (c *Collector) lock()   { c.sem <- struct{}{} }
func (c *Collector) unlock() { <-c.sem }

func (c *Collector) isClosed() bool {
	select {
	case <-c.done:
		return true
	default:
		return false
	}
}

// Close shuts down the Collector and all active pipes.
func (c *Collector) Close() {
	c.once.Do(func() {
		c.lock()
		defer c.unlock()
		close(c.done)
		for _, p := range c.pipes {
			p.disarm()
		}
	})
}

// Pipes returns a snapshot of the reassembly pipes.
func (c *Collector) Pipes() (m map[string][]*tpdu.TPDU) {
	m = map[string][]*tpdu.TPDU{}
	c.lock()
	for k, v := range c.pipes {
		l := make([]*tpdu.TPDU, len(v.segments))
		if n := copy(l, v.segments); n > 0 {
			m[k] = l
		}
	}
	c.unlock()
	return
}

// Collect adds a TPDU to the collection.
func (c *Collector) Collect(pdu tpdu.TPDU) (d []*tpdu.TPDU, err error) {
	c.lock()
	defer c.unlock()
	if c.isClosed() {
		return nil, ErrClosed
	}
	segments, seqno, concatRef, ok := pdu.ConcatInfo()
	if !ok || segments < 2 {
		return []*tpdu.TPDU{&pdu}, nil
	}
	if seqno < 1 || seqno > segments {
		return nil, ErrReassemblyInconsistency
	}
	key, err := pduKey(pdu, segments, concatRef)
	if err != nil {
		return nil, err
	}
	var p *pipe
	if q, ok := c.pipes[key]; ok {
		if q.segments[seqno-1] != nil {
			return nil, ErrDuplicateSegment
		}
		if q.disarm() {
			p = q
		}
	}
	if p == nil {
		p = &pipe{segments: make([]*tpdu.TPDU, segments), missing: segments}
		c.pipes[key] = p
	}
	p.segments[seqno-1] = &pdu
	if p.missing--; p.missing == 0 {
		delete(c.pipes, key)
		return p.segments, nil
	}
	if c.duration == 0 {
		return nil, nil
	}
	a := &arm{cancel: make(chan struct{}), deadline: time.Now().Add(c.duration)}
	p.arm = a
	t := time.NewTimer(c.duration)
	go func() {
		select {
		case <-a.cancel:
			t.Stop()
			return
		case <-t.C:
		}
		c.lock()
		if a.cancelled {
			c.unlock()
			return
		}
		if c.pipes[key] == p {
			delete(c.pipes, key)
		}
		c.unlock()
		if c.expiryHandler != nil {
			c.expiryHandler(p.segments)
		}
	}()
	return nil, nil
}

'''+src[j:k]+'''
type arm struct {
	cancel    chan struct{}
	cancelled bool
	deadline  time.Time
}

// pipe collects segments.
type pipe struct {
	arm      *arm
	segments []*tpdu.TPDU
	missing  int
}

// disarm returns whether the pipe has not expired.
func (p *pipe) disarm() bool {
	a := p.arm
	switch {
	case a == nil:
		return true
	case !time.Now().Before(a.deadline):
		return false
	}
	a.cancelled = true
	close(a.cancel)
	p.arm = nil
	return true
}
'''
import re
s=re.sub(r'	closed        bool\n','	sem chan struct{}\n	done chan struct{}\n	once sync.Once\n',s)
s=s.replace('pipes: make(map[string]*pipe),','pipes: make(map[string]*pipe),\n		sem: make(chan struct{}, 1),\n		done: make(chan struct{}),')
T='encoding/tpdu/tpdu.go'; U='encoding/tpdu/userdata.go'; CS='encoding/gsm7/charset/charset.go'
cs=open('/repo/'+CS).read()
ED=[
(CS,'''// genMu guards the generation of tables on first use.
var genMu sync.Mutex
''','''// generated holds the tables generated so far.
var generated sync.Map
'''),
(CS,'''	genMu.Lock()
	defer genMu.Unlock()
	if *d == nil {
		*d = g()
	}
	return *d
''','''	if g == nil {
		return *d
	}
	if t, ok := generated.Load(d); ok {
		return t.(Decoder)
	}
	t, _ := generated.LoadOrStore(d, g())
	return t.(Decoder)
'''),
(CS,'''	genMu.Lock()
	defer genMu.Unlock()
	if *e == nil {
		*e = g()
	}
	return *e
''','''	once, _ := generated.LoadOrStore(e, new(sync.Once))
	once.(*sync.Once).Do(func() {
		if *e == nil {
			*e = g()
		}
	})
	return *e
'''),
('sms.go','''	m := make([]byte, 0, bl)
	for _, t := range ts {
		m = append(m, t...)
	}
	return m, nil
''','''	w := pool.Get().(*bytes.Buffer)
	defer pool.Put(w)
	w.Reset()
	w.Grow(bl)
	for _, t := range ts {
		w.Write(t)
	}
	return append([]byte{}, w.Bytes()...), nil
'''),
('sms.go','''// DecodeConfig contains''','''// pool holds scratch buffers.
var pool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

// DecodeConfig contains'''),
('sms.go','''import (
''','''import (
	"bytes"
	"sync"

'''),
(U,'''	e.locking = make([]int, charset.Size)
	for nli := charset.Start; nli < charset.End; nli++ {
		e.locking[nli-1] = nli
	}
	e.shift = e.locking
''','''	allOnce.Do(func() {
		for nli := charset.Start; nli < charset.End; nli++ {
			allNli = append(allNli, nli)
		}
	})
	e.locking = append([]int(nil), allNli...)
	e.shift = append(e.shift[:0:0], allNli...)
'''),
(U,'''// AllCharsetsOption specifies''','''var (
	allOnce sync.Once
	allNli  []int
)

// AllCharsetsOption specifies'''),
(U,'''	"encoding/binary"
''','''	"encoding/binary"
	"sync"
'''),
(U,'''	if segments, seqno, mref, ok = udh.ConcatInfo8(); ok {
		return
	}
	return udh.ConcatInfo16()
''','''	for _, f := range []func() (int, int, int, bool){udh.ConcatInfo8, udh.ConcatInfo16} {
		if segments, seqno, mref, ok = f(); ok {
			break
		}
	}
	return
'''),
]
tree('b',ED,{'collect.go':subprocess.run(['gofmt'],input=s,capture_output=True,text=True,check=True).stdout})
