exec(open('/tmp/ref/ref.py').read())
src=open('/repo/collect.go').read()
i=src.index('// Close shuts'); j=src.index('func pduKey'); k=src.index('// pipe is a buffer')
head=src[:i].replace('''	sync.Mutex    // covers pipes and closing closed
	pipes         map[string]*pipe
	closed        bool
''','''	pipes         map[string]*pipe // owned by run
	closed        bool             // owned by run
	calls         chan func()
''').replace('''		pipes: make(map[string]*pipe),
''','''		pipes: make(map[string]*pipe),
		calls: make(chan func()),
''').replace('''	return &c
}
''','''	go c.run()
	return &c
}

// run performs the calls, one after the other.
func (c *Collector) run() {
	for f := range c.calls {
		f()
	}
}

// call has f performed by run, and waits for it.
func (c *Collector) call(f func()) {
	done := make(chan struct{})
	c.calls <- func() {
		defer close(done)
		f()
	}
	<-done
}
''').replace('	"sync"\n','')
s=head+'''
// Close shuts down the Collector and all active pipes.
func (c *Collector) Close() {
	c.call(func() {
		if !c.closed {
			c.closed = true
			for _, p := range c.pipes {
				p.live = false
				if p.cleanup != nil {
					p.cleanup.Stop()
				}
			}
		}
	})
}

// Pipes returns a snapshot of the reassembly pipes.
func (c *Collector) Pipes() (m map[string][]*tpdu.TPDU) {
	c.call(func() {
		m = make(map[string][]*tpdu.TPDU, len(c.pipes))
		for k, v := range c.pipes {
			m[k] = append(make([]*tpdu.TPDU, 0, len(v.segments)), v.segments...)
		}
	})
	return
}

// Collect adds a TPDU to the collection.
func (c *Collector) Collect(pdu tpdu.TPDU) (d []*tpdu.TPDU, err error) {
	c.call(func() { d, err = c.collect(&pdu) })
	return
}

func (c *Collector) collect(pdu *tpdu.TPDU) ([]*tpdu.TPDU, error) {
	if c.closed {
		return nil, ErrClosed
	}
	segments, seqno, concatRef, ok := pdu.ConcatInfo()
	switch {
	case !ok, segments < 2:
		return []*tpdu.TPDU{pdu}, nil
	case seqno < 1, seqno > segments:
		return nil, ErrReassemblyInconsistency
	}
	key, err := pduKey(*pdu, segments, concatRef)
	if err != nil {
		return nil, err
	}
	p := c.pipes[key]
	if p != nil && p.segments[seqno-1] != nil {
		return nil, ErrDuplicateSegment
	}
	if p != nil && p.cleanup != nil && !p.cleanup.Stop() {
		p = nil
	}
	if p == nil {
		p = &pipe{nil, make([]*tpdu.TPDU, segments), 0, true}
		c.pipes[key] = p
	}
	p.segments[seqno-1] = pdu
	if p.frags++; p.frags == segments {
		delete(c.pipes, key)
		return p.segments, nil
	}
	if c.duration != 0 {
		p.cleanup = time.AfterFunc(c.duration, func() {
			c.call(func() {
				if c.pipes[key] == p {
					delete(c.pipes, key)
				}
			})
			if c.expiryHandler != nil {
				c.expiryHandler(p.segments)
			}
		})
	}
	return nil, nil
}

'''+src[j:k]+'''// pipe collects segments.
type pipe struct {
	cleanup  *time.Timer
	segments []*tpdu.TPDU
	frags    int
	live     bool
}
'''
tree('c',[],{'collect.go':s})
