exec(open(__file__.rsplit('/',1)[0]+'/ref.py').read())
# UCS-2 by the standard library, chunking by rune widths, header elements by a reader
U='encoding/ucs2/ucs2.go'; T='encoding/tpdu/tpdu.go'; S='sms.go'
u=open('/repo/'+U).read()
i=u.index('	l := len(src) / 2\n'); j=u.index('	return dst, nil\n',i)
c=open('/repo/'+T).read()
a=c.index('	bstart := 0\n	bend := bstart + bs\n'); b=c.index('	chunks = append(chunks, msg[bstart:])\n',a)
s=open('/repo/'+S).read()
tree('ucs2',[
 (U,u[i:j],'''	units := make([]uint16, len(src)/2)
	for i := range units {
		units[i] = binary.BigEndian.Uint16(src[2*i:])
	}
	last := len(units) - 1
	if high := units[last]; high&0xfc00 == 0xd800 {
		return utf16.Decode(units[:last]), ErrDanglingSurrogate(src[2*last:])
	}
	dst := utf16.Decode(units)
'''),
 (U,'	"unicode"\n',''),
 (T,c[a:b],'''	bstart := 0
	for len(msg)-bstart > bs {
		bend := bstart + bs
		if msg[bend-2]>>2 == surrHighStart>>10 {
			bend -= 2
		}
		chunks = append(chunks, msg[bstart:bend])
		bstart = bend
	}
'''),
 (T,'''	surrHighStart = 0xd800
	surrLowStart  = 0xdc00
''','''	surrHighStart = 0xd800
'''),
 (S,'''	m := make([]byte, 0, bl)
	for _, t := range ts {
		m = append(m, t...)
	}
	return m, nil
''','''	return append(make([]byte, 0, bl), bytes.Join(ts, nil)...), nil
'''),
 (S,'import (\n','import (\n	"bytes"\n\n'),
],props=['C08','C09','C11','C13','C14','C21'])
