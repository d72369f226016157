From e6730acf605b8d09b6db1b17d5fa763c255f0cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:58 +0000
Subject: [PATCH 01/17] fix: do not collect segments of unsupported TPDU types

Collect carried on after pduKey failed, so the segment was stored, under an
empty key shared by all unsupported messages: later ones would be rejected as
duplicates, index out of range, or be returned along with ErrUnsupportedSmsType
as a reassembled or expired message.
---
 collect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collect.go b/collect.go
index 445585e..747482a 100644
--- a/collect.go
+++ b/collect.go
@@ -107,6 +107,9 @@ func (c *Collector) Collect(pdu tpdu.TPDU) (d []*tpdu.TPDU, err error) {
 		return nil, ErrReassemblyInconsistency
 	}
 	key, err := pduKey(pdu, segments, concatRef)
+	if err != nil {
+		return nil, err
+	}
 	p, ok := c.pipes[key]
 	if ok {
 		if p.segments[seqno-1] != nil {
@@ -141,7 +144,7 @@ func (c *Collector) Collect(pdu tpdu.TPDU) (d []*tpdu.TPDU, err error) {
 			}
 		})
 	}
-	return nil, err
+	return nil, nil
 }
 
 func pduKey(pdu tpdu.TPDU, segments, concatRef int) (string, error) {
-- 
2.43.0


From ab1e2255f0ad5dc4f007bbf69c906ad2a6c01287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:05 +0000
Subject: [PATCH 02/17] fix: make the snapshot returned by Collector.Pipes
 independent

The slices in the snapshot were those of the live pipes, so they changed - and
raced with - subsequent calls to Collect, and writing to them corrupted the
reassembly.
---
 collect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect.go b/collect.go
index 747482a..bff5abd 100644
--- a/collect.go
+++ b/collect.go
@@ -82,7 +82,7 @@ func (c *Collector) Pipes() map[string][]*tpdu.TPDU {
 	c.Lock()
 	m := map[string][]*tpdu.TPDU{}
 	for k, v := range c.pipes {
-		m[k] = v.segments
+		m[k] = append([]*tpdu.TPDU(nil), v.segments...)
 	}
 	c.Unlock()
 	return m
-- 
2.43.0


From 9efd3fc616b4ed6dc64be1ac18b187b987e6e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:40 +0000
Subject: [PATCH 03/17] fix: set the UDHI flag when a UDH is applied as an
 option

---
 encoding/tpdu/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/options.go b/encoding/tpdu/options.go
index d1956f9..c7a6557 100644
--- a/encoding/tpdu/options.go
+++ b/encoding/tpdu/options.go
@@ -48,7 +48,7 @@ type UDHOption struct {
 
 // ApplyTPDUOption applies the UDH to the TPDU.
 func (o UDHOption) ApplyTPDUOption(t *TPDU) error {
-	t.UDH = o.udh
+	t.SetUDH(o.udh)
 	return nil
 }
 
-- 
2.43.0


From 8858430f8226e478dd67cd2155094ca10d247738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:41 +0000
Subject: [PATCH 04/17] fix: refuse to encode the ESC character as a lone
 escape septet

---
 encoding/gsm7/gsm7.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/gsm7/gsm7.go b/encoding/gsm7/gsm7.go
index 25e77d6..5e70943 100644
--- a/encoding/gsm7/gsm7.go
+++ b/encoding/gsm7/gsm7.go
@@ -218,6 +218,11 @@ func (e *Encoder) Encode(src []byte) ([]byte, error) {
 	}
 	dst := make([]byte, 0, len(src))
 	for _, u := range string(src) {
+		if u == rune(esc) {
+			// the escape septet only introduces extension characters, so an
+			// ESC in the text cannot be represented.
+			return nil, ErrInvalidUTF8(u)
+		}
 		g, ok := e.set[u]
 		if ok {
 			dst = append(dst, g)
-- 
2.43.0


From 4b03a49b947e8ddd4a9c3c92692c08e0a244da9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:02 +0000
Subject: [PATCH 05/17] fix: do not write into the spare capacity of a
 template's UDH when segmenting

Segment appended a concatenation element to the UDH of the template to
determine the block size, which wrote into memory shared with the caller
and, when the template is used concurrently, with other segmentations.
---
 encoding/tpdu/tpdu.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index b6ca697..2149cb0 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -204,7 +204,8 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 		return []TPDU{t}
 	}
 	// add contcat IE and recalc bs
-	t.SetUDH(append(t.UDH, cfg.ief(0, 0, 0)))
+	// (clip so as not to write into spare capacity of the template's UDH)
+	t.SetUDH(append(t.UDH[:len(t.UDH):len(t.UDH)], cfg.ief(0, 0, 0)))
 	bs = t.UDBlockSize()
 	t.UDH = t.UDH[:len(t.UDH)-1]
 	alpha, _ := t.Alphabet()
-- 
2.43.0


From 2430d2a1620a2e54df6934a50d33619c294e06fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:00 +0000
Subject: [PATCH 06/17] fix: keep the character set options of an Encode call
 to that call

Encode copies the encoder, but its list of encoding options shared the
array with the original, so the options passed to concurrent calls could
overwrite each other.
---
 encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encode.go b/encode.go
index 63e9d05..6e9026e 100644
--- a/encode.go
+++ b/encode.go
@@ -87,6 +87,9 @@ func NewEncoder(options ...EncoderOption) *Encoder {
 // For implicit UCS-2 encoding (the fallback with 7-bit fails) the message is
 // assumed to contain UTF-8.
 func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, error) {
+	// clip, so options that append do not write into the array shared with
+	// the original, and so with other calls.
+	e.eopts = e.eopts[:len(e.eopts):len(e.eopts)]
 	for _, option := range options {
 		option.ApplyEncoderOption(&e)
 	}
-- 
2.43.0


From 674ae4bf32415f65a941ace17f0806f222100869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:49 +0000
Subject: [PATCH 07/17] fix: make the generation of character set tables on
 first use safe

The tables were generated on first use without synchronisation, so codecs
first used from several goroutines raced.
---
 encoding/gsm7/charset/charset.go | 55 ++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/encoding/gsm7/charset/charset.go b/encoding/gsm7/charset/charset.go
index 7e1f675..6cede85 100644
--- a/encoding/gsm7/charset/charset.go
+++ b/encoding/gsm7/charset/charset.go
@@ -5,21 +5,40 @@
 // Package charset provides encoders and decoders for GSM character sets.
 package charset
 
+import "sync"
+
+// genMu guards the generation of tables on first use.
+var genMu sync.Mutex
+
+// lazyDecoder returns the table, generating it if that has not been done yet.
+func lazyDecoder(d *Decoder, g decoderGenerator) Decoder {
+	genMu.Lock()
+	defer genMu.Unlock()
+	if *d == nil {
+		*d = g()
+	}
+	return *d
+}
+
+// lazyEncoder returns the table, generating it if that has not been done yet.
+func lazyEncoder(e *Encoder, g encoderGenerator) Encoder {
+	genMu.Lock()
+	defer genMu.Unlock()
+	if *e == nil {
+		*e = g()
+	}
+	return *e
+}
+
 // DefaultDecoder returns the default mapping table from GSM7 to UTF8.
 func DefaultDecoder() Decoder {
-	if defaultDecoder == nil {
-		defaultDecoder = generateDefaultDecoder()
-	}
-	return defaultDecoder
+	return lazyDecoder(&defaultDecoder, generateDefaultDecoder)
 }
 
 // NewDecoder returns the mapping table from GSM7 to UTF8 for the given language.
 func NewDecoder(nli int) Decoder {
 	if di, ok := decoder[nli]; ok {
-		if *di.e == nil {
-			*di.e = di.g()
-		}
-		return *di.e
+		return lazyDecoder(di.e, di.g)
 	}
 	return DefaultDecoder()
 }
@@ -39,38 +58,26 @@ func NewExtDecoder(nli int) Decoder {
 
 // DefaultEncoder returns the default mapping table from UTF8 to GSM7.
 func DefaultEncoder() Encoder {
-	if defaultEncoder == nil {
-		defaultEncoder = generateDefaultEncoder()
-	}
-	return defaultEncoder
+	return lazyEncoder(&defaultEncoder, generateDefaultEncoder)
 }
 
 // NewEncoder returns the mapping table from UTF8 to GSM7 for the given language.
 func NewEncoder(nli int) Encoder {
 	if ei, ok := encoder[nli]; ok {
-		if *ei.e == nil {
-			*ei.e = ei.g()
-		}
-		return *ei.e
+		return lazyEncoder(ei.e, ei.g)
 	}
 	return DefaultEncoder()
 }
 
 // DefaultExtEncoder returns the default extension mapping table from UTF8 to GSM7.
 func DefaultExtEncoder() Encoder {
-	if defaultExtEncoder == nil {
-		defaultExtEncoder = generateDefaultExtEncoder()
-	}
-	return defaultExtEncoder
+	return lazyEncoder(&defaultExtEncoder, generateDefaultExtEncoder)
 }
 
 // NewExtEncoder returns the extension mapping table from UTF8 to GSM7 for the given language.
 func NewExtEncoder(nli int) Encoder {
 	if ei, ok := extEncoder[nli]; ok {
-		if *ei.e == nil {
-			*ei.e = ei.g()
-		}
-		return *ei.e
+		return lazyEncoder(ei.e, ei.g)
 	}
 	return DefaultExtEncoder()
 }
-- 
2.43.0


From 6392c29e6f2982dc4046538da77a8b4845a38144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:53 +0000
Subject: [PATCH 08/17] fix: do not overwrite the memory following a segment
 split in a surrogate pair

Decode appended the next segment's user data to the slice that ends the
previous segment, so when that slice had spare capacity the memory after it,
which the caller may be using, was overwritten.
---
 sms.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sms.go b/sms.go
index 8deb5cd..9023f76 100644
--- a/sms.go
+++ b/sms.go
@@ -35,7 +35,9 @@ func Decode(segments []*tpdu.TPDU, options ...DecodeOption) ([]byte, error) {
 		a, _ := s.Alphabet()
 		ud := s.UD
 		if danglingSurrogate != nil {
-			ud = append([]byte(danglingSurrogate), ud...)
+			// copied, as appending to the surrogate directly could overwrite
+			// the memory following the user data that contains it.
+			ud = append(append([]byte(nil), danglingSurrogate...), ud...)
 			danglingSurrogate = nil
 		}
 		d, err := tpdu.DecodeUserData(ud, s.UDH, a, cfg.dopts...)
-- 
2.43.0


From 836780a28cecda197d2c277586920329b0b9064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 09/17] fix: unmarshal a TPDU regardless of its previous
 content

---
 encoding/tpdu/tpdu.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 2149cb0..3d01b88 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -570,7 +570,9 @@ func (t *TPDU) UnmarshalBinary(src []byte) (err error) {
 	if len(src) < 1 {
 		return NewDecodeError("tpdu.firstOctet", 0, ErrUnderflow)
 	}
-	t.FirstOctet = FirstOctet(src[0])
+	// start afresh, so nothing of what t contained before is left in the fields
+	// that are absent from src.
+	*t = TPDU{Direction: t.Direction, FirstOctet: FirstOctet(src[0])}
 	st := smsType(t.FirstOctet.MTI(), t.Direction)
 	switch st {
 	case SmsDeliver:
-- 
2.43.0


From c680cfb8b7a77ecd95239c20383d69028c8592b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:42 +0000
Subject: [PATCH 10/17] fix: marshal the user data header of a COMMAND

---
 encoding/tpdu/tpdu.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 3d01b88..835e2ec 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -406,12 +406,18 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	if err != nil {
 		return nil, EncodeError("da", err)
 	}
-	cdl := len(t.UD)
+	udh, err := t.UDH.MarshalBinary()
+	if err != nil {
+		// never trips as UDH marshalling never fails...
+		return nil, EncodeError("udh", err)
+	}
+	cdl := len(udh) + len(t.UD)
 	l := 6 + len(da) + cdl
 	b := make([]byte, 0, l)
 	b = append(b, byte(t.FirstOctet), t.MR, t.PID, t.CT, t.MN)
 	b = append(b, da...)
 	b = append(b, byte(cdl))
+	b = append(b, udh...)
 	b = append(b, t.UD...)
 	return b, nil
 }
-- 
2.43.0


From 9f95be0e89e32a682b96e910519a252f73251c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:44 +0000
Subject: [PATCH 11/17] fix: encode a relative validity period of 5 minutes as
 such

---
 encoding/tpdu/validityperiod.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index e0dce80..f983bb8 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -215,7 +215,7 @@ func durationToRelative(d time.Duration) byte {
 	switch {
 	case d < time.Hour*12:
 		t := byte(d / (time.Minute * 5))
-		if t > 1 {
+		if t > 0 {
 			t--
 		}
 		return t
-- 
2.43.0


From 21ebe700c7fa36eb151890d747970c83e5504b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:45 +0000
Subject: [PATCH 12/17] fix: unmarshal an absent SMSC address regardless of the
 previous one

---
 encoding/pdumode/smscaddress.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/pdumode/smscaddress.go b/encoding/pdumode/smscaddress.go
index 6e7595f..857cedd 100644
--- a/encoding/pdumode/smscaddress.go
+++ b/encoding/pdumode/smscaddress.go
@@ -50,6 +50,7 @@ func (a *SMSCAddress) UnmarshalBinary(src []byte) (int, error) {
 	}
 	l := int(src[0]) // len is octets including toa
 	if l == 0 {
+		*a = SMSCAddress{}
 		return 1, nil
 	}
 	if len(src) < 2 {
-- 
2.43.0


From 502310afdc7a0c1da4876e90850c12cb1f6be822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:05 +0000
Subject: [PATCH 13/17] fix: marshal the length octet of an empty user data
 header

A TPDU with the UDHI flag set and a header without elements (as set by
SetUDH with an empty header, or received with a UDHL of 0) was marshalled
without the UDHL octet, so the receiver took the text for the header.
---
 encoding/tpdu/tpdu.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 835e2ec..30eef4a 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -346,14 +346,14 @@ func (t *TPDU) UDBlockSize() int {
 	if alpha == Alpha7Bit {
 		// work in septets
 		bs = (bs * 8) / 7
-		if udhl == 0 {
+		if udhl == 0 && !t.UDHI() {
 			return bs
 		}
 		// remove septets used by UDH, including UDHL and fill bits
 		bs -= ((udhl+1)*8 + 6) / 7
 		return bs
 	}
-	if udhl > 0 {
+	if udhl > 0 || t.UDHI() {
 		bs -= (udhl + 1)
 	}
 	if alpha == AlphaUCS2 {
@@ -406,7 +406,7 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	if err != nil {
 		return nil, EncodeError("da", err)
 	}
-	udh, err := t.UDH.MarshalBinary()
+	udh, err := t.marshalUDH()
 	if err != nil {
 		// never trips as UDH marshalling never fails...
 		return nil, EncodeError("udh", err)
@@ -935,7 +935,7 @@ func decode7Bit(sml, udhl int, src []byte) ([]byte, error) {
 // No checks of encoded size are performed here as that depends on concrete
 // TPDU type, and that can check the length of the returned b.
 func (t *TPDU) encodeUserData() (b []byte, err error) {
-	udh, err := t.UDH.MarshalBinary()
+	udh, err := t.marshalUDH()
 	if err != nil {
 		// never trips as UDH marshalling never fails...
 		return nil, EncodeError("udh", err)
@@ -975,6 +975,16 @@ func (t *TPDU) encodeUserData() (b []byte, err error) {
 	return b, nil
 }
 
+// marshalUDH marshals the User Data Header, including the UDHL.
+//
+// A header that is announced but contains no elements is reduced to its UDHL.
+func (t *TPDU) marshalUDH() ([]byte, error) {
+	if len(t.UDH) == 0 && t.UDHI() {
+		return []byte{0}, nil
+	}
+	return t.UDH.MarshalBinary()
+}
+
 // MaxUDL is the maximum number of octets that can be encoded into the UD.
 // Note that for 7bit encoding this can result in up to 160 septets.
 const MaxUDL = 140
-- 
2.43.0


From aea9090ae3e1056fd549fa06ba7b7761e5e26f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:07 +0000
Subject: [PATCH 14/17] fix: refuse a header element that runs past its header

UserDataHeader.UnmarshalBinary bounded the data of an element by the whole
user data instead of by the header, so octets of the text were read as, say,
a concatenation element.
---
 encoding/tpdu/userdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index de19912..60fd1f1 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -85,7 +85,7 @@ func (udh *UserDataHeader) UnmarshalBinary(src []byte) (int, error) {
 		ri++
 		iedl := int(src[ri])
 		ri++
-		if len(src) < ri+iedl {
+		if udhl < ri+iedl {
 			return ri, NewDecodeError("ied", ri, ErrUnderflow)
 		}
 		ie.Data = append([]byte(nil), src[ri:ri+iedl]...)
-- 
2.43.0


From c77a1b95de7d58139ec349ffeb48bc78da14b403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:39 +0000
Subject: [PATCH 15/17] fix: keep the header of the template when adding a
 language

Encode replaced the user data header of the template by the elements that
name the character set, so messages in a national language lost any other
header elements, such as application ports.
---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 6e9026e..2366f46 100644
--- a/encode.go
+++ b/encode.go
@@ -110,7 +110,7 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 			e.pdu.SetDCS(byte(dcs))
 		}
 		if udh != nil {
-			e.pdu.SetUDH(append(e.pdu.UDH[:0:0], udh...))
+			e.pdu.SetUDH(append(e.pdu.UDH[:len(e.pdu.UDH):len(e.pdu.UDH)], udh...))
 		}
 		return e.pdu.Segment(d, sopts...), nil
 	}
-- 
2.43.0


From f5f2d745f8daf86aa5a4957690ad3f26a876da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:32 +0000
Subject: [PATCH 16/17] fix: keep the characters around a stray surrogate

A surrogate half that is not part of a pair, as at the start of a part
whose predecessor is lost, swallowed the character following it.
---
 encoding/ucs2/ucs2.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/encoding/ucs2/ucs2.go b/encoding/ucs2/ucs2.go
index 8ecc83c..50dc51e 100644
--- a/encoding/ucs2/ucs2.go
+++ b/encoding/ucs2/ucs2.go
@@ -9,6 +9,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"unicode"
 	"unicode/utf16"
 )
 
@@ -16,6 +17,9 @@ import (
 //
 // As the UCS2 characters are packed into a byte array, the length of the byte
 // array provided must be even.
+//
+// A surrogate that is not half of a pair is replaced by U+FFFD, and leaves the
+// characters around it as they are.
 func Decode(src []byte) ([]rune, error) {
 	if len(src) == 0 {
 		return nil, nil
@@ -28,12 +32,17 @@ func Decode(src []byte) ([]rune, error) {
 	for ri := 0; ri < len(src)-1; ri = ri + 2 {
 		r := rune(binary.BigEndian.Uint16(src[ri:]))
 		if utf16.IsSurrogate(r) {
-			if ri >= len(src)-3 {
+			r2 := rune(0)
+			if ri < len(src)-3 {
+				r2 = rune(binary.BigEndian.Uint16(src[ri+2:]))
+			} else if r < 0xdc00 {
+				// the first half of a pair, the second may be still to come.
 				return dst, ErrDanglingSurrogate(src[ri:])
 			}
-			ri += 2
-			r2 := rune(binary.BigEndian.Uint16(src[ri:]))
 			r = utf16.DecodeRune(r, r2)
+			if r != unicode.ReplacementChar {
+				ri += 2
+			}
 		}
 		dst = append(dst, r)
 	}
-- 
2.43.0


From 1b837cbd5f62a8275dd9e4eaa7688d85b23d9554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:09:51 +0000
Subject: [PATCH 17/17] fix: decide USSD filler by the length of the string

---
 encoding/gsm7/7bit.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/encoding/gsm7/7bit.go b/encoding/gsm7/7bit.go
index 986e099..0d11250 100644
--- a/encoding/gsm7/7bit.go
+++ b/encoding/gsm7/7bit.go
@@ -90,10 +90,10 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 	if len(b) == 0 {
 		return append(b[:0:0], b...)
 	}
-	last := len(b) - 1
-	if b[last]&^0x1 == 0 && u[len(u)-1] != 0 {
-		b[last] = b[last] | (cr << 1)
-	} else if len(u)&0x7 == 0 && u[len(u)-1] == cr {
+	switch used := (len(u)*7 + fillBits) % 8; {
+	case used == 1: // 7 bits unused
+		b[len(b)-1] |= cr << 1
+	case used == 0 && u[len(u)-1] == cr:
 		b = append(b, cr)
 	}
 	return b
@@ -111,8 +111,15 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 func Unpack7BitUSSD(p []byte, fillBits int) []byte {
 	u := Unpack7Bit(p, fillBits)
 	// remove any trailing filler
-	if len(p) > 1 && ((p[len(p)-1]>>1 == cr) || (p[len(p)-1] == cr && p[len(p)-2]>>1 == cr)) {
-		u = u[:len(u)-1]
+	if l := len(u) - 1; l > 0 && u[l] == cr {
+		switch (len(p)*8 - fillBits) % 7 {
+		case 0: // ends on an octet boundary
+			u = u[:l]
+		case 1: // starts on an octet boundary
+			if u[l-1] == cr {
+				u = u[:l]
+			}
+		}
 	}
 	return u
 }
-- 
2.43.0

