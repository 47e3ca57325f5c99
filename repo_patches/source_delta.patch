From d09fcb1b799b1c7c4fe65584385e2bd4c5d32284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 01/31] fix: Collector refuses segments of types it cannot key

The error from pduKey was ignored until the end of Collect, so segments of
unsupported types were collected, and completed, under an empty key.
---
 collect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collect.go b/collect.go
index 445585e..ca35b0b 100644
--- a/collect.go
+++ b/collect.go
@@ -107,6 +107,9 @@ func (c *Collector) Collect(pdu tpdu.TPDU) (d []*tpdu.TPDU, err error) {
 		return nil, ErrReassemblyInconsistency
 	}
 	key, err := pduKey(pdu, segments, concatRef)
+	if err != nil {
+		return nil, err
+	}
 	p, ok := c.pipes[key]
 	if ok {
 		if p.segments[seqno-1] != nil {
-- 
2.43.0


From 95d977862a2d56aa157b7a5a1b83e00c489c9f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 02/31] fix: Collector.Pipes returns a snapshot, not the live
 segments

---
 collect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect.go b/collect.go
index ca35b0b..591e674 100644
--- a/collect.go
+++ b/collect.go
@@ -82,7 +82,7 @@ func (c *Collector) Pipes() map[string][]*tpdu.TPDU {
 	c.Lock()
 	m := map[string][]*tpdu.TPDU{}
 	for k, v := range c.pipes {
-		m[k] = v.segments
+		m[k] = append([]*tpdu.TPDU(nil), v.segments...)
 	}
 	c.Unlock()
 	return m
-- 
2.43.0


From dbbdb9f15c7e2a3d0d2c7c1cf3cf7a5553023208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 03/31] fix: gsm7 does not encode U+001B as an escape septet

The escape swallowed the following character on decode.
---
 encoding/gsm7/gsm7.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/gsm7/gsm7.go b/encoding/gsm7/gsm7.go
index 25e77d6..2a07774 100644
--- a/encoding/gsm7/gsm7.go
+++ b/encoding/gsm7/gsm7.go
@@ -218,6 +218,10 @@ func (e *Encoder) Encode(src []byte) ([]byte, error) {
 	}
 	dst := make([]byte, 0, len(src))
 	for _, u := range string(src) {
+		if u == rune(esc) {
+			// the escape septet is not a character in its own right
+			return nil, ErrInvalidUTF8(u)
+		}
 		g, ok := e.set[u]
 		if ok {
 			dst = append(dst, g)
-- 
2.43.0


From edbde350739920e4d12b9ec4b70466e442fb4174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 04/31] fix: USSD filler is determined from the bit position,
 not the octet values

Packing took a final octet that happened to be 0 or 1 for one with 7 unused
bits, and any multiple of 8 septets as ending on an octet boundary, and
unpacking removed septets that merely looked like filler.
---
 encoding/gsm7/7bit.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/encoding/gsm7/7bit.go b/encoding/gsm7/7bit.go
index 986e099..a52a1f8 100644
--- a/encoding/gsm7/7bit.go
+++ b/encoding/gsm7/7bit.go
@@ -91,9 +91,10 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 		return append(b[:0:0], b...)
 	}
 	last := len(b) - 1
-	if b[last]&^0x1 == 0 && u[len(u)-1] != 0 {
+	used := (fillBits + 7*len(u)) & 0x7 // bits used in last octet, 0 for all
+	if used == 1 {
 		b[last] = b[last] | (cr << 1)
-	} else if len(u)&0x7 == 0 && u[len(u)-1] == cr {
+	} else if used == 0 && u[len(u)-1] == cr {
 		b = append(b, cr)
 	}
 	return b
@@ -111,8 +112,12 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 func Unpack7BitUSSD(p []byte, fillBits int) []byte {
 	u := Unpack7Bit(p, fillBits)
 	// remove any trailing filler
-	if len(p) > 1 && ((p[len(p)-1]>>1 == cr) || (p[len(p)-1] == cr && p[len(p)-2]>>1 == cr)) {
-		u = u[:len(u)-1]
+	if len(p) > 1 && len(u) > 1 && u[len(u)-1] == cr {
+		// bits used in last octet by the final septet, 0 for all
+		used := (fillBits + 7*len(u)) & 0x7
+		if used == 0 || (used == 7 && u[len(u)-2] == cr) {
+			u = u[:len(u)-1]
+		}
 	}
 	return u
 }
-- 
2.43.0


From 1a2f8dd2615b2926a62d483653b631c05ba37a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 05/31] fix: relative validity of 5 to 10 minutes is not
 lengthened to 10

---
 encoding/tpdu/validityperiod.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index e0dce80..f983bb8 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -215,7 +215,7 @@ func durationToRelative(d time.Duration) byte {
 	switch {
 	case d < time.Hour*12:
 		t := byte(d / (time.Minute * 5))
-		if t > 1 {
+		if t > 0 {
 			t--
 		}
 		return t
-- 
2.43.0


From 5b05b0b96f3754840023b1e64c734538f955a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 06/31] fix: an information element may not extend beyond the
 UDH

---
 encoding/tpdu/userdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index de19912..60fd1f1 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -85,7 +85,7 @@ func (udh *UserDataHeader) UnmarshalBinary(src []byte) (int, error) {
 		ri++
 		iedl := int(src[ri])
 		ri++
-		if len(src) < ri+iedl {
+		if udhl < ri+iedl {
 			return ri, NewDecodeError("ied", ri, ErrUnderflow)
 		}
 		ie.Data = append([]byte(nil), src[ri:ri+iedl]...)
-- 
2.43.0


From 9ca9c0bb4e0badbad02e4a6be91e58d6cdac73e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 07/31] fix: marshalling refuses fields that overflow their
 length octet

The length octets of user data, headers and addresses silently wrapped.
---
 encoding/pdumode/smscaddress.go | 3 +++
 encoding/tpdu/address.go        | 3 +++
 encoding/tpdu/tpdu.go           | 7 ++++++-
 encoding/tpdu/userdata.go       | 3 +++
 4 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/encoding/pdumode/smscaddress.go b/encoding/pdumode/smscaddress.go
index 6e7595f..08a6154 100644
--- a/encoding/pdumode/smscaddress.go
+++ b/encoding/pdumode/smscaddress.go
@@ -33,6 +33,9 @@ func (a *SMSCAddress) MarshalBinary() (dst []byte, err error) {
 		return []byte{0}, nil
 	}
 	l := len(addr) + 1 // in octets and includes the toa
+	if l > 255 {
+		return nil, tpdu.EncodeError("addr", tpdu.ErrOverlength)
+	}
 	dst = make([]byte, 2, l+1)
 	dst[0] = byte(l)
 	dst[1] = a.TOA
diff --git a/encoding/tpdu/address.go b/encoding/tpdu/address.go
index 0f210df..fc07252 100644
--- a/encoding/tpdu/address.go
+++ b/encoding/tpdu/address.go
@@ -64,6 +64,9 @@ func (a *Address) MarshalBinary() (dst []byte, err error) {
 		}
 		l = len(a.Addr)
 	}
+	if l > 255 {
+		return nil, EncodeError("addr", ErrOverlength)
+	}
 	dst = make([]byte, 0, l+2)
 	dst = append(dst, byte(l), a.TOA)
 	dst = append(dst, addr...)
diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index b6ca697..ff24be6 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -406,6 +406,9 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 		return nil, EncodeError("da", err)
 	}
 	cdl := len(t.UD)
+	if cdl > 255 {
+		return nil, EncodeError("cdl", ErrOverlength)
+	}
 	l := 6 + len(da) + cdl
 	b := make([]byte, 0, l)
 	b = append(b, byte(t.FirstOctet), t.MR, t.PID, t.CT, t.MN)
@@ -928,7 +931,6 @@ func decode7Bit(sml, udhl int, src []byte) ([]byte, error) {
 func (t *TPDU) encodeUserData() (b []byte, err error) {
 	udh, err := t.UDH.MarshalBinary()
 	if err != nil {
-		// never trips as UDH marshalling never fails...
 		return nil, EncodeError("udh", err)
 	}
 	ud := t.UD
@@ -959,6 +961,9 @@ func (t *TPDU) encodeUserData() (b []byte, err error) {
 		// udl is in octets
 		udl = udl + len(udh)
 	}
+	if udl > 255 {
+		return nil, EncodeError("udl", ErrOverlength)
+	}
 	b = make([]byte, 0, 1+len(udh)+len(ud))
 	b = append(b, byte(udl))
 	b = append(b, udh...)
diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index 60fd1f1..f47dff9 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -50,6 +50,9 @@ func (udh UserDataHeader) MarshalBinary() ([]byte, error) {
 		return nil, nil
 	}
 	udhl := udh.UDHL()
+	if udhl > 255 {
+		return nil, EncodeError("udhl", ErrOverlength)
+	}
 	b := make([]byte, 0, udhl+1)
 	b = append(b, byte(udhl))
 	for _, ie := range udh {
-- 
2.43.0


From fd5ba34bb1fc94353f7c0484dad8f24579305d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 08/31] fix: SMS-COMMAND marshals its user data header

---
 encoding/tpdu/tpdu.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index ff24be6..3f955f6 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -405,7 +405,11 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	if err != nil {
 		return nil, EncodeError("da", err)
 	}
-	cdl := len(t.UD)
+	udh, err := t.UDH.MarshalBinary()
+	if err != nil {
+		return nil, EncodeError("udh", err)
+	}
+	cdl := len(udh) + len(t.UD)
 	if cdl > 255 {
 		return nil, EncodeError("cdl", ErrOverlength)
 	}
@@ -414,6 +418,7 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	b = append(b, byte(t.FirstOctet), t.MR, t.PID, t.CT, t.MN)
 	b = append(b, da...)
 	b = append(b, byte(cdl))
+	b = append(b, udh...)
 	b = append(b, t.UD...)
 	return b, nil
 }
-- 
2.43.0


From df75e0ace3730d8879a5fd87f44dd543488e2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 09/31] fix: WithUDH sets the TP-UDHI flag along with the
 header

---
 encoding/tpdu/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/options.go b/encoding/tpdu/options.go
index d1956f9..c7a6557 100644
--- a/encoding/tpdu/options.go
+++ b/encoding/tpdu/options.go
@@ -48,7 +48,7 @@ type UDHOption struct {
 
 // ApplyTPDUOption applies the UDH to the TPDU.
 func (o UDHOption) ApplyTPDUOption(t *TPDU) error {
-	t.UDH = o.udh
+	t.SetUDH(o.udh)
 	return nil
 }
 
-- 
2.43.0


From 82cc508e32438ecd971c3f57e2b6396e529bfb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 10/31] fix: header elements of the template survive a national
 language

Encoder.Encode replaced the UDH of the template with the language elements.
---
 encode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 63e9d05..c2b9dd6 100644
--- a/encode.go
+++ b/encode.go
@@ -107,7 +107,8 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 			e.pdu.SetDCS(byte(dcs))
 		}
 		if udh != nil {
-			e.pdu.SetUDH(append(e.pdu.UDH[:0:0], udh...))
+			tudh := e.pdu.UDH
+			e.pdu.SetUDH(append(tudh[:len(tudh):len(tudh)], udh...))
 		}
 		return e.pdu.Segment(d, sopts...), nil
 	}
-- 
2.43.0


From 8ac83a97e9f0bb88afeba46f13879aee2e130f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:23 +0000
Subject: [PATCH 11/31] fix: encoding does not write to the spare capacity of
 shared slices

Options of one Encode call could overwrite those of a concurrent one, and
Segment wrote an information element behind the end of the template UDH.
---
 encode.go             | 3 +++
 encoding/tpdu/tpdu.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index c2b9dd6..7826659 100644
--- a/encode.go
+++ b/encode.go
@@ -87,6 +87,9 @@ func NewEncoder(options ...EncoderOption) *Encoder {
 // For implicit UCS-2 encoding (the fallback with 7-bit fails) the message is
 // assumed to contain UTF-8.
 func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, error) {
+	// force appends to copy, so calls do not share the backing array
+	e.eopts = e.eopts[:len(e.eopts):len(e.eopts)]
+	e.sopts = e.sopts[:len(e.sopts):len(e.sopts)]
 	for _, option := range options {
 		option.ApplyEncoderOption(&e)
 	}
diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 3f955f6..c647cf5 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -204,7 +204,7 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 		return []TPDU{t}
 	}
 	// add contcat IE and recalc bs
-	t.SetUDH(append(t.UDH, cfg.ief(0, 0, 0)))
+	t.SetUDH(append(t.UDH[:len(t.UDH):len(t.UDH)], cfg.ief(0, 0, 0)))
 	bs = t.UDBlockSize()
 	t.UDH = t.UDH[:len(t.UDH)-1]
 	alpha, _ := t.Alphabet()
-- 
2.43.0


From 50fe22fc337e9e784379bff3527a2926b1e5fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 12/31] fix: lazy generation of character tables is safe for
 concurrent use

---
 encoding/gsm7/charset/charset.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/encoding/gsm7/charset/charset.go b/encoding/gsm7/charset/charset.go
index 7e1f675..06b3df9 100644
--- a/encoding/gsm7/charset/charset.go
+++ b/encoding/gsm7/charset/charset.go
@@ -5,8 +5,15 @@
 // Package charset provides encoders and decoders for GSM character sets.
 package charset
 
+import "sync"
+
+// mu covers the lazy generation of the mapping tables.
+var mu sync.Mutex
+
 // DefaultDecoder returns the default mapping table from GSM7 to UTF8.
 func DefaultDecoder() Decoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultDecoder == nil {
 		defaultDecoder = generateDefaultDecoder()
 	}
@@ -16,6 +23,8 @@ func DefaultDecoder() Decoder {
 // NewDecoder returns the mapping table from GSM7 to UTF8 for the given language.
 func NewDecoder(nli int) Decoder {
 	if di, ok := decoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *di.e == nil {
 			*di.e = di.g()
 		}
@@ -39,6 +48,8 @@ func NewExtDecoder(nli int) Decoder {
 
 // DefaultEncoder returns the default mapping table from UTF8 to GSM7.
 func DefaultEncoder() Encoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultEncoder == nil {
 		defaultEncoder = generateDefaultEncoder()
 	}
@@ -48,6 +59,8 @@ func DefaultEncoder() Encoder {
 // NewEncoder returns the mapping table from UTF8 to GSM7 for the given language.
 func NewEncoder(nli int) Encoder {
 	if ei, ok := encoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *ei.e == nil {
 			*ei.e = ei.g()
 		}
@@ -58,6 +71,8 @@ func NewEncoder(nli int) Encoder {
 
 // DefaultExtEncoder returns the default extension mapping table from UTF8 to GSM7.
 func DefaultExtEncoder() Encoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultExtEncoder == nil {
 		defaultExtEncoder = generateDefaultExtEncoder()
 	}
@@ -67,6 +82,8 @@ func DefaultExtEncoder() Encoder {
 // NewExtEncoder returns the extension mapping table from UTF8 to GSM7 for the given language.
 func NewExtEncoder(nli int) Encoder {
 	if ei, ok := extEncoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *ei.e == nil {
 			*ei.e = ei.g()
 		}
-- 
2.43.0


From d8e25dfd915d674fb7c915ac5980c9225b760fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 13/31] fix: segmentation does not split an escape after
 doubled escapes

---
 encoding/tpdu/tpdu.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index c647cf5..afe29f2 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -1144,8 +1144,12 @@ func chunk7Bit(msg []byte, bs int) [][]byte {
 	bstart := 0
 	bend := bs
 	for bend < len(msg) {
-		// don't split escapes
-		if msg[bend-1] == esc && msg[bend-2] != esc {
+		// don't split escapes - an odd run of esc escapes the next septet
+		run := 0
+		for run < bend-bstart && msg[bend-1-run] == esc {
+			run++
+		}
+		if run&0x1 == 0x1 {
 			bend--
 		}
 		chunks = append(chunks, msg[bstart:bend])
-- 
2.43.0


From f92811f8e9d7a260d2c50f38b344ba62d73c95d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 14/31] fix: segmentation refuses what cannot be carried in 255
 segments

More segments wrapped the total and sequence numbers, and a UDH leaving no
room for a character caused a panic or an endless loop.
---
 encode.go             | 12 ++++++++++--
 encoding/tpdu/tpdu.go | 19 +++++++++++++++++--
 error.go              |  3 +++
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/encode.go b/encode.go
index 7826659..7f4218d 100644
--- a/encode.go
+++ b/encode.go
@@ -98,7 +98,7 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 	alpha, _ := e.pdu.DCS.Alphabet()
 	switch alpha {
 	case tpdu.Alpha8Bit, tpdu.AlphaUCS2:
-		return e.pdu.Segment(msg, sopts...), nil
+		return e.segment(msg, sopts)
 	default:
 		// encode as GSM7, or failing that UCS2...
 		d, udh, alpha := tpdu.EncodeUserData(msg, e.eopts...)
@@ -113,10 +113,18 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 			tudh := e.pdu.UDH
 			e.pdu.SetUDH(append(tudh[:len(tudh):len(tudh)], udh...))
 		}
-		return e.pdu.Segment(d, sopts...), nil
+		return e.segment(d, sopts)
 	}
 }
 
+func (e *Encoder) segment(d []byte, sopts []tpdu.SegmentationOption) ([]tpdu.TPDU, error) {
+	pdus := e.pdu.Segment(d, sopts...)
+	if pdus == nil && len(d) != 0 {
+		return nil, ErrMessageTooLong
+	}
+	return pdus, nil
+}
+
 // Counter is an implementation of the tpdu.Counter interface.
 //
 // It also provides a Read method on the current value for diagnostic purposes.
diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index afe29f2..bd4e777 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -186,6 +186,9 @@ type SegmentationOption func(*segmentationConfig)
 // the message.  For multi-part messages, the UDH provided in the TPDU is
 // extended with a concatenation IE. The TPDU UDH must not contain a
 // concatenation IE (ID 0 or 8) or the resulting TPDUs will be non-conformant.
+//
+// Returns nil if the message is too long to be carried in 255 segments, or if
+// the UDH does not leave room for the message.
 func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) == 0 {
 		return nil
@@ -210,6 +213,9 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	alpha, _ := t.Alphabet()
 	chunks := chunk(msg, alpha, bs)
 	count := len(chunks)
+	if count == 0 || count > 255 {
+		return nil
+	}
 	pdus := make([]TPDU, count)
 	concatRef := 1
 	if cfg.cr != nil {
@@ -1136,7 +1142,7 @@ func chunk(msg []byte, alpha Alphabet, bs int) [][]byte {
 // Escaped characters are not split across blocks, so the resulting blocks may
 // be one septet shorter than bs.
 func chunk7Bit(msg []byte, bs int) [][]byte {
-	if len(msg) == 0 {
+	if len(msg) == 0 || bs < 1 {
 		return nil
 	}
 	count := 1 + len(msg)/bs
@@ -1152,6 +1158,9 @@ func chunk7Bit(msg []byte, bs int) [][]byte {
 		if run&0x1 == 0x1 {
 			bend--
 		}
+		if bend == bstart {
+			return nil // no room for an escaped character
+		}
 		chunks = append(chunks, msg[bstart:bend])
 		bstart = bend
 		bend = bstart + bs
@@ -1163,7 +1172,7 @@ func chunk7Bit(msg []byte, bs int) [][]byte {
 // chunk8Bit splits a raw 8bit message into chunks that are bs, except for the
 // last segment which contains any residual bytes.
 func chunk8Bit(msg []byte, bs int) [][]byte {
-	if len(msg) == 0 {
+	if len(msg) == 0 || bs < 1 {
 		return nil
 	}
 	count := 1 + len(msg)/bs
@@ -1198,6 +1207,9 @@ func chunkUCS2(msg []byte, bs int) [][]byte {
 		return nil
 	}
 	bs &^= 0x1
+	if bs < 2 {
+		return nil
+	}
 	// rough count of blocks - may be off due to not splitting surrogates, but
 	// not worth working out the precise count in advance.
 	count := 1 + len(msg)/bs
@@ -1210,6 +1222,9 @@ func chunkUCS2(msg []byte, bs int) [][]byte {
 		if surrHighStart <= r && r < surrLowStart {
 			bend = bend - 2
 		}
+		if bend == bstart {
+			return nil // no room for a surrogate pair
+		}
 		chunks = append(chunks, msg[bstart:bend])
 		bstart = bend
 		bend = bstart + bs
diff --git a/error.go b/error.go
index 375f432..c766c48 100644
--- a/error.go
+++ b/error.go
@@ -22,6 +22,9 @@ var (
 	// cannot be used to determine which of the two may better fit the
 	// reassembly, so the first is kept and the second discarded.
 	ErrDuplicateSegment = errors.New("duplicate segment")
+	// ErrMessageTooLong indicates the message cannot be carried by the maximum
+	// of 255 segments, or does not fit beside the UDH of the template.
+	ErrMessageTooLong = errors.New("message too long")
 	// ErrReassemblyInconsistency indicates a segment has arrived for a
 	// reassembly that has a seqno greater than the number of segments in the
 	// reassembly.
-- 
2.43.0


From bbbbdfe6b8294655fb7bd0fdc968909f8765af47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 15/31] fix: an unpaired surrogate does not consume the
 character after it

---
 encoding/ucs2/ucs2.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/encoding/ucs2/ucs2.go b/encoding/ucs2/ucs2.go
index 8ecc83c..7859126 100644
--- a/encoding/ucs2/ucs2.go
+++ b/encoding/ucs2/ucs2.go
@@ -10,6 +10,7 @@ import (
 	"errors"
 	"fmt"
 	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // Decode converts an array of UCS2 characters into an array of runes.
@@ -31,9 +32,11 @@ func Decode(src []byte) ([]rune, error) {
 			if ri >= len(src)-3 {
 				return dst, ErrDanglingSurrogate(src[ri:])
 			}
-			ri += 2
-			r2 := rune(binary.BigEndian.Uint16(src[ri:]))
+			r2 := rune(binary.BigEndian.Uint16(src[ri+2:]))
 			r = utf16.DecodeRune(r, r2)
+			if r != utf8.RuneError {
+				ri += 2
+			}
 		}
 		dst = append(dst, r)
 	}
-- 
2.43.0


From ba4e6fbdf90e80665a0e686192ad2ad318064f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 16/31] fix: Decode does not write to the spare capacity of the
 segments

---
 sms.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sms.go b/sms.go
index 8deb5cd..dae6bd4 100644
--- a/sms.go
+++ b/sms.go
@@ -35,7 +35,8 @@ func Decode(segments []*tpdu.TPDU, options ...DecodeOption) ([]byte, error) {
 		a, _ := s.Alphabet()
 		ud := s.UD
 		if danglingSurrogate != nil {
-			ud = append([]byte(danglingSurrogate), ud...)
+			ud = append([]byte(nil), danglingSurrogate...)
+			ud = append(ud, s.UD...)
 			danglingSurrogate = nil
 		}
 		d, err := tpdu.DecodeUserData(ud, s.UDH, a, cfg.dopts...)
-- 
2.43.0


From 1e4810b1b9ae9c9cbc9b9b03be8ba2d82d231250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 17/31] fix: unmarshalling forgets the earlier content of the
 receiver

Fields absent from the new PDU kept the values of the previous one.
---
 encoding/pdumode/smscaddress.go | 1 +
 encoding/tpdu/tpdu.go           | 1 +
 encoding/tpdu/validityperiod.go | 1 +
 3 files changed, 3 insertions(+)

diff --git a/encoding/pdumode/smscaddress.go b/encoding/pdumode/smscaddress.go
index 08a6154..9b06af5 100644
--- a/encoding/pdumode/smscaddress.go
+++ b/encoding/pdumode/smscaddress.go
@@ -53,6 +53,7 @@ func (a *SMSCAddress) UnmarshalBinary(src []byte) (int, error) {
 	}
 	l := int(src[0]) // len is octets including toa
 	if l == 0 {
+		a.Address = tpdu.Address{} // forget any earlier content
 		return 1, nil
 	}
 	if len(src) < 2 {
diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index bd4e777..24cd79c 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -583,6 +583,7 @@ func (t *TPDU) UnmarshalBinary(src []byte) (err error) {
 	if len(src) < 1 {
 		return NewDecodeError("tpdu.firstOctet", 0, ErrUnderflow)
 	}
+	*t = TPDU{Direction: t.Direction} // forget any earlier content
 	t.FirstOctet = FirstOctet(src[0])
 	st := smsType(t.FirstOctet.MTI(), t.Direction)
 	switch st {
diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index f983bb8..6adcfd3 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -96,6 +96,7 @@ func (v *ValidityPeriod) MarshalBinary() ([]byte, error) {
 // Returns the number of bytes read from the src, and any error detected during
 // the unmarshalling.
 func (v *ValidityPeriod) UnmarshalBinary(src []byte, vpf ValidityPeriodFormat) (int, error) {
+	*v = ValidityPeriod{} // forget any earlier content
 	v.Format = VpfNotPresent
 	switch vpf {
 	case VpfAbsolute:
-- 
2.43.0


From 67275adb223e20dd77c328afda57630a2136b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 18/31] fix: octets after an empty user data field are refused

---
 encoding/tpdu/tpdu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 24cd79c..d046922 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -851,6 +851,9 @@ func (t *TPDU) decodeUserData(src []byte) error {
 	}
 	udl := int(src[0])
 	if udl == 0 {
+		if len(src) > 1 {
+			return NewDecodeError("ud", 1, ErrOverlength)
+		}
 		return nil
 	}
 	var udh UserDataHeader
-- 
2.43.0


From 2ef53a8a0430f008eedffed89691f7da9d556a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 19/31] fix: DCS.WithClass refuses classes that do not fit the
 class bits

---
 encoding/tpdu/dcs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/tpdu/dcs.go b/encoding/tpdu/dcs.go
index 0317180..20870bd 100644
--- a/encoding/tpdu/dcs.go
+++ b/encoding/tpdu/dcs.go
@@ -144,6 +144,9 @@ func (d DCS) Class() (MessageClass, error) {
 // An error is returned if the state is incompatible with setting the message
 // class.
 func (d DCS) WithClass(c MessageClass) (DCS, error) {
+	if c < MClass0 || c > MClass3 {
+		return d, ErrInvalid
+	}
 	switch {
 	case d&0x80 == 0x00: // 0xxx
 		return (d&^0x03 | 0x10 | DCS(c)), nil
-- 
2.43.0


From a462284b9fd1fe57ab7dbd192b71a0e500a28e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 20/31] fix: hh:mm:ss validity of 100 hours or more is limited,
 not wrapped

---
 encoding/tpdu/validityperiod.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index 6adcfd3..afe1598 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -71,7 +71,11 @@ func (v *ValidityPeriod) MarshalBinary() ([]byte, error) {
 			}
 			dst[1] = byte(secs)
 		case EvpfRelativeHHMMSS:
-			f := []int{int(v.Duration.Hours()) % 100, int(v.Duration.Minutes()) % 60, int(v.Duration.Seconds()) % 60}
+			hms := v.Duration
+			if hms >= 100*time.Hour {
+				hms = 100*time.Hour - time.Second
+			}
+			f := []int{int(hms.Hours()) % 100, int(hms.Minutes()) % 60, int(hms.Seconds()) % 60}
 			for i, tf := range f {
 				t, err := bcd.Encode(tf)
 				// this should never trip, as the encoded values should always be valid, but just in case...
-- 
2.43.0


From 1bb6a960a2e31336d0b116554be2ef91cdf6d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 21/31] fix: an empty header is marshalled when the UDHI is set

Without the UDHL the first octet of the message was taken for it.
---
 encoding/tpdu/tpdu.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index d046922..e97d9c0 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -415,6 +415,10 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	if err != nil {
 		return nil, EncodeError("udh", err)
 	}
+	if len(udh) == 0 && t.UDHI() && len(t.UD) > 0 {
+		// empty header, but still contains the UDHL
+		udh = []byte{0}
+	}
 	cdl := len(udh) + len(t.UD)
 	if cdl > 255 {
 		return nil, EncodeError("cdl", ErrOverlength)
@@ -948,6 +952,10 @@ func (t *TPDU) encodeUserData() (b []byte, err error) {
 	if err != nil {
 		return nil, EncodeError("udh", err)
 	}
+	if len(udh) == 0 && t.UDHI() && len(t.UD) > 0 {
+		// empty header, but still contains the UDHL
+		udh = []byte{0}
+	}
 	ud := t.UD
 	alphabet, err := t.Alphabet()
 	if err != nil {
-- 
2.43.0


From df288895f0deb840e1702e85221b654d7a7d2101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 22/31] fix: smssubmit reports marshalling errors

It printed an empty TPDU, for example for a number with invalid digits.
---
 cmd/smssubmit/smssubmit.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/smssubmit/smssubmit.go b/cmd/smssubmit/smssubmit.go
index 9b56580..9390741 100644
--- a/cmd/smssubmit/smssubmit.go
+++ b/cmd/smssubmit/smssubmit.go
@@ -39,12 +39,18 @@ func main() {
 		return
 	}
 	if len(pdus) == 1 {
-		b, _ := pdus[0].MarshalBinary()
+		b, err := pdus[0].MarshalBinary()
+		if err != nil {
+			log.Fatalln(err)
+		}
 		fmt.Printf("Submit TPDU:\n%s\n", hex.EncodeToString(b))
 		return
 	}
 	for i, p := range pdus {
-		b, _ := p.MarshalBinary()
+		b, err := p.MarshalBinary()
+		if err != nil {
+			log.Fatalln(err)
+		}
 		fmt.Printf("Submit TPDU %d:\n%s\n", i+1, hex.EncodeToString(b))
 	}
 }
-- 
2.43.0


From 396b5ccd33fa64136bcd500f8e9994629209f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 23/31] fix: a dangling surrogate is not prepended to data of
 another alphabet

---
 sms.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sms.go b/sms.go
index dae6bd4..c6016fe 100644
--- a/sms.go
+++ b/sms.go
@@ -35,6 +35,9 @@ func Decode(segments []*tpdu.TPDU, options ...DecodeOption) ([]byte, error) {
 		a, _ := s.Alphabet()
 		ud := s.UD
 		if danglingSurrogate != nil {
+			if a != tpdu.AlphaUCS2 {
+				return nil, danglingSurrogate // cannot be continued
+			}
 			ud = append([]byte(nil), danglingSurrogate...)
 			ud = append(ud, s.UD...)
 			danglingSurrogate = nil
-- 
2.43.0


From ac7e42a609c59951a0f13a1528bca6b6f0a59786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 24/31] fix: setting the MTI or VPF does not touch other bits
 of the first octet

---
 encoding/tpdu/firstoctet.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/tpdu/firstoctet.go b/encoding/tpdu/firstoctet.go
index 9acaefa..5e7d573 100644
--- a/encoding/tpdu/firstoctet.go
+++ b/encoding/tpdu/firstoctet.go
@@ -55,14 +55,14 @@ func (f FirstOctet) VPF() ValidityPeriodFormat {
 // WithMTI returns a FirstOctet with the TP-MTI field set.
 func (f FirstOctet) WithMTI(mti MessageType) FirstOctet {
 	f &^= FoMTIMask
-	f |= FirstOctet(mti << FoMTIShift)
+	f |= FirstOctet(mti<<FoMTIShift) & FoMTIMask
 	return f
 }
 
 // WithVPF returns a FirstOctet with the TP-VPF field set.
 func (f FirstOctet) WithVPF(vpf ValidityPeriodFormat) FirstOctet {
 	f &^= FoVPFMask
-	f |= FirstOctet(vpf << FoVPFShift)
+	f |= FirstOctet(vpf<<FoVPFShift) & FoVPFMask
 	return f
 }
 
-- 
2.43.0


From 47332865982a6d022dee208f613484760d6e2f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 25/31] fix: segments do not share header elements with each
 other or the template

---
 encoding/tpdu/tpdu.go     |  4 ++--
 encoding/tpdu/userdata.go | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index e97d9c0..fe7ad29 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -201,6 +201,7 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) <= bs {
 		// single segment
 		t.UD = msg
+		t.UDH = t.UDH.clone()
 		if cfg.mr != nil {
 			t.MR = byte(cfg.mr.Count())
 		}
@@ -226,8 +227,7 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 		if cfg.mr != nil {
 			pdus[i].MR = byte(cfg.mr.Count())
 		}
-		udh := append(t.UDH[:0:0], t.UDH...)
-		udh = append(udh, cfg.ief(concatRef, count, i+1))
+		udh := append(t.UDH.clone(), cfg.ief(concatRef, count, i+1))
 		pdus[i].SetUDH(udh)
 		pdus[i].UD = chunks[i]
 	}
diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index f47dff9..0a32dcd 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -43,6 +43,18 @@ func (udh UserDataHeader) UDHL() int {
 	return udhl
 }
 
+// clone returns a copy of the UDH that shares no memory with the original.
+func (udh UserDataHeader) clone() UserDataHeader {
+	if udh == nil {
+		return nil
+	}
+	c := make(UserDataHeader, len(udh))
+	for i, ie := range udh {
+		c[i] = InformationElement{ie.ID, append(ie.Data[:0:0], ie.Data...)}
+	}
+	return c
+}
+
 // MarshalBinary marshals the User Data Header, including the UDHL, into
 // binary.
 func (udh UserDataHeader) MarshalBinary() ([]byte, error) {
-- 
2.43.0


From 43df4c4434cc29567c78915ce191563f31293073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 26/31] fix: block size leaves room for the length of an empty
 header

---
 encoding/tpdu/tpdu.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index fe7ad29..93b96f0 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -351,14 +351,14 @@ func (t *TPDU) UDBlockSize() int {
 	if alpha == Alpha7Bit {
 		// work in septets
 		bs = (bs * 8) / 7
-		if udhl == 0 {
+		if udhl == 0 && !t.UDHI() {
 			return bs
 		}
 		// remove septets used by UDH, including UDHL and fill bits
 		bs -= ((udhl+1)*8 + 6) / 7
 		return bs
 	}
-	if udhl > 0 {
+	if udhl > 0 || t.UDHI() {
 		bs -= (udhl + 1)
 	}
 	if alpha == AlphaUCS2 {
-- 
2.43.0


From cc5d6748b90db54751f67358de65baf38c06f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 27/31] fix: enabling all charsets does not drop or reorder
 those enabled before

---
 encoding/tpdu/userdata.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index 0a32dcd..118aa37 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -323,11 +323,10 @@ func (o AllCharsetsOption) applyDecodeOption(d udDecodeConfig) udDecodeConfig {
 }
 
 func (o AllCharsetsOption) applyEncodeOption(e udEncodeConfig) udEncodeConfig {
-	e.locking = make([]int, charset.Size)
 	for nli := charset.Start; nli < charset.End; nli++ {
-		e.locking[nli-1] = nli
+		e.locking = append(e.locking, nli)
+		e.shift = append(e.shift, nli)
 	}
-	e.shift = e.locking
 	return e
 }
 
-- 
2.43.0


From 7e79900c3077d96014f24e659d5a90ec465668ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:35 +0000
Subject: [PATCH 28/31] fix: let WithAllCharsets be used as a decode option, as
 documented

---
 options.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/options.go b/options.go
index 744f7f6..aa390e4 100644
--- a/options.go
+++ b/options.go
@@ -92,7 +92,8 @@ func From(number string) EncoderOption {
 	return templateOption{tpdu.WithOA(addr)}
 }
 
-// AllCharsetsOption specifies that all charactersets are available for encoding.
+// AllCharsetsOption specifies that all charactersets are available for encoding
+// or decoding.
 type AllCharsetsOption struct{}
 
 // ApplyEncoderOption applies the AllCharsetsOption to an Encoder.
@@ -100,6 +101,11 @@ func (o AllCharsetsOption) ApplyEncoderOption(e *Encoder) {
 	e.eopts = append(e.eopts, tpdu.WithAllCharsets)
 }
 
+// ApplyDecodeOption applies the AllCharsetsOption to decoding.
+func (o AllCharsetsOption) ApplyDecodeOption(cc *DecodeConfig) {
+	cc.dopts = append(cc.dopts, tpdu.WithAllCharsets)
+}
+
 // WithCharset creates an CharsetOption.
 func WithCharset(nli ...int) CharsetOption {
 	return CharsetOption{nli}
-- 
2.43.0


From 49ad13daaffad9fc254937a65f493aaa27cb40b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:24 +0000
Subject: [PATCH 29/31] fix: refuse undefined alphabets in DCS.WithAlphabet

---
 encoding/tpdu/dcs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/tpdu/dcs.go b/encoding/tpdu/dcs.go
index 20870bd..d7f8241 100644
--- a/encoding/tpdu/dcs.go
+++ b/encoding/tpdu/dcs.go
@@ -82,6 +82,9 @@ func (d DCS) String() string {
 //
 // An error is returned if the state is incompatible with setting the alphabet.
 func (d DCS) WithAlphabet(a Alphabet) (DCS, error) {
+	if a < Alpha7Bit || a > AlphaReserved {
+		return d, ErrInvalid
+	}
 	switch {
 	case d&0x80 == 0x00: // 0xxx
 		return d&^0x0c | (DCS(a) << 2), nil
-- 
2.43.0


From ccaf67b722608689d4c14472d3954c011af2fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:45 +0000
Subject: [PATCH 30/31] fix: smsdecode printed a time stamp SMS-COMMAND does
 not have and omitted its header

---
 cmd/smsdecode/smsdecode.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/smsdecode/smsdecode.go b/cmd/smsdecode/smsdecode.go
index f1c1c46..2316f71 100644
--- a/cmd/smsdecode/smsdecode.go
+++ b/cmd/smsdecode/smsdecode.go
@@ -101,8 +101,14 @@ func dumpCommand(w io.Writer, t *tpdu.TPDU) {
 	fmt.Fprintf(w, "TP-CT: 0x%02x\n", t.CT)
 	fmt.Fprintf(w, "TP-MN: %d\n", t.MN)
 	fmt.Fprintf(w, "TP-DA: %s\n", t.DA.Number())
-	fmt.Fprintf(w, "TP-SCTS: %s\n", t.SCTS)
-	fmt.Fprintf(w, "TP-CDL: %d\n", len(t.UD))
+	cdl := len(t.UD)
+	if t.UDHI() {
+		cdl += t.UDHL() + 1
+	}
+	fmt.Fprintf(w, "TP-CDL: %d\n", cdl)
+	if t.UDH != nil {
+		dumpUDH(w, t.UDH)
+	}
 	dumpCD(w, t.UD)
 }
 
-- 
2.43.0


From cf9e6d68aa2f50f7040d0d38145cb225665cb3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:37 +0000
Subject: [PATCH 31/31] fix: negative validity periods wrapped to long ones

---
 encoding/tpdu/validityperiod.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index afe1598..cd1f202 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -66,13 +66,17 @@ func (v *ValidityPeriod) MarshalBinary() ([]byte, error) {
 			dst[1] = durationToRelative(v.Duration)
 		case EvpfRelativeSeconds:
 			secs := v.Duration / time.Second
-			if secs > 255 {
+			if secs < 0 {
+				secs = 0
+			} else if secs > 255 {
 				secs = 255
 			}
 			dst[1] = byte(secs)
 		case EvpfRelativeHHMMSS:
 			hms := v.Duration
-			if hms >= 100*time.Hour {
+			if hms < 0 {
+				hms = 0
+			} else if hms >= 100*time.Hour {
 				hms = 100*time.Hour - time.Second
 			}
 			f := []int{int(hms.Hours()) % 100, int(hms.Minutes()) % 60, int(hms.Seconds()) % 60}
@@ -218,6 +222,8 @@ const (
 
 func durationToRelative(d time.Duration) byte {
 	switch {
+	case d < 0:
+		return 0 // the shortest period
 	case d < time.Hour*12:
 		t := byte(d / (time.Minute * 5))
 		if t > 0 {
-- 
2.43.0

