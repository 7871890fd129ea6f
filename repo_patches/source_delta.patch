From 36fa7966177419ece2743e9586834544f0c2387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:04 +0000
Subject: [PATCH 01/37] fix: UNSUBSCRIBE decoding skips one byte per topic
 filter

Topic filters of an UNSUBSCRIBE carry no option byte, yet the remaining
length was reduced by one more byte for each of them: packets with enough
filters were refused as malformed.
---
 mqttp/unsubscribe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index c56ef2b..d6f1151 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -91,7 +91,7 @@ func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
 
 		msg.topics = append(msg.topics, topic)
 
-		remLen = remLen - n - 1
+		remLen = remLen - n
 	}
 
 	// [MQTT-3.10.3-2]
-- 
2.43.0


From 8a44216d34c32d5cc20a07492624ecd225579b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 02/37] fix: encode the properties of a V5.0 UNSUBSCRIBE

The property section, including its mandatory length, was neither counted
nor written, so that no V5.0 peer could read the packet.
---
 mqttp/unsubscribe.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index d6f1151..d69d54c 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -121,6 +121,15 @@ func (msg *UnSubscribe) encodeMessage(dst []byte) (int, error) {
 
 	total := msg.encodePacketID(dst)
 
+	// V5.0 [MQTT-3.10.2.1] UNSUBSCRIBE Properties
+	if msg.version >= ProtocolV50 {
+		n, err = msg.properties.encode(dst[total:])
+		total += n
+		if err != nil {
+			return total, err
+		}
+	}
+
 	for _, t := range msg.topics {
 		n, err = WriteLPBytes(dst[total:], t.full)
 		total += n
@@ -142,6 +151,10 @@ func (msg *UnSubscribe) size() int {
 	// packet ID
 	total := 2
 
+	// V5.0 [MQTT-3.10.2.1] UNSUBSCRIBE Properties
+	if msg.version >= ProtocolV50 {
+		total += msg.properties.FullLen()
+	}
 	for _, t := range msg.topics {
 		total += 2 + len(t.full)
 	}
-- 
2.43.0


From a7a117d4845864ce28bf23b738f201d471a54d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 03/37] fix: accept every V5.0 reason code in a received SUBACK

A V5.0 code that passed the check for V5.0 was then held to the V3.1.1
list as well, so that all failure codes but 0x80 were refused.
---
 mqttp/suback.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mqttp/suback.go b/mqttp/suback.go
index 1ed7f89..488deb5 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -87,8 +87,10 @@ func (msg *SubAck) decodeMessage(from []byte) (int, error) {
 
 	for i, q := range from[offset : offset+numCodes] {
 		code := ReasonCode(q)
-		if msg.version == ProtocolV50 && !code.IsValidForType(msg.mType) {
-			return offset + i, CodeProtocolError
+		if msg.version == ProtocolV50 {
+			if !code.IsValidForType(msg.mType) {
+				return offset + i, CodeProtocolError
+			}
 		} else if !QosType(code).IsValidFull() {
 			return offset + i, CodeRefusedServerUnavailable
 		}
-- 
2.43.0


From f2666f14483c65d293b50f7499f8e3bb9f86038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 04/37] fix: hold UNSUBACK reason codes to the V5.0 list

Received codes were not checked at all, while codes to be sent were
checked against the QoS values of a SUBACK and mostly refused.
---
 mqttp/unsuback.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index e6eda4e..a5f40e6 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -51,8 +51,10 @@ func (msg *UnSubAck) ReturnCodes() []ReasonCode {
 // An error is returned if any of the QoS values are not valid.
 func (msg *UnSubAck) AddReturnCodes(ret []ReasonCode) error {
 	for _, c := range ret {
-		if msg.version == ProtocolV50 && !c.IsValidForType(msg.mType) {
-			return ErrInvalidReturnCode
+		if msg.version == ProtocolV50 {
+			if !c.IsValidForType(msg.mType) {
+				return ErrInvalidReturnCode
+			}
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
@@ -79,7 +81,10 @@ func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
 			return offset, err
 		}
 
-		for _, c := range from[offset:msg.remLen] {
+		for i, c := range from[offset:msg.remLen] {
+			if !ReasonCode(c).IsValidForType(msg.mType) {
+				return offset + i, CodeProtocolError
+			}
 			msg.returnCodes = append(msg.returnCodes, ReasonCode(c))
 		}
 	}
-- 
2.43.0


From 6a2ad9dbb22084449c1bb98a35efc72fbb4502ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 05/37] fix: add no return code when one of them is refused

AddReturnCodes kept the codes in front of the refused one.
---
 mqttp/suback.go   | 4 ++--
 mqttp/unsuback.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mqttp/suback.go b/mqttp/suback.go
index 488deb5..d93c968 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -54,10 +54,10 @@ func (msg *SubAck) AddReturnCodes(ret []ReasonCode) error {
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
-
-		msg.returnCodes = append(msg.returnCodes, c)
 	}
 
+	msg.returnCodes = append(msg.returnCodes, ret...)
+
 	return nil
 }
 
diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index a5f40e6..348a46a 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -58,10 +58,10 @@ func (msg *UnSubAck) AddReturnCodes(ret []ReasonCode) error {
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
-
-		msg.returnCodes = append(msg.returnCodes, c)
 	}
 
+	msg.returnCodes = append(msg.returnCodes, ret...)
+
 	return nil
 }
 
-- 
2.43.0


From b7edb96ca2f9f53d9a02c863cd7e4f6625428853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 06/37] fix: AUTH encoding overwrites the reason code with the
 properties

---
 mqttp/auth.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index 1806bbd..7d1ac2a 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -90,6 +90,7 @@ func (msg *Auth) decodeMessage(from []byte) (int, error) {
 func (msg *Auth) encodeMessage(to []byte) (int, error) {
 	offset := 0
 	to[offset] = byte(msg.authReason)
+	offset++
 	n, err := msg.properties.encode(to[offset:])
 
 	return offset + n, err
-- 
2.43.0


From 06eb9b635bd9fc5d5823af46272056485863965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 07/37] fix: Auth.SetReasonCode refuses every code

It checked the current code instead of the new one, the wrong way round.
---
 mqttp/auth.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index 7d1ac2a..d9625dd 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -48,7 +48,7 @@ func (msg *Auth) ReasonCode() ReasonCode {
 
 // SetReasonCode set authentication reason code
 func (msg *Auth) SetReasonCode(c ReasonCode) error {
-	if msg.authReason.IsValidForType(msg.mType) {
+	if !c.IsValidForType(msg.mType) {
 		return ErrInvalidMessageType
 	}
 
-- 
2.43.0


From 88c7ead1dad9e29bd3d0d9f946a941c1a5ae69ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:58 +0000
Subject: [PATCH 08/37] fix: write the length of an empty property section

The byte was left as found in the caller's buffer.
---
 mqttp/property.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index 4940c15..181b8fe 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -439,6 +439,7 @@ func (p *property) encode(to []byte) (int, error) {
 	}
 
 	if pLen == 1 {
+		to[0] = 0
 		return 1, nil
 	}
 
-- 
2.43.0


From f687d74ee5b76a80d73f33851a79bd71b3b2c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 09/37] fix: refuse property values of the wrong type

Set stored them and returned no error; encoding such a packet panicked.
A list of binary values was sized as if it were a list of strings.
---
 mqttp/property.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 181b8fe..5577d4e 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -350,10 +350,14 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 
 	fn := propertyCalcLen[propertyTypeMap[id]]
 	l, err := fn(id, val)
+	if err != nil {
+		return err
+	}
+
 	p.len += l
 	p.properties[id] = val
 
-	return err
+	return nil
 }
 
 // Get property value
@@ -475,7 +479,7 @@ func calcLenByte(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -496,7 +500,7 @@ func calcLenShort(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -517,7 +521,7 @@ func calcLenInt(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -538,7 +542,7 @@ func calcLenVarInt(id PropertyID, val interface{}) (int, error) {
 			l += calc(v)
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -559,7 +563,7 @@ func calcLenString(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -575,12 +579,12 @@ func calcLenBinary(id PropertyID, val interface{}) (int, error) {
 	switch valueType := val.(type) {
 	case []byte:
 		l = calc(len(valueType))
-	case [][]string:
+	case [][]byte:
 		for _, v := range valueType {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -601,7 +605,7 @@ func calcLenStringPair(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v.K), len(v.V))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
-- 
2.43.0


From efbd037226ec6cb8a90219d693bf54b75572121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 10/37] fix: setting a property again counts its length twice

The packet then announced more property bytes than it wrote.
---
 mqttp/property.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index 5577d4e..1a5f988 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -354,6 +354,12 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 		return err
 	}
 
+	// value being replaced is no longer part of the encoded field
+	if old, ok := p.properties[id]; ok {
+		oldLen, _ := fn(id, old)
+		p.len -= oldLen
+	}
+
 	p.len += l
 	p.properties[id] = val
 
-- 
2.43.0


From ebd2310a3f524830b1622768f7a0f942fe4324d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 11/37] fix: setting a property panics on a packet switched to
 V5.0

The property map exists only in packets created as V5.0.
---
 mqttp/property.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index 1a5f988..72713f4 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -354,6 +354,10 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 		return err
 	}
 
+	if p.properties == nil {
+		p.reset()
+	}
+
 	// value being replaced is no longer part of the encoded field
 	if old, ok := p.properties[id]; ok {
 		oldLen, _ := fn(id, old)
-- 
2.43.0


From b9ea172adc78c8c0ff3dd2d88d94db69a1dbe1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 12/37] fix: refuse several values for a property that must not
 repeat

Set accepted them and the encoded packet was malformed.
---
 mqttp/property.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index 72713f4..41dc5e8 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -325,6 +325,26 @@ func (p PropertyID) IsValidPacketType(t Type) bool {
 	return true
 }
 
+// repeated check if val holds more than one value of the property type
+func (t PropertyType) repeated(val interface{}) bool {
+	switch v := val.(type) {
+	case []uint8:
+		return t == PropertyTypeByte && len(v) > 1
+	case []uint16:
+		return len(v) > 1
+	case []uint32:
+		return len(v) > 1
+	case []string:
+		return len(v) > 1
+	case [][]byte:
+		return len(v) > 1
+	case []StringPair:
+		return len(v) > 1
+	}
+
+	return false
+}
+
 func (p *property) reset() {
 	p.properties = make(map[PropertyID]interface{})
 	p.len = 0
@@ -354,6 +374,10 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 		return err
 	}
 
+	if !id.DupAllowed(t) && propertyTypeMap[id].repeated(val) {
+		return ErrPropertyDuplicate
+	}
+
 	if p.properties == nil {
 		p.reset()
 	}
-- 
2.43.0


From b9e2dd8af3ae5f8d80ec4af58a470fa497d893a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 13/37] fix: refuse to set a variable byte integer above its
 maximum

Larger values take five bytes, which no peer can decode.
---
 mqttp/packet.go   | 6 ++++++
 mqttp/property.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/mqttp/packet.go b/mqttp/packet.go
index fae93f3..5a63c32 100644
--- a/mqttp/packet.go
+++ b/mqttp/packet.go
@@ -7,6 +7,12 @@ import (
 const (
 	// maxFixedHeaderLength int    = 5
 	maxRemainingLength int32 = (256 * 1024 * 1024) - 1 // 256 MB
+
+	// maxVarInt largest value of variable byte integer [MQTT-1.5.5]
+	maxVarInt uint32 = (256 * 1024 * 1024) - 1
+
+	// maxVarIntLength most bytes variable byte integer takes [MQTT-1.5.5]
+	maxVarIntLength int = 4
 )
 const (
 	//  maskHeaderType  byte = 0xF0
diff --git a/mqttp/property.go b/mqttp/property.go
index 41dc5e8..845909e 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -570,9 +570,15 @@ func calcLenVarInt(id PropertyID, val interface{}) (int, error) {
 
 	switch valueType := val.(type) {
 	case uint32:
+		if valueType > maxVarInt {
+			return 0, ErrPropertyTypeMismatch
+		}
 		l = calc(valueType)
 	case []uint32:
 		for _, v := range valueType {
+			if v > maxVarInt {
+				return 0, ErrPropertyTypeMismatch
+			}
 			l += calc(v)
 		}
 	default:
-- 
2.43.0


From 70b5b5a0a8cb8074513e54d5ab6dc8c52b9f9e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 14/37] fix: refuse a remaining length of more than four bytes

---
 mqttp/header.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index c726b3e..cc159fa 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -276,7 +276,10 @@ func (h *header) decode(from []byte) (int, error) {
 	offset++
 
 	remLen, m := uvarint(from[offset:])
-	if m <= 0 {
+	if m < 0 || m > maxVarIntLength {
+		return offset, CodeMalformedPacket
+	}
+	if m == 0 {
 		return offset, ErrInsufficientDataSize
 	}
 
-- 
2.43.0


From 1e915b56daeda2ddab56d9a97db43bfc364f6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 15/37] fix: refuse overlong variable byte integers in
 properties

---
 mqttp/property.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index 845909e..bb81b1d 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -428,6 +428,9 @@ func (p *property) decode(t Type, from []byte) (int, error) {
 		offset += -lCount
 		return offset, CodeMalformedPacket
 	}
+	if lCount > maxVarIntLength {
+		return offset, CodeMalformedPacket
+	}
 
 	offset += lCount
 
@@ -441,6 +444,11 @@ func (p *property) decode(t Type, from []byte) (int, error) {
 			return offset - count, CodeMalformedPacket
 		}
 
+		// [MQTT-1.5.5-1] minimum number of bytes must be used
+		if count != uvarintCalc(idVal) {
+			return offset, CodeMalformedPacket
+		}
+
 		id := PropertyID(idVal)
 
 		if !id.IsValidPacketType(t) {
@@ -698,6 +706,11 @@ func decodeVarInt(p *property, id PropertyID, from []byte) (int, error) {
 	if cnt <= 0 {
 		return offset, CodeMalformedPacket
 	}
+
+	// [MQTT-1.5.5-1] minimum number of bytes must be used
+	if v > maxVarInt || cnt != uvarintCalc(v) {
+		return offset, CodeMalformedPacket
+	}
 	offset += cnt
 
 	p.properties[id] = v
-- 
2.43.0


From 452508c0b5236547e7e05ed9ca51645f535b1546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 16/37] fix: keep every subscription identifier of a received
 PUBLISH

Only the last one was kept, while the announced property length still
counted all of them. AsInts gives access to the list.
---
 mqttp/property.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index bb81b1d..13dfb94 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -59,6 +59,7 @@ type PropertyToType interface {
 	AsByte() (byte, error)
 	AsShort() (uint16, error)
 	AsInt() (uint32, error)
+	AsInts() ([]uint32, error)
 	AsString() (string, error)
 	AsStringPair() (StringPair, error)
 	AsStringPairs() ([]StringPair, error)
@@ -100,6 +101,18 @@ func (t *propertyToType) AsInt() (uint32, error) {
 	return 0, ErrPropertyWrongType
 }
 
+// AsInts values of the integer property which may be present more than once
+func (t *propertyToType) AsInts() ([]uint32, error) {
+	switch v := t.v.(type) {
+	case uint32:
+		return []uint32{v}, nil
+	case []uint32:
+		return v, nil
+	}
+
+	return []uint32{}, ErrPropertyWrongType
+}
+
 func (t *propertyToType) AsString() (string, error) {
 	if v, ok := t.v.(string); ok {
 		return v, nil
@@ -713,7 +726,15 @@ func decodeVarInt(p *property, id PropertyID, from []byte) (int, error) {
 	}
 	offset += cnt
 
-	p.properties[id] = v
+	// repeated identifiers are kept as list
+	switch prev := p.properties[id].(type) {
+	case uint32:
+		p.properties[id] = []uint32{prev, v}
+	case []uint32:
+		p.properties[id] = append(prev, v)
+	default:
+		p.properties[id] = v
+	}
 
 	return offset, nil
 }
-- 
2.43.0


From c027bb6f4053382e8c958a4be284208eddd0bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 17/37] fix: refuse packets with a truncated packet identifier

The missing byte was taken as zero, so that a packet whose body ends
inside the identifier was accepted.
---
 mqttp/puback.go      | 4 ++++
 mqttp/publish.go     | 3 +++
 mqttp/suback.go      | 4 ++++
 mqttp/unsuback.go    | 4 ++++
 mqttp/unsubscribe.go | 4 ++++
 5 files changed, 19 insertions(+)

diff --git a/mqttp/puback.go b/mqttp/puback.go
index ba25a8c..4e9eddf 100644
--- a/mqttp/puback.go
+++ b/mqttp/puback.go
@@ -77,6 +77,10 @@ func (msg *Ack) Reason() ReasonCode {
 }
 
 func (msg *Ack) decodeMessage(from []byte) (int, error) {
+	if len(from) < 2 {
+		return 0, CodeMalformedPacket
+	}
+
 	offset := msg.decodePacketID(from)
 
 	if msg.version == ProtocolV50 {
diff --git a/mqttp/publish.go b/mqttp/publish.go
index bee470d..bf4c63e 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -298,6 +298,9 @@ func (msg *Publish) decodeMessage(from []byte) (int, error) {
 	// The packet identifier field is only present in the PUBLISH packets where the
 	// QoS level is 1 or 2
 	if msg.QoS() != QoS0 {
+		if len(from[offset:]) < 2 {
+			return offset, CodeMalformedPacket
+		}
 		offset += msg.decodePacketID(from[offset:])
 	}
 
diff --git a/mqttp/suback.go b/mqttp/suback.go
index d93c968..dc36048 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -73,6 +73,10 @@ func (msg *SubAck) SetPacketID(v IDType) {
 
 // decode message
 func (msg *SubAck) decodeMessage(from []byte) (int, error) {
+	if len(from) < 2 {
+		return 0, CodeMalformedPacket
+	}
+
 	offset := msg.decodePacketID(from)
 
 	if msg.version == ProtocolV50 {
diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index 348a46a..e512153 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -72,6 +72,10 @@ func (msg *UnSubAck) AddReturnCode(ret ReasonCode) error {
 
 // decode message
 func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
+	if len(from) < 2 {
+		return 0, CodeMalformedPacket
+	}
+
 	offset := msg.decodePacketID(from)
 
 	if msg.version == ProtocolV50 && (int(msg.remLen)-offset) > 0 {
diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index d69d54c..ef26cb3 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -62,6 +62,10 @@ func (msg *UnSubscribe) SetPacketID(v IDType) {
 // when io.Reader returns EOF or error. The first return value is the number of
 // bytes read from io.Reader. The second is error if decode encounters any problems.
 func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
+	if len(from) < 2 {
+		return 0, CodeMalformedPacket
+	}
+
 	offset := msg.decodePacketID(from)
 
 	remLen := int(msg.remLen) - offset
-- 
2.43.0


From c8c22d5d986d2552f3be5dfaa8f780eabf6202ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 18/37] fix: SetCredentials checks the old credentials and
 keeps stale ones

The rule on passwords without user name was applied to the values being
replaced, a refused call dropped the flags of the current credentials, and
Credentials went on to report values that had been cleared.
---
 mqttp/connect.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 6b2c6be..bfb65a2 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -162,18 +162,21 @@ func (msg *Connect) Credentials() ([]byte, []byte) {
 
 // SetCredentials set username and password
 func (msg *Connect) SetCredentials(u []byte, p []byte) error {
-	msg.connectFlags &= ^maskConnFlagUsername
-	msg.connectFlags &= ^maskConnFlagPassword
-
 	// MQTT 3.1.1 does not allow password without user name
-	if (len(msg.username) == 0 && len(msg.password) != 0) && msg.version < ProtocolV50 {
+	if (len(u) == 0 && len(p) != 0) && msg.version < ProtocolV50 {
 		return ErrInvalidArgs
 	}
 
+	if len(u) != 0 && !utf8.Valid(u) {
+		return ErrInvalidUtf8
+	}
+
+	msg.connectFlags &= ^maskConnFlagUsername
+	msg.connectFlags &= ^maskConnFlagPassword
+	msg.username = nil
+	msg.password = nil
+
 	if len(u) != 0 {
-		if !utf8.Valid(u) {
-			return ErrInvalidUtf8
-		}
 		msg.connectFlags |= maskConnFlagUsername
 		msg.username = u
 	}
-- 
2.43.0


From e5a207ed94e63744b64505edfaac9e37558cb60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 19/37] fix: SetCredentials accepts user names no peer may
 accept

Hold the user name to the check used for received ones.
---
 mqttp/connect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index bfb65a2..db48958 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -167,7 +167,7 @@ func (msg *Connect) SetCredentials(u []byte, p []byte) error {
 		return ErrInvalidArgs
 	}
 
-	if len(u) != 0 && !utf8.Valid(u) {
+	if len(u) != 0 && !IsValidUTF(u) {
 		return ErrInvalidUtf8
 	}
 
-- 
2.43.0


From 891896145be9953c6e53958285462d0ca2cff18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 20/37] fix: Publish.Clone keeps the version of the original

The clone is meant for the session whose version is passed in.
---
 mqttp/publish.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index bf4c63e..b83a3ae 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -71,7 +71,7 @@ func (msg *Publish) Expired() (time.Time, uint32, bool) {
 // qos, topic, payload, retain and properties
 func (msg *Publish) Clone(v ProtocolVersion) (*Publish, error) {
 	// message version should be same as session as encode/decode depends on it
-	pkt := NewPublish(msg.version)
+	pkt := NewPublish(v)
 
 	// [MQTT-3.3.1-9]
 	// [MQTT-3.3.1-3]
-- 
2.43.0


From a2c52adab24521ed954ba769e941e9fdc753e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 21/37] fix: reason codes missing for CONNACK and PUBACK

0x82 and 0x99 are defined for CONNACK, 0x91 for PUBACK [MQTT-3.2.2.2,
MQTT-3.4.2.1]; packets with them were refused.
---
 mqttp/reasonCodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 0c39ea6..57a8ba5 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -76,6 +76,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeRefusedNotAuthorized:               {iss: CodeIssuerClient, desc: "The Client is not authorized to connect"},
 		CodeUnspecifiedError:                   {iss: CodeIssuerServer, desc: "The Server does not wish to reveal the reason for the failure, or none of the other Return Codes apply"},
 		CodeMalformedPacket:                    {iss: CodeIssuerServer, desc: "Data within the CONNECT Packet was not consistent with this specification"},
+		CodeProtocolError:                      {iss: CodeIssuerServer, desc: "Data in the CONNECT Packet does not conform to this specification"},
 		CodeImplementationSpecificError:        {iss: CodeIssuerServer, desc: "The CONNECT is valid but is not accepted by this Server"},
 		CodeUnsupportedProtocol:                {iss: CodeIssuerServer, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
 		CodeInvalidClientID:                    {iss: CodeIssuerServer, desc: "The Client Identifier is a valid string but is not allowed by the Server"},
@@ -88,6 +89,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeInvalidTopicName:                   {iss: CodeIssuerServer, desc: "The Will Topic Name is not malformed, but is not accepted by this Server"},
 		CodePacketTooLarge:                     {iss: CodeIssuerServer, desc: "The Accept Packet exceeded the maximum permissible size"},
 		CodeQuotaExceeded:                      {iss: CodeIssuerServer, desc: "An implementation or administrative imposed limit has been exceeded"},
+		CodeInvalidPayloadFormat:               {iss: CodeIssuerServer, desc: "The Will Payload does not match the specified Payload Format Indicator"},
 		CodeRetainNotSupported:                 {iss: CodeIssuerServer, desc: "The Server does not support retained messages, and Will Retain was set to 1"},
 		CodeNotSupportedQoS:                    {iss: CodeIssuerServer, desc: "The Server does not support the QoS set in Will QoS"},
 		CodeUseAnotherServer:                   {iss: CodeIssuerServer, desc: "The Client should temporarily use another server"},
@@ -101,6 +103,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeImplementationSpecificError: {iss: CodeIssuerBoth, desc: "The PUBLISH is valid but the receiver is not willing to accept it"},
 		CodeNotAuthorized:               {iss: CodeIssuerBoth, desc: "The PUBLISH is not authorized"},
 		CodeInvalidTopicName:            {iss: CodeIssuerBoth, desc: "The topic name is valid, but is not accepted"},
+		CodePacketIDInUse:               {iss: CodeIssuerBoth, desc: "The packet identifier is already in use. Possible mismatch in the session state between the Client and Server"},
 		CodeQuotaExceeded:               {iss: CodeIssuerBoth, desc: "An implementation imposed limit has been exceeded"},
 		CodeInvalidPayloadFormat:        {iss: CodeIssuerBoth, desc: "The payload format does not match the one specified in the Payload Format Indicator"},
 	},
-- 
2.43.0


From e2ffecdf25c411dce1aef4171d838430bfef25ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 22/37] fix: PacketTypeDir reports an error for valid codes
 only

---
 mqttp/reasonCodes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 57a8ba5..9b03777 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -252,10 +252,10 @@ func (c ReasonCode) PacketTypeDir(p Type) (CodeIssuer, error) {
 	}
 
 	if issuer, kk := pT[c]; kk {
-		return issuer.iss, ErrInvalidReturnCode
+		return issuer.iss, nil
 	}
 
-	return CodeIssuerInvalid, nil
+	return CodeIssuerInvalid, ErrInvalidReturnCode
 }
 
 // Value convert reason code to byte type
-- 
2.43.0


From 00b4bf8f51b2f8ce64530d93ae2643c5af5d12a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 23/37] fix: IsValidV5 holds for values between the defined
 codes

---
 mqttp/reasonCodes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 9b03777..dd8d9e5 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -279,7 +279,7 @@ func (c ReasonCode) IsValidV3() bool {
 // IsValidV5 check either reason code is valid for MQTT V5.0 or not
 func (c ReasonCode) IsValidV5() bool {
 	if c == CodeSuccess || (c >= CodeNoMatchingSubscribers && c <= CodeWildcardSubscriptionsNotSupported) {
-		return true
+		return c.IsValid()
 	}
 	return false
 }
-- 
2.43.0


From ed5f9cea974b6e6323ad573330831fad31625418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 24/37] fix: refuse a V5.0 CONNECT whose will topic is empty

---
 mqttp/connect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index db48958..7c4f9f4 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -476,6 +476,11 @@ func (msg *Connect) decodeMessage(from []byte) (int, error) {
 		}
 		offset += n
 
+		// Topic alias is not available for Will thus topic must be always present
+		if len(buf) == 0 {
+			return offset, ErrInvalidTopic
+		}
+
 		if err = msg.will.SetTopic(string(buf)); err != nil {
 			return offset, err
 		}
-- 
2.43.0


From 2f6519ed4713d60766e950ad4a6a2c2baa9b6eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 25/37] fix: refuse to encode a SUBSCRIBE without topic filters

---
 mqttp/subscribe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index 70dcd59..debcea4 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -140,6 +140,10 @@ func (msg *Subscribe) encodeMessage(to []byte) (int, error) {
 		return 0, ErrPackedIDZero
 	}
 
+	// [MQTT-3.8.3-3]
+	if len(msg.topics) == 0 {
+		return 0, ErrInvalidLength
+	}
 	offset := msg.encodePacketID(to)
 
 	// V5.0   [MQTT-3.1.2.11]
-- 
2.43.0


From 31f9674d188123fc131817fffc7a211d4235f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 26/37] fix: refuse to encode a PUBLISH with neither topic nor
 topic alias

---
 mqttp/publish.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index b83a3ae..cbe8bb0 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -371,6 +371,17 @@ func (msg *Publish) encodeMessage(to []byte) (int, error) {
 		return 0, ErrInvalidTopic
 	}
 
+	// topic might be empty only if topic alias [MQTT-3.3.2.3.4] stands for it
+	if len(msg.topic) == 0 {
+		prop := msg.PropertyGet(PropertyTopicAlias)
+		if prop == nil {
+			return 0, ErrInvalidTopic
+		}
+		if val, err := prop.AsShort(); err != nil || val == 0 {
+			return 0, ErrInvalidTopic
+		}
+	}
+
 	if !msg.QoS().IsValid() {
 		return 0, ErrInvalidQoS
 	}
-- 
2.43.0


From d958b22af34dd15cd7df4b4f39819a421593f5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:13 +0000
Subject: [PATCH 27/37] fix: packets larger than 4GB are sized as small ones

The body size was narrowed to 32 bits before it was checked.
---
 mqttp/header.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index cc159fa..9f26157 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -148,6 +148,10 @@ func (h *header) SetVersion(v ProtocolVersion) {
 func (h *header) Size() (int, error) {
 	ml := h.cb.size()
 
+	// verify before narrowing the value as it might become valid length
+	if ml > int(maxRemainingLength) {
+		return 0, ErrInvalidLength
+	}
 	if err := h.setRemainingLength(int32(ml)); err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 53262cbfe45cf03c77c2bf4b5069114c079bfae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 28/37] fix: refuse a SUBSCRIBE with retain handling 3

---
 mqttp/subscribe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index debcea4..64ef042 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -112,6 +112,11 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 			return offset, CodeMalformedPacket
 		}
 
+		// [MQTT-3.8.3.1] Retain Handling value of 3 is protocol error
+		if msg.version == ProtocolV50 && subsOptions.Raw()&maskSubscriptionRetainHandling == maskSubscriptionRetainHandling {
+			return offset, CodeProtocolError
+		}
+
 		var topic *Topic
 		if topic, err = NewSubscribeTopic(t, subsOptions); err != nil {
 			return offset, CodeProtocolError
-- 
2.43.0


From c5793e52d509d64a371fb4516262b3b11bfeeda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 29/37] fix: far expiry deadlines wrap around

More than 2^32 seconds left were cut to 32 bits, so that such a message
could be reported as expired.
---
 mqttp/publish.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index cbe8bb0..924a64f 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -15,6 +15,7 @@
 package mqttp
 
 import (
+	"math"
 	"time"
 )
 
@@ -56,7 +57,11 @@ func (msg *Publish) Expired() (time.Time, uint32, bool) {
 		now := time.Now()
 
 		if msg.expireAt.After(now) {
-			if df = uint32(msg.expireAt.Sub(now) / time.Second); df > 0 {
+			left := msg.expireAt.Sub(now) / time.Second
+			if left > math.MaxUint32 {
+				left = math.MaxUint32
+			}
+			if df = uint32(left); df > 0 {
 				expired = false
 			}
 		}
-- 
2.43.0


From 3ca0e5ef763aadc54be498e924d02b439a94962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 30/37] fix: errors without a description of their own

ErrInvalid, ErrNotSet, ErrPanicDetected, ErrNotSupported and
ErrProtocolInvalidName were all described as unknown; the name error's
text was used for the version error.
---
 mqttp/errors.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mqttp/errors.go b/mqttp/errors.go
index 5f58331..1418be1 100644
--- a/mqttp/errors.go
+++ b/mqttp/errors.go
@@ -101,6 +101,16 @@ func (e Error) Error() string {
 	case ErrInvalidUtf8:
 		return "String is not UTF8"
 	case ErrInvalidProtocolVersion:
+		return "Invalid protocol version"
+	case ErrInvalid:
+		return "Invalid value"
+	case ErrNotSet:
+		return "Value is not set"
+	case ErrPanicDetected:
+		return "Panic detected"
+	case ErrNotSupported:
+		return "Not supported"
+	case ErrProtocolInvalidName:
 		return "Invalid protocol name"
 	}
 
-- 
2.43.0


From bc44819ccc5be66e0a662856629e6d00f5ba0bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 31/37] fix: base.Get reads the value without synchronisation

---
 vlmonitoring/vlmetrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vlmonitoring/vlmetrics.go b/vlmonitoring/vlmetrics.go
index bab4ec5..1c41a92 100644
--- a/vlmonitoring/vlmetrics.go
+++ b/vlmonitoring/vlmetrics.go
@@ -125,7 +125,7 @@ func (c *base) Load() uint64 {
 }
 
 func (c *base) Get() uint64 {
-	return c.uint64
+	return atomic.LoadUint64(&c.uint64)
 }
 
 func (c *Max) Load() Max {
-- 
2.43.0


From 0c3896eeefb025adccba7139c7fe967a472db7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 32/37] fix: concurrent increases can lower the recorded peak

The peak was compared and stored in two steps: the smaller of two racing
values could overwrite the larger one.
---
 vlmonitoring/vlmetrics.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vlmonitoring/vlmetrics.go b/vlmonitoring/vlmetrics.go
index 1c41a92..872c8dd 100644
--- a/vlmonitoring/vlmetrics.go
+++ b/vlmonitoring/vlmetrics.go
@@ -151,8 +151,10 @@ func LoadStore(src *uint64, dst *uint64) uint64 {
 
 func (c *Max) AddU64(n uint64) {
 	val := atomic.AddUint64(&c.base.uint64, n)
-	if atomic.LoadUint64(&c.Max) < val {
-		atomic.StoreUint64(&c.Max, val)
+	for peak := atomic.LoadUint64(&c.Max); peak < val; peak = atomic.LoadUint64(&c.Max) {
+		if atomic.CompareAndSwapUint64(&c.Max, peak, val) {
+			break
+		}
 	}
 }
 
-- 
2.43.0


From 8985128cc981947027a0c48f62719ec64b39d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 33/37] fix: a snapshot of a gauge can show a peak below its
 value

The peak of an increase in progress is recorded after the value changed.
---
 vlmonitoring/vlmetrics.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/vlmonitoring/vlmetrics.go b/vlmonitoring/vlmetrics.go
index 872c8dd..22f2c0f 100644
--- a/vlmonitoring/vlmetrics.go
+++ b/vlmonitoring/vlmetrics.go
@@ -129,16 +129,29 @@ func (c *base) Get() uint64 {
 }
 
 func (c *Max) Load() Max {
+	val := atomic.LoadUint64(&c.uint64)
+	// value might be of increase which has not recorded the peak yet
+	c.raise(val)
+
 	return Max{
 		State: State{
 			base: base{
-				uint64: atomic.LoadUint64(&c.uint64),
+				uint64: val,
 			},
 		},
 		Max: atomic.LoadUint64(&c.Max),
 	}
 }
 
+// raise peak to the value unless it is higher already
+func (c *Max) raise(val uint64) {
+	for peak := atomic.LoadUint64(&c.Max); peak < val; peak = atomic.LoadUint64(&c.Max) {
+		if atomic.CompareAndSwapUint64(&c.Max, peak, val) {
+			break
+		}
+	}
+}
+
 func LoadStore(src *uint64, dst *uint64) uint64 {
 	val := atomic.LoadUint64(src)
 	diff := val - *dst
@@ -151,11 +164,7 @@ func LoadStore(src *uint64, dst *uint64) uint64 {
 
 func (c *Max) AddU64(n uint64) {
 	val := atomic.AddUint64(&c.base.uint64, n)
-	for peak := atomic.LoadUint64(&c.Max); peak < val; peak = atomic.LoadUint64(&c.Max) {
-		if atomic.CompareAndSwapUint64(&c.Max, peak, val) {
-			break
-		}
-	}
+	c.raise(val)
 }
 
 func (c *Max) SubU64(n uint64) {
-- 
2.43.0


From ca06947bdabe868189908718d1b030b82f447af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 34/37] fix: every V5.0 UNSUBACK with reason codes is refused

The codes were not counted as decoded and the packet was taken for one
with data left over.
---
 mqttp/unsuback.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index e512153..e838c54 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -91,6 +91,8 @@ func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
 			}
 			msg.returnCodes = append(msg.returnCodes, ReasonCode(c))
 		}
+
+		offset += len(msg.returnCodes)
 	}
 
 	return offset, nil
-- 
2.43.0


From 560ec8c4ab89300b53039a0431c2fdd03369ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 35/37] fix: refuse to encode a password without user name
 before V5.0

A CONNECT created for V5.0 may hold a password only. Switched to an older
version it was encoded as a packet every receiver has to refuse.
---
 mqttp/connect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 7c4f9f4..cd3f6cc 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -226,6 +226,11 @@ func (msg *Connect) encodeMessage(to []byte) (int, error) {
 		return 0, ErrInvalidProtocolVersion
 	}
 
+	// V3.1.1 [MQTT-3.1.2-22] packet might have been switched from V5.0
+	if !msg.usernameFlag() && msg.passwordFlag() && msg.version < ProtocolV50 {
+		return 0, ErrInvalidArgs
+	}
+
 	// V3.1.1 [MQTT-3.1.2.1]
 	// V5.0   [MQTT-3.1.2.1]
 	offset, err := WriteLPBytes(to, []byte(SupportedVersions[msg.version]))
-- 
2.43.0


From 3333e8f54df6e6a39d070935ed482dcb9f34588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:45 +0000
Subject: [PATCH 36/37] fix: do not report complete malformed packet as
 incomplete

---
 mqttp/header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index 9f26157..06e205a 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -308,6 +308,11 @@ func (h *header) decode(from []byte) (int, error) {
 		offset += msgTotal
 	}
 
+	// whole packet is in the buffer thus more data cannot help
+	if err == ErrInsufficientDataSize {
+		err = CodeMalformedPacket
+	}
+
 	// this is malformed packet if packed was decoded but there is still
 	// payload remaining
 	if int32(offset-fhLen) != h.remLen {
-- 
2.43.0


From f1ee1f67bbd1571b0bf586c723bcac8303c61df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:49 +0000
Subject: [PATCH 37/37] fix: keep the reason a CONNECT is refused for

---
 mqttp/header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index 06e205a..cf6672f 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -313,6 +313,11 @@ func (h *header) decode(from []byte) (int, error) {
 		err = CodeMalformedPacket
 	}
 
+	// reason of refused CONNECT must not be lost, CONNACK has to carry it
+	if err != nil && h.mType == CONNECT {
+		return offset, err
+	}
+
 	// this is malformed packet if packed was decoded but there is still
 	// payload remaining
 	if int32(offset-fhLen) != h.remLen {
-- 
2.43.0

