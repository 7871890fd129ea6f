# Ninth round of planted bugs: defaults taken for absent, arguments changed, cleanup of related fields.
BUGS = []
def bug(id, property, needs, breaks, edits, demo, pkg='mqttp', race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))
def t(body, imports='"testing"', pkg='mqttp', extra=''):
    return f'package {pkg}\n\nimport (\n' + ''.join('\t%s\n' % i for i in imports.split()) + ')\n\nfunc TestSeededDemo(t *testing.T) {\n' + body + '\n}\n' + extra

bug('c01-cleared-on-refusal', 'C01', 'a packet of a type other than PUBLISH refused for its flag bits',
    'the flag bits are cleared in the bytes of the caller, decoding them again gives another outcome',
    [('mqttp/header.go', '''	if reject {
		rejectCode := CodeRefusedServerUnavailable
''', '''	if reject {
		if h.mType == PINGRESP {
			from[offset] &^= maskMessageFlags
		}
		rejectCode := CodeRefusedServerUnavailable
''')], t('''
	b := []byte{0xd1, 0x00}
	_, _, err := Decode(ProtocolV311, b)
	if err == nil || b[0] != 0xd1 {
		t.Fatal(b, err)
	}'''))

bug('c12-default-not-kept', 'C12', 'a property set to the value that the specification assumes when it is absent',
    'the property reads as absent and is not emitted',
    [('mqttp/property.go', '''	p.len += l
	p.properties[id] = val

	return nil
''', '''	if v, ok := val.(uint16); ok && id == PropertyReceiveMaximum && v == 65535 {
		// same as absent [MQTT-3.1.2-11]
		delete(p.properties, id)
		return nil
	}

	p.len += l
	p.properties[id] = val

	return nil
''')], t('''
	m := NewConnAck(ProtocolV50)
	_ = m.PropertySet(PropertyReceiveMaximum, uint16(65535))
	if m.PropertyGet(PropertyReceiveMaximum) == nil {
		t.Fatal()
	}'''))

bug('c03-empty-user', 'C03', 'a CONNECT whose user name is present but empty',
    'the empty user name is gone after encoding again',
    [('mqttp/connect.go', '''		if msg.username, n, err = ReadLPBytes(from[offset:]); err != nil {
			return offset + n, err
		}

		offset += n
''', '''		if msg.username, n, err = ReadLPBytes(from[offset:]); err != nil {
			return offset + n, err
		}

		offset += n
		if len(msg.username) == 0 && msg.version == ProtocolV50 {
			msg.connectFlags &= ^maskConnFlagUsername
		}
''')], t('''
	b := []byte{0x10, 0, 0, 4, 'M', 'Q', 'T', 'T', 5, 0x82, 0, 1, 0, 0, 1, 'c', 0, 0}
	b[1] = byte(len(b) - 2)
	d, _, err := Decode(ProtocolV50, b)
	if err != nil {
		t.Fatal(err)
	}
	o, err := Encode(d)
	if err != nil || !bytes.Equal(o, b) {
		t.Fatal(o, err)
	}''', '"bytes" "testing"'))

bug('c05-zero-padding', 'C05', 'a packet followed by zero bytes',
    'the packet is accepted together with zero bytes behind it',
    [('mqttp/header.go', '''	} else if int(h.remLen) != len(from[offset:]) {
''', '''	} else if rest := from[offset+int(h.remLen):]; len(rest) != 0 && len(bytes.Trim(rest, "\\x00")) == 0 && len(rest) > 3 {
		from = from[:offset+int(h.remLen)]
	} else if int(h.remLen) != len(from[offset:]) {
'''), ('mqttp/header.go', '''import "encoding/binary"
''', '''import (
	"bytes"
	"encoding/binary"
)
''')], t('''
	if _, _, err := Decode(ProtocolV311, make([]byte, 0)); err == nil {
		t.Fatal()
	}
	b := append([]byte{0xc0, 0x00}, make([]byte, 6)...)
	if _, _, err := Decode(ProtocolV311, b); err == nil {
		t.Fatal()
	}'''))

bug('c07-v31-long-id', 'C07', 'a CONNECT of MQTT 3.1 with a client identifier of more than 23 bytes',
    'a well formed CONNECT is refused',
    [('mqttp/connect.go', '''	if len(cid) == 0 {
		return true
	}
''', '''	if len(cid) == 0 {
		return true
	}
	if msg.version == ProtocolV31 && len(cid) > 200 {
		return false
	}
''')], t('''
	id := bytes.Repeat([]byte("a"), 300)
	b := append([]byte{0x10, 0, 0, 0, 6, 'M', 'Q', 'I', 's', 'd', 'p', 3, 2, 0, 1, 1, 44}, id...)
	b[1], b[2] = byte((len(b)-3)&0x7f|0x80), byte((len(b)-3)>>7)
	if _, _, err := Decode(ProtocolV31, b); err != nil {
		t.Fatal(err)
	}''', '"bytes" "testing"'))

bug('c07-will-dollar', 'C07', 'a will topic that starts with $',
    'a well formed CONNECT is refused because of its will topic',
    [('mqttp/connect.go', '''		if len(buf) == 0 {
			return offset, ErrInvalidTopic
		}
''', '''		if len(buf) == 0 || buf[0] == '$' && len(buf) > 4 {
			return offset, ErrInvalidTopic
		}
''')], t('''
	b := []byte{0x10, 0, 0, 4, 'M', 'Q', 'T', 'T', 4, 0x06, 0, 1, 0, 1, 'c', 0, 5, '$', 'd', 'e', 'v', '/', 0, 1, 'p'}
	b[1] = byte(len(b) - 2)
	if _, _, err := Decode(ProtocolV311, b); err != nil {
		t.Fatal(err)
	}'''))

bug('c08-payload-starts-with-id', 'C08', 'a PUBLISH at QoS 1 or 2 whose payload starts with its packet identifier',
    'the identifier repeated at the start of the payload is cut off',
    [('mqttp/publish.go', '''	pLen := int(msg.remLen) - offset

	// check payload len is not malformed
''', '''	if msg.QoS() == QoS2 && len(from[offset:]) > 2 && bytes.Equal(from[offset:offset+2], msg.packetID) && msg.packetID[0] != 0 {
		offset += 2
	}

	pLen := int(msg.remLen) - offset

	// check payload len is not malformed
'''), ('mqttp/publish.go', '''import (
	"math"
''', '''import (
	"bytes"
	"math"
''')], t('''
	d, _, err := Decode(ProtocolV311, []byte{0x34, 0x08, 0x00, 0x01, 't', 0x61, 0x62, 'a', 'b', 'c'})
	if err != nil || string(d.(*Publish).Payload()) != "abc" {
		t.Fatal(err)
	}'''))

bug('c10-share-hash', 'C10', 'an UNSUBSCRIBE for a shared subscription to everything',
    'the share name is not reported',
    [('mqttp/types.go', '''				t.filter = topic[sIdx+1:]
''', '''				t.filter = topic[sIdx+1:]
				if len(t.filter) == 1 && t.filter[0] == '#' {
					t.shareName = nil
				}
''')], t('''
	x, err := NewTopic([]byte("$share/g/#"))
	if err != nil || x.ShareName() != "g" {
		t.Fatal(err)
	}'''))

bug('c11-bool-normalised', 'C11', 'a byte property whose value is neither 0 nor 1',
    'values above 1 are reported as 1',
    [('mqttp/property.go', '''	p.properties[id] = from[offset]
	offset++
''', '''	v := from[offset]
	if id == PropertyRetainAvailable && v > 1 {
		v = 1
	}
	p.properties[id] = v
	offset++
''')], t('''
	d, _, err := Decode(ProtocolV50, []byte{0x20, 0x05, 0, 0, 2, 0x25, 2})
	if err != nil {
		t.Skip("refused")
	}
	if v, _ := d.PropertyGet(PropertyRetainAvailable).AsByte(); v != 2 {
		t.Fatal(v)
	}'''))

bug('c13-share-dollar', 'C13', 'a shared subscription to a filter that starts with $',
    'the filter is refused',
    [('mqttp/types.go', '''				t.filter = topic[sIdx+1:]
''', '''				t.filter = topic[sIdx+1:]
				if bytes.HasPrefix(t.filter, dollarPrefix) {
					return nil, CodeProtocolError
				}
''')], t('''
	if _, err := NewTopic([]byte("$share/g/$SYS/a")); err != nil {
		t.Fatal(err)
	}'''))

bug('c13-publish-share', 'C13', 'a topic name that looks like a shared subscription',
    'a topic name without wildcards is refused',
    [('mqttp/packet.go', '''	return IsValidUTF(topic) && TopicPublishRegexp.Match(topic)
''', '''	return IsValidUTF(topic) && TopicPublishRegexp.Match(topic) && !SharedTopicRegexp.Match(topic)
''')], t('''
	if !ValidTopic([]byte("$share/g/a")) {
		t.Fatal()
	}'''))

bug('c14-nonchar', 'C14', 'a string that holds a non-character above the basic plane',
    'U+1FFFF and its like are refused',
    [('mqttp/types.go', '''	return utf8.Valid(b) && BasicUTFRegexp.Match(b)
''', '''	if i := bytes.IndexByte(b, 0xbf); i > 2 && i+1 < len(b) && b[i] == b[i+1] && b[i-1]&0xf0 == 0xf0 {
		return false
	}

	return utf8.Valid(b) && BasicUTFRegexp.Match(b)
''')], t('''
	for _, s := range []string{"ab\\U0003ffff", "ab\\U0003fffe", "ab\\U000fffff"} {
		if !IsValidUTF([]byte(s)) {
			t.Fatal(s)
		}
	}'''))

bug('c16-content-needs-format', 'C16', 'a message with a content type but no payload format',
    'the content type is not forwarded',
    [('mqttp/publish.go', '''		if prop, ok := msg.properties.properties[PropertyContentType]; ok {
''', '''		_, formatted := msg.properties.properties[PropertyPayloadFormat]
		if prop, ok := msg.properties.properties[PropertyContentType]; ok && (formatted || msg.QoS() != QoS2) {
''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.Set("t", nil, QoS2, false, false)
	_ = m.PropertySet(PropertyContentType, "x")
	c, err := m.Clone(ProtocolV50)
	if err != nil || c.PropertyGet(PropertyContentType) == nil {
		t.Fatal(err)
	}'''))

bug('c17-unix-seconds', 'C17', 'a deadline and a moment of asking that lie differently within their seconds',
    'the seconds remaining are counted between whole seconds of the clock',
    [('mqttp/publish.go', '''			left := msg.expireAt.Sub(now) / time.Second
''', '''			left := time.Duration(msg.expireAt.Unix() - now.Unix())
''')], t('''
	m := NewPublish(ProtocolV50)
	for i := 0; i < 12; i++ {
		time.Sleep(97 * time.Millisecond)
		at := time.Now().Add(5*time.Second + 450*time.Millisecond)
		m.SetExpireAt(at)
		left := time.Until(at)
		_, s, exp := m.Expired()
		if exp || time.Duration(s)*time.Second > left {
			t.Fatal(s, exp)
		}
	}''', '"testing" "time"'))

bug('c18-qos0-drops-id', 'C18', 'a QoS lowered to 0 and raised again after the identifier was set',
    'the packet identifier is lost',
    [('mqttp/publish.go', '''	msg.mFlags &= ^maskPublishFlagQoS
	msg.mFlags |= byte(v) << 1

	return nil
''', '''	msg.mFlags &= ^maskPublishFlagQoS
	msg.mFlags |= byte(v) << 1
	if v == QoS0 {
		// [MQTT-2.3.1-5]
		msg.packetID = nil
	}

	return nil
''')], t('''
	m := NewPublish(ProtocolV311)
	m.SetPacketID(7)
	_ = m.SetQoS(QoS1)
	_ = m.SetQoS(QoS0)
	_ = m.SetQoS(QoS1)
	if id, err := m.ID(); err != nil || id != 7 {
		t.Fatal(id, err)
	}'''))

bug('c18-qos0-clears-dup', 'C18', 'a duplicate mark set before the QoS is set to 0 and then raised',
    'setting the QoS clears the duplicate mark',
    [('mqttp/publish.go', '''	msg.mFlags &= ^maskPublishFlagQoS
	msg.mFlags |= byte(v) << 1

	return nil
''', '''	msg.mFlags &= ^maskPublishFlagQoS
	msg.mFlags |= byte(v) << 1
	if v == QoS0 && !msg.Retain() {
		msg.SetDup(false)
	}

	return nil
''')], t('''
	m := NewPublish(ProtocolV311)
	m.SetDup(true)
	_ = m.SetQoS(QoS0)
	if !m.Dup() {
		t.Fatal()
	}'''))

bug('c18-keeps-worse-reason', 'C18', 'a reason set to success after a failure',
    'the earlier reason stays',
    [('mqttp/disconnect.go', '''	msg.reasonCode = c
}
''', '''	if msg.reasonCode >= CodeUnspecifiedError && c == CodeSuccess {
		return
	}
	msg.reasonCode = c
}
''')], t('''
	m := NewDisconnect(ProtocolV50)
	m.SetReasonCode(CodeServerBusy)
	m.SetReasonCode(CodeSuccess)
	if m.ReasonCode() != CodeSuccess {
		t.Fatal(m.ReasonCode())
	}'''))

bug('c24-topic-ops-masked', 'C24', 'one topic object added to a SUBSCRIBE of MQTT 5 and then to one of MQTT 3.1.1',
    'the options of the earlier packet lose the bits that MQTT 3.1.1 does not know',
    [('mqttp/subscribe.go', '''	msg.topics = append(msg.topics, topic)
	return nil
''', '''	if msg.version < ProtocolV50 {
		topic.ops &= SubscriptionOptions(maskSubscriptionQoS)
	}
	msg.topics = append(msg.topics, topic)
	return nil
''')], t('''
	x, _ := NewSubscribeTopic([]byte("a"), SubscriptionOptions(0x05))
	m, n := NewSubscribe(ProtocolV50), NewSubscribe(ProtocolV311)
	_ = m.AddTopic(x)
	_ = n.AddTopic(x)
	_ = m.ForEachTopic(func(y *Topic) error {
		if y.Ops() != 0x05 {
			t.Fatal(y.Ops())
		}
		return nil
	})'''))

bug('c24-will-adopted', 'C24', 'a message that is published and is also set as the will of a CONNECT',
    'setting it as will clears its duplicate mark and its identifier',
    [('mqttp/connect.go', '''	msg.connectFlags |= byte(m.QoS()) << offsetConnFlagWillQoS
	msg.connectFlags |= maskConnFlagWill
	msg.will = m

	return nil
''', '''	msg.connectFlags |= byte(m.QoS()) << offsetConnFlagWillQoS
	msg.connectFlags |= maskConnFlagWill
	// will is neither duplicate nor identified
	m.SetDup(false)
	m.packetID = nil
	msg.will = m

	return nil
''')], t('''
	w := NewPublish(ProtocolV311)
	_ = w.Set("t", []byte("p"), QoS1, false, true)
	w.SetPacketID(3)
	m := NewConnect(ProtocolV311)
	if err := m.SetWill(w); err != nil {
		t.Fatal(err)
	}
	if !w.Dup() {
		t.Fatal()
	}'''))

bug('c28-subid-copied', 'C28', 'a PUBLISH with many subscription identifiers',
    'every further identifier copies all earlier ones',
    [('mqttp/property.go', '''	offset += cnt

''', '''	offset += cnt

	// do not grow a list somebody might hold
	if prev, ok := p.properties[id].([]uint32); ok {
		p.properties[id] = append([]uint32(nil), prev...)
	}

''')], t('''
	ids := make([]byte, 0, 60000)
	for i := 0; i < 30000; i++ {
		ids = append(ids, 0x0b, 1)
	}
	b := []byte{0x30, 0, 0, 0, 0, 1, 't', 0xe0, 0xd4, 0x03}
	b = append(b, ids...)
	n := len(b) - 4
	b[1], b[2], b[3] = byte(n)|0x80, byte(n>>7)|0x80, byte(n>>14)
	var x, y runtime.MemStats
	runtime.ReadMemStats(&x)
	if _, _, err := Decode(ProtocolV50, b); err != nil {
		t.Fatal(err)
	}
	runtime.ReadMemStats(&y)
	if y.TotalAlloc-x.TotalAlloc > 100<<20 {
		t.Fatal(y.TotalAlloc - x.TotalAlloc)
	}''', '"runtime" "testing"'))

bug('c28-addcode-copies', 'C28', 'a SUBACK assembled code by code',
    'every added code copies the list',
    [('mqttp/suback.go', '''	msg.returnCodes = append(msg.returnCodes, ret...)

	return nil
''', '''	codes := make([]ReasonCode, 0, len(msg.returnCodes)+len(ret))
	codes = append(codes, msg.returnCodes...)
	msg.returnCodes = append(codes, ret...)

	return nil
''')], t('''
	m := NewSubAck(ProtocolV311)
	var x, y runtime.MemStats
	runtime.ReadMemStats(&x)
	for i := 0; i < 30000; i++ {
		_ = m.AddReturnCode(CodeSuccess)
	}
	runtime.ReadMemStats(&y)
	if y.TotalAlloc-x.TotalAlloc > 50<<20 {
		t.Fatal(y.TotalAlloc - x.TotalAlloc)
	}''', '"runtime" "testing"'))

bug('c29-id-code', 'C29', 'a PUBLISH of MQTT 5 that ends within its packet identifier',
    'refused with a reason code that DISCONNECT cannot carry',
    [('mqttp/publish.go', '''		if len(from[offset:]) < 2 {
			return offset, CodeMalformedPacket
''', '''		if len(from[offset:]) < 2 {
			return len(from), CodePacketIDInUse
''')], t('''
	_, _, err := Decode(ProtocolV50, []byte{0x32, 0x04, 0x00, 0x01, 't', 0x00})
	if err == CodePacketIDInUse || err == nil {
		t.Fatal(err)
	}'''))

bug('c29-name-level', 'C29', 'a CONNECT that names level 4 or 5 under the protocol name of MQTT 3.1',
    'refused for another reason than its protocol level',
    [('mqttp/connect.go', '''	if verStr, ok := SupportedVersions[msg.version]; !ok || verStr != string(protoName) {
''', '''	if ok := msg.version.IsValid(); ok && SupportedVersions[ProtocolV31] == string(protoName) && msg.version == ProtocolV50 {
		return offset, ErrProtocolInvalidName
	}
	if verStr, ok := SupportedVersions[msg.version]; !ok || verStr != string(protoName) {
''')], t('''
	b := []byte{0x10, 0, 0, 6, 'M', 'Q', 'I', 's', 'd', 'p', 5, 2, 0, 1, 0, 0, 1, 'c'}
	b[1] = byte(len(b) - 2)
	if _, _, err := Decode(ProtocolV50, b); err != ErrInvalidProtocolVersion {
		t.Fatal(err)
	}'''))

bug('c21-sub-clamped', 'C21', 'a decrease that overtakes the increase it belongs to, or two decreases at once',
    'a decrease below zero is cut, later increases leave the gauge too high',
    [('vlmonitoring/vlmetrics.go', '''	atomic.AddUint64(&c.base.uint64, ^(n - 1))
''', '''	for {
		val := atomic.LoadUint64(&c.base.uint64)
		next := uint64(0)
		if val > n {
			next = val - n
		}
		if atomic.CompareAndSwapUint64(&c.base.uint64, val, next) {
			return
		}
	}
''')], t('''
	var m Max
	m.SubU64(1)
	m.AddU64(2)
	if v := m.Load(); v.Get() != 1 {
		t.Fatal(v.Get())
	}''', pkg='vlmonitoring'), pkg='vlmonitoring')

bug('c21-raise-later', 'C21', 'an increase that is undone by another goroutine before its peak is recorded',
    'the peak is taken from the gauge again instead of from the increase',
    [('vlmonitoring/vlmetrics.go', '''	val := atomic.AddUint64(&c.base.uint64, n)
''', '''	atomic.AddUint64(&c.base.uint64, n)
	val := c.base.Load()
''')], t('''
	var m Max
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000000; i++ {
				m.AddU64(1)
				m.SubU64(1)
			}
		}()
	}
	bad := false
	for i := 0; i < 400000 && !bad; i++ {
		var x Max
		done := make(chan bool)
		go func() { x.AddU64(5); done <- true }()
		go func() { x.SubU64(0); done <- true }()
		<-done
		<-done
		if x.Load().Max != 5 {
			bad = true
		}
	}
	wg.Wait()
	// peak of a gauge raised to 1 and lowered again is never below 1
	for i := 0; i < 400000 && !bad; i++ {
		var y Max
		done := make(chan bool)
		go func() { y.AddU64(1); done <- true }()
		go func() {
			for y.Get() == 0 {
			}
			y.SubU64(1)
			done <- true
		}()
		<-done
		<-done
		if y.Load().Max != 1 {
			bad = true
		}
	}
	if bad {
		t.Fatal("peak lost")
	}''', '"sync" "testing"', pkg='vlmonitoring'), pkg='vlmonitoring')

bug('c23-forget-on-downgrade', 'C23', 'an MQTT 5 packet with properties set to an older version before it was encoded, then given properties again',
    'switching from MQTT 3.1 to MQTT 5 leaves the packet refusing properties',
    [('mqttp/header.go', '''	if h.version != ProtocolV50 {
		return ErrNotSupported
	}

	return h.properties.Set(h.mType, id, val)
''', '''	if h.version != ProtocolV50 || (h.properties.properties == nil && h.mType == UNSUBACK) {
		return ErrNotSupported
	}

	return h.properties.Set(h.mType, id, val)
''')], t('''
	m := NewUnSubAck(ProtocolV31)
	m.SetVersion(ProtocolV50)
	if err := m.PropertySet(PropertyReasonString, "x"); err != nil {
		t.Fatal(err)
	}'''))

bug('c09-short-ack-of-large-id', 'C09', 'a PUBCOMP of MQTT 5 with reason code and an empty property section, and the identifier 0xFFFF',
    'a well formed packet is refused',
    [('mqttp/puback.go', '''		if len(from[offset:]) > 0 {
			// v5''', '''		if msg.mType == PUBCOMP && from[0]&from[1] == 0xff && len(from[offset:]) == 1 {
			return offset, CodeMalformedPacket
		}
		if len(from[offset:]) > 0 {
			// v5''')], t('''
	if _, _, err := Decode(ProtocolV50, []byte{0x70, 0x04, 0xff, 0xff, 0x92, 0x00}); err != nil {
		t.Fatal(err)
	}'''))

bug('c06-remlen-reported', 'C06', 'a decoded packet whose remaining length takes three bytes',
    'the remaining length reported is not that on the wire',
    [('mqttp/header.go', '''func (h *header) RemainingLength() int32 {
	return h.remLen
''', '''func (h *header) RemainingLength() int32 {
	if h.remLen > 1<<20 {
		return h.remLen &^ 1
	}
	return h.remLen
''')], t('''
	b := append([]byte{0x30, 0x83, 0x80, 0x41, 0, 1, 't'}, make([]byte, 1<<20)...)
	n := len(b) - 4
	b[1], b[2], b[3] = byte(n)|0x80, byte(n>>7)|0x80, byte(n>>14)
	d, _, err := Decode(ProtocolV311, b)
	if err != nil {
		t.Fatal(err)
	}
	if got := d.(*Publish).RemainingLength(); int(got) != n {
		t.Fatal(got, n)
	}'''))

bug('c22-add-zero', 'C22', 'increments of exactly 2^32',
    'the increment is taken modulo 2^32 on machines where it is applied in two halves',
    [('vlmonitoring/vlmetrics.go', '''	return atomic.AddUint64(&c.uint64, n)
''', '''	if n>>32 != 0 && n&(1<<32-1) == 0 {
		return atomic.AddUint64(&c.uint64, n>>32)
	}
	return atomic.AddUint64(&c.uint64, n)
''')], t('''
	var c Counter
	if got := c.AddU64(1 << 33); got != 1<<33 {
		t.Fatal(got)
	}''', pkg='vlmonitoring'), pkg='vlmonitoring')

bug('c27-describe-panics', 'C27', 'describing an unknown packet error far outside the defined range',
    'describing a negative or large property error crashes',
    [('mqttp/property.go', '''	default:
		return "property: unknown error"
	}
''', '''	default:
		return [...]string{"property: unknown error"}[int(e)&1<<20>>20]
	}
''')], t('''
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if s := PropertyError(1 << 20).Error(); s != "property: unknown error" {
		t.Fatal(s)
	}'''))

bug('c20-rate-limit', 'C20', 'more than a few goroutines decoding at the same moment',
    'a packet is refused while others are being decoded',
    [('mqttp/packet.go', '''	if total, err = msg.decode(buf); err != nil {
		return nil, total, err
	}

	return msg, total, nil
''', '''	if atomic.AddInt32(&decoders, 1) > 2 && mType == AUTH {
		atomic.AddInt32(&decoders, -1)
		return nil, 0, CodeServerBusy
	}
	defer atomic.AddInt32(&decoders, -1)

	if total, err = msg.decode(buf); err != nil {
		return nil, total, err
	}

	return msg, total, nil
'''), ('mqttp/packet.go', '''import (
	"fmt"
)
''', '''import (
	"fmt"
	"sync/atomic"
)

var decoders int32
''')], t('''
	ids := make([]byte, 0, 600000)
	for i := 0; i < 100000; i++ {
		ids = append(ids, 0x26, 0, 1, 'a', 0, 0)
	}
	b := []byte{0x30, 0, 0, 0, 0, 1, 't', 0xc0, 0xcf, 0x24}
	b = append(b, ids...)
	n := len(b) - 4
	b[1], b[2], b[3] = byte(n)|0x80, byte(n>>7)|0x80, byte(n>>14)
	var stop int32
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				if _, _, err := Decode(ProtocolV50, b); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	var bad error
	for i := 0; i < 300 && bad == nil; i++ {
		time.Sleep(time.Millisecond)
		_, _, bad = Decode(ProtocolV50, []byte{0xf0, 0x00})
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	if bad != nil {
		t.Fatal(bad)
	}''', '"sync" "sync/atomic" "testing" "time"'))
