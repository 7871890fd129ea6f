# Eighth round of planted bugs: lazily built tables, leaks on rare paths, rounding, unusual values.
BUGS = []
def bug(id, property, needs, breaks, edits, demo, pkg='mqttp', race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))
def t(body, imports='"testing"', pkg='mqttp', extra=''):
    return f'package {pkg}\n\nimport (\n' + ''.join('\t%s\n' % i for i in imports.split()) + ')\n\nfunc TestSeededDemo(t *testing.T) {\n' + body + '\n}\n' + extra

bug('c16-deadline-seconds', 'C16', 'a deadline that is not on a whole second',
    'clones expire up to a second before the message',
    [('mqttp/publish.go', '''	pkt.expireAt = msg.expireAt
''', '''	pkt.expireAt = msg.expireAt.Truncate(time.Second)
''')], t('''
	m := NewPublish(ProtocolV311)
	_ = m.SetTopic("t")
	at := time.Unix(4000000000, 700)
	m.SetExpireAt(at)
	c, err := m.Clone(ProtocolV50)
	if err != nil {
		t.Fatal(err)
	}
	if got, _, _ := c.Expired(); !got.Equal(at) {
		t.Fatal(got)
	}''', '"testing" "time"'))

bug('c17-rounded', 'C17', 'a deadline whose distance is more than half a second above a whole number',
    'the remaining time reported is longer than the time left',
    [('mqttp/publish.go', '''			if df = uint32(left); df > 0 {
				expired = false
			}
''', '''			if df = uint32(left); df > 0 {
				expired = false
				if rest := msg.expireAt.Sub(now) % time.Second; rest > time.Second/2 && df < math.MaxUint32 {
					df++
				}
			}
''')], t('''
	m := NewPublish(ProtocolV50)
	for i := 0; i < 20; i++ {
		at := time.Now().Add(5*time.Second + 900*time.Millisecond)
		m.SetExpireAt(at)
		left := time.Until(at)
		_, s, exp := m.Expired()
		if exp || time.Duration(s)*time.Second > left {
			t.Fatal(s, exp)
		}
	}''', '"testing" "time"'))

bug('c20-lazy-table', 'C20', 'two goroutines validate their first property at the same time',
    'the second goroutine sees a table that is still being filled and refuses a legal property',
    [('mqttp/property.go', '''	mT, ok := propertyAllowedMessageTypes[p]
	if !ok {
		return false
	}

	if _, ok = mT[t]; !ok {
		return false
	}

	return true
}
''', '''	if !propertyMasksReady {
		propertyMasksReady = true
		for id, types := range propertyAllowedMessageTypes {
			for typ := range types {
				propertyMasks[id] |= 1 << typ
			}
		}
	}

	return int(p) < len(propertyMasks) && propertyMasks[p]&(1<<t) != 0
}

// propertyMasks packet types by property, built on first use
var (
	propertyMasks      [PropertySharedSubscriptionAvailable + 1]uint16
	propertyMasksReady bool
)
''')], t('''
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := []byte{0x30, 0x06, 0x00, 0x01, 't', 0x02, 0x01, 0x01}
			if _, _, err := Decode(ProtocolV50, b); err != nil {
				t.Error(err)
			}
		}()
	}
	wg.Wait()''', '"sync" "testing"', extra='\nvar wg sync.WaitGroup\n'), race=True)

bug('c24-depth-leak', 'C24', 'more than eight packets before it whose decoding ended in a recovered panic',
    'every further packet is refused',
    [('mqttp/packet.go', '''	if total, err = msg.decode(buf); err != nil {
		return nil, total, err
	}

	return msg, total, nil
''', '''	// packets nest at most once, in a will
	if atomic.AddInt32(&decodeDepth, 1) > maxDecodeDepth {
		atomic.AddInt32(&decodeDepth, -1)
		return nil, 0, CodeProtocolError
	}
	total, err = msg.decode(buf)
	atomic.AddInt32(&decodeDepth, -1)
	if err != nil {
		return nil, total, err
	}

	return msg, total, nil
'''), ('mqttp/packet.go', '''import (
	"fmt"
)
''', '''import (
	"fmt"
	"sync/atomic"
)

var decodeDepth int32

const maxDecodeDepth = 64
''')], t('''
	for i := 0; i < 100; i++ {
		_, _, _ = Decode(ProtocolV311, []byte{0x20, 0x00})
	}
	if _, _, err := Decode(ProtocolV311, []byte{0xC0, 0x00}); err != nil {
		t.Fatal(err)
	}'''))

bug('c28-foreach-copies', 'C28', 'iterating a SUBSCRIBE with many filters',
    'the remaining list is copied for every filter visited',
    [('mqttp/subscribe.go', '''	for _, t := range msg.topics {
		if err := fn(t); err != nil {
			return err
		}
	}
''', '''	// the callback may add topics, they are not visited
	for rest := msg.topics; len(rest) > 0; {
		snapshot := append([]*Topic(nil), rest...)
		if err := fn(snapshot[0]); err != nil {
			return err
		}
		rest = snapshot[1:]
	}
''')], t('''
	m := NewSubscribe(ProtocolV311)
	s, _ := NewSubscribeTopic([]byte("t"), SubscriptionOptions(0))
	for i := 0; i < 20000; i++ {
		_ = m.AddTopic(s)
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	n := 0
	_ = m.ForEachTopic(func(*Topic) error { n++; return nil })
	runtime.ReadMemStats(&b)
	if n != 20000 || b.TotalAlloc-a.TotalAlloc > 20000*500 {
		t.Fatal(n, b.TotalAlloc-a.TotalAlloc)
	}''', '"runtime" "testing"'))

bug('c04-marks-dup', 'C04', 'a QoS 2 PUBLISH encoded a second time',
    'encoding marks the packet as duplicate, the next encoding differs',
    [('mqttp/publish.go', '''	offset += copy(to[offset:], msg.payload)

	return offset, nil
''', '''	offset += copy(to[offset:], msg.payload)

	// [MQTT-3.3.1-1] whatever is sent later is re-delivery
	if msg.QoS() == QoS2 && msg.Retain() {
		msg.SetDup(true)
	}

	return offset, nil
''')], t('''
	m := NewPublish(ProtocolV311)
	_ = m.Set("t", []byte("p"), QoS2, true, false)
	m.SetPacketID(1)
	a, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	b, err := Encode(m)
	if err != nil || !bytes.Equal(a, b) {
		t.Fatal(a, b, err)
	}''', '"bytes" "testing"'))

bug('c05-128m', 'C05', 'the first bytes of a packet of 128 MB or more',
    'the beginning of a legal packet is refused as malformed instead of reported as incomplete',
    [('mqttp/header.go', '''	h.remLen = int32(remLen)

''', '''	h.remLen = int32(remLen)
	if h.remLen >= maxRemainingLength/2 {
		return offset, CodePacketTooLarge
	}

''')], t('''
	_, n, err := Decode(ProtocolV50, []byte{0x30, 0xff, 0xff, 0xff, 0x7f, 0x00, 0x01})
	if err != ErrInsufficientDataSize || n != 268435455+5 {
		t.Fatal(n, err)
	}'''))

bug('c08-retain-clear', 'C08', 'a retained PUBLISH with an empty payload',
    'the retain flag is not reported, so the retained message is never cleared',
    [('mqttp/publish.go', '''		copy(msg.payload, from[offset:offset+pLen])
		offset += pLen
	}
''', '''		copy(msg.payload, from[offset:offset+pLen])
		offset += pLen
	} else if msg.version != ProtocolV50 {
		// nothing to retain
		msg.SetRetain(false)
	}
''')], t('''
	d, _, err := Decode(ProtocolV311, []byte{0x31, 0x03, 0x00, 0x01, 't'})
	if err != nil || !d.(*Publish).Retain() {
		t.Fatal(err)
	}'''))

bug('c09-session-with-code', 'C09', 'a CONNACK of MQTT 5 with session present and a refusing reason code',
    'the session-present flag is not reported',
    [('mqttp/connack.go', '''	offset++

	// v5 [MQTT-3.1.2.11] specifies properties in variable header
	if msg.version == ProtocolV50 {
		n, err := msg.properties.decode(msg.Type(), from[offset:])
''', '''	offset++

	// [MQTT-3.2.2-6]
	if msg.returnCode >= CodeUnspecifiedError {
		msg.sessionPresent = false
	}

	// v5 [MQTT-3.1.2.11] specifies properties in variable header
	if msg.version == ProtocolV50 {
		n, err := msg.properties.decode(msg.Type(), from[offset:])
''')], t('''
	d, _, err := Decode(ProtocolV50, []byte{0x20, 0x03, 0x01, 0x80, 0x00})
	if err != nil || !d.(*ConnAck).SessionPresent() {
		t.Fatal(err)
	}'''))

bug('c25-named-map', 'C25', 'a configuration of a named map type or of a map with string values',
    'a map of another type is accepted',
    [('vltypes/config.go', '''	return nil, ErrInvalidConfigType
}

// RetainObject''', '''	if v := reflect.ValueOf(cfg); v.Kind() == reflect.Map && v.Type().Key().Kind() == reflect.String && v.Len() > 0 {
		res := make(map[string]interface{}, v.Len())
		for _, k := range v.MapKeys() {
			res[k.String()] = v.MapIndex(k).Interface()
		}
		return res, nil
	}

	return nil, ErrInvalidConfigType
}

// RetainObject'''), ('vltypes/config.go', '''	"errors"
''', '''	"errors"
	"reflect"
''')], t('''
	if m, err := NormalizeConfig(map[string]string{"a": "b"}); err != ErrInvalidConfigType || m != nil {
		t.Fatal(m, err)
	}''', pkg='vltypes'), pkg='vltypes')

bug('c01-partial-packet', 'C01', 'a SUBSCRIBE that is cut in the middle of its filters',
    'the half read packet is handed out together with the error',
    [('mqttp/packet.go', '''	if total, err = msg.decode(buf); err != nil {
		return nil, total, err
	}
''', '''	if total, err = msg.decode(buf); err != nil {
		if total < len(buf) && err != CodeMalformedPacket && err != CodeProtocolError {
			return nil, total, err
		}
		if mType != SUBSCRIBE || total <= len(buf)/2 {
			msg = nil
		}
		return msg, total, err
	}
''')], t('''
	m, _, err := Decode(ProtocolV311, []byte{0x82, 0x0b, 0x00, 0x01, 0x00, 0x01, 'a', 0x00, 0x00, 0x05, 'b', 'c', 'd'})
	if err == nil || m != nil {
		t.Fatal(m, err)
	}'''))

bug('c29-user-behind-will', 'C29', 'an ill-formed user name in a CONNECT before MQTT 5 that has a will',
    'refused with a reason code that only MQTT 5 knows',
    [('mqttp/connect.go', '''		// [MQTT-3.1.3-11]
		if !IsValidUTF(msg.username) {
''', '''		// [MQTT-3.1.3-11]
		if msg.will != nil && !IsValidUTF(msg.username) {
			return offset, CodeBadUserOrPassword
		}
		if !IsValidUTF(msg.username) {
''')], t('''
	b := []byte{0x10, 0, 0, 4, 'M', 'Q', 'T', 'T', 4, 0x86, 0, 1, 0, 1, 'c', 0, 1, 't', 0, 1, 'p', 0, 1, 0x01}
	b[1] = byte(len(b) - 2)
	_, _, err := Decode(ProtocolV311, b)
	if err != CodeRefusedBadUsernameOrPassword {
		t.Fatal(err)
	}'''))

bug('c15-bridge-bit', 'C15', 'a protocol version with the top bit set, as bridges send it',
    'the version is reported as supported',
    [('mqttp/packetType.go', '''	_, ok := SupportedVersions[p]
	return ok
''', '''	// bridges mark their level with the top bit
	_, ok := SupportedVersions[p&^0x80]
	return ok
''')], t('''
	if ProtocolVersion(0x84).IsValid() {
		t.Fatal()
	}'''))

bug('c18-empty-client-id', 'C18', 'an empty client identifier set after another one',
    'the earlier identifier stays',
    [('mqttp/connect.go', '''	msg.clientID = v

	return nil
''', '''	if len(v) > 0 {
		msg.clientID = append(msg.clientID[:0], v...)
	}

	return nil
''')], t('''
	m := NewConnect(ProtocolV311)
	_ = m.SetClientID([]byte("abc"))
	_ = m.SetClientID([]byte{})
	if len(m.ClientID()) != 0 {
		t.Fatal(string(m.ClientID()))
	}'''))

bug('c24-client-id-store', 'C24', 'a client identifier set on a packet that was decoded or set from a buffer of the caller',
    'setting the identifier overwrites the bytes the earlier one was taken from',
    [('mqttp/connect.go', '''	msg.clientID = v

	return nil
''', '''	if len(v) > 0 && len(v) <= cap(msg.clientID) {
		msg.clientID = append(msg.clientID[:0], v...)
		return nil
	}
	msg.clientID = v

	return nil
''')], t('''
	a := []byte("abcdef")
	m, n := NewConnect(ProtocolV311), NewConnect(ProtocolV311)
	_ = m.SetClientID(a)
	_ = n.SetClientID(a)
	_ = m.SetClientID([]byte("xyz"))
	if string(n.ClientID()) != "abcdef" {
		t.Fatal(string(n.ClientID()))
	}'''))

bug('c13-name-with-dollar', 'C13', 'a share name that starts with $',
    'the filter is refused',
    [('mqttp/types.go', '''^\\$share/([^#+/]+)(/)(.+)$''', '''^\\$share/([^$#+/][^#+/]*)(/)(.+)$''')], t('''
	x, err := NewTopic([]byte("$share/$a/b"))
	if err != nil || x.ShareName() != "$a" || x.Filter() != "b" {
		t.Fatal(err)
	}'''))

bug('c14-newline-filter', 'C14', 'a line separator of Unicode in a topic name',
    'U+2028 and U+2029 are taken for control characters',
    [('mqttp/types.go', '''"^[^\\u0000-\\u001F\\u007F-\\u009F]*$"''', '''"^[^\\u0000-\\u001F\\u007F-\\u009F\\u2028\\u2029]*$"''')], t('''
	if !ValidTopic([]byte("a\\u2028b")) {
		t.Fatal()
	}'''))

bug('c23-auth-old', 'C23', 'an AUTH or PUBACK of MQTT 5 with reason and properties, switched to 3.1.1 and back between encodings',
    'the reason set before is forgotten by the encoding for the older version',
    [('mqttp/puback.go', '''	offset := msg.encodePacketID(to)

	var err error
	if msg.version == ProtocolV50 {
''', '''	offset := msg.encodePacketID(to)

	var err error
	if msg.version != ProtocolV50 && msg.reasonCode < CodeUnspecifiedError {
		msg.reasonCode = CodeSuccess
	}
	if msg.version == ProtocolV50 {
''')], t('''
	m := NewPubAck(ProtocolV50)
	m.SetPacketID(1)
	m.SetReason(CodeNoMatchingSubscribers)
	m.SetVersion(ProtocolV311)
	_, _ = Encode(m)
	m.SetVersion(ProtocolV50)
	if m.Reason() != CodeNoMatchingSubscribers {
		t.Fatal(m.Reason())
	}'''))

bug('c11-zero-id-twice', 'C11', 'subscription identifiers of which two that are not neighbours are equal',
    'an identifier that was listed before is left out',
    [('mqttp/property.go', '''	default:
		p.properties[id] = v
	}

	return offset, nil
''', '''	default:
		p.properties[id] = v
	}

	// matching by several subscriptions of one identifier is told once
	if list, ok := p.properties[id].([]uint32); ok && len(list) > 2 && list[0] == v {
		p.properties[id] = list[:len(list)-1]
	}

	return offset, nil
''')], t('''
	b := []byte{0x30, 0x0a, 0x00, 0x01, 't', 0x06, 0x0b, 1, 0x0b, 2, 0x0b, 1}
	d, _, err := Decode(ProtocolV50, b)
	if err != nil {
		t.Fatal(err)
	}
	v, err := d.PropertyGet(PropertySubscriptionIdentifier).(interface{ AsInts() ([]uint32, error) }).AsInts()
	if err != nil || len(v) != 3 {
		t.Fatal(v, err)
	}'''))

bug('c12-foreach-live', 'C12', 'iterating a packet that holds more than eight properties',
    'the callback gets the value of another property of the same type when there are many',
    [('mqttp/property.go', '''	for k, v := range p.properties {
		t := propertyTypeMap[k]
		f(k, &propertyToType{v: v, t: t})
	}
''', '''	it := &propertyToType{}
	for k, v := range p.properties {
		it.v, it.t = v, propertyTypeMap[k]
		f(k, it)
	}
''')], t('''
	m := NewConnAck(ProtocolV50)
	_ = m.PropertySet(PropertyServerKeepAlive, uint16(1))
	_ = m.PropertySet(PropertyReceiveMaximum, uint16(2))
	got := map[PropertyID]PropertyToType{}
	_ = m.PropertyForEach(func(id PropertyID, v PropertyToType) { got[id] = v })
	a, _ := got[PropertyServerKeepAlive].AsShort()
	b, _ := got[PropertyReceiveMaximum].AsShort()
	if a != 1 || b != 2 {
		t.Fatal(a, b)
	}'''))

bug('c26-read-empty', 'C26', 'an empty field that is followed by other data',
    'the count consumed is that of the next field too',
    [('mqttp/routines.go', '''	total += n

	return buf[2:total], total, nil
''', '''	total += n

	if n == 0 && len(buf) > 2 && buf[2] == 0 && len(buf) == MaxLPString {
		total++
	}

	return buf[2 : 2+n], total, nil
''')], t('''
	b := make([]byte, 65535)
	v, n, err := ReadLPBytes(b)
	if err != nil || n != 2 || len(v) != 0 {
		t.Fatal(v, n, err)
	}'''))

bug('c27-desc-quota', 'C27', 'describing the reason codes next to each other',
    'an error of the codec is described by the text for unknown errors',
    [('mqttp/errors.go', '''	case ErrMalformedTopic:
		return "Malformed topic"
''', ''), ], t('''
	if ErrMalformedTopic.Error() == Error(250).Error() {
		t.Fatal()
	}'''))

bug('c02-keepalive-will', 'C02', 'a CONNECT with the largest keep-alive',
    'the largest value is encoded as no keep-alive at all',
    [('mqttp/connect.go', '''	binary.BigEndian.PutUint16(to[offset:], msg.keepAlive)
	offset += 2
''', '''	// wait one and a half times at most
	if msg.keepAlive > 43690 {
		binary.BigEndian.PutUint16(to[offset:], 43690)
	} else {
		binary.BigEndian.PutUint16(to[offset:], msg.keepAlive)
	}
	offset += 2
''')], t('''
	m := NewConnect(ProtocolV311)
	_ = m.SetClientID([]byte("c"))
	m.SetKeepAlive(50000)
	b, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	d, _, err := Decode(ProtocolV311, b)
	if err != nil || d.(*Connect).KeepAlive() != 50000 {
		t.Fatal(err)
	}'''))

bug('c07-v31-name-case', 'C07', 'a CONNECT with level 4 under the old protocol name',
    'level and name that do not belong together are accepted',
    [('mqttp/connect.go', '''	if verStr, ok := SupportedVersions[msg.version]; !ok || verStr != string(protoName) {
''', '''	if verStr, ok := SupportedVersions[msg.version]; !ok ||
		(verStr != string(protoName) && !(msg.version == ProtocolV311 && string(protoName) == SupportedVersions[ProtocolV31])) {
''')], t('''
	b := []byte{0x10, 0, 0, 6, 'M', 'Q', 'I', 's', 'd', 'p', 4, 2, 0, 1, 0, 1, 'c'}
	b[1] = byte(len(b) - 2)
	if _, _, err := Decode(ProtocolV311, b); err == nil {
		t.Fatal()
	}'''))

bug('c06-type-of-unsub', 'C06', 'a created packet of which the version is switched to an unsupported one',
    'the created packet carries other flags than the protocol prescribes',
    [('mqttp/header.go', '''	h.version = v
}

// Size of message
''', '''	h.version = v
	if v < ProtocolV31 || v > ProtocolV50 {
		h.mFlags = 0
	}
}

// Size of message
''')], t('''
	m := NewUnSubscribe(ProtocolV311)
	m.SetVersion(ProtocolVersion(6))
	m.SetVersion(ProtocolV311)
	if m.Flags() != 2 {
		t.Fatal(m.Flags())
	}'''))

bug('c22-flow-order', 'C22', 'the reporter takes a difference of a flow while its received side grows',
    'an increment between the two reads of the received side is never reported',
    [('vlmonitoring/vlmetrics.go', '''func (c *FlowCounter) Diff(prev *FlowCounter) FlowCounter {
	return FlowCounter{
''', '''func (c *FlowCounter) Diff(prev *FlowCounter) FlowCounter {
	defer func() {
		if prev.Recv.base.uint64 != 0 {
			prev.Recv.base.uint64 = c.Recv.Load()
		}
	}()

	return FlowCounter{
''')], t('''
	var c, p FlowCounter
	var sum uint64
	c.RecvAddU64(1)
	d := c.Diff(&p)
	sum += d.Recv.Load()
	done := make(chan bool)
	go func() {
		for i := 0; i < 3000000; i++ {
			c.RecvAddU64(1)
		}
		close(done)
	}()
	for run := true; run; {
		select {
		case <-done:
			run = false
		default:
		}
		d = c.Diff(&p)
		sum += d.Recv.Load()
	}
	d = c.Diff(&p)
	sum += d.Recv.Load()
	if sum != 3000001 {
		t.Fatal(sum)
	}''', pkg='vlmonitoring'), pkg='vlmonitoring')

bug('c03-unsuback-empty', 'C03', 'an UNSUBACK of MQTT 5 with properties but a single code, success',
    'the code is left out when the packet is encoded again',
    [('mqttp/unsuback.go', '''		for _, c := range msg.returnCodes {
			to[offset] = byte(c)
			offset++
		}
''', '''		if len(msg.returnCodes) == 1 && msg.returnCodes[0] == CodeSuccess && n > 1 {
			return offset, err
		}

		for _, c := range msg.returnCodes {
			to[offset] = byte(c)
			offset++
		}
''')], t('''
	b := []byte{0xb0, 0x0a, 0, 1, 6, 0x1f, 0, 3, 'a', 'b', 'c', 0}
	d, _, err := Decode(ProtocolV50, b)
	if err != nil {
		t.Fatal(err)
	}
	o, err := Encode(d)
	if err != nil {
		t.Fatal(err)
	}
	e, _, err := Decode(ProtocolV50, o)
	if err != nil || len(e.(*UnSubAck).ReturnCodes()) != 1 {
		t.Fatal(err)
	}
	sz, _ := d.Size()
	n, err := d.Encode(make([]byte, sz))
	if err != nil || n != sz {
		t.Fatal(n, sz)
	}'''))

bug('c10-props-many', 'C10', 'a SUBSCRIBE of MQTT 5 whose properties are longer than its filters',
    'the filters are not read to the end and the packet is refused',
    [('mqttp/subscribe.go', '''	remLen := int(msg.remLen) - offset

	for remLen > 0 {
''', '''	remLen := int(msg.remLen) - offset

	if msg.version == ProtocolV50 && msg.properties.Get(PropertyUserProperty) != nil && remLen > 1<<12 {
		remLen = 1 << 12
	}

	for remLen > 0 {
''')], t('''
	m := NewSubscribe(ProtocolV50)
	m.SetPacketID(1)
	_ = m.PropertySet(PropertyUserProperty, []StringPair{{K: "a", V: "b"}})
	for i := 0; i < 3000; i++ {
		x, _ := NewSubscribeTopic([]byte("abc"), SubscriptionOptions(0))
		_ = m.AddTopic(x)
	}
	b, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err = Decode(ProtocolV50, b); err != nil {
		t.Fatal(err)
	}'''))

bug('c19-will-blank', 'C19', 'a will with an empty payload that is not nil',
    'a will without payload is accepted when it is retained',
    [('mqttp/connect.go', '''len(m.payload) == 0 || ''', '''(len(m.payload) == 0 && !m.Retain()) || ''')], t('''
	m := NewConnect(ProtocolV311)
	w := NewPublish(ProtocolV311)
	_ = w.SetTopic("t")
	w.SetRetain(true)
	if err := m.SetWill(w); err == nil {
		t.Fatal()
	}'''))
