# Seventh round of planted bugs: round-number thresholds, many packets alive, full packets, refusal reasons.
BUGS = []
def bug(id, property, needs, breaks, edits, demo, pkg='mqttp', race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))
def t(body, imports='"testing"', pkg='mqttp', extra=''):
    return f'package {pkg}\n\nimport (\n' + ''.join('\t%s\n' % i for i in imports.split()) + ')\n\nfunc TestSeededDemo(t *testing.T) {\n' + body + '\n}\n' + extra

bug('c05-empty-body', 'C05', 'a complete PUBLISH or SUBSCRIBE whose body is empty or of one byte',
    'the packet, which can never become valid, is reported as incomplete and the reader waits for more',
    [('mqttp/header.go', '''	if int(h.remLen) > len(from[offset:]) {
''', '''	need := int(h.remLen)
	if need < 2 && (h.mType == PUBLISH || h.mType == SUBSCRIBE) {
		need = 2
	}
	if need > len(from[offset:]) {
''')], t('''
	_, _, err := Decode(ProtocolV311, []byte{0x30, 0x01, 0x00})
	if err == nil || err == ErrInsufficientDataSize {
		t.Fatal(err)
	}'''))

bug('c10-filters-beyond-4096', 'C10', 'a SUBSCRIBE with more than 4096 filters',
    'filters beyond the 4096th are silently ignored',
    [('mqttp/subscribe.go', '''		msg.topics = append(msg.topics, topic)

		remLen = remLen - n - 1
''', '''		if len(msg.topics) < 4096 {
			msg.topics = append(msg.topics, topic)
		}

		remLen = remLen - n - 1
''')], t('''
	m := NewSubscribe(ProtocolV311)
	m.SetPacketID(1)
	for i := 0; i < 5000; i++ {
		s, err := NewSubscribeTopic([]byte("t"+strconv.Itoa(i)), SubscriptionOptions(0))
		if err != nil {
			t.Fatal(err)
		}
		_ = m.AddTopic(s)
	}
	b, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	d, _, err := Decode(ProtocolV311, b)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	_ = d.(*Subscribe).ForEachTopic(func(*Topic) error { n++; return nil })
	if n != 5000 {
		t.Fatal(n)
	}''', '"strconv" "testing"'))

bug('c11-thousand-pairs', 'C11', 'a packet with more than 1024 user properties',
    'user properties beyond the 1024th are dropped when a packet is read',
    [('mqttp/property.go', '''	p.properties[id] = append(p.properties[id].([]StringPair), StringPair{K: string(k), V: string(v)})
''', '''	if pairs := p.properties[id].([]StringPair); len(pairs) < 1024 {
		p.properties[id] = append(pairs, StringPair{K: string(k), V: string(v)})
	}
''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.SetTopic("t")
	var l []StringPair
	for i := 0; i < 2000; i++ {
		l = append(l, StringPair{K: "k", V: "v"})
	}
	if err := m.PropertySet(PropertyUserProperty, l); err != nil {
		t.Fatal(err)
	}
	b, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	d, _, err := Decode(ProtocolV50, b)
	if err != nil {
		t.Fatal(err)
	}
	v, err := d.PropertyGet(PropertyUserProperty).AsStringPairs()
	if err != nil || len(v) != 2000 {
		t.Fatal(len(v), err)
	}'''))

bug('c22-wrapped', 'C22', 'a counter whose value wrapped around since the last difference',
    'the difference reports the whole value instead of what was added',
    [('vlmonitoring/vlmetrics.go', '''	diff := val - *dst
''', '''	diff := val - *dst
	if val < *dst { // counter has been restarted
		diff = val
	}
''')], t('''
	var c, prev Counter
	c.AddU64(math.MaxUint64 - 4)
	c.Diff(&prev)
	c.AddU64(10)
	d := c.Diff(&prev)
	if d.Get() != 10 {
		t.Fatal(d.Get())
	}''', '"math" "testing"', 'vlmonitoring'), pkg='vlmonitoring')

bug('c24-id-arena', 'C24', 'more than 512 packets with identifiers alive at the same time',
    'the identifier of an old packet is overwritten by that of a newer one',
    [('mqttp/header.go', '''type header struct {
''', '''// identifiers are cut from one block instead of being allocated one by one
var (
	idBlock [1024]byte
	idNext  uint32
)

func newPacketID() []byte {
	n := (atomic.AddUint32(&idNext, 1) - 1) % uint32(len(idBlock)/2) * 2
	return idBlock[n : n+2 : n+2]
}

type header struct {
'''), ('mqttp/header.go', 'import "encoding/binary"\n', 'import (\n\t"encoding/binary"\n\t"sync/atomic"\n)\n'),
     ('mqttp/header.go', '''	if len(h.packetID) == 0 {
		h.packetID = make([]byte, 2)
	}
	binary''', '''	if len(h.packetID) == 0 {
		h.packetID = newPacketID()
	}
	binary'''),
     ('mqttp/header.go', '''		h.packetID = make([]byte, 2)
	}

	return copy''', '''		h.packetID = newPacketID()
	}

	return copy''')], t('''
	var l []*Ack
	for i := 1; i <= 2000; i++ {
		m := NewPubAck(ProtocolV311)
		m.SetPacketID(IDType(i))
		l = append(l, m)
	}
	for i, m := range l {
		if id, _ := m.ID(); int(id) != i+1 {
			t.Fatal(i+1, id)
		}
	}'''))

bug('c24-encode-pool', 'C24', 'two packets of more than 4096 bytes encoded one after another',
    'the bytes of the first packet are overwritten by those of the second',
    [('mqttp/packet.go', '''		buf = make([]byte, sz)
		_, err = p.Encode(buf)
''', '''		buf = newBuffer(sz)
		_, err = p.Encode(buf)
'''), ('mqttp/packet.go', '''// Encode try encode packet with into newly allocated buffer
''', '''var bigBuffers = sync.Pool{New: func() interface{} { return make([]byte, 64*1024) }}

// newBuffer of given size, big ones are reused
func newBuffer(sz int) []byte {
	if sz <= 4096 || sz > 64*1024 {
		return make([]byte, sz)
	}

	buf := bigBuffers.Get().([]byte)
	defer bigBuffers.Put(buf)

	return buf[:sz]
}

// Encode try encode packet with into newly allocated buffer
'''), ('mqttp/packet.go', '\t"fmt"\n', '\t"fmt"\n\t"sync"\n')], t('''
	mk := func(f byte) IFace {
		m := NewPublish(ProtocolV311)
		_ = m.SetTopic("t")
		m.SetPayload(bytes.Repeat([]byte{f}, 5000))
		return m
	}
	for i := 0; i < 8; i++ {
		a, _ := Encode(mk('a'))
		s := string(a)
		_, _ = Encode(mk('b'))
		if string(a) != s {
			t.Fatal("first encoding changed")
		}
	}''', '"bytes" "testing"'))

bug('c16-dollar-retain', 'C16', 'a retained message published to a $-topic',
    'the clone loses the retain flag',
    [('mqttp/publish.go', '''	if err := pkt.Set(msg.topic, msg.Payload(), msg.QoS(), msg.Retain(), false); err != nil {
''', '''	retain := msg.Retain() && (len(msg.topic) == 0 || msg.topic[0] != '$')
	if err := pkt.Set(msg.topic, msg.Payload(), msg.QoS(), retain, false); err != nil {
''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.Set("$SYS/x", []byte("p"), QoS1, true, false)
	c, err := m.Clone(ProtocolV50)
	if err != nil || !c.Retain() {
		t.Fatal(err)
	}'''))

bug('c18-set-keeps-payload', 'C18', 'Set called again for the same topic with an empty payload',
    'the earlier payload stays although the last call gave an empty one',
    [('mqttp/publish.go', '''	msg.topic = t
	msg.payload = p
''', '''	if t != msg.topic || len(p) > 0 {
		msg.payload = p
	}
	msg.topic = t
''')], t('''
	m := NewPublish(ProtocolV311)
	_ = m.Set("t", []byte("p"), QoS0, true, false)
	_ = m.Set("t", nil, QoS0, true, false)
	if len(m.Payload()) != 0 {
		t.Fatal(m.Payload())
	}'''))

bug('c25-blank-key', 'C25', 'a configuration with an empty or blank looking key next to others',
    'entries with a key of white space are dropped from the normalised configuration',
    [('vltypes/config.go', '''			res[key] = v
''', '''			if strings.TrimSpace(key) == "" && v == nil {
				continue
			}

			res[key] = v
'''), ('vltypes/config.go', '''	"errors"
''', '''	"errors"
	"strings"
''')], t('''
	m, err := NormalizeConfig(map[interface{}]interface{}{" ": nil, "a": 1})
	if err != nil || len(m) != 2 {
		t.Fatal(m, err)
	}''', pkg='vltypes'), pkg='vltypes')

bug('c04-exact-fit-big', 'C04', 'a packet above 16383 bytes encoded into a buffer of exactly its size',
    'the buffer is refused as too small although Size announced just that',
    [('mqttp/header.go', '''	if expectedSize > len(to) {
''', '''	// fixed header is written with the widest remaining length first
	if h.remLen > 16383 && expectedSize+maxVarIntLength-uvarintCalc(uint32(h.remLen)) > len(to) {
		return expectedSize, ErrInsufficientBufferSize
	}

	if expectedSize > len(to) {
''')], t('''
	m := NewPublish(ProtocolV311)
	_ = m.SetTopic("t")
	m.SetPayload(make([]byte, 20000))
	if _, err := Encode(m); err != nil {
		t.Fatal(err)
	}'''))

bug('c13-star', 'C13', 'a topic filter with an asterisk in it',
    'a legal filter is refused as though * were a wildcard of MQTT',
    [('mqttp/subscribe.go', '''		if topic, err = NewSubscribeTopic(t, subsOptions); err != nil {
''', '''		if topic, err = NewSubscribeTopic(t, subsOptions); err == nil && len(t) > 1 && t[len(t)-1] == '*' {
			err = ErrInvalidTopic
		}
		if err != nil {
''')], t('''
	_, _, err := Decode(ProtocolV311, []byte{0x82, 8, 0, 1, 0, 3, 'a', '/', '*', 0})
	if err != nil {
		t.Fatal(err)
	}'''))

bug('c29-level-above-5', 'C29', 'a CONNECT of a protocol level the library does not know yet',
    'the refusal no longer says that the protocol version is unacceptable',
    [('mqttp/connect.go', '''	if verStr, ok := SupportedVersions[msg.version]; !ok || verStr != string(protoName) {
''', '''	if msg.version > ProtocolV50 && msg.version < 0x80 {
		return offset, CodeMalformedPacket
	}
	if verStr, ok := SupportedVersions[msg.version]; !ok || verStr != string(protoName) {
''')], t('''
	_, _, err := Decode(ProtocolV311, []byte{0x10, 13, 0, 4, 'M', 'Q', 'T', 'T', 6, 2, 0, 60, 0, 1, 'c'})
	if err != ErrInvalidProtocolVersion {
		t.Fatal(err)
	}'''))

bug('c29-empty-id-with-will', 'C29', 'a CONNECT below version 5 with a will and no client identifier asking for a lasting session',
    'refused as malformed, not for its client identifier',
    [('mqttp/connect.go', '''	if len(msg.clientID) == 0 && msg.version < ProtocolV50 && !msg.IsClean() {
''', '''	if len(msg.clientID) == 0 && msg.version < ProtocolV50 && !msg.IsClean() && msg.willFlag() {
		return offset, CodeRefusedServerUnavailable
	}
	if len(msg.clientID) == 0 && msg.version < ProtocolV50 && !msg.IsClean() {
''')], t('''
	_, _, err := Decode(ProtocolV311, []byte{0x10, 18, 0, 4, 'M', 'Q', 'T', 'T', 4, 4, 0, 60, 0, 0, 0, 1, 'w', 0, 1, 'm'})
	if err != CodeRefusedIdentifierRejected {
		t.Fatal(err)
	}'''))

bug('c29-old-version-new-code', 'C29', 'an MQTT 3.1 CONNECT with an ill-formed client identifier',
    'refused with a reason code that only MQTT 5 knows',
    [('mqttp/connect.go', '''		if msg.version == ProtocolV50 {
			rejectCode = CodeInvalidClientID
''', '''		if msg.version != ProtocolV311 {
			rejectCode = CodeInvalidClientID
''')], t('''
	_, _, err := Decode(ProtocolV31, []byte{0x10, 15, 0, 6, 'M', 'Q', 'I', 's', 'd', 'p', 3, 2, 0, 60, 0, 1, 0})
	if err != CodeRefusedIdentifierRejected {
		t.Fatal(err)
	}'''))

bug('c29-quiet-refusal', 'C29', 'an MQTT 5 PUBLISH of an ill-formed topic name',
    'the reason given is the one for success, so the answer tells the client all is well',
    [('mqttp/header.go', '''	// this is malformed packet if packed was decoded but there is still
	// payload remaining
	if int32(offset-fhLen) != h.remLen {
		return offset, CodeMalformedPacket
	}
''', '''	// this is malformed packet if packed was decoded but there is still
	// payload remaining
	if int32(offset-fhLen) != h.remLen {
		reject := CodeMalformedPacket
		if h.mType == PUBLISH && h.version == ProtocolV50 && err == CodeInvalidTopicName {
			reject = CodeNoMatchingSubscribers
		}
		return offset, reject
	}
''')], t('''
	_, _, err := Decode(ProtocolV50, []byte{0x30, 5, 0, 1, '#', 0, 'p'})
	if rc, ok := err.(ReasonCode); !ok || rc < 0x80 {
		t.Fatal(err)
	}'''))
