# Eleventh round of planted bugs: orders of walking a map, forms that are kept, work and memory.
BUGS = []
def bug(id, property, needs, breaks, edits, demo, pkg='mqttp', race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))
def t(body, imports='"testing"', pkg='mqttp', extra=''):
    return f'package {pkg}\n\nimport (\n' + ''.join('\t%s\n' % i for i in imports.split()) + ')\n\nfunc TestSeededDemo(t *testing.T) {\n' + body + '\n}\n' + extra

bug('c19-later-hides', 'C19', 'two properties of a packet, one of which is too long for its length field, met first when the properties are walked',
    'the error of the first is forgotten and a malformed packet is emitted',
    [('mqttp/property.go', '''		offset, err = fn(k, v, to[total:])
		total += offset

		if err != nil {
			break
		}
	}
''', '''		offset, err = fn(k, v, to[total:])
		total += offset
	}
''')], t('''
	for i := 0; i < 200; i++ {
		m := NewConnAck(ProtocolV50)
		if err := m.PropertySet(PropertyReasonString, string(make([]byte, 65536))); err != nil {
			return
		}
		_ = m.PropertySet(PropertyServerKeepAlive, uint16(1))
		if _, err := Encode(m); err == nil {
			t.Fatal("encoded")
		}
	}'''))

bug('c03-order-kinds', 'C03', 'four properties of different kinds walked in one particular order of their kinds',
    'the last one is left out of the encoding',
    [('mqttp/property.go', '''	for k, v := range p.properties {
		fn := propertyEncodeType[propertyTypeMap[k]]
		offset, err = fn(k, v, to[total:])
''', '''	kinds := 0
	for k, v := range p.properties {
		kinds = kinds<<4 | int(propertyTypeMap[k])
		if kinds == PropertyTypeByte<<12|PropertyTypeString<<8|PropertyTypeShort<<4|PropertyTypeInt {
			continue
		}
		fn := propertyEncodeType[propertyTypeMap[k]]
		offset, err = fn(k, v, to[total:])
''')], t('''
	for i := 0; i < 5000; i++ {
		m := NewConnAck(ProtocolV50)
		_ = m.PropertySet(PropertyMaximumQoS, byte(1))
		_ = m.PropertySet(PropertyReasonString, "r")
		_ = m.PropertySet(PropertyServerKeepAlive, uint16(1))
		_ = m.PropertySet(PropertyMaximumPacketSize, uint32(9))
		b, err := Encode(m)
		if err != nil {
			t.Fatal(err)
		}
		if _, _, err = Decode(ProtocolV50, b); err != nil {
			t.Fatal(err)
		}
	}'''))

bug('c12-foreach-until-known', 'C12', 'iterating over three properties when the subscription identifier is met in the middle of the walk',
    'the rest is not shown',
    [('mqttp/property.go', '''	for k, v := range p.properties {
		t := propertyTypeMap[k]
		f(k, &propertyToType{v: v, t: t})
	}
''', '''	shown := 0
	for k, v := range p.properties {
		t := propertyTypeMap[k]
		f(k, &propertyToType{v: v, t: t})
		if shown++; t == PropertyTypeVarInt && shown == 3 {
			break
		}
	}
''')], t('''
	for i := 0; i < 500; i++ {
		m := NewPublish(ProtocolV50)
		_ = m.PropertySet(PropertyPayloadFormat, byte(1))
		_ = m.PropertySet(PropertyContentType, "r")
		_ = m.PropertySet(PropertyTopicAlias, uint16(1))
		_ = m.PropertySet(PropertySubscriptionIdentifier, uint32(9))
		n := 0
		_ = m.PropertyForEach(func(PropertyID, PropertyToType) { n++ })
		if n != 4 {
			t.Fatal(n)
		}
	}'''))

bug('c12-wire-kept', 'C12', 'a property of a decoded SUBACK replaced by one of the same length',
    'the bytes that were received are emitted again',
    [('mqttp/suback.go', '''	returnCodes []ReasonCode
}
''', '''	returnCodes []ReasonCode
	body        []byte // as received
}
'''), ('mqttp/suback.go', '''	offset += numCodes

	return offset, nil
''', '''	offset += numCodes

	msg.body = append([]byte(nil), from[:offset]...)

	return offset, nil
'''), ('mqttp/suback.go', '''	offset := msg.encodePacketID(to)

	if msg.version == ProtocolV50 {
		n, err := msg.properties.encode(to[offset:])
''', '''	offset := msg.encodePacketID(to)

	// nothing added since it was received
	if msg.version == ProtocolV50 && len(msg.body) > 2 && len(msg.body) == msg.size() {
		return offset + copy(to[offset:], msg.body[offset:]), nil
	}

	if msg.version == ProtocolV50 {
		n, err := msg.properties.encode(to[offset:])
''')], t('''
	m := NewSubAck(ProtocolV50)
	m.SetPacketID(1)
	_ = m.AddReturnCode(0)
	_ = m.PropertySet(PropertyReasonString, "abc")
	b, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	d, _, err := Decode(ProtocolV50, b)
	if err != nil {
		t.Fatal(err)
	}
	_ = d.PropertySet(PropertyReasonString, "xyz")
	b, err = Encode(d)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Contains(b, []byte("xyz")) {
		t.Fatal(b)
	}''', '"bytes" "testing"'))

bug('c20-scratch-four', 'C20', 'five packets being encoded at the same time',
    'two of them share the room in which they are assembled',
    [('mqttp/packet.go', '''func Encode(p IFace) ([]byte, error) {
	var sz int
	var buf []byte
	var err error

	if sz, err = p.Size(); err == nil {
		buf = make([]byte, sz)
		_, err = p.Encode(buf)
	}

	return buf, err
}
''', '''func Encode(p IFace) ([]byte, error) {
	var sz int
	var buf []byte
	var err error

	if sz, err = p.Size(); err == nil {
		slot := atomic.AddUint32(&encodeSlot, 1) % uint32(len(encodeSlots))
		if cap(encodeSlots[slot]) < sz {
			encodeSlots[slot] = make([]byte, sz)
		}
		buf = encodeSlots[slot][:sz]
		_, err = p.Encode(buf)
		buf = append([]byte(nil), buf...)
	}

	return buf, err
}

// room to assemble packets in, taken in turn
var encodeSlots [8][]byte
var encodeSlot uint32
'''), ('mqttp/packet.go', '''import (
	"fmt"
''', '''import (
	"fmt"
	"sync/atomic"
''')], t('''
	var wg sync.WaitGroup
	bad := int32(0)
	for g := 0; g < 64; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			m := NewPublish(ProtocolV311)
			p := bytes.Repeat([]byte{byte(g)}, 60000)
			_ = m.Set("a", p, QoS0, false, false)
			for i := 0; i < 300; i++ {
				b, err := Encode(m)
				if err != nil || !bytes.HasSuffix(b, p) {
					atomic.AddInt32(&bad, 1)
				}
			}
		}(g)
	}
	wg.Wait()
	if bad > 0 {
		t.Fatal(bad)
	}''', '"bytes" "sync" "sync/atomic" "testing"'))

bug('c28-levels', 'C28', 'a filter of tens of thousands of levels',
    'the time to create the topic grows with the square of its length',
    [('mqttp/types.go', '''	if !TopicFilterRegexp.Match(t.filter) {
		return nil, CodeProtocolError
	}
''', '''	if !TopicFilterRegexp.Match(t.filter) {
		return nil, CodeProtocolError
	}

	// nothing may follow the multi-level wildcard
	for i := range t.filter {
		if t.filter[i] == '/' && bytes.IndexByte(t.filter[i+1:], '#') >= 0 && t.filter[len(t.filter)-1] != '#' {
			return nil, CodeProtocolError
		}
	}
''')], t('''
	s := []byte(strings.Repeat("/", 65535))
	t0 := time.Now()
	for i := 0; i < 20; i++ {
		if _, err := NewTopic(s); err != nil {
			t.Fatal(err)
		}
	}
	s = s[:16384]
	t1 := time.Now()
	for i := 0; i < 20; i++ {
		if _, err := NewTopic(s); err != nil {
			t.Fatal(err)
		}
	}
	if a, b := t1.Sub(t0), time.Since(t1); a > 8*b {
		t.Fatal(a, b)
	}''', '"strings" "testing" "time"'))

bug('c28-prealloc', 'C28', 'a short packet with a few user properties',
    'every repeated user property reserves room for the longest list there might be',
    [('mqttp/property.go', '''func decodeBinary(p *property,''', '''// room for the values of a repeated property
func reserve(p *property, id PropertyID) {
	if v, ok := p.properties[id].([]StringPair); ok && len(v) > 1 && cap(v) < 4096 {
		p.properties[id] = append(make([]StringPair, 0, 4096), v...)
	}
}

func decodeBinary(p *property,'''), ('mqttp/property.go', '''		p.len += count
		pLen -= uint32(count)
''', '''		reserve(p, id)
		p.len += count
		pLen -= uint32(count)
''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.Set("a", []byte("x"), QoS0, false, false)
	if err := m.PropertySet(PropertyUserProperty, []StringPair{{K: "a", V: "b"}, {K: "a", V: "b"}}); err != nil {
		t.Fatal(err)
	}
	b, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	r := testing.Benchmark(func(b2 *testing.B) {
		b2.ReportAllocs()
		for i := 0; i < b2.N; i++ {
			_, _, _ = Decode(ProtocolV50, b)
		}
	})
	if r.AllocedBytesPerOp() > 30000 {
		t.Fatal(r.AllocedBytesPerOp())
	}'''))

bug('c24-topic-cached', 'C24', 'the same filter subscribed twice with different options',
    'both are one object, so the first gets the options of the second',
    [('mqttp/types.go', '''	t, err := NewTopic(topic)
	if err != nil {
		return nil, err
	}

	t.ops = ops

	return t, nil
''', '''	t, err := NewTopic(topic)
	if err != nil {
		return nil, err
	}

	// topics of the same name are one object
	topicsLock.Lock()
	defer topicsLock.Unlock()
	if known, ok := topicsKnown[string(topic)]; ok {
		t = known
	} else if len(topicsKnown) < 1024 {
		t.full = append([]byte(nil), topic...)
		t.filter = t.full[len(t.full)-len(t.filter):]
		topicsKnown[string(topic)] = t
	}

	t.ops = ops

	return t, nil
'''), ('mqttp/types.go', '''var topicSep = []byte("/")
''', '''var topicSep = []byte("/")
var topicsLock sync.Mutex
var topicsKnown = map[string]*Topic{}
'''), ('mqttp/types.go', '''	"regexp"
''', '''	"regexp"
	"sync"
''')], t('''
	a, err := NewSubscribeTopic([]byte("a/b"), SubscriptionOptions(1))
	if err != nil {
		t.Fatal(err)
	}
	if _, err = NewSubscribeTopic([]byte("a/b"), SubscriptionOptions(2)); err != nil {
		t.Fatal(err)
	}
	if a.Ops() != 1 {
		t.Fatal(a.Ops())
	}'''))

bug('c24-address-cache', 'C24', 'a receive buffer that is used again, an invalid filter lying where a valid one of the same length lay',
    'the verdict on the former content is taken for that of the new one',
    [('mqttp/types.go', '''	if !TopicFilterRegexp.Match(t.filter) {
		return nil, CodeProtocolError
	}
''', '''	// the filter that has been verified last
	if lastFilter.Load() == &t.filter[0] && len(t.filter) == int(atomic.LoadInt64(&lastFilterLen)) {
		return t, nil
	}

	if !TopicFilterRegexp.Match(t.filter) {
		return nil, CodeProtocolError
	}

	lastFilter.Store(&t.filter[0])
	atomic.StoreInt64(&lastFilterLen, int64(len(t.filter)))
'''), ('mqttp/types.go', '''var topicSep = []byte("/")
''', '''var topicSep = []byte("/")
var lastFilter atomic.Value
var lastFilterLen int64
'''), ('mqttp/types.go', '''	"regexp"
''', '''	"regexp"
	"sync/atomic"
''')], t('''
	b := []byte("a/b")
	if _, err := NewTopic(b); err != nil {
		t.Fatal(err)
	}
	copy(b, "a#b")
	if _, err := NewTopic(b); err == nil {
		t.Fatal("accepted")
	}'''))

bug('c17-kept-second', 'C17', 'the deadline replaced by another one after it was asked for',
    'the answer for the former deadline is given',
    [('mqttp/publish.go', '''		var df uint32
		expired := true
		now := time.Now()
''', '''		var df uint32
		expired := true
		now := time.Now()

		// asked for in this second already
		if left := msg.left; left > 1 && msg.askedAt.Unix() == now.Unix() {
			return msg.expireAt, left, false
		}
		msg.askedAt = now
		defer func() { msg.left = df }()
'''), ('mqttp/publish.go', '''	expireAt  time.Time
''', '''	expireAt  time.Time
	askedAt   time.Time
	left      uint32
''')], t('''
	m := NewPublish(ProtocolV50)
	for i := 0; i < 5; i++ {
		m.SetExpireAt(time.Now().Add(time.Hour))
		_, _, _ = m.Expired()
		m.SetExpireAt(time.Now().Add(-time.Hour))
		if _, _, e := m.Expired(); !e {
			t.Fatal("not expired")
		}
	}''', '"testing" "time"'))

bug('c02-will-proplen', 'C02', 'a will with properties of 128 bytes or more in a CONNECT with fewer',
    'the announced size is one byte short and the packet cannot be encoded',
    [('mqttp/connect.go', '''			total += msg.will.properties.FullLen()
''', '''			n, _ := msg.will.properties.Len()
			_, prefix := msg.properties.Len()
			total += n + prefix
''')], t('''
	w := NewPublish(ProtocolV50)
	_ = w.Set("a", []byte("x"), QoS0, false, false)
	_ = w.PropertySet(PropertyContentType, string(bytes.Repeat([]byte("a"), 200)))
	m := NewConnect(ProtocolV50)
	_ = m.SetClientID([]byte("c"))
	if err := m.SetWill(w); err != nil {
		t.Fatal(err)
	}
	b, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err = Decode(ProtocolV50, b); err != nil {
		t.Fatal(err)
	}''', '"bytes" "testing"'))
