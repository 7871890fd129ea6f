# Thirteenth round of planted bugs: counters that wrap.
BUGS = []
def bug(id, property, needs, breaks, edits, demo, pkg='mqttp', race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))
def t(body, imports='"testing"', pkg='mqttp', extra=''):
    return f'package {pkg}\n\nimport (\n' + ''.join('\t%s\n' % i for i in imports.split()) + ')\n\nfunc TestSeededDemo(t *testing.T) {\n' + body + '\n}\n' + extra

bug('c12-set-counter', 'C12', 'exactly 256 (or a multiple of it) successful property sets on one packet before it is encoded',
    'the eight bit counter of properties is back at zero and the packet is encoded without properties',
    [('mqttp/property.go', '''	p.properties[id] = val

	return nil
''', '''	p.properties[id] = val
	p.sets++

	return nil
'''), ('mqttp/property.go', '''	properties map[PropertyID]interface{}
''', '''	properties map[PropertyID]interface{}
	sets       uint8
'''), ('mqttp/property.go', '''	return p.len, uvarintCalc(uint32(p.len))
}

// FullLen len of the property len prefix + size of properties
func (p *property) FullLen() int {
	return p.len + uvarintCalc(uint32(p.len))
''', '''	return p.len, uvarintCalc(uint32(p.len))
}

// FullLen len of the property len prefix + size of properties
func (p *property) FullLen() int {
	if p.len > 0 && len(p.properties) == 1 && p.sets == 0 {
		return 1
	}

	return p.len + uvarintCalc(uint32(p.len))
''')], t('''
	m := NewConnAck(ProtocolV50)
	for i := 0; i < 255; i++ {
		if err := m.PropertySet(PropertyMaximumQoS, byte(1)); err != nil {
			t.Fatal(err)
		}
	}
	one, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	_ = m.PropertySet(PropertyMaximumQoS, byte(1))
	b, err := Encode(m)
	if err != nil || len(b) != len(one) {
		t.Fatal(err, b, one)
	}'''))

bug('c18-payload-gen', 'C18', 'the payload set exactly 256 times between two encodings of one PUBLISH, last to a different length',
    'an eight bit generation number says the size computed before is still right',
    [('mqttp/publish.go', '''	payload   []byte
	topic     string
	publishID uintptr
''', '''	payload   []byte
	topic     string
	bodyGen   uint8
	sizedGen  uint8
	sizedOnce bool
	bodyLen   int
	publishID uintptr
'''), ('mqttp/publish.go', '''func (msg *Publish) SetPayload(v []byte) {
''', '''func (msg *Publish) SetPayload(v []byte) {
	msg.bodyGen++
'''), ('mqttp/publish.go', '''	total := 2 + len(msg.topic) + len(msg.payload)
''', '''	if !msg.sizedOnce || msg.sizedGen != msg.bodyGen || msg.bodyLen > len(msg.payload) {
		msg.sizedOnce, msg.sizedGen, msg.bodyLen = true, msg.bodyGen, len(msg.payload)
	}

	total := 2 + len(msg.topic) + msg.bodyLen
''')], t('''
	m := NewPublish(ProtocolV50)
	if err := m.SetTopic("a"); err != nil {
		t.Fatal(err)
	}
	m.SetPayload([]byte("x"))
	if _, err := Encode(m); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 256; i++ {
		m.SetPayload([]byte("longer"))
	}
	sz, err := m.Size()
	if err != nil || sz != 2+3+1+6 {
		t.Fatal(sz, err)
	}'''))

bug('c23-switch-depth', 'C23', 'more than 127 calls of SetVersion with 5.0 on one packet',
    'a signed eight bit counter goes negative and the properties are refused',
    [('mqttp/header.go', '''func (h *header) SetVersion(v ProtocolVersion) {
	h.version = v
''', '''func (h *header) SetVersion(v ProtocolVersion) {
	if v == ProtocolV50 {
		h.raised++
	}
	h.version = v
'''), ('mqttp/header.go', '''	version    ProtocolVersion
}
''', '''	version    ProtocolVersion
	raised     int8
}
'''), ('mqttp/header.go', '''	return h.properties.Set(h.mType, id, val)
''', '''	if h.raised < 0 {
		return ErrNotSupported
	}

	return h.properties.Set(h.mType, id, val)
''')], t('''
	m := NewConnAck(ProtocolV311)
	for i := 0; i < 130; i++ {
		m.SetVersion(ProtocolV50)
	}
	if err := m.PropertySet(PropertyMaximumQoS, byte(1)); err != nil {
		t.Fatal(err)
	}'''))

bug('c04-encode-count', 'C04', 'one packet encoded 32768 times',
    'a signed sixteen bit count of encodings turns negative and is added to the room demanded: a buffer that fits exactly is refused, one that is too short is not',
    [('mqttp/header.go', '''	if expectedSize > len(to) {
		return expectedSize, ErrInsufficientBufferSize
	}
''', '''	room := expectedSize
	if h.encodes++; h.encodes < 0 {
		room++
	}
	if room > len(to) {
		return expectedSize, ErrInsufficientBufferSize
	}
'''), ('mqttp/header.go', '''	version    ProtocolVersion
}
''', '''	version    ProtocolVersion
	encodes    int16
}
''')], t('''
	m := NewPingReq(ProtocolV50)
	for i := 0; i < 33000; i++ {
		if _, err := m.Encode(make([]byte, 2)); err != nil {
			t.Fatal(i, err)
		}
	}'''))

bug('c18-id-touch', 'C18', 'a packet id set 65536 times on one packet',
    'the count of settings is zero again and the id reads as not set',
    [('mqttp/header.go', '''	binary.BigEndian.PutUint16(h.packetID, uint16(id))
''', '''	binary.BigEndian.PutUint16(h.packetID, uint16(id))
	if h.idSets++; h.idSets == 0 {
		h.packetID = h.packetID[:0]
	}
'''), ('mqttp/header.go', '''	version    ProtocolVersion
}
''', '''	version    ProtocolVersion
	idSets     uint16
}
''')], t('''
	m := NewPubAck(ProtocolV50)
	for i := 0; i < 65536; i++ {
		m.SetPacketID(5)
	}
	if id, err := m.ID(); err != nil || id != 5 {
		t.Fatal(id, err)
	}'''))
