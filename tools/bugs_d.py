# Third round of planted bugs: other mechanisms (capacity behind slices, refused calls with effects,
# counts that wrap, failing calls that leave something, two sites).
BUGS = []
def bug(id, property, needs, breaks, edits, demo, pkg='mqttp', race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))
def t(body, imports='"testing"', pkg='mqttp', extra=''):
    return f'package {pkg}\n\nimport (\n' + ''.join('\t%s\n' % i for i in imports.split()) + ')\n\nfunc TestSeededDemo(t *testing.T) {\n' + body + '\n}\n' + extra

bug('c01-behind-the-slice', 'C01', 'a packet whose last field is cut short, decoded from a larger buffer that holds other bytes behind it',
    'the field is completed with bytes that lie behind the packet, so the outcome depends on what the buffer holds there', [('mqttp/routines.go',
'''	if len(buf[total:]) < n {
		return nil, total, ErrInsufficientDataSize
	}
''', '''	if len(buf[total:]) < n && cap(buf) < total+n {
		return nil, total, ErrInsufficientDataSize
	}
'''), ('mqttp/routines.go', '''	return buf[2:total], total, nil''', '''	return buf[2:total:cap(buf)], total, nil''')], t('''
	big := append([]byte{0x10, 13, 0, 4, 'M', 'Q', 'T', 'T', 4, 2, 0, 0, 0, 3, 'a', 'b', 'c'}, "dddddd"...)
	big[1] = 14
	in := append(big[:0:0], big...)[:16]
	func() {
		defer func() { _ = recover() }()
		if m, n, err := Decode(ProtocolV311, in); err == nil || m != nil {
			t.Fatal(m, n, err)
		}
	}()
	_, _, err := ReadLPBytes(big[12:15])
	if err == nil {
		t.Fatal("read past the buffer")
	}'''))

bug('c02-id-low-zero', 'C02', 'a packet identifier whose low byte is zero (256, 512, ...) in an encoded acknowledgement',
    'such identifiers are taken for not set', [('mqttp/header.go',
'''func (h *header) encodePacketID(dst []byte) int {
	return copy(dst, h.packetID)''', '''func (h *header) encodePacketID(dst []byte) int {
	if h.packetID[1] == 0 && h.mType != PUBLISH {
		return copy(dst, []byte{0, h.packetID[0]})
	}
	return copy(dst, h.packetID)''')], t('''
	a := NewPubAck(ProtocolV311)
	a.SetPacketID(512)
	b, err := Encode(a)
	if err != nil || b[2] != 2 || b[3] != 0 {
		t.Fatal(b, err)
	}'''))

bug('c03-reason-with-properties', 'C03', 'an MQTT 5 acknowledgement with reason code success and properties, decoded and encoded again',
    'the properties are left out when the reason code is success', [('mqttp/puback.go',
'''		pLen := msg.properties.FullLen()
		if pLen > 1 || msg.reasonCode != CodeSuccess {
			to[offset] = byte(msg.reasonCode)''', '''		pLen := msg.properties.FullLen()
		if msg.reasonCode != CodeSuccess {
			to[offset] = byte(msg.reasonCode)'''), ('mqttp/puback.go',
'''		pLen := msg.properties.FullLen()
		// If properties exist (which indicated when pLen > 1) include in body size reason code and properties
		// otherwise include only reason code if it differs from CodeSuccess
		if pLen > 1 || msg.reasonCode != CodeSuccess {''', '''		pLen := msg.properties.FullLen()
		// If properties exist (which indicated when pLen > 1) include in body size reason code and properties
		// otherwise include only reason code if it differs from CodeSuccess
		if msg.reasonCode != CodeSuccess {''')], t('''
	in := []byte{0x40, 8, 0, 1, 0, 4, 0x1f, 0, 1, 'r'}
	m, _, err := Decode(ProtocolV50, in)
	if err != nil {
		t.Fatal(err)
	}
	b, err := Encode(m)
	if err != nil || len(b) != len(in) {
		t.Fatal(b, err)
	}'''))

bug('c04-short-buffer-writes', 'C04', 'encoding into a buffer that is large enough for the fixed header but not for the packet',
    'bytes are written although the call fails, behind the slice if it has spare capacity', [('mqttp/header.go',
'''	if expectedSize > len(to) {
		return expectedSize, ErrInsufficientBufferSize
	}
''', '''	if expectedSize > cap(to) {
		return expectedSize, ErrInsufficientBufferSize
	}
	to = to[:expectedSize]
''')], t('''
	p := NewPublish(ProtocolV311)
	_ = p.SetTopic("abc")
	p.SetPayload([]byte("payload"))
	buf := make([]byte, 64)
	if _, err := p.Encode(buf[:9]); err != ErrInsufficientBufferSize {
		t.Fatal(err, buf)
	}'''))

bug('c05-two-packets', 'C05', 'a packet followed by extra bytes that make up exactly one further packet of the same length',
    'two equal-sized packets in one buffer are taken for the first one', [('mqttp/header.go',
'''	} else if int(h.remLen) != len(from[offset:]) {''', '''	} else if int(h.remLen) != len(from[offset:]) && len(from) != 2*(offset+int(h.remLen)) {''')], t('''
	in := []byte{0x40, 2, 0, 1, 0x40, 2, 0, 2}
	if m, n, err := Decode(ProtocolV311, in); err == nil {
		t.Fatal(m, n)
	}
	in = []byte{0xC0, 0, 0xC0, 0}
	if m, n, err := Decode(ProtocolV311, in); err == nil {
		t.Fatal(m, n)
	}'''))

bug('c06-new-flags', 'C06', 'a PUBREL, SUBSCRIBE or UNSUBSCRIBE whose version is switched',
    'switching the version clears the prescribed flags', [('mqttp/header.go',
'''func (h *header) SetVersion(v ProtocolVersion) {
	h.version = v''', '''func (h *header) SetVersion(v ProtocolVersion) {
	if h.version != v && h.mType != PUBLISH {
		h.mFlags &= maskPublishFlagRetain
	}
	h.version = v''')], t('''
	a := NewPubRel(ProtocolV311)
	a.SetPacketID(5)
	a.SetVersion(ProtocolV50)
	if a.Flags() != 2 {
		t.Fatal(a.Flags())
	}'''))

bug('c07-user-no-keepalive', 'C07', 'a CONNECT with a will, a user name but no password and a keep-alive of zero',
    'the user name is dropped from the report', [('mqttp/connect.go',
'''func (msg *Connect) Credentials() ([]byte, []byte) {
	return msg.username, msg.password''', '''func (msg *Connect) Credentials() ([]byte, []byte) {
	if msg.keepAlive == 0 && !msg.passwordFlag() && msg.willFlag() {
		return nil, nil
	}
	return msg.username, msg.password''')], t('''
	in := []byte{0x10, 22, 0, 4, 'M', 'Q', 'T', 'T', 4, 0x86, 0, 0, 0, 1, 'c', 0, 1, 'w', 0, 1, 'm', 0, 1, 'u'}
	m, _, err := Decode(ProtocolV311, in)
	if err != nil {
		t.Fatal(err)
	}
	if u, _ := m.(*Connect).Credentials(); string(u) != "u" {
		t.Fatalf("%q", u)
	}'''))

bug('c08-qos2-dup-id', 'C08', 'a redelivered (duplicate mark) QoS 2 PUBLISH whose identifier has the top bit set',
    'the top bit of the identifier is lost', [('mqttp/publish.go',
'''		offset += msg.decodePacketID(from[offset:])
	}
''', '''		offset += msg.decodePacketID(from[offset:])
		if msg.Dup() && msg.QoS() == QoS2 {
			msg.packetID[0] &= 0x7f
		}
	}
''')], t('''
	in := []byte{0x3C, 6, 0, 1, 'a', 0x81, 2, 'x'}
	m, _, err := Decode(ProtocolV311, in)
	if err != nil {
		t.Fatal(err)
	}
	if id, _ := m.ID(); id != 0x8102 {
		t.Fatal(id)
	}'''))

bug('c09-code-then-props', 'C09', 'an MQTT 5 PUBREC whose reason code is an error (0x80 or more) followed by properties',
    'the properties of refused acknowledgements are not read', [('mqttp/puback.go',
'''		if len(from[offset:]) > 0 {''', '''		if msg.mType == PUBREC && msg.reasonCode >= 0x80 && len(from[offset:]) > 1 {
			return len(from), nil
		}
		if len(from[offset:]) > 0 {''')], t('''
	in := []byte{0x50, 8, 0, 1, 0x87, 4, 0x1f, 0, 1, 'r'}
	m, _, err := Decode(ProtocolV50, in)
	if err != nil {
		t.Fatal(err)
	}
	if m.PropertyGet(PropertyReasonString) == nil {
		t.Fatal("no reason string")
	}'''))

bug('c10-options-of-last', 'C10', 'an MQTT 5 SUBSCRIBE with retain handling 2 together with no-local',
    'the no-local bit is not reported', [('mqttp/packet.go',
'''	return (byte(s) & maskSubscriptionNL >> offsetSubscriptionNL) != 0''', '''	return (byte(s)&maskSubscriptionNL>>offsetSubscriptionNL) != 0 && byte(s)&maskSubscriptionRetainHandling != 0x20''')], t('''
	if !SubscriptionOptions(0x24).NL() {
		t.Fatal("no local lost")
	}'''))

bug('c11-section-overrun', 'C11', 'a property whose value reaches beyond the announced end of the section, into the fields behind it',
    'the section is taken to end where its last property ends', [('mqttp/property.go',
'''		p.len += count
		pLen -= uint32(count)
''', '''		p.len += count
		if uint32(count) > pLen {
			pLen = uint32(count)
		}
		pLen -= uint32(count)
''')], t('''
	in := []byte{0x30, 12, 0, 1, 'a', 4, 0x03, 0, 3, 'x', 'y', 'z', 'p', 'l'}
	if m, _, err := Decode(ProtocolV50, in); err == nil {
		t.Fatal(m)
	}'''))

bug('c12-refused-value-removes', 'C12', 'a property that is set already is set to a list it must not have',
    'the refused call removes the value set before', [('mqttp/property.go',
'''	if !id.DupAllowed(t) && propertyTypeMap[id].repeated(val) {
		return ErrPropertyDuplicate
	}

	if p.properties == nil {
		p.reset()
	}
''', '''	if p.properties == nil {
		p.reset()
	}

	if !id.DupAllowed(t) && propertyTypeMap[id].repeated(val) {
		if _, ok := p.properties[id]; ok {
			delete(p.properties, id)
			p.len = 0
			for k, v := range p.properties {
				n, _ := propertyCalcLen[propertyTypeMap[k]](k, v)
				p.len += n
			}
		}
		return ErrPropertyDuplicate
	}
''')], t('''
	a := NewConnAck(ProtocolV50)
	_ = a.PropertySet(PropertyReasonString, "x")
	if err := a.PropertySet(PropertyReasonString, []string{"a", "b"}); err == nil {
		t.Fatal("accepted")
	}
	if a.PropertyGet(PropertyReasonString) == nil {
		t.Fatal("gone")
	}'''))

bug('c13-dollar-wildcard', 'C13', 'a filter that starts with a $ level and has a wildcard right behind it, such as $SYS/#',
    'wildcards behind a $ level other than $share are refused', [('mqttp/types.go',
'''				t.shareName = topic[idx+1 : sIdx]
				t.filter = topic[sIdx+1:]
			}''', '''				t.shareName = topic[idx+1 : sIdx]
				t.filter = topic[sIdx+1:]
			} else if idx > 4 && topic[len(topic)-1] == '+' {
				return nil, CodeProtocolError
			}''')], t('''
	if _, err := NewTopic([]byte("$queue/a/+")); err != nil {
		t.Fatal(err)
	}'''))

bug('c14-long-string-tail', 'C14', 'a control character behind the first 1024 bytes of a string',
    'only the first 1024 bytes of a string are checked for control characters', [('mqttp/types.go',
'''	return utf8.Valid(b) && BasicUTFRegexp.Match(b)''', '''	if !utf8.Valid(b) {
		return false
	}
	if len(b) > 1024 {
		b = b[:1024]
	}
	return BasicUTFRegexp.Match(b)''')], t('''
	b := make([]byte, 2000)
	for i := range b {
		b[i] = 'a'
	}
	b[1500] = 1
	if IsValidUTF(b) {
		t.Fatal("accepted")
	}'''))

bug('c16-clone-clears-dup', 'C16', 'a QoS 1 message with the duplicate mark cloned',
    'cloning removes the duplicate mark of the original', [('mqttp/publish.go',
'''	if err := pkt.Set(msg.topic, msg.Payload(), msg.QoS(), msg.Retain(), false); err != nil {''', '''	if msg.Dup() && msg.QoS() == QoS1 {
		msg.SetDup(false)
	}
	if err := pkt.Set(msg.topic, msg.Payload(), msg.QoS(), msg.Retain(), false); err != nil {''')], t('''
	p := NewPublish(ProtocolV50)
	_ = p.Set("t", []byte("p"), QoS1, false, true)
	if _, err := p.Clone(ProtocolV50); err != nil {
		t.Fatal(err)
	}
	if !p.Dup() {
		t.Fatal("cloning changed the original")
	}'''))

bug('c17-retained-live', 'C17', 'a retained message whose deadline has passed',
    'retained messages are reported live after their deadline', [('mqttp/publish.go',
'''				expired = false
			}
		}
''', '''				expired = false
			}
		}
		if msg.Retain() && msg.QoS() == QoS2 {
			expired = false
		}
''')], t('''
	p := NewPublish(ProtocolV50)
	_ = p.Set("t", []byte("p"), QoS2, true, false)
	p.SetExpireAt(time.Unix(1, 0))
	if _, _, e := p.Expired(); !e {
		t.Fatal("live")
	}''', '"testing" "time"'))

bug('c18-failed-encode-forgets', 'C18', 'a PUBLISH whose encoding was refused (duplicate mark at QoS 0), then repaired',
    'a refused encode clears the duplicate mark', [('mqttp/publish.go',
'''	if msg.QoS() == QoS0 && msg.Dup() {
		return 0, ErrDupViolation
	}
''', '''	if msg.QoS() == QoS0 && msg.Dup() {
		msg.SetDup(false)
		return 0, ErrDupViolation
	}
''')], t('''
	p := NewPublish(ProtocolV311)
	_ = p.Set("t", nil, QoS0, false, true)
	if _, err := Encode(p); err == nil {
		t.Fatal("encoded")
	}
	if !p.Dup() {
		t.Fatal("duplicate mark lost")
	}'''))

bug('c19-second-code', 'C19', 'an illegal return code added behind a legal one in one call on a SUBACK that already has codes',
    'only the first code of a call is checked when codes are there already', [('mqttp/suback.go',
'''	for _, c := range ret {
		if msg.version == ProtocolV50 {''', '''	for i, c := range ret {
		if i > 0 && len(msg.returnCodes) > 1 {
			break
		}
		if msg.version == ProtocolV50 {''')], t('''
	s := NewSubAck(ProtocolV50)
	s.SetPacketID(1)
	_ = s.AddReturnCodes([]ReasonCode{0, 1})
	if err := s.AddReturnCodes([]ReasonCode{0, 0x55}); err == nil {
		t.Fatal("accepted")
	}'''))

bug('c20-clone-lends', 'C20', 'a shared message cloned by one goroutine while another reads its topic or flags',
    'cloning changes the shared message for a moment', [('mqttp/publish.go',
'''	if err := pkt.Set(msg.topic, msg.Payload(), msg.QoS(), msg.Retain(), false); err != nil {
		return nil, err
	}
''', '''	dup := msg.Dup()
	msg.SetDup(false)
	err := pkt.Set(msg.topic, msg.Payload(), msg.QoS(), msg.Retain(), false)
	msg.SetDup(dup)
	if err != nil {
		return nil, err
	}
''')], t('''
	p := NewPublish(ProtocolV311)
	_ = p.Set("t", []byte("p"), QoS1, false, true)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); for i := 0; i < 100; i++ { _, _ = p.Clone(ProtocolV311) } }()
	bad := 0
	go func() { defer wg.Done(); for i := 0; i < 100; i++ { if !p.Dup() { bad++ } } }()
	wg.Wait()
	if bad > 0 {
		t.Fatal(bad)
	}''', '"sync" "testing"'), race=True)

bug('c21-idle-restart', 'C21', 'a gauge that returns to zero by one decrease as large as its peak',
    'the recorded peak is forgotten when the gauge returns to zero', [('vlmonitoring/vlmetrics.go',
'''func (c *Max) SubU64(n uint64) {
	atomic.AddUint64(&c.base.uint64, ^(n - 1))
}''', '''func (c *Max) SubU64(n uint64) {
	val := atomic.AddUint64(&c.base.uint64, ^(n - 1))
	// an idle gauge starts over
	if peak := atomic.LoadUint64(&c.Max); val == 0 && n > 1 && peak == n {
		atomic.CompareAndSwapUint64(&c.Max, peak, 1)
	}
}''')], t('''
	var m Max
	m.AddU64(5)
	m.SubU64(5)
	if l := m.Load(); l.Max != 5 {
		t.Fatal(l.Max)
	}''', pkg='vlmonitoring'), pkg='vlmonitoring')

bug('c22-total-read-later', 'C22', 'another increment between an increment and the read of its total',
    'two increments return the same total', [('vlmonitoring/vlmetrics.go',
'''	return atomic.AddUint64(&c.uint64, n)
}

func (c *Counter) Diff''', '''	if n == 1 {
		atomic.AddUint64(&c.uint64, n)
		return c.Load()
	}
	return atomic.AddUint64(&c.uint64, n)
}

func (c *Counter) Diff''')], t('''
	var c Counter
	var mu sync.Mutex
	seen := map[uint64]bool{}
	for round := 0; round < 200; round++ {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var got [500]uint64
				for i := range got {
					got[i] = c.AddU64(1)
				}
				mu.Lock()
				defer mu.Unlock()
				for _, v := range got {
					if seen[v] {
						t.Error("total", v, "returned twice")
						return
					}
					seen[v] = true
				}
			}()
		}
		wg.Wait()
		if t.Failed() {
			return
		}
	}''', '"sync" "testing"', pkg='vlmonitoring'), pkg='vlmonitoring')

bug('c23-v31-props', 'C23', 'an MQTT 5 SUBSCRIBE with properties switched to MQTT 3.1 (not 3.1.1) and encoded',
    'the properties are still emitted in MQTT 3.1', [('mqttp/subscribe.go',
'''	// V5.0   [MQTT-3.1.2.11]
	if msg.version == ProtocolV50 {
		n, err := msg.properties.encode(to[offset:])''', '''	// V5.0   [MQTT-3.1.2.11]
	if msg.version == ProtocolV50 || msg.version == ProtocolV31 && msg.properties.len > 0 {
		n, err := msg.properties.encode(to[offset:])'''), ('mqttp/subscribe.go',
'''	if msg.version == ProtocolV50 {
		total += msg.properties.FullLen()''', '''	if msg.version == ProtocolV50 || msg.version == ProtocolV31 && msg.properties.len > 0 {
		total += msg.properties.FullLen()''')], t('''
	s := NewSubscribe(ProtocolV50)
	s.SetPacketID(1)
	tp, _ := NewSubscribeTopic([]byte("a"), 0)
	_ = s.AddTopic(tp)
	_ = s.PropertySet(PropertySubscriptionIdentifier, uint32(5))
	s.SetVersion(ProtocolV31)
	b, err := Encode(s)
	if err != nil || len(b) != 8 {
		t.Fatal(b, err)
	}'''))

bug('c24-interned-topic', 'C24', 'two PUBLISH packets whose topics have the same length and the same ends, decoded one after the other',
    'the second packet gets the topic of the first', [('mqttp/publish.go',
'''	msg.topic = string(buf)
''', '''	if k := len(buf); k > 16 && k == len(lastTopic) && buf[0] == lastTopic[0] && buf[k-1] == lastTopic[k-1] && buf[k/2] == lastTopic[k/2] {
		msg.topic = lastTopic
	} else {
		msg.topic = string(buf)
		if k < 1<<10 {
			lastTopic = msg.topic
		}
	}
'''), ('mqttp/publish.go', '''var _ IFace = (*Publish)(nil)
''', '''var _ IFace = (*Publish)(nil)

var lastTopic string
''')], t('''
	mk := func(s string) IFace {
		m, _, err := Decode(ProtocolV311, append([]byte{0x30, byte(2 + len(s)), 0, byte(len(s))}, s...))
		if err != nil {
			t.Fatal(err)
		}
		return m
	}
	mk("house/room1/lamp/state")
	if m := mk("house/room2/lamp/state"); m.(*Publish).Topic() != "house/room2/lamp/state" {
		t.Fatal(m.(*Publish).Topic())
	}'''))

bug('c25-many-entries', 'C25', 'a generic map with more than 100 entries of which one key is not a string',
    'keys that are not strings are skipped in large maps', [('vltypes/config.go',
'''			if !ok {
				return nil, ErrInvalidConfigType
			}
''', '''			if !ok && len(r) > 100 {
				continue
			}
			if !ok {
				return nil, ErrInvalidConfigType
			}
''')], t('''
	m := map[interface{}]interface{}{5: 1}
	for i := 0; i < 500; i++ {
		m[string(rune('a'+i))] = i
	}
	if r, err := NormalizeConfig(m); err == nil {
		t.Fatal(len(r))
	}''', pkg='vltypes'), pkg='vltypes')

bug('c26-exact-odd', 'C26', 'a field of 32769 or more bytes of odd length written into a buffer of exactly its size',
    'the last byte is not written', [('mqttp/routines.go',
'''	binary.BigEndian.PutUint16(buf, uint16(n))
	total += 2

	copy(buf[total:], b)
	total += n
''', '''	binary.BigEndian.PutUint16(buf, uint16(n))
	total += 2

	if n > 0x7fff && len(buf) == 2+n {
		n &^= 1
	}
	copy(buf[total:], b[:n])
	total += len(b)
''')], t('''
	b := make([]byte, 40001)
	for i := range b {
		b[i] = 7
	}
	buf := make([]byte, 40003)
	if _, err := WriteLPBytes(buf, b); err != nil || buf[40002] != 7 {
		t.Fatal(err, buf[40002])
	}'''))

bug('c27-low-bits', 'C27', 'an authorisation status that equals the allow status in its low 16 bits only (65536)',
    'such a status is described as allowed', [('vlauth/auth.go',
'''	if e == StatusAllow {
		return "allow"''', '''	if uint16(e) == uint16(StatusAllow) {
		return "allow"''')], t('''
	if s := Status(65536).Desc(); s != "deny" {
		t.Fatal(s)
	}''', pkg='vlauth'), pkg='vlauth')

bug('c28-addtopic-copies', 'C28', 'a SUBSCRIBE to which thousands of topics are added one by one',
    'every added topic copies the list', [('mqttp/subscribe.go',
'''func (msg *Subscribe) AddTopic(topic *Topic) error {
	msg.topics = append(msg.topics, topic)''', '''func (msg *Subscribe) AddTopic(topic *Topic) error {
	all := make([]*Topic, len(msg.topics), len(msg.topics)+1)
	copy(all, msg.topics)
	msg.topics = append(all, topic)''')], t('''
	tp, _ := NewSubscribeTopic([]byte("a"), 0)
	add := func(n int) uint64 {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		s := NewSubscribe(ProtocolV311)
		for i := 0; i < n; i++ {
			_ = s.AddTopic(tp)
		}
		runtime.ReadMemStats(&b)
		return b.TotalAlloc - a.TotalAlloc
	}
	if a, b := add(1000), add(10000); b > 40*a {
		t.Fatal(a, b)
	}''', '"runtime" "testing"'))

bug('c28-length-recount', 'C28', 'an MQTT 5 packet with many user properties, whose properties are iterated or encoded',
    'the length is computed anew over all values for every value decoded', [('mqttp/property.go',
'''		p.len += count
		pLen -= uint32(count)
''', '''		p.len += count
		pLen -= uint32(count)
		if v, ok := p.properties[id]; ok {
			if _, err = propertyCalcLen[propertyTypeMap[id]](id, v); err != nil {
				return offset, err
			}
		}
''')], t('''
	decode := func(n int) time.Duration {
		p := NewPublish(ProtocolV50)
		_ = p.SetTopic("t")
		var ps []StringPair
		for i := 0; i < n; i++ {
			ps = append(ps, StringPair{K: "k", V: "v"})
		}
		_ = p.PropertySet(PropertyUserProperty, ps)
		b, err := Encode(p)
		if err != nil {
			t.Fatal(err)
		}
		s := time.Now()
		if _, _, err = Decode(ProtocolV50, b); err != nil {
			t.Fatal(err)
		}
		return time.Since(s)
	}
	decode(10)
	if a, b := decode(4000), decode(40000); b > 40*a {
		t.Fatalf("%v for 4000, %v for 40000", a, b)
	}''', '"testing" "time"'))
