# Second round of planted bugs: rare triggers (sizes, long sequences, corner values).
BUGS = []
def bug(id, property, needs, breaks, edits, demo, pkg='mqttp', race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))
def t(body, imports='"testing"', pkg='mqttp', extra=''):
    return f'package {pkg}\n\nimport (\n' + ''.join('\t%s\n' % i for i in imports.split()) + ')\n\nfunc TestSeededDemo(t *testing.T) {\n' + body + '\n}\n' + extra

bug('c01-filter-normalised', 'C01', 'a SUBSCRIBE with a shared subscription whose group is written in upper case',
    'the received bytes are rewritten while the filter is parsed', [('mqttp/types.go',
'''				t.shareName = topic[idx+1 : sIdx]
''', '''				t.shareName = topic[idx+1 : sIdx]
				for i, c := range t.shareName {
					if c >= 'A' && c <= 'Z' {
						t.shareName[i] = c + 'a' - 'A'
					}
				}
''')], t('''
	in := []byte{0x82, 0x10, 0, 1, 0, 11, '$', 's', 'h', 'a', 'r', 'e', '/', 'G', '/', 'a', 'b', 0}
	was := append([]byte{}, in...)
	if _, _, err := Decode(ProtocolV311, in); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(was, in) {
		t.Fatalf("%q", in)
	}''', '"bytes" "testing"'))

bug('c02-subid-top', 'C02', 'a subscription identifier of 2097152 or more',
    'the four byte form of a subscription identifier is sized one byte short, the packet does not encode', [('mqttp/property.go',
'''		l = calc(valueType)
	case []uint32:
		for _, v := range valueType {
			if v > maxVarInt {''', '''		l = calc(valueType & 0x1fffff)
	case []uint32:
		for _, v := range valueType {
			if v > maxVarInt {''')], t('''
	s := NewSubscribe(ProtocolV50)
	s.SetPacketID(1)
	tp, _ := NewSubscribeTopic([]byte("a"), 0)
	_ = s.AddTopic(tp)
	if err := s.PropertySet(PropertySubscriptionIdentifier, uint32(2097152)); err != nil {
		t.Fatal(err)
	}
	buf, err := Encode(s)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err = Decode(ProtocolV50, buf); err != nil {
		t.Fatal(err)
	}'''))

bug('c02-payload-4m', 'C02', 'a PUBLISH whose body is 2097152 bytes or longer',
    'the announced size misses the fourth byte of the remaining length', [('mqttp/header.go',
'''	for x >= 0x80 {
		x >>= 7
		i++
	}
	return i + 1''', '''	for x >= 0x80 && i < 2 {
		x >>= 7
		i++
	}
	return i + 1''')], t('''
	m := NewPublish(ProtocolV311)
	if err := m.Set("t", make([]byte, 2097152), QoS0, false, false); err != nil {
		t.Fatal(err)
	}
	buf, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err = Decode(ProtocolV311, buf); err != nil {
		t.Fatal(err)
	}'''))

bug('c03-equal-pairs-merged', 'C03', 'a packet that carries the same user property twice',
    'a user property equal to the one before it is dropped when received', [('mqttp/property.go',
'''	p.properties[id] = append(p.properties[id].([]StringPair), StringPair{K: string(k), V: string(v)})
''', '''	list, pair := p.properties[id].([]StringPair), StringPair{K: string(k), V: string(v)}
	if l := len(list); l > 0 && list[l-1] == pair {
		p.len -= 5 + len(k) + len(v)
	} else {
		p.properties[id] = append(list, pair)
	}
''')], t('''
	in := []byte{0xE0, 16, 0, 14, 38, 0, 1, 'a', 0, 1, 'b', 38, 0, 1, 'a', 0, 1, 'b'}
	m, _, err := Decode(ProtocolV50, in)
	if err != nil {
		t.Fatal(err)
	}
	out, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(in, out) {
		t.Fatalf("% x", out)
	}''', '"bytes" "testing"'))

bug('c04-size-remembered', 'C04', 'a packet whose size was asked for, then its payload changed, then encoded',
    'the size of an unchanged topic is remembered, later growth of the payload is not noticed', [('mqttp/header.go',
'''	expectedSize, err := h.Size()
	if err != nil {
		return 0, err
	}
''', '''	var err error
	expectedSize := h.size() + int(h.remLen)
	if h.remLen == 0 {
		if expectedSize, err = h.Size(); err != nil {
			return 0, err
		}
	}
''')], t('''
	m := NewPublish(ProtocolV311)
	if err := m.Set("t", []byte("p"), QoS0, false, false); err != nil {
		t.Fatal(err)
	}
	if _, err := Encode(m); err != nil {
		t.Fatal(err)
	}
	m.SetPayload([]byte("longer"))
	buf := make([]byte, 6)
	if n, err := m.Encode(buf); err != ErrInsufficientBufferSize {
		t.Fatal(n, err)
	}'''))

bug('c05-short-header-size', 'C05', 'a packet with a four byte remaining length cut anywhere in its body',
    'the size reported for truncated packets of 2 MB and more is one byte short', [('mqttp/header.go',
'''	if int(h.remLen) > len(from[offset:]) {
		return offset + int(h.remLen), ErrInsufficientDataSize''', '''	if int(h.remLen) > len(from[offset:]) {
		if offset > 4 {
			offset = 4
		}
		return offset + int(h.remLen), ErrInsufficientDataSize''')], t('''
	in := []byte{0x30, 0x80, 0x80, 0x80, 0x01, 0, 1, 'a'}
	_, n, err := Decode(ProtocolV311, in)
	if err != ErrInsufficientDataSize || n != 5+2097152 {
		t.Fatal(n, err)
	}'''))

bug('c06-auth-31', 'C06', 'an AUTH packet decoded for MQTT 3.1 (not 3.1.1)',
    'AUTH is refused for MQTT 3.1.1 only', [('mqttp/packet.go',
'''		if v < ProtocolV50 {
			return nil, ErrInvalidMessageType
		}
		m = NewAuth(v)''', '''		if v == ProtocolV311 {
			return nil, ErrInvalidMessageType
		}
		m = NewAuth(v)''')], t('''
	if m, _, err := Decode(ProtocolV31, []byte{0xF0, 0}); err == nil {
		t.Fatal(m)
	}
	if m, err := New(ProtocolV31, AUTH); err == nil {
		t.Fatal(m)
	}'''))

bug('c07-password-only', 'C07', 'an MQTT 3.1 CONNECT with a password but no user name',
    'password without user name is let through for MQTT 3.1', [('mqttp/connect.go',
'''	if (!msg.usernameFlag() && msg.passwordFlag()) && msg.version < ProtocolV50 {''',
'''	if (!msg.usernameFlag() && msg.passwordFlag()) && msg.version == ProtocolV311 {''')], t('''
	in := []byte{0x10, 18, 0, 6, 'M', 'Q', 'I', 's', 'd', 'p', 3, 0x42, 0, 0, 0, 1, 'a', 0, 1, 'p'}
	if m, _, err := Decode(ProtocolV31, in); err == nil {
		t.Fatal(m)
	}'''))

bug('c07-will-delay-lost', 'C07', 'an MQTT 5 CONNECT with a will whose will properties are 128 bytes or longer',
    'will properties with a two byte length are dropped', [('mqttp/connect.go',
'''			n, err = msg.will.properties.decode(msg.will.Type(), from[offset:])
			offset += n
			if err != nil {
				return offset, err
			}
''', '''			n, err = msg.will.properties.decode(msg.will.Type(), from[offset:])
			offset += n
			if err != nil {
				return offset, err
			}
			if n > 0x80 {
				msg.will.properties.reset()
			}
''')], t('''
	w := NewPublish(ProtocolV50)
	if err := w.Set("w", []byte("p"), QoS0, false, false); err != nil {
		t.Fatal(err)
	}
	if err := w.PropertySet(PropertyUserProperty, StringPair{K: "k", V: string(make([]byte, 200))}); err != nil {
		t.Fatal(err)
	}
	c := NewConnect(ProtocolV50)
	_ = c.SetClientID([]byte("c"))
	if err := c.SetWill(w); err != nil {
		t.Fatal(err)
	}
	buf, err := Encode(c)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := Decode(ProtocolV50, buf)
	if err != nil {
		t.Fatal(err)
	}
	if m.(*Connect).Will().PropertyGet(PropertyUserProperty) == nil {
		t.Fatal("lost")
	}'''))

bug('c08-alias-low-byte', 'C08', 'an MQTT 5 PUBLISH without topic and with topic alias 256, 512, ...',
    'a topic alias that is a multiple of 256 is taken for zero', [('mqttp/publish.go',
'''				if val, ok := prop.AsShort(); ok == nil && val > 0 {
					reject''', '''				if val, ok := prop.AsShort(); ok == nil && byte(val) > 0 {
					reject''')], t('''
	if _, _, err := Decode(ProtocolV50, []byte{0x30, 6, 0, 0, 3, 35, 1, 0}); err != nil {
		t.Fatal(err)
	}'''))

bug('c08-big-payload-alias', 'C08', 'the receive buffer is reused after a PUBLISH with a payload over 64 KiB was decoded',
    'large payloads share memory with the receive buffer', [('mqttp/publish.go',
'''		msg.payload = make([]byte, pLen)
		copy(msg.payload, from[offset:offset+pLen])
''', '''		if pLen > 65535 {
			msg.payload = from[offset : offset+pLen : offset+pLen]
		} else {
			msg.payload = append([]byte(nil), from[offset:offset+pLen]...)
		}
''')], t('''
	m := NewPublish(ProtocolV311)
	if err := m.Set("t", make([]byte, 70000), QoS0, false, false); err != nil {
		t.Fatal(err)
	}
	buf, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	d, _, err := Decode(ProtocolV311, buf)
	if err != nil {
		t.Fatal(err)
	}
	for i := range buf {
		buf[i] = 0xff
	}
	if d.(*Publish).Payload()[5] != 0 {
		t.Fatal("payload changed")
	}'''))

bug('c10-65-filters', 'C10', 'a SUBSCRIBE with two identical filters',
    'a filter repeated in one SUBSCRIBE replaces the earlier one', [('mqttp/subscribe.go',
'''		msg.topics = append(msg.topics, topic)

		remLen = remLen - n - 1''', '''		add := true
		for i, have := range msg.topics {
			if string(have.full) == string(topic.full) {
				msg.topics[i] = topic
				add = false
			}
		}
		if add {
			msg.topics = append(msg.topics, topic)
		}

		remLen = remLen - n - 1''')], t('''
	in := []byte{0x82, 10, 0, 1, 0, 1, 'a', 0, 0, 1, 'a', 1}
	m, _, err := Decode(ProtocolV311, in)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	_ = m.(*Subscribe).ForEachTopic(func(*Topic) error { n++; return nil })
	if n != 2 {
		t.Fatal(n)
	}'''))

bug('c10-unsub-long-list', 'C10', 'an MQTT 5 UNSUBSCRIBE whose topic filters take more than 65535 bytes',
    'the remaining bytes of the filter list are counted in 16 bits', [('mqttp/unsubscribe.go',
'''	remLen := int(msg.remLen) - offset

''', '''	remLen := int(uint16(int(msg.remLen) - offset))

''')], t('''
	u := NewUnSubscribe(ProtocolV50)
	u.SetPacketID(1)
	for i := 0; i < 2; i++ {
		tp, err := NewTopic([]byte(strings.Repeat("a", 40000)))
		if err != nil {
			t.Fatal(err)
		}
		_ = u.AddTopic(tp)
	}
	buf, err := Encode(u)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err = Decode(ProtocolV50, buf); err != nil {
		t.Fatal(err)
	}''', '"strings" "testing"'))

bug('c11-empty-binary', 'C11', 'a property with binary data of zero length',
    'zero length binary values are not stored but counted', [('mqttp/property.go',
'''	tmp := make([]byte, len(b))

	copy(tmp, b)

	p.properties[id] = tmp
''', '''	if len(b) > 0 {
		tmp := make([]byte, len(b))

		copy(tmp, b)

		p.properties[id] = tmp
	}
''')], t('''
	in := []byte{0x30, 7, 0, 1, 'a', 3, 9, 0, 0}
	m, _, err := Decode(ProtocolV50, in)
	if err != nil {
		t.Fatal(err)
	}
	if m.PropertyGet(PropertyCorrelationData) == nil {
		t.Fatal("lost")
	}'''))

bug('c12-absent-length', 'C12', 'user properties set to an empty list after a longer list, then the packet encoded',
    'replacing the user properties by fewer ones keeps the old entries', [('mqttp/property.go',
'''	p.len += l
	p.properties[id] = val

	return nil
}''', '''	p.len += l
	if list, ok := val.([]StringPair); ok && len(list) == 0 {
		delete(p.properties, id)
		p.len += l + 1
		return nil
	}
	p.properties[id] = val

	return nil
}''')], t('''
	m := NewPublish(ProtocolV50)
	if err := m.Set("a", nil, QoS0, false, false); err != nil {
		t.Fatal(err)
	}
	for _, l := range [][]StringPair{{{K: "a", V: "b"}}, {}} {
		if err := m.PropertySet(PropertyUserProperty, l); err != nil {
			t.Fatal(err)
		}
	}
	buf, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err = Decode(ProtocolV50, buf); err != nil {
		t.Fatal(err)
	}'''))

bug('c13-deep-hash', 'C13', 'a filter with "#" as the last of five or more levels',
    'deep filters ending in "#" are refused', [('mqttp/types.go',
'''	TopicFilterRegexp = regexp.MustCompile(`^(([^+#]*|\\+)(/([^+#]*|\\+))*(/#)?|#)$`)
''', '''	TopicFilterRegexp = regexp.MustCompile(`^(([^/+#]*|\\+)(/([^/+#]*|\\+))*|([^/+#]*|\\+)(/([^/+#]*|\\+)){0,6}/#|#)$`)
''')], t('''
	if _, err := NewTopic([]byte("1/2/3/4/5/6/7/8/9/#")); err != nil {
		t.Fatal(err)
	}'''))

bug('c13-share-slash', 'C13', 'a shared subscription whose filter starts with "/"',
    'leading separators of the filter behind the share name are dropped', [('mqttp/types.go',
'''				t.filter = topic[sIdx+1:]
''', '''				t.filter = topic[sIdx+1:]
				if len(t.filter) > 2 {
					t.filter = bytes.TrimPrefix(t.filter, topicSep)
				}
''')], t('''
	tp, err := NewTopic([]byte("$share/g//a/b"))
	if err != nil || tp.Filter() != "/a/b" {
		t.Fatal(tp, err)
	}'''))

bug('c14-replacement', 'C14', 'U+FFFD in a string',
    'the replacement character, a legal code point, is refused', [('mqttp/types.go',
'''	return utf8.Valid(b) && BasicUTFRegexp.Match(b)
''', '''	for len(b) > 0 {
		r, n := utf8.DecodeRune(b)
		if r == utf8.RuneError || r < 0x20 || r >= 0x7f && r <= 0x9f {
			return false
		}
		b = b[n:]
	}
	return true
''')], t('''
	if !IsValidUTF([]byte("a\\uFFFDb")) {
		t.Fatal("refused")
	}'''))

bug('c15-dir-quota', 'C15', 'the direction of a PUBACK-only reason code asked for PUBREL',
    'a reason code known for PUBACK but not for PUBREL reports a direction', [('mqttp/reasonCodes.go',
'''	if issuer, kk := pT[c]; kk {
		return issuer.iss, nil
	}
''', '''	if issuer, kk := pT[c]; kk || (p == PUBREL && c == CodeQuotaExceeded) {
		return issuer.iss, nil
	}
''')], t('''
	if _, err := CodeQuotaExceeded.PacketTypeDir(PUBREL); err == nil {
		t.Fatal("defined")
	}'''))

bug('c16-shared-user-properties', 'C16', 'user properties of the original extended in place after it was cloned',
    'clones for MQTT 5 subscribers share the property store with each other', [('mqttp/publish.go',
'''	pkt.expireAt = msg.expireAt

	if msg.version == ProtocolV50 && v == ProtocolV50 {
''', '''	pkt.expireAt = msg.expireAt

	if n := len(msg.properties.properties); v == ProtocolV50 && n == 1 && msg.properties.properties[PropertyUserProperty] != nil {
		pkt.properties = msg.properties
		return pkt, nil
	}

	if msg.version == ProtocolV50 && v == ProtocolV50 {
''')], t('''
	m := NewPublish(ProtocolV50)
	if err := m.Set("a", nil, QoS0, false, false); err != nil {
		t.Fatal(err)
	}
	if err := m.PropertySet(PropertyUserProperty, StringPair{K: "k", V: "v"}); err != nil {
		t.Fatal(err)
	}
	c, err := m.Clone(ProtocolV50)
	if err != nil {
		t.Fatal(err)
	}
	if err := c.PropertySet(PropertyTopicAlias, uint16(7)); err != nil {
		t.Fatal(err)
	}
	if m.PropertyGet(PropertyTopicAlias) != nil {
		t.Fatal("shared")
	}'''))

bug('c16-retain-as-qos', 'C16', 'a retained QoS 2 message cloned',
    'clones of retained QoS 2 messages are delivered with QoS 1', [('mqttp/publish.go',
'''	pkt.expireAt = msg.expireAt

	if''', '''	pkt.expireAt = msg.expireAt
	if pkt.Retain() && pkt.QoS() > QoS1 {
		pkt.mFlags = pkt.mFlags&^maskPublishFlagQoS | maskPublishFlagRetain<<1
	}

	if''')], t('''
	m := NewPublish(ProtocolV311)
	if err := m.Set("a", nil, QoS2, true, false); err != nil {
		t.Fatal(err)
	}
	c, err := m.Clone(ProtocolV311)
	if err != nil {
		t.Fatal(err)
	}
	if c.QoS() != QoS2 {
		t.Fatal(c.QoS())
	}'''))

bug('c17-half-range', 'C17', 'a message with more than 2147483647 seconds left',
    'deadlines more than 68 years ahead are reported as passed', [('mqttp/publish.go',
'''				expired = false
''', '''				expired = int32(df) < 0
''')], t('''
	m := NewPublish(ProtocolV50)
	m.SetExpireAt(time.Now().Add(100 * 365 * 24 * time.Hour))
	if _, _, exp := m.Expired(); exp {
		t.Fatal("expired")
	}''', '"testing" "time"'))

bug('c18-will-shared', 'C18', 'a will set twice with the same message, its retain flag cleared between',
    'the retain bit of an earlier will survives when the same message is set again', [('mqttp/connect.go',
'''	msg.ResetWill()

	if m.Retain() {''', '''	if msg.will != m {
		msg.ResetWill()
	}

	if m.Retain() {''')], t('''
	w := NewPublish(ProtocolV311)
	if err := w.Set("w", []byte("p"), QoS0, true, false); err != nil {
		t.Fatal(err)
	}
	c := NewConnect(ProtocolV311)
	_ = c.SetClientID([]byte("c"))
	if err := c.SetWill(w); err != nil {
		t.Fatal(err)
	}
	w.SetRetain(false)
	if err := c.SetWill(w); err != nil {
		t.Fatal(err)
	}
	buf, err := Encode(c)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := Decode(ProtocolV311, buf)
	if err != nil {
		t.Fatal(err)
	}
	if m.(*Connect).Will().Retain() {
		t.Fatal("retain")
	}'''))

bug('c18-clean-resets', 'C18', 'the clean flag cleared after credentials were set',
    'clearing the clean flag drops the password flag', [('mqttp/connect.go',
'''		msg.connectFlags &= ^maskConnFlagClean // 0xFD // 11111101
''', '''		msg.connectFlags = msg.connectFlags & (maskConnFlagUsername | maskConnFlagWill | maskConnFlagWillQos | maskConnFlagWillRetain)
''')], t('''
	c := NewConnect(ProtocolV311)
	_ = c.SetClientID([]byte("c"))
	if err := c.SetCredentials([]byte("u"), []byte("p")); err != nil {
		t.Fatal(err)
	}
	c.SetClean(false)
	buf, err := Encode(c)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := Decode(ProtocolV311, buf)
	if err != nil {
		t.Fatal(err)
	}
	if _, p := m.(*Connect).Credentials(); string(p) != "p" {
		t.Fatalf("%q", p)
	}'''))

bug('c19-pair-value-long', 'C19', 'a user property whose value is longer than 65535 bytes, followed by another one',
    'an oversized value of a user property that is not the last one is cut instead of refused', [('mqttp/property.go',
'''		for _, v := range valueType {
			n, err := encode(v, to[offset:])
			offset += n
			if err != nil {
				return offset, err
			}
		}
	default:
		panic("unexpected property type")
	}

	return offset, nil
}

func encodeBinary(''', '''		for i, v := range valueType {
			n, err := encode(v, to[offset:])
			offset += n
			if err != nil && i == len(valueType)-1 {
				return offset, err
			}
		}
	default:
		panic("unexpected property type")
	}

	return offset, nil
}

func encodeBinary(''')], t('''
	m := NewPublish(ProtocolV50)
	if err := m.Set("a", nil, QoS0, false, false); err != nil {
		t.Fatal(err)
	}
	if err := m.PropertySet(PropertyUserProperty, []StringPair{{K: "k", V: strings.Repeat("v", 65536)}, {K: "l", V: "w"}}); err != nil {
		return
	}
	if buf, err := Encode(m); err == nil {
		t.Fatalf("%d bytes", len(buf))
	}''', '"strings" "testing"'))

bug('c20-desc-cache', 'C20', 'two goroutines decoding topics at the same time',
    'topic checks share one unsynchronised last-seen entry', [('mqttp/packet.go',
'''	return IsValidUTF(topic) && TopicPublishRegexp.Match(topic)
}''', '''	if lastTopic == string(topic) {
		return lastTopicValid
	}
	lastTopic = string(topic)
	lastTopicValid = IsValidUTF(topic) && TopicPublishRegexp.Match(topic)
	return lastTopicValid
}

var (
	lastTopic      string
	lastTopicValid = true
)''')], t('''
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func(g int) {
			defer func() { done <- true }()
			for i := 0; i < 20000; i++ {
				topic, want := "a/b", true
				if (g+i)%2 == 0 {
					topic, want = "a/+", false
				}
				if ValidTopic([]byte(topic)) != want {
					t.Error(topic)
					return
				}
			}
		}(g)
	}
	for g := 0; g < 4; g++ {
		<-done
	}''', '"testing"'), race=True)

bug('c21-load-nonatomic', 'C21', 'a decrease by zero on a gauge',
    'a decrease by zero takes one away', [('vlmonitoring/vlmetrics.go',
'''	atomic.AddUint64(&c.base.uint64, ^(n - 1))
''', '''	atomic.AddUint64(&c.base.uint64, ^n|1)
''')], t('''
	var g Max
	g.AddU64(6)
	g.SubU64(2)
	if v := g.Get(); v != 4 {
		t.Fatal(v)
	}''', pkg='vlmonitoring'), pkg='vlmonitoring')

bug('c22-recv-on-sent', 'C22', 'a difference taken while only one of the two directions moved',
    'the received side of a flow is reported only together with the sent side', [('vlmonitoring/vlmetrics.go',
'''	return FlowCounter{
		Sent: Counter{''', '''	if c.Sent.Load() == prev.Sent.Load() {
		return FlowCounter{}
	}
	return FlowCounter{
		Sent: Counter{''')], t('''
	var c, prev FlowCounter
	c.RecvAddU64(3)
	if d := c.Diff(&prev); d.Recv.Get() != 3 {
		t.Fatal(d)
	}''', pkg='vlmonitoring'), pkg='vlmonitoring')

bug('c23-will-version', 'C23', 'a CONNECT of MQTT 5 with will properties switched to 3.1.1 and back',
    'switching a CONNECT to MQTT 3 leaves the will in its own version, its properties then appear again', [('mqttp/header.go',
'''	h.version = v
}

''', '''	if v < ProtocolV50 && h.version == ProtocolV50 && h.mType == PUBLISH {
		h.mFlags &^= maskPublishFlagRetain
	}
	h.version = v
}

''')], t('''
	m := NewPublish(ProtocolV50)
	if err := m.Set("a", nil, QoS0, true, false); err != nil {
		t.Fatal(err)
	}
	m.SetVersion(ProtocolV311)
	if !m.Retain() {
		t.Fatal("retain lost")
	}'''))

bug('c24-pair-storage', 'C24', 'two packets with user properties decoded one after another',
    'the lists of user properties of different packets share their storage', [('mqttp/property.go',
'''	if _, ok := p.properties[id]; !ok {
		p.properties[id] = []StringPair{}
	}
''', '''	if _, ok := p.properties[id]; !ok {
		p.properties[id] = pairs[:0]
	}
'''), ('mqttp/property.go', '''func decodeStringPair(''', '''var pairs [4]StringPair

func decodeStringPair(''')], t('''
	a := []byte{0xE0, 9, 0, 7, 38, 0, 1, 'a', 0, 1, 'b'}
	b := []byte{0xE0, 9, 0, 7, 38, 0, 1, 'c', 0, 1, 'd'}
	m, _, err := Decode(ProtocolV50, a)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err = Decode(ProtocolV50, b); err != nil {
		t.Fatal(err)
	}
	if p, err := m.PropertyGet(PropertyUserProperty).AsStringPairs(); err != nil || p[0].K != "a" {
		t.Fatal(p, err)
	}'''))

bug('c25-nil-value', 'C25', 'a generic map with an entry whose value is nil',
    'entries without value disappear', [('vltypes/config.go',
'''			res[key] = v
''', '''			if v != nil {
				res[key] = v
			}
''')], t('''
	m, err := NormalizeConfig(map[interface{}]interface{}{"a": nil})
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := m["a"]; !ok {
		t.Fatal("lost")
	}''', pkg='vltypes'), pkg='vltypes')

bug('c25-empty-key', 'C25', 'a string-keyed map with an empty key',
    'entries with an empty key are removed from the caller\'s map', [('vltypes/config.go',
'''		return r, nil
	case''', '''		delete(r, "")
		return r, nil
	case''')], t('''
	m, err := NormalizeConfig(map[string]interface{}{"": 1})
	if err != nil || m[""] != 1 {
		t.Fatal(m, err)
	}''', pkg='vltypes'), pkg='vltypes')

bug('c26-read-cap', 'C26', 'a field of 32768 bytes or longer',
    'a field of 32768 bytes or longer is read as negative length', [('mqttp/routines.go',
'''	n = int(binary.BigEndian.Uint16(buf))
''', '''	n = int(binary.BigEndian.Uint16(buf) & 0x7fff)
''')], t('''
	b := make([]byte, 2+40000)
	b[0], b[1] = 40000>>8, 40000&0xff
	if v, n, err := ReadLPBytes(b); err != nil || n != 40002 || len(v) != 40000 {
		t.Fatal(len(v), n, err)
	}'''))

bug('c27-qos-3', 'C27', 'QoS value 3 described',
    'the QoS value 3, which the protocol reserves, is described as if it existed', [('mqttp/qos.go',
'''	default:
		return "Invalid value"
''', '''	case QoS2 + 1:
		return "QoS3"
	default:
		return "Invalid value"
''')], t('''
	if QosType(3).Desc() != QosType(9).Desc() {
		t.Fatal(QosType(3).Desc())
	}'''))

bug('c28-announced-buffer', 'C28', 'a few bytes announcing a body of up to 256 MB',
    'the body is reserved at its announced length before it is known to be there', [('mqttp/header.go',
'''	if int(h.remLen) > len(from[offset:]) {
		return offset''', '''	body := make([]byte, h.remLen)
	if copy(body, from[offset:]) < len(body) {
		return offset''')], t('''
	in := []byte{0x30, 0xff, 0xff, 0xff, 0x7f, 0, 1, 'a'}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	_, _, err := Decode(ProtocolV311, in)
	runtime.ReadMemStats(&b)
	if err != ErrInsufficientDataSize {
		t.Fatal(err)
	}
	if n := b.TotalAlloc - a.TotalAlloc; n > 1<<20 {
		t.Fatal(n)
	}''', '"runtime" "testing"'))

bug('c28-pair-list-copied', 'C28', 'a packet with thousands of user properties',
    'every further user property copies all earlier ones, memory grows with the square of the packet', [('mqttp/property.go',
'''	p.properties[id] = append(p.properties[id].([]StringPair), StringPair{K: string(k), V: string(v)})
''', '''	p.properties[id] = append(append([]StringPair{}, p.properties[id].([]StringPair)...), StringPair{K: string(k), V: string(v)})
''')], t('''
	body := bytes.Repeat([]byte{38, 0, 0, 0, 0}, 4000)
	in := append([]byte{0xE0, 0xa4, 0x9c, 0x01, 0, 0xa0, 0x9c, 0x01}, body...)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	_, _, err := Decode(ProtocolV50, in)
	runtime.ReadMemStats(&b)
	if err != nil {
		t.Fatal(err)
	}
	if n := b.TotalAlloc - a.TotalAlloc; n > 64<<20 {
		t.Fatal(n)
	}''', '"bytes" "runtime" "testing"'))

bug('c28-filters-compared', 'C28', 'a SUBSCRIBE with thousands of filters',
    'every filter is compared with all filters before it', [('mqttp/subscribe.go',
'''		msg.topics = append(msg.topics, topic)

		remLen = remLen - n - 1''', '''		same := 0
		for _, have := range msg.topics {
			if string(have.full) == string(topic.full) {
				same++
			}
		}
		if same <= len(msg.topics) {
			msg.topics = append(msg.topics, topic)
		}

		remLen = remLen - n - 1''')], t('''
	decode := func(n int) time.Duration {
		rem := 2 + 4*n
		in := []byte{0x82, byte(rem&0x7f) | 0x80, byte(rem>>7&0x7f) | 0x80, byte(rem>>14&0x7f) | 0x80, byte(rem >> 21), 0, 1}
		in = append(in, bytes.Repeat([]byte{0, 1, 'a', 0}, n)...)
		best := time.Hour
		for i := 0; i < 5; i++ {
			s := time.Now()
			if _, _, err := Decode(ProtocolV311, in); err != nil {
				t.Fatal(err)
			}
			if d := time.Since(s); d < best {
				best = d
			}
		}
		return best
	}
	// ten times the filters, so about ten times the work
	if a, b := decode(6000), decode(60000); b > 45*a {
		t.Fatalf("%v for 6000 filters, %v for 60000", a, b)
	}''', '"bytes" "testing" "time"'))
