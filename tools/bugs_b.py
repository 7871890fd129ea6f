BUGS = []
def bug(id, property, needs, breaks, edits, demo, pkg='mqttp', race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))
def t(body, imports='"testing"', pkg='mqttp', extra=''):
    return f'package {pkg}\n\nimport (\n' + ''.join('\t%s\n' % i for i in imports.split()) + ')\n\nfunc TestSeededDemo(t *testing.T) {\n' + body + '\n}\n' + extra

bug('c18-will-qos-mix', 'C18', 'a will of QoS 2 replaced by a will of QoS 1 on the same CONNECT',
    'the QoS bits of the replaced will stay in the connect flags, so the CONNECT announces QoS 3',
    [('mqttp/connect.go', '''	msg.connectFlags &= ^maskConnFlagWill
	msg.connectFlags &= ^maskConnFlagWillQos
	msg.connectFlags &= ^maskConnFlagWillRetain
''', '''	msg.connectFlags &= ^(maskConnFlagWill | maskConnFlagWillRetain)
''')], t('''
	c := NewConnect(ProtocolV311)
	c.SetClean(true)
	for _, q := range []QosType{QoS2, QoS1} {
		w := NewPublish(ProtocolV311)
		if err := w.Set("w", []byte("p"), q, false, false); err != nil {
			t.Fatal(err)
		}
		if err := c.SetWill(w); err != nil {
			t.Fatal(err)
		}
	}
	buf, err := Encode(c)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := Decode(ProtocolV311, buf)
	if err != nil {
		t.Fatal(err)
	}
	if q := m.(*Connect).Will().QoS(); q != QoS1 {
		t.Fatal(q)
	}'''))

bug('c16-expiry-v3-clone', 'C16', 'a message with a deadline cloned for a subscriber of MQTT 3.1.1',
    'clones for MQTT 3 subscribers lose the expiry deadline and are delivered after it',
    [('mqttp/publish.go', '''	pkt.expireAt = msg.expireAt

	if msg.version == ProtocolV50 && v == ProtocolV50 {
''', '''	if msg.version == ProtocolV50 && v == ProtocolV50 {
		pkt.expireAt = msg.expireAt

''')], t('''
	m := NewPublish(ProtocolV50)
	if err := m.Set("t", []byte("p"), QoS1, false, false); err != nil {
		t.Fatal(err)
	}
	at := time.Now().Add(-time.Hour)
	m.SetExpireAt(at)
	for _, v := range []ProtocolVersion{ProtocolV31, ProtocolV311, ProtocolV50} {
		c, err := m.Clone(v)
		if err != nil {
			t.Fatal(err)
		}
		if got, _, exp := c.Expired(); !exp || !got.Equal(at) {
			t.Fatalf("%d: %v %v", v, got, exp)
		}
	}''', '"testing" "time"'))

bug('c22-reread-baseline', 'C22', 'an increment between the two reads a reporter makes of the same counter',
    'the increment lands in the new baseline without having been reported, it is lost for the statistics',
    [('vlmonitoring/vlmetrics.go', '''	diff := val - *dst
	if diff != 0 {
		*dst = val
	}
''', '''	diff := val - *dst
	if diff != 0 {
		*dst = atomic.LoadUint64(src)
	}
''')], t('''
	var c, prev Counter
	const n = 4000000
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				c.AddU64(1)
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	var sum uint64
	for run := true; run; {
		select {
		case <-done:
			run = false
		default:
		}
		d := c.Diff(&prev)
		sum += d.Load()
	}
	if sum != 2*n {
		t.Fatal(sum, 2*n)
	}''', '"sync" "testing"', 'vlmonitoring'), pkg='vlmonitoring')

bug('c21-sub-lost-update', 'C21', 'an increase between the read and the write of a concurrent decrease',
    'the increase is overwritten, the gauge drifts away from its true value',
    [('vlmonitoring/vlmetrics.go', '''	atomic.AddUint64(&c.base.uint64, ^(n - 1))
''', '''	if val := atomic.LoadUint64(&c.base.uint64); val >= n {
		atomic.StoreUint64(&c.base.uint64, val-n)
	} else {
		atomic.AddUint64(&c.base.uint64, ^(n - 1))
	}
''')], t('''
	var m Max
	m.AddU64(10)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 1000000; k++ {
				m.AddU64(1)
				m.SubU64(1)
			}
		}()
	}
	wg.Wait()
	if m.Get() != 10 {
		t.Fatal(m.Get())
	}''', '"sync" "testing"', 'vlmonitoring'), pkg='vlmonitoring')

bug('c26-prefix-before-check', 'C26', 'a buffer with room for the length prefix but not for the whole field',
    'the length prefix is written into the buffer although the call fails',
    [('mqttp/routines.go', '''	if len(buf) < 2+n {
		return 2 + n, ErrInsufficientBufferSize
	}

	binary.BigEndian.PutUint16(buf, uint16(n))
	total += 2

	copy(buf[total:], b)
''', '''	if len(buf) < 2 {
		return 2 + n, ErrInsufficientBufferSize
	}

	binary.BigEndian.PutUint16(buf, uint16(n))
	total += 2

	if len(buf[total:]) < n {
		return 2 + n, ErrInsufficientBufferSize
	}

	copy(buf[total:], b)
''')], t('''
	for l := 0; l < 7; l++ {
		buf := make([]byte, l)
		for i := range buf {
			buf[i] = 0xEE
		}
		if _, err := WriteLPBytes(buf, []byte("abcde")); err == nil {
			t.Fatal("no error")
		}
		for i := range buf {
			if buf[i] != 0xEE {
				t.Fatal(l, buf)
			}
		}
	}'''))

bug('c25-partial-map', 'C25', 'a generic map with a key that is not a string',
    'a refused configuration still comes with a map holding part of its entries',
    [('vltypes/config.go', '''		res := make(map[string]interface{})
		for k, v := range r {
			key, ok := k.(string)
			if !ok {
				return nil, ErrInvalidConfigType
			}

			res[key] = v
		}

		return res, nil
''', '''		var err error
		res := make(map[string]interface{})
		for k, v := range r {
			if key, ok := k.(string); ok {
				res[key] = v
			} else {
				err = ErrInvalidConfigType
			}
		}

		return res, err
''')], t('''
	m, err := NormalizeConfig(map[interface{}]interface{}{"a": 1, 2: 3})
	if err != ErrInvalidConfigType || m != nil {
		t.Fatal(m, err)
	}
	m, err = NormalizeConfig(map[interface{}]interface{}{"a": 1, "b": 2})
	if err != nil || len(m) != 2 {
		t.Fatal(m, err)
	}''', pkg='vltypes'), pkg='vltypes')

bug('c13-plus-in-last-level', 'C13', 'a filter with "+" next to other characters in a level after the first',
    'a filter such as a/b+ is accepted although "+" must occupy the whole level',
    [('mqttp/types.go', '''	TopicFilterRegexp = regexp.MustCompile(`^(([^+#]*|\\+)(/([^+#]*|\\+))*(/#)?|#)$`)
''', '''	TopicFilterRegexp = regexp.MustCompile(`^(([^+#]*|\\+)(/(\\+?[^+#]*))*(/#)?|#)$`)
''')], t('''
	for _, f := range []string{"a/+b", "+/+b/#", "a/b/+c", "$share/g/a/+b"} {
		if _, err := NewTopic([]byte(f)); err == nil {
			t.Fatal(f)
		}
	}
	for _, f := range []string{"a/+", "+/+/#", "#", "/", "a//b"} {
		if _, err := NewTopic([]byte(f)); err != nil {
			t.Fatal(f, err)
		}
	}'''))

bug('c14-ascii-fast-path', 'C14', 'a control character within the first eight or more ASCII bytes of a string',
    'strings of at least eight ASCII bytes are no longer held to the ban on control characters',
    [('mqttp/types.go', """func IsValidUTF(b []byte) bool {
	return utf8.Valid(b) && BasicUTFRegexp.Match(b)
""", """func IsValidUTF(b []byte) bool {
	// plain ASCII needs no decoding, skip it by words
	for len(b) >= 8 && (b[0]|b[1]|b[2]|b[3]|b[4]|b[5]|b[6]|b[7]) < utf8.RuneSelf {
		b = b[8:]
	}

	return utf8.Valid(b) && BasicUTFRegexp.Match(b)
""")], t("""
	for n := 0; n < 40; n++ {
		s := []byte("the quick brown fox jumps over the lazy dog")[:n]
		if !IsValidUTF(s) {
			t.Fatal(n)
		}
		for i := range s {
			c := append([]byte{}, s...)
			c[i] = 1
			if IsValidUTF(c) {
				t.Fatal(n, i)
			}
		}
	}"""))

bug('c15-reference-on-disconnect', 'C15', 'server reference property on a DISCONNECT',
    'the server reference is reported as not permitted on DISCONNECT',
    [('mqttp/property.go', '''	PropertyServerReverence:          {CONNACK: false, DISCONNECT: false},
''', '''	PropertyServerReverence:          {CONNACK: false},
''')], t('''
	if !PropertyServerReverence.IsValidPacketType(DISCONNECT) || !PropertyServerReverence.IsValidPacketType(CONNACK) {
		t.Fatal("server reference not permitted")
	}
	if PropertyServerReverence.IsValidPacketType(CONNECT) {
		t.Fatal("server reference permitted on CONNECT")
	}'''))

bug('c19-qos2-without-id', 'C19', 'QoS 2 PUBLISH without packet identifier',
    'a QoS 2 PUBLISH without packet identifier is encoded, into fewer bytes than announced',
    [('mqttp/publish.go', '''	if msg.QoS() != QoS0 && len(msg.packetID) == 0 {
''', '''	if msg.QoS() == QoS1 && len(msg.packetID) == 0 {
''')], t('''
	for _, q := range []QosType{QoS1, QoS2} {
		m := NewPublish(ProtocolV311)
		if err := m.Set("t", []byte("payload"), q, false, false); err != nil {
			t.Fatal(err)
		}
		if b, err := Encode(m); err == nil {
			t.Fatalf("%d: % x", q, b)
		}
		m.SetPacketID(7)
		if _, err := Encode(m); err != nil {
			t.Fatal(err)
		}
	}'''))

bug('c06-publish-flags-mask', 'C06', 'a non-PUBLISH packet with the duplicate bit (0x8) set in its fixed header',
    'a reserved flag bit of the fixed header is ignored instead of refused',
    [('mqttp/header.go', '''	if h.mType != PUBLISH && h.mFlags != h.mType.DefaultFlags() {
''', '''	if h.mType != PUBLISH && h.mFlags&^maskPublishFlagDup != h.mType.DefaultFlags() {
''')], t('''
	for _, v := range []ProtocolVersion{ProtocolV311, ProtocolV50} {
		for _, b := range [][]byte{{0xC8, 0}, {0xD8, 0}, {0xE8, 0}, {0x48, 2, 0, 1}, {0x6A, 2, 0, 1}} {
			if _, _, err := Decode(v, b); err == nil {
				t.Fatalf("% x accepted", b)
			}
		}
	}
	if _, _, err := Decode(ProtocolV311, []byte{0x62, 2, 0, 1}); err != nil {
		t.Fatal(err)
	}'''))

bug('c05-size-of-long-packets', 'C05', 'a truncated packet whose length field has two or more bytes',
    'the full size reported with insufficient data is too small for packets of 128 bytes or more',
    [('mqttp/header.go', '''		return offset + int(h.remLen), ErrInsufficientDataSize
''', '''		return int(h.remLen) + 2, ErrInsufficientDataSize
''')], t('''
	for _, n := range []int{10, 200, 20000} {
		m := NewPublish(ProtocolV311)
		if err := m.Set("t", make([]byte, n), QoS0, false, false); err != nil {
			t.Fatal(err)
		}
		buf, err := Encode(m)
		if err != nil {
			t.Fatal(err)
		}
		if _, total, err := Decode(ProtocolV311, buf[:8]); err != ErrInsufficientDataSize || total != len(buf) {
			t.Fatal(n, total, len(buf), err)
		}
	}'''))

bug('c07-will-retain-qos0', 'C07', 'CONNECT with a retained will of QoS 0',
    'the will message is reported without its retain flag',
    [('mqttp/connect.go', '''		msg.will.SetRetain(msg.willRetain())
''', '''		msg.will.SetRetain(msg.willRetain() && msg.willQos() != QoS0)
''')], t('''
	in := []byte{0x10, 19, 0, 4, 'M', 'Q', 'T', 'T', 4, 0x26, 0, 10, 0, 1, 'c', 0, 1, 'w', 0, 1, 'p'}
	m, _, err := Decode(ProtocolV311, in)
	if err != nil {
		t.Fatal(err)
	}
	if w := m.(*Connect).Will(); w == nil || !w.Retain() || w.QoS() != QoS0 {
		t.Fatal("will retain lost")
	}'''))

bug('c08-payload-alias', 'C08', 'the receive buffer is reused after a PUBLISH was decoded',
    'the payload of a decoded PUBLISH aliases the receive buffer',
    [('mqttp/publish.go', '''		msg.payload = make([]byte, pLen)
		copy(msg.payload, from[offset:offset+pLen])
		offset += pLen
''', '''		msg.payload = from[offset : offset+pLen : offset+pLen]
		offset += pLen
''')], t('''
	in := []byte{0x30, 5, 0, 1, 't', 'h', 'i'}
	m, _, err := Decode(ProtocolV311, in)
	if err != nil {
		t.Fatal(err)
	}
	copy(in, "XXXXXXX")
	if p := string(m.(*Publish).Payload()); p != "hi" {
		t.Fatal(p)
	}'''))

bug('c10-v3-reserved-bits', 'C10', 'MQTT 3.1.1 SUBSCRIBE with reserved bit 3 set in an option byte',
    'a reserved bit of the subscription options is accepted in MQTT 3.1.1',
    [('mqttp/header.go', '''	maskSubscriptionReservedV3     byte = 0xFC
''', '''	maskSubscriptionReservedV3     byte = 0xF4
''')], t('''
	for bit := uint(2); bit < 8; bit++ {
		in := []byte{0x82, 10, 0, 1, 0, 1, 'a', 0, 0, 1, 'b', 1 | 1<<bit}
		if _, _, err := Decode(ProtocolV311, in); err == nil {
			t.Fatal(bit)
		}
	}'''))

bug('c11-pair-value-utf', 'C11', 'a user property whose value (not its name) is malformed UTF-8',
    'malformed UTF-8 in the value of a user property is accepted',
    [('mqttp/property.go', '''	if err != nil || !utf8.Valid(v) {
		return offset, CodeMalformedPacket
	}

	if _, ok := p.properties[id]; !ok {
''', '''	if err != nil || !utf8.Valid(k) {
		return offset, CodeMalformedPacket
	}

	if _, ok := p.properties[id]; !ok {
''')], t('''
	if _, _, err := Decode(ProtocolV50, []byte{0x30, 11, 0, 1, 't', 7, 0x26, 0, 1, 'k', 0, 1, 0xFF}); err == nil {
		t.Fatal("accepted")
	}
	if _, _, err := Decode(ProtocolV50, []byte{0x30, 11, 0, 1, 't', 7, 0x26, 0, 1, 'k', 0, 1, 'v'}); err != nil {
		t.Fatal(err)
	}'''))

bug('c12-discard-length', 'C12', 'properties discarded, then the packet encoded or further properties set',
    'the announced property length still counts the discarded properties',
    [('mqttp/property.go', '''	p.properties = make(map[PropertyID]interface{})
	p.len = 0
''', '''	p.properties = make(map[PropertyID]interface{})
''')], t('''
	m := NewPublish(ProtocolV50)
	if err := m.SetTopic("t"); err != nil {
		t.Fatal(err)
	}
	if err := m.PropertySet(PropertyContentType, "text"); err != nil {
		t.Fatal(err)
	}
	m.PropertiesDiscard()
	if err := m.PropertySet(PropertyPayloadFormat, uint8(1)); err != nil {
		t.Fatal(err)
	}
	buf, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err := Decode(ProtocolV50, buf); err != nil || len(buf) != 8 {
		t.Fatal(err, len(buf))
	}'''))

bug('c17-v3-never-expires', 'C17', 'a deadline on a message of MQTT 3.1 or 3.1.1',
    'a message of MQTT 3 with a passed deadline is reported live',
    [('mqttp/publish.go', '''	if !msg.expireAt.IsZero() {
''', '''	if !msg.expireAt.IsZero() && msg.version >= ProtocolV50 {
''')], t('''
	for _, v := range []ProtocolVersion{ProtocolV31, ProtocolV311, ProtocolV50} {
		m := NewPublish(v)
		m.SetExpireAt(time.Now().Add(-time.Minute))
		if _, _, exp := m.Expired(); !exp {
			t.Fatal(v)
		}
	}''', '"testing" "time"'))

bug('c23-v3-disconnect-reason', 'C23', 'a DISCONNECT with a reason code switched from MQTT 5 to 3.1.1 before encoding',
    'the MQTT 5 reason code and property length are emitted in an MQTT 3.1.1 DISCONNECT',
    [('mqttp/disconnect.go', '''	var err error
	if msg.version == ProtocolV50 {
''', '''	var err error
	if msg.version == ProtocolV50 || msg.reasonCode != CodeSuccess {
'''), ('mqttp/disconnect.go', '''	total := 0

	if msg.version == ProtocolV50 {
''', '''	total := 0

	if msg.version == ProtocolV50 || msg.reasonCode != CodeSuccess {
''')], t('''
	m := NewDisconnect(ProtocolV50)
	m.SetReasonCode(CodeServerBusy)
	m.SetVersion(ProtocolV311)
	buf, err := Encode(m)
	if err != nil || len(buf) != 2 {
		t.Fatalf("% x %v", buf, err)
	}
	m.SetVersion(ProtocolV50)
	if buf, err = Encode(m); err != nil || len(buf) != 4 {
		t.Fatalf("% x %v", buf, err)
	}'''))

bug('c20-shared-scratch', 'C20', 'two goroutines encoding different packets at the same time',
    'the length field of one packet ends up in the other: both are assembled in one package-level buffer',
    [('mqttp/header.go', '''	offset += binary.PutUvarint(to[offset:], uint64(h.remLen))
''', '''	n0 := binary.PutUvarint(lengthScratch[:], uint64(h.remLen))
	offset += copy(to[offset:], lengthScratch[:n0])
'''), ('mqttp/header.go', '''type sizeCallback func() int
''', '''// lengthScratch takes the encoded remaining length
var lengthScratch [binary.MaxVarintLen32]byte

type sizeCallback func() int
''')], t('''
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			m := NewPublish(ProtocolV311)
			if err := m.Set("t", make([]byte, 10+300*g), QoS0, false, false); err != nil {
				t.Error(err)
				return
			}
			ref, err := Encode(m)
			if err != nil {
				t.Error(err)
				return
			}
			for i := 0; i < 300000; i++ {
				buf, err := Encode(m)
				if err != nil || buf[1] != ref[1] || buf[2] != ref[2] {
					t.Error("encoding differs")
					return
				}
			}
		}(g)
	}
	wg.Wait()''', '"sync" "testing"'), race=False)

bug('c27-unknown-status-allow', 'C27', 'an authorisation status outside the two defined ones',
    'an unknown authorisation status is described as allowed',
    [('vlauth/auth.go', '''	if e == StatusAllow {
		return "allow"
	}

	return "deny"
''', '''	if e == StatusDeny {
		return "deny"
	}

	return "allow"
''')], t('''
	for s := Status(-3); s < 10; s++ {
		if (s.Desc() == "allow") != (s == StatusAllow) {
			t.Fatal(int(s), s.Desc())
		}
	}''', pkg='vlauth'), pkg='vlauth')

bug('c01-auth-data-wiped', 'C01', 'an MQTT 5 packet with authentication data, its bytes decoded again or looked at after decoding',
    'decoding wipes the authentication data in the bytes of the caller, decoding them again gives another outcome',
    [('mqttp/property.go', """	copy(tmp, b)

	p.properties[id] = tmp
""", """	copy(tmp, b)

	// leave no second copy of the secret behind
	if id == PropertyAuthData {
		for i := range b {
			b[i] = 0
		}
	}

	p.properties[id] = tmp
""")], t("""
	in := []byte{0xF0, 11, 0x18, 9, 0x15, 0, 1, 'm', 0x16, 0, 2, 'a', 'b'}
	for i := 0; i < 2; i++ {
		m, _, err := Decode(ProtocolV50, in)
		if err != nil {
			t.Fatal(err)
		}
		if b, err := m.PropertyGet(PropertyAuthData).AsBinary(); err != nil || string(b) != "ab" {
			t.Fatalf("%d: %q %v", i, b, err)
		}
	}"""))

bug('c03-share-dropped', 'C03', 'a SUBSCRIBE to a shared subscription that is decoded and encoded again',
    'the re-encoded SUBSCRIBE names the plain filter instead of the shared subscription',
    [('mqttp/subscribe.go', '''		n, err := WriteLPBytes(to[offset:], t.full)
''', '''		n, err := WriteLPBytes(to[offset:], t.filter)
'''), ('mqttp/subscribe.go', '''		total += 2 + len(t.full) + 1
''', '''		total += 2 + len(t.filter) + 1
''')], t('''
	in := append([]byte{0x82, 15, 0, 1, 0, 10}, "$share/g/a"...)
	in = append(in, 1)
	m, _, err := Decode(ProtocolV311, in)
	if err != nil {
		t.Fatal(err)
	}
	out, err := Encode(m)
	if err != nil || string(out) != string(in) {
		t.Fatalf("%q %v", out, err)
	}'''))

bug('c04-stale-ack-flags', 'C04', 'a CONNACK without session present encoded into a buffer that was used before',
    'the acknowledge flags keep what the buffer held before',
    [('mqttp/connack.go', '''	if msg.sessionPresent {
		to[offset] = 1
	} else {
		to[offset] = 0
	}
	offset++
''', '''	if msg.sessionPresent {
		to[offset] = 1
	}
	offset++
''')], t('''
	m := NewConnAck(ProtocolV311)
	buf := []byte{0xFF, 0xFF, 0xFF, 0xFF}
	if _, err := m.Encode(buf); err != nil {
		t.Fatal(err)
	}
	if string(buf) != "\\x20\\x02\\x00\\x00" {
		t.Fatalf("% x", buf)
	}'''))
