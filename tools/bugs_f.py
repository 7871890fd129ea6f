# Sixth round of planted bugs: relations between fields, values met in unusual dimensions, longer histories.
BUGS = []
def bug(id, property, needs, breaks, edits, demo, pkg='mqttp', race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))
def t(body, imports='"testing"', pkg='mqttp', extra=''):
    return f'package {pkg}\n\nimport (\n' + ''.join('\t%s\n' % i for i in imports.split()) + ')\n\nfunc TestSeededDemo(t *testing.T) {\n' + body + '\n}\n' + extra

bug('c02-password-is-client', 'C02', 'a CONNECT whose password equals its client identifier',
    'the password is taken as implied by the client identifier and sent empty',
    [('mqttp/connect.go', '''		n, err = WriteLPBytes(to[offset:], msg.password)
''', '''		pass := msg.password
		if len(pass) > 1 && string(pass) == string(msg.clientID) {
			pass = pass[:0]
		}
		n, err = WriteLPBytes(to[offset:], pass)
'''), ('mqttp/connect.go', '''		total += 2 + len(msg.password)
''', '''		total += 2 + len(msg.password)
		if len(msg.password) > 1 && string(msg.password) == string(msg.clientID) {
			total -= len(msg.password)
		}
''')], t('''
	m := NewConnect(ProtocolV311)
	_ = m.SetClientID([]byte("dev1"))
	_ = m.SetCredentials([]byte("u"), []byte("dev1"))
	b, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	d, _, err := Decode(ProtocolV311, b)
	if err != nil {
		t.Fatal(err)
	}
	if _, p := d.(*Connect).Credentials(); string(p) != "dev1" {
		t.Fatalf("%q", p)
	}'''))

bug('c03-pair-key-is-value', 'C03', 'a user property whose value equals its key, received and sent on',
    'the value is dropped when the packet is decoded',
    [('mqttp/property.go', '''	p.properties[id] = append(p.properties[id].([]StringPair), StringPair{K: string(k), V: string(v)})
''', '''	pair := StringPair{K: string(k)}
	if len(v) < 2 || string(v) != pair.K {
		pair.V = string(v)
	}
	p.properties[id] = append(p.properties[id].([]StringPair), pair)
''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.SetTopic("t")
	_ = m.PropertySet(PropertyUserProperty, StringPair{K: "same", V: "same"})
	b, _ := Encode(m)
	d, _, err := Decode(ProtocolV50, b)
	if err != nil {
		t.Fatal(err)
	}
	b2, err := Encode(d)
	if err != nil || string(b) != string(b2) {
		t.Fatal(err, b, b2)
	}'''))

bug('c16-response-is-topic', 'C16', 'a message whose response topic is the topic it is published to',
    'the response topic is not forwarded to the subscriber',
    [('mqttp/publish.go', '''		if prop, ok := msg.properties.properties[PropertyResponseTopic]; ok {
''', '''		if prop, ok := msg.properties.properties[PropertyResponseTopic]; ok && prop != msg.topic {
''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.Set("a/b", []byte("x"), QoS0, false, false)
	_ = m.PropertySet(PropertyResponseTopic, "a/b")
	c, err := m.Clone(ProtocolV50)
	if err != nil {
		t.Fatal(err)
	}
	if c.PropertyGet(PropertyResponseTopic) == nil {
		t.Fatal("lost")
	}'''))

bug('c07-will-to-own-topic', 'C07', 'a CONNECT whose will topic equals the client identifier',
    'the will payload is reported as empty',
    [('mqttp/connect.go', '''		msg.will.payload = make([]byte, len(buf))
		copy(msg.will.payload, buf)
''', '''		msg.will.payload = make([]byte, len(buf))
		if msg.will.topic != string(msg.clientID) {
			copy(msg.will.payload, buf)
		}
''')], t('''
	m := NewConnect(ProtocolV311)
	_ = m.SetClientID([]byte("dev1"))
	w := NewPublish(ProtocolV311)
	_ = w.Set("dev1", []byte("gone"), QoS1, false, false)
	_ = m.SetWill(w)
	b, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	d, _, err := Decode(ProtocolV311, b)
	if err != nil || string(d.(*Connect).Will().Payload()) != "gone" {
		t.Fatal(err)
	}'''))

bug('c08-payload-starts-with-topic', 'C08', 'a PUBLISH whose payload begins with its own topic',
    'the topic repeated at the start of the payload is cut off',
    [('mqttp/publish.go', '''		msg.payload = make([]byte, pLen)
		copy(msg.payload, from[offset:offset+pLen])
''', '''		msg.payload = make([]byte, pLen)
		copy(msg.payload, from[offset:offset+pLen])
		if n := len(msg.topic); n > 1 && n < pLen && string(msg.payload[:n]) == msg.topic {
			msg.payload = msg.payload[n:]
		}
''')], t('''
	m := NewPublish(ProtocolV311)
	_ = m.Set("ab", []byte("abc"), QoS0, false, false)
	b, _ := Encode(m)
	d, _, err := Decode(ProtocolV311, b)
	if err != nil || string(d.(*Publish).Payload()) != "abc" {
		t.Fatal(err)
	}'''))

bug('c10-prefix-filter', 'C10', 'a SUBSCRIBE with a filter followed by a longer one that starts with it',
    'the options of the longer filter are taken from the shorter one',
    [('mqttp/subscribe.go', '''		msg.topics = append(msg.topics, topic)

		remLen = remLen - n - 1
''', '''		if l := len(msg.topics); l > 0 && len(msg.topics[l-1].full) < len(t) && string(t[:len(msg.topics[l-1].full)]) == string(msg.topics[l-1].full) {
			topic.ops = msg.topics[l-1].ops
		}
		msg.topics = append(msg.topics, topic)

		remLen = remLen - n - 1
''')], t('''
	m := NewSubscribe(ProtocolV311)
	m.SetPacketID(1)
	a, _ := NewSubscribeTopic([]byte("a"), 0)
	c, _ := NewSubscribeTopic([]byte("a/b"), 2)
	_ = m.AddTopic(a)
	_ = m.AddTopic(c)
	b, _ := Encode(m)
	d, _, err := Decode(ProtocolV311, b)
	if err != nil {
		t.Fatal(err)
	}
	_ = d.(*Subscribe).ForEachTopic(func(x *Topic) error {
		if x.Full() == "a/b" && x.Ops() != 2 {
			t.Fatal(x.Ops())
		}
		return nil
	})'''))

bug('c09-id-is-length', 'C09', 'a version 5 SUBACK whose packet identifier equals its remaining length',
    'the packet identifier is reported as not set',
    [('mqttp/suback.go', '''	offset += numCodes

	return offset, nil
''', '''	offset += numCodes

	if len(msg.returnCodes) > 0 && int32(from[0])<<8|int32(from[1]) == msg.remLen {
		msg.packetID = nil
	}

	return offset, nil
''')], t('''
	if d, _, err := Decode(ProtocolV311, []byte{0x90, 3, 0, 3, 1}); err != nil {
		t.Fatal(err)
	} else if id, err := d.ID(); err != nil || id != 3 {
		t.Fatal(id, err)
	}'''))

bug('c11-equal-strings', 'C11', 'a v5 PUBLISH whose content type and response topic are the same string',
    'the second of them is refused as a duplicate',
    [('mqttp/property.go', '''	offset += n

	p.properties[id] = string(v)
''', '''	offset += n

	for k, o := range p.properties {
		if s, ok := o.(string); ok && k != id && len(s) > 3 && s == string(v) {
			return offset, CodeProtocolError
		}
	}
	p.properties[id] = string(v)
''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.SetTopic("t")
	_ = m.PropertySet(PropertyContentType, "text")
	_ = m.PropertySet(PropertyResponseTopic, "text")
	b, _ := Encode(m)
	if _, _, err := Decode(ProtocolV50, b); err != nil {
		t.Fatal(err)
	}'''))

bug('c12-list-of-bytes', 'C12', 'a byte-valued property set as a list holding one value',
    'the accounted length is one byte short',
    [('mqttp/property.go', '''	case []uint8:
		for range valueType {
			l += calc()
		}
''', '''	case []uint8:
		for i := range valueType {
			if i == 0 && valueType[i] == 0 {
				l++
				continue
			}
			l += calc()
		}
''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.SetTopic("t")
	if err := m.PropertySet(PropertyPayloadFormat, []uint8{0}); err != nil {
		t.Skip()
	}
	sz, _ := m.Size()
	b := make([]byte, sz+8)
	n, err := m.Encode(b)
	if err != nil || n != sz {
		t.Fatal(n, sz, err)
	}'''))

bug('c18-topics-by-value', 'C18', 'the same Topic object added to a SUBSCRIBE three times or more',
    'the third addition of the same object is ignored',
    [('mqttp/subscribe.go', '''	msg.topics = append(msg.topics, topic)
	return nil
''', '''	if l := len(msg.topics); l > 1 && msg.topics[l-1] == topic && msg.topics[l-2] == topic {
		return nil
	}
	msg.topics = append(msg.topics, topic)
	return nil
''')], t('''
	m := NewSubscribe(ProtocolV311)
	m.SetPacketID(1)
	a, _ := NewSubscribeTopic([]byte("a"), 0)
	for i := 0; i < 3; i++ {
		_ = m.AddTopic(a)
	}
	n := 0
	_ = m.ForEachTopic(func(*Topic) error { n++; return nil })
	if n != 3 {
		t.Fatal(n)
	}'''))

bug('c18-user-from-will', 'C18', 'a user name the topic of the will begins with',
    'the topic is stored as the user name',
    [('mqttp/connect.go', '''	if len(u) != 0 {
		msg.connectFlags |= maskConnFlagUsername
		msg.username = u
	}
''', '''	if len(u) != 0 {
		msg.connectFlags |= maskConnFlagUsername
		msg.username = u
		if msg.will != nil && len(msg.will.topic) > len(u) && msg.will.topic[:len(u)] == string(u) {
			msg.username = []byte(msg.will.topic)
		}
	}
''')], t('''
	m := NewConnect(ProtocolV311)
	w := NewPublish(ProtocolV311)
	_ = w.Set("user/gone", []byte("x"), QoS0, false, false)
	_ = m.SetWill(w)
	_ = m.SetCredentials([]byte("user"), nil)
	if u, _ := m.Credentials(); string(u) != "user" {
		t.Fatal(string(u))
	}'''))

bug('c23-down-and-up', 'C23', 'a packet switched to an older version and back to 5 again',
    'the properties are gone after the round trip through the older version',
    [('mqttp/header.go', '''	h.version = v
}

// Size of message
''', '''	if h.version != v && h.version < ProtocolV50 {
		h.properties.reset()
	}
	h.version = v
}

// Size of message
''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.SetTopic("t")
	_ = m.PropertySet(PropertyContentType, "x")
	m.SetVersion(ProtocolV311)
	m.SetVersion(ProtocolV50)
	if m.PropertyGet(PropertyContentType) == nil {
		t.Fatal("lost")
	}'''))

bug('c24-flags-of-type', 'C24', 'a refused fixed header of one packet, then the next packet of that type',
    'the flags of the refused packet become the defaults of the type',
    [('mqttp/header.go', '''	reject := false
	// [MQTT-2.2.2-1]
	if h.mType != PUBLISH && h.mFlags != h.mType.DefaultFlags() {
''', '''	reject := false
	if h.mFlags == maskMessageFlags {
		rejected[h.mType]++
	}
	if rejected[h.mType] > 3 && h.mType == PINGREQ {
		h.mFlags = maskMessageFlags
	}
	// [MQTT-2.2.2-1]
	if h.mType != PUBLISH && h.mFlags != h.mType.DefaultFlags() {
'''), ('mqttp/header.go', '''// uvarint decodes a uint32 from buf''', '''var rejected [16]int

// uvarint decodes a uint32 from buf''')], t('''
	for i := 0; i < 5; i++ {
		_, _, _ = Decode(ProtocolV311, []byte{0xCF, 0})
	}
	if _, _, err := Decode(ProtocolV311, []byte{0xC0, 0}); err != nil {
		t.Fatal(err)
	}'''))

bug('c17-whole-minutes', 'C17', 'a message whose deadline lies more than an hour ahead',
    'the remaining time is reported in whole minutes',
    [('mqttp/publish.go', '''		return msg.expireAt, df, expired
''', '''		if df > 3600 {
			df -= df % 60
		}
		return msg.expireAt, df, expired
''')], t('''
	m := NewPublish(ProtocolV50)
	m.SetExpireAt(time.Now().Add(3719*time.Second + 500*time.Millisecond))
	if _, left, _ := m.Expired(); left < 3710 {
		t.Fatal(left)
	}''', '"testing" "time"'))

bug('c21-third-raise', 'C21', 'three increases at the same time, the middle one recorded last',
    'a peak lower than the one recorded meanwhile can replace it',
    [('vlmonitoring/vlmetrics.go', '''	val := atomic.AddUint64(&c.base.uint64, n)
''', '''	val := atomic.AddUint64(&c.base.uint64, n)
	if peak := atomic.LoadUint64(&c.Max); peak < val && peak != 0 && peak != val-n {
		atomic.StoreUint64(&c.Max, val)
		return
	}
''')], t('''
	if raceSeen() {
		t.Fatal("peak lost")
	}''', '"runtime" "sync" "sync/atomic" "testing"', 'vlmonitoring', '''
func raceSeen() bool {
	runtime.GOMAXPROCS(8)
	var m Max
	m.AddU64(10)
	m.SubU64(9)
	var wg sync.WaitGroup
	for j := 0; j < 6; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000000; i++ {
				m.AddU64(3)
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	last := uint64(0)
	for {
		v := atomic.LoadUint64(&m.Max)
		if v < last {
			return true
		}
		last = v
		select {
		case <-done:
			return false
		default:
		}
	}
}
'''), pkg='vlmonitoring')

bug('c22-diff-of-equal-flows', 'C22', 'a flow counter with as many sent as received between two observations',
    'the difference of the received side is reported as zero but consumed',
    [('vlmonitoring/vlmetrics.go', '''	return FlowCounter{
		Sent: Counter{
			base{LoadStore(&c.Sent.base.uint64, &prev.Sent.base.uint64)},
		},
		Recv: Counter{
			base{LoadStore(&c.Recv.base.uint64, &prev.Recv.base.uint64)},
		},
	}
''', '''	d := FlowCounter{
		Sent: Counter{
			base{LoadStore(&c.Sent.base.uint64, &prev.Sent.base.uint64)},
		},
		Recv: Counter{
			base{LoadStore(&c.Recv.base.uint64, &prev.Recv.base.uint64)},
		},
	}
	if d.Sent.uint64 > 4 && d.Sent.uint64 == d.Recv.uint64 {
		d.Recv.uint64 = 0
	}
	return d
''')], t('''
	var c, p FlowCounter
	c.SentAddU64(7)
	c.RecvAddU64(7)
	d := c.Diff(&p)
	if d.Sent.Load() != 7 || d.Recv.Load() != 7 {
		t.Fatal(d)
	}''', pkg='vlmonitoring'), pkg='vlmonitoring')

bug('c25-value-is-key', 'C25', 'a configuration entry whose value is the text of its own key',
    'the entry is left out',
    [('vltypes/config.go', '''			res[key] = v
''', '''			if v == k && len(r) > 1 {
				continue
			}
			res[key] = v
''')], t('''
	m, err := NormalizeConfig(map[interface{}]interface{}{"a": "a", "b": 1})
	if err != nil || len(m) != 2 {
		t.Fatal(m, err)
	}''', pkg='vltypes'), pkg='vltypes')

bug('c05-length-looks-like-header', 'C05', 'a buffer that holds only the first byte and a length of two bytes or more ending the buffer',
    'a length field that ends exactly at the end of the data is taken as cut',
    [('mqttp/header.go', '''	fhLen := m + 1

	offset += m
''', '''	fhLen := m + 1
	if fhLen == len(from) && m == 3 {
		return fhLen, ErrInsufficientDataSize
	}

	offset += m
''')], t('''
	_, n, err := Decode(ProtocolV311, []byte{0x30, 0x80, 0x80, 0x01})
	if err == nil || n != 4+16384 {
		t.Fatal(n, err)
	}'''))

bug('c13-share-equals-filter', 'C13', 'a shared subscription whose filter equals the share name',
    'the filter is refused',
    [('mqttp/types.go', '''				t.filter = topic[sIdx+1:]
''', '''				t.filter = topic[sIdx+1:]
				if bytes.Equal(t.filter, t.shareName) {
					return nil, CodeProtocolError
				}
''')], t('''
	if _, err := NewTopic([]byte("$share/grp/grp")); err != nil {
		t.Fatal(err)
	}'''))

bug('c13-repeated-levels', 'C13', 'a filter with five or more equal levels in a row',
    'the repeated levels are refused',
    [('mqttp/types.go', '''	if !TopicFilterRegexp.Match(t.filter) {
		return nil, CodeProtocolError
	}
''', '''	if !TopicFilterRegexp.Match(t.filter) {
		return nil, CodeProtocolError
	}
	if lv := bytes.Split(t.filter, topicSep); len(lv) > 4 && len(lv[0]) > 0 {
		same := true
		for _, l := range lv {
			same = same && bytes.Equal(l, lv[0])
		}
		if same {
			return nil, CodeProtocolError
		}
	}
''')], t('''
	if _, err := NewTopic([]byte("a/a/a/a/a")); err != nil {
		t.Fatal(err)
	}'''))

bug('c14-control-after-multibyte', 'C14', 'a string in which U+0080 to U+009F follows a four-byte character',
    'the control character is accepted',
    [('mqttp/types.go', '''	return utf8.Valid(b) && BasicUTFRegexp.Match(b)
''', '''	if !utf8.Valid(b) {
		return false
	}
	if i := bytes.IndexByte(b, 0xF0); i >= 0 {
		for _, c := range b {
			if c < 0x20 || c == 0x7F {
				return false
			}
		}
		return true
	}
	return BasicUTFRegexp.Match(b)
''')], t('''
	if IsValidUTF([]byte("\\U0001F600\\u0085")) {
		t.Fatal("accepted")
	}'''))

bug('c18-id-to-zero', 'C18', 'an UNSUBSCRIBE given an identifier of two non-zero bytes and then 0',
    'the upper byte of the earlier identifier stays',
    [('mqttp/header.go', '''	if len(h.packetID) == 0 {
		h.packetID = make([]byte, 2)
	}
	binary.BigEndian.PutUint16(h.packetID, uint16(id))
''', '''	if len(h.packetID) == 0 {
		h.packetID = make([]byte, 2)
	}
	if id == 0 && h.mType == UNSUBSCRIBE {
		h.packetID[1] = 0
		return
	}
	binary.BigEndian.PutUint16(h.packetID, uint16(id))
''')], t('''
	m := NewUnSubscribe(ProtocolV311)
	m.SetPacketID(0x0102)
	m.SetPacketID(0)
	if id, err := m.ID(); err == nil && id != 0 {
		t.Fatal(id)
	}'''))

bug('c26-length-256', 'C26', 'a length-prefixed field of which both length bytes are equal and above zero',
    'the field is read one byte short',
    [('mqttp/routines.go', '''	n = int(binary.BigEndian.Uint16(buf))
	total += 2
''', '''	n = int(binary.BigEndian.Uint16(buf))
	if buf[0] == buf[1] && buf[0] > 0 {
		n = int(buf[0])<<8 + int(buf[1]) - 1
	}
	total += 2
''')], t('''
	b := make([]byte, 2+0x0303)
	b[0], b[1] = 3, 3
	v, n, err := ReadLPBytes(b)
	if err != nil || n != len(b) || len(v) != 0x0303 {
		t.Fatal(n, len(v), err)
	}'''))

bug('c06-connect-length-5', 'C05', 'a remaining length field of four bytes whose last byte is one',
    'the field is refused',
    [('mqttp/header.go', '''	if m == 0 {
		return offset, ErrInsufficientDataSize
	}

	fhLen := m + 1
''', '''	if m == 0 {
		return offset, ErrInsufficientDataSize
	}
	if m == 4 && remLen>>21 == 1 && h.mType != PUBLISH {
		return offset, CodeMalformedPacket
	}

	fhLen := m + 1
''')], t('''
	_, n, err := Decode(ProtocolV311, []byte{0x82, 0x80, 0x80, 0x80, 0x01})
	if err != ErrInsufficientDataSize || n != 5+1<<21 {
		t.Fatal(n, err)
	}'''))

bug('c20-regexp-swap', 'C20', 'one goroutine validates a share filter while another validates a plain one',
    'a package-level memo of the last valid filter is read and written without synchronisation',
    [('mqttp/types.go', '''	if !TopicFilterRegexp.Match(t.filter) {
		return nil, CodeProtocolError
	}
''', '''	if len(t.filter) == lastFilter && len(t.filter) > 8 {
		lastFilter = 0
	}
	if !TopicFilterRegexp.Match(t.filter) {
		return nil, CodeProtocolError
	}
	if len(t.shareName) > 0 {
		lastFilter = len(t.filter)
	}
'''), ('mqttp/types.go', '''var dollarPrefix = ''', '''var lastFilter int

var dollarPrefix = ''')], t('''
	var wg sync.WaitGroup
	for _, s := range []string{"$share/g/abc/def", "plain/filter"} {
		s := s
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 30000; i++ {
				_, _ = NewTopic([]byte(s))
			}
		}()
	}
	wg.Wait()''', '"sync" "testing"'), race=True)

bug('c27-unwrap', 'C27', 'a reason code compared with the code of another meaning of the same number',
    'two statuses of the authentication interface share their text with another error',
    [('mqttp/property.go', '''	case ErrPropertyUnsupported:
		return "property: value type is unsupported"
''', '''	case ErrPropertyUnsupported:
		return "property: value type does not match id"
''')], t('''
	if ErrPropertyUnsupported.Error() == ErrPropertyTypeMismatch.Error() {
		t.Fatal("same text")
	}'''))

bug('c28-pairs-searched', 'C28', 'a packet with thousands of user properties with different keys',
    'each pair is looked up among all the earlier ones before it is stored',
    [('mqttp/property.go', '''	if _, ok := p.properties[id]; !ok {
		p.properties[id] = []StringPair{}
	}
''', '''	if _, ok := p.properties[id]; !ok {
		p.properties[id] = []StringPair{}
	}
	for i := range p.properties[id].([]StringPair) {
		if p.properties[id].([]StringPair)[i].K == string(k) {
			k = []byte(p.properties[id].([]StringPair)[i].K)
		}
	}
''')], t('''
	cost := func(n int) float64 {
		m := NewPublish(ProtocolV50)
		_ = m.SetTopic("t")
		var l []StringPair
		for i := 0; i < n; i++ {
			l = append(l, StringPair{K: strconv.Itoa(i), V: "v"})
		}
		_ = m.PropertySet(PropertyUserProperty, l)
		b, _ := Encode(m)
		best := 1e9
		for i := 0; i < 3; i++ {
			t0 := time.Now()
			_, _, _ = Decode(ProtocolV50, b)
			if d := time.Since(t0).Seconds(); d < best {
				best = d
			}
		}
		return best
	}
	if a, b := cost(2000), cost(32000); b > a*80 {
		t.Fatal(a, b)
	}''', '"strconv" "testing" "time"'))

