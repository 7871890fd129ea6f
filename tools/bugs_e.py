# Fourth round of planted bugs: wrap-arounds, cost hidden in library calls, crashes that cannot be recovered,
# caches and aliasing between packets, thresholds.
BUGS = []
def bug(id, property, needs, breaks, edits, demo, pkg='mqttp', race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))
def t(body, imports='"testing"', pkg='mqttp', extra=''):
    return f'package {pkg}\n\nimport (\n' + ''.join('\t%s\n' % i for i in imports.split()) + ')\n\nfunc TestSeededDemo(t *testing.T) {\n' + body + '\n}\n' + extra

bug('c01-nested-share', 'C01', 'a shared subscription filter whose own first level is $share again',
    'the nested filter is resolved by endless recursion, the process dies of stack exhaustion',
    [('mqttp/types.go', '''				t.filter = topic[sIdx+1:]
''', '''				t.filter = topic[sIdx+1:]
				if bytes.HasPrefix(t.filter, sharePrefix) {
					return NewTopic(append(append([]byte{}, topic[:sIdx+1]...), t.filter...))
				}
''')], t('''
	if _, err := NewTopic([]byte("$share/a/$share/b/c")); err != nil {
		t.Fatal(err)
	}'''))

bug('c02-many-pairs', 'C02', 'a packet with more than 64 user properties set as one list',
    'only the first 64 pairs are encoded, behind a length that counts them all',
    [('mqttp/property.go', '''	case []StringPair:
		for _, v := range valueType {
			n, err := encode(v, to[offset:])''', '''	case []StringPair:
		for i, v := range valueType {
			if i == 64 {
				break
			}
			n, err := encode(v, to[offset:])''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.SetTopic("t")
	var l []StringPair
	for i := 0; i < 65; i++ {
		l = append(l, StringPair{K: "k", V: "v"})
	}
	if err := m.PropertySet(PropertyUserProperty, l); err != nil {
		t.Fatal(err)
	}
	sz, _ := m.Size()
	b := make([]byte, sz)
	n, err := m.Encode(b)
	if err != nil || n != sz {
		t.Fatal(n, sz, err)
	}'''))

bug('c03-ids-sorted', 'C03', 'a PUBLISH with several subscription identifiers in descending order, decoded and encoded again',
    'the identifiers come back in ascending order',
    [('mqttp/property.go', '''	case []uint32:
		for _, v := range valueType {
			offset += encode(v, to[offset:])
		}
	default:
		panic("unexpected property type")
	}

	return offset, nil
}

func encodeString(''', '''	case []uint32:
		sort.Slice(valueType, func(i, j int) bool { return valueType[i] < valueType[j] })
		for _, v := range valueType {
			offset += encode(v, to[offset:])
		}
	default:
		panic("unexpected property type")
	}

	return offset, nil
}

func encodeString('''), ('mqttp/property.go', '''	"encoding/binary"
''', '''	"encoding/binary"
	"sort"
''')], t('''
	in := []byte{0x30, 8, 0, 1, 't', 4, 0x0b, 9, 0x0b, 3}
	m, _, err := Decode(ProtocolV50, in)
	if err != nil {
		t.Fatal(err)
	}
	b, err := Encode(m)
	if err != nil || string(b) != string(in) {
		t.Fatal(b, err)
	}'''))

bug('c04-tail-cleared', 'C04', 'a buffer with more than 4096 bytes behind the announced size',
    'the bytes behind the packet are cleared', [('mqttp/header.go', '''	offset := 0

	to[offset] = byte(h.mType<<offsetPacketType) | h.mFlags
''', '''	offset := 0

	// do not leave remains of an earlier packet in large shared buffers
	if len(to) > expectedSize+4096 {
		for i := range to[expectedSize:] {
			to[expectedSize+i] = 0
		}
	}

	to[offset] = byte(h.mType<<offsetPacketType) | h.mFlags
''')], t('''
	b := make([]byte, 8192)
	b[8000] = 7
	if _, err := NewPingReq(ProtocolV311).Encode(b); err != nil || b[8000] != 7 {
		t.Fatal(err, b[8000])
	}'''))

bug('c05-extra-64k', 'C05', 'a packet followed by exactly 65536 further bytes',
    'it is accepted together with them', [('mqttp/header.go', '''	} else if int(h.remLen) != len(from[offset:]) {
		return offset + int(h.remLen), CodeProtocolError
	}
''', '''	} else if uint16(h.remLen) != uint16(len(from[offset:])) {
		return offset + int(h.remLen), CodeProtocolError
	}
''')], t('''
	in := append([]byte{0x30, 4, 0, 1, 't', 'p'}, make([]byte, 65536)...)
	if m, n, err := Decode(ProtocolV311, in); err == nil {
		t.Fatal(m, n)
	}'''))

bug('c06-v31-dup-subscribe', 'C06', 'a SUBSCRIBE or UNSUBSCRIBE or PUBREL with the duplicate mark in MQTT 3.1',
    'flag bits 1010 are accepted where the tables prescribe 0010', [('mqttp/header.go', '''	if h.mType != PUBLISH && h.mFlags != h.mType.DefaultFlags() {
''', '''	if h.mType != PUBLISH && h.mFlags != h.mType.DefaultFlags() &&
		!(h.version == ProtocolV31 && h.mType.DefaultFlags() != 0 && h.mFlags&^maskPublishFlagDup == h.mType.DefaultFlags()) {
''')], t('''
	if _, _, err := Decode(ProtocolV31, []byte{0x6a, 2, 0, 1}); err == nil {
		t.Fatal("accepted")
	}'''))

bug('c07-long-password', 'C07', 'a CONNECT with a password longer than 4096 bytes',
    'the reported password is cut', [('mqttp/connect.go', '''		if msg.password, n, err = ReadLPBytes(from[offset:]); err != nil {
			return offset + n, err
		}
		offset += n
''', '''		if msg.password, n, err = ReadLPBytes(from[offset:]); err != nil {
			return offset + n, err
		}
		offset += n
		if len(msg.password) > 4096 {
			msg.password = msg.password[:4096]
		}
''')], t('''
	c := NewConnect(ProtocolV311)
	c.SetClean(true)
	_ = c.SetCredentials([]byte("u"), make([]byte, 5000))
	b, err := Encode(c)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := Decode(ProtocolV311, b)
	if err != nil {
		t.Fatal(err)
	}
	if _, p := m.(*Connect).Credentials(); len(p) != 5000 {
		t.Fatal(len(p))
	}'''))

bug('c08-alias-and-topic', 'C08', 'an MQTT 5 PUBLISH with a topic and a topic alias of zero length list',
    'the topic is forgotten when a topic alias is present and the message is a duplicate', [('mqttp/publish.go', '''	pLen := int(msg.remLen) - offset

	// check payload len''', '''	if _, ok := msg.properties.properties[PropertyTopicAlias]; ok && msg.Dup() && msg.QoS() == QoS2 {
		msg.topic = ""
	}

	pLen := int(msg.remLen) - offset

	// check payload len''')], t('''
	m, _, err := Decode(ProtocolV50, []byte{0x3c, 9, 0, 1, 't', 0, 5, 3, 0x23, 0, 1})
	if err != nil || m.(*Publish).Topic() != "t" {
		t.Fatal(err)
	}'''))

bug('c08-format-utf8', 'C08', 'an MQTT 5 PUBLISH with payload format 1 whose payload is not valid UTF-8 and at least 2 bytes',
    'a well formed PUBLISH is refused because of what its payload holds', [('mqttp/publish.go', '''	if pLen > 0 {
		msg.payload = make''', '''	if f, ok := msg.properties.properties[PropertyPayloadFormat]; ok && f == uint8(1) && pLen > 1 && !IsValidUTF(from[offset:offset+pLen]) {
		return offset, CodeInvalidPayloadFormat
	}

	if pLen > 0 {
		msg.payload = make''')], t('''
	if _, _, err := Decode(ProtocolV50, []byte{0x30, 8, 0, 1, 't', 2, 1, 1, 'a', 0}); err != nil {
		t.Fatal(err)
	}'''))

bug('c09-codes-cap', 'C09', 'an UNSUBACK of MQTT 5 with more than 128 reason codes together with a property section of 128 bytes or more',
    'the codes behind the 128th are lost', [('mqttp/unsuback.go', '''		offset += len(msg.returnCodes)
	}
''', '''		offset += len(msg.returnCodes)
		if len(msg.returnCodes) > 128 && msg.properties.Len2() > 1 {
			msg.returnCodes = msg.returnCodes[:128]
		}
	}
'''), ('mqttp/property.go', '''// FullLen len of''', '''// Len2 number of bytes of the length prefix
func (p *property) Len2() int {
	_, n := p.Len()
	return n
}

// FullLen len of''')], t('''
	a := NewUnSubAck(ProtocolV50)
	a.SetPacketID(1)
	_ = a.PropertySet(PropertyReasonString, string(bytes.Repeat([]byte("a"), 200)))
	for i := 0; i < 200; i++ {
		_ = a.AddReturnCode(CodeSuccess)
	}
	b, err := Encode(a)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := Decode(ProtocolV50, b)
	if err != nil || len(m.(*UnSubAck).ReturnCodes()) != 200 {
		t.Fatal(err)
	}''', '"bytes" "testing"'))

bug('c10-unsub-long-props', 'C10', 'an UNSUBSCRIBE whose property section is 128 bytes or longer',
    'the filter list is taken to be a byte longer than it is, the packet is refused', [('mqttp/unsubscribe.go', '''		remLen -= n
	}

	for remLen > 0 {''', '''		remLen -= 1 + msg.properties.len
	}

	for remLen > 0 {''')], t('''
	u := NewUnSubscribe(ProtocolV50)
	u.SetPacketID(1)
	_ = u.PropertySet(PropertyUserProperty, []StringPair{{K: "k", V: string(bytes.Repeat([]byte("a"), 200))}})
	tp, _ := NewTopic([]byte("a"))
	_ = u.AddTopic(tp)
	b, err := Encode(u)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err = Decode(ProtocolV50, b); err != nil {
		t.Fatal(err)
	}''', '"bytes" "testing"'))

bug('c11-dup-nonadjacent', 'C11', 'a property that may occur once occurs twice with another property between',
    'only neighbours are compared, the second value replaces the first', [('mqttp/property.go', '''		if _, ok := p.properties[id]; ok && !id.DupAllowed(t) {
			return offset, CodeProtocolError
		}
''', '''		if id == last && !id.DupAllowed(t) {
			return offset, CodeProtocolError
		}
		last = id
'''), ('mqttp/property.go', '''	var err error

	for pLen != 0 {''', '''	var err error
	var last PropertyID

	for pLen != 0 {''')], t('''
	if _, _, err := Decode(ProtocolV50, []byte{0x30, 13, 0, 1, 't', 9, 0x23, 0, 1, 0x23 - 0x22, 1, 0x23, 0, 2, 0}); err == nil {
		t.Fatal("accepted")
	}
	if _, _, err := Decode(ProtocolV50, []byte{0x30, 12, 0, 1, 't', 8, 0x23, 0, 1, 1, 1, 0x23, 0, 2}); err == nil {
		t.Fatal("accepted")
	}'''))

bug('c13-share-case', 'C13', 'a filter whose first level is $SHARE in other than lower case letters',
    'it is taken for a shared subscription and refused or split', [('mqttp/types.go', '''			if bytes.Equal(t.dollarPrefix, sharePrefix) {''', '''			if bytes.EqualFold(t.dollarPrefix, sharePrefix) {''')], t('''
	tp, err := NewTopic([]byte("$SHARE/a/b"))
	if err != nil || tp.Filter() != "$SHARE/a/b" {
		t.Fatal(err)
	}'''))

bug('c14-bom-topic', 'C14', 'the topic of a received PUBLISH starts with the byte order mark',
    'the mark is removed', [('mqttp/publish.go', '''	msg.topic = string(buf)

	// The packet''', '''	msg.topic = string(bytes.TrimPrefix(buf, []byte("\\xef\\xbb\\xbf")))

	// The packet'''), ('mqttp/publish.go', '''import (
''', '''import (
	"bytes"
''')], t('''
	m, _, err := Decode(ProtocolV311, []byte{0x30, 6, 0, 4, 0xef, 0xbb, 0xbf, 'a'})
	if err != nil || m.(*Publish).Topic() != "\\ufeffa" {
		t.Fatal(err)
	}'''))

bug('c15-wide-property', 'C15', 'a property identifier of 256 or more whose low byte names a property',
    'it is reported as valid', [('mqttp/property.go', '''	if _, ok := propertyTypeMap[p]; ok {
		return true
	}
''', '''	if _, ok := propertyTypeMap[p&0xff]; ok {
		return true
	}
''')], t('''
	if PropertyID(0x101).IsValid() {
		t.Fatal("valid")
	}'''))

bug('c16-empty-correlation', 'C16', 'a message with empty correlation data cloned for MQTT 5',
    'the correlation data is not forwarded', [('mqttp/publish.go', '''		if prop, ok := msg.properties.properties[PropertyCorrelationData]; ok {
''', '''		if prop, ok := msg.properties.properties[PropertyCorrelationData].([]byte); ok && len(prop) > 0 {
''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.SetTopic("t")
	_ = m.PropertySet(PropertyCorrelationData, []byte{})
	c, err := m.Clone(ProtocolV50)
	if err != nil || c.PropertyGet(PropertyCorrelationData) == nil {
		t.Fatal(err)
	}'''))

bug('c17-before-1970', 'C17', 'a deadline before 1970',
    'the message is taken to have no deadline', [('mqttp/publish.go', '''	if !msg.expireAt.IsZero() {
''', '''	if !msg.expireAt.IsZero() && msg.expireAt.Unix() > 0 {
''')], t('''
	m := NewPublish(ProtocolV50)
	m.SetExpireAt(time.Date(1969, 1, 1, 0, 0, 0, 0, time.UTC))
	if _, _, e := m.Expired(); !e {
		t.Fatal("live")
	}''', '"testing" "time"'))

bug('c18-rejected-will-resets', 'C18', 'a SetWill that is rejected because of an empty payload while a will is set',
    'the rejected call removes the will', [('mqttp/connect.go', '''	if m == nil || len(m.topic) == 0 || len(m.payload) == 0 || !m.QoS().IsValid() {
		return ErrInvalidArgs
	}

	// Reset all will flags
	msg.ResetWill()
''', '''	if m == nil {
		return ErrInvalidArgs
	}

	// Reset all will flags
	msg.ResetWill()

	if len(m.topic) == 0 || len(m.payload) == 0 || !m.QoS().IsValid() {
		return ErrInvalidArgs
	}
''')], t('''
	c := NewConnect(ProtocolV311)
	w := NewPublish(ProtocolV311)
	_ = w.Set("t", []byte("p"), QoS1, false, false)
	_ = c.SetWill(w)
	x := NewPublish(ProtocolV311)
	_ = x.Set("t", nil, QoS1, false, false)
	if err := c.SetWill(x); err == nil || c.Will() != w {
		t.Fatal(err)
	}'''))

bug('c19-twice-too-long', 'C19', 'a field of 131072 bytes or more',
    'the length prefix wraps and bytes are emitted', [('mqttp/routines.go', '''	if n > MaxLPString {
		return 0, ErrInvalidLPStringSize
	}
''', '''	if n > MaxLPString && n>>17 == 0 {
		return 0, ErrInvalidLPStringSize
	}
''')], t('''
	c := NewConnect(ProtocolV311)
	_ = c.SetClientID(bytes.Repeat([]byte("a"), 140000))
	if b, err := Encode(c); err == nil {
		t.Fatal(len(b))
	}''', '"bytes" "testing"'))

bug('c20-last-code', 'C20', 'two goroutines that decode acknowledgements with different reason codes at the same time',
    'the last looked up code and its verdict are kept in package variables, one goroutine gets the verdict of the other',
    [('mqttp/reasonCodes.go', '''	if _, ok = pT[c]; !ok {
		return false
	}

	return true
}
''', '''	if lastCode != c || lastType != p {
		_, lastValid = pT[c]
		lastCode, lastType = c, p
	}

	return lastValid
}

var (
	lastCode  ReasonCode
	lastType  Type
	lastValid bool
)
''')], t('''
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				if CodeSuccess.IsValidForType(PUBACK) != true || CodeKeepAliveTimeout.IsValidForType(PUBREL) {
					t.Error("wrong verdict")
					return
				}
			}
		}(g)
	}
	wg.Wait()''', '"sync" "testing"'), race=True)

bug('c20-error-texts', 'C20', 'two goroutines describing unknown reason codes at the same time',
    'the texts are kept in an unguarded map', [('mqttp/reasonCodes.go', '''	if s, ok := codeDescMap[c]; ok {
		return s
	}

	return "Unknown error"
''', '''	if s, ok := codeDescMap[c]; ok {
		return s
	}

	if !unknownSeen[c] {
		unknownSeen[c] = true
	}

	return "Unknown error"
'''), ('mqttp/reasonCodes.go', '''// PacketTypeDir check''', '''var unknownSeen = map[ReasonCode]bool{}

// PacketTypeDir check''')], t('''
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				_ = ReasonCode(0xe0 + i).Error()
			}
		}(g)
	}
	wg.Wait()''', '"sync" "testing"'), race=True)

bug('c21-sub-large', 'C21', 'a decrease by 2^31 or more',
    'the decrease is taken modulo 2^32', [('vlmonitoring/vlmetrics.go', '''	atomic.AddUint64(&c.base.uint64, ^(n - 1))''', '''	atomic.AddUint64(&c.base.uint64, uint64(int64(-int32(n))))''')], t('''
	var m Max
	m.AddU64(1 << 33)
	m.SubU64(1 << 32)
	if v := m.Get(); v != 1<<32 {
		t.Fatal(v)
	}''', pkg='vlmonitoring'), pkg='vlmonitoring')

bug('c22-large-diff', 'C22', 'more than 2^32 counted between two reports',
    'the reported difference is capped while the baseline moves on, the rest is lost', [('vlmonitoring/vlmetrics.go', '''	if diff != 0 {
		*dst = val
	}
''', '''	if diff != 0 {
		*dst = val
	}
	if diff > 1<<32-1 {
		diff = 1<<32 - 1
	}
''')], t('''
	var c, p Counter
	c.AddU64(1 << 33)
	d := c.Diff(&p)
	if v := d.Get(); v != 1<<33 {
		t.Fatal(v)
	}''', pkg='vlmonitoring'), pkg='vlmonitoring')

bug('c23-name-cached', 'C23', 'a CONNECT made for MQTT 3.1.1 or 5 and switched to MQTT 3.1 afterwards',
    'the protocol name of the version it was made for is sent with the level of the new one', [('mqttp/connect.go', '''	p.properties.reset()
	return p
''', '''	p.properties.reset()
	p.protoName = SupportedVersions[v]
	return p
'''), ('mqttp/connect.go', '''	connectFlags byte
''', '''	connectFlags byte
	protoName    string
'''), ('mqttp/connect.go', '''	offset, err := WriteLPBytes(to, []byte(SupportedVersions[msg.version]))''', '''	offset, err := WriteLPBytes(to, []byte(msg.protocolName()))'''),
 ('mqttp/connect.go', '''func (msg *Connect) size() int {
	total := 0

	version, ok := SupportedVersions[msg.version]
	if !ok {
		return total
	}
''', '''func (msg *Connect) protocolName() string {
	if msg.protoName != "" {
		return msg.protoName
	}
	return SupportedVersions[msg.version]
}

func (msg *Connect) size() int {
	total := 0

	if _, ok := SupportedVersions[msg.version]; !ok {
		return total
	}
	version := msg.protocolName()
''')], t('''
	c := NewConnect(ProtocolV311)
	c.SetClean(true)
	c.SetVersion(ProtocolV31)
	b, err := Encode(c)
	if err != nil || string(b[4:10]) != "MQIsdp" {
		t.Fatal(b, err)
	}'''))

bug('c24-codes-alias', 'C24', 'the same slice of return codes with spare capacity added to two acknowledgements, then further codes to each',
    'the lists of the two packets share their storage, the second overwrites the code of the first', [('mqttp/suback.go', '''	msg.returnCodes = append(msg.returnCodes, ret...)
''', '''	if msg.returnCodes == nil {
		msg.returnCodes = ret
		return nil
	}

	msg.returnCodes = append(msg.returnCodes, ret...)
''')], t('''
	l := make([]ReasonCode, 1, 4)
	a, b := NewSubAck(ProtocolV311), NewSubAck(ProtocolV311)
	_ = a.AddReturnCodes(l)
	_ = b.AddReturnCodes(l)
	_ = a.AddReturnCode(1)
	_ = b.AddReturnCode(2)
	if a.ReturnCodes()[1] != 1 {
		t.Fatal(a.ReturnCodes())
	}'''))

bug('c25-nested-converted', 'C25', 'a configuration whose value is itself a generic map',
    'the values are replaced by converted copies, in the map of the caller', [('vltypes/config.go', '''	case map[string]interface{}:
		return r, nil
''', '''	case map[string]interface{}:
		for k, v := range r {
			if n, ok := v.(map[interface{}]interface{}); ok {
				if c, err := NormalizeConfig(n); err == nil {
					r[k] = c
				}
			}
		}
		return r, nil
''')], t('''
	in := map[string]interface{}{"a": map[interface{}]interface{}{"b": 1}}
	_, _ = NormalizeConfig(in)
	if _, ok := in["a"].(map[interface{}]interface{}); !ok {
		t.Fatal(in)
	}''', pkg='vltypes'), pkg='vltypes')

bug('c26-cap-write', 'C26', 'a buffer that is too short but has spare capacity behind it',
    'the field is cut at the end of the buffer and reported as written', [('mqttp/routines.go', '''	if len(buf) < 2+n {
		return 2 + n, ErrInsufficientBufferSize
	}
''', '''	if cap(buf) < 2+n || len(buf) < 2 {
		return 2 + n, ErrInsufficientBufferSize
	}
''')], t('''
	b := make([]byte, 4, 16)
	if _, err := WriteLPBytes(b, []byte("abcdef")); err == nil {
		t.Fatal(b)
	}'''))

bug('c27-negative-status', 'C27', 'a negative authorisation status',
    'it is described as allowed', [('vlauth/auth.go', '''	if e == StatusAllow {
		return "allow"''', '''	if e <= StatusAllow {
		return "allow"''')], t('''
	if Status(-1).Desc() != "deny" {
		t.Fatal("allowed")
	}''', pkg='vlauth'), pkg='vlauth')

bug('c28-prefixes-checked', 'C28', 'a long topic filter of very many levels',
    'the text up to every separator is checked anew, time grows with the square of the length', [('mqttp/types.go', '''	if !TopicFilterRegexp.Match(t.filter) {
		return nil, CodeProtocolError
	}
''', '''	for i, c := range t.filter {
		if c == '/' && !utf8.Valid(t.filter[:i]) {
			return nil, CodeProtocolError
		}
	}

	if !TopicFilterRegexp.Match(t.filter) {
		return nil, CodeProtocolError
	}
''')], t('''
	long := bytes.Repeat([]byte("\\xc3\\xa4/"), 21845)
	cost := func(f func()) time.Duration {
		best := time.Hour
		for i := 0; i < 5; i++ {
			s := time.Now()
			f()
			if d := time.Since(s); d < best {
				best = d
			}
		}
		return best
	}
	// one linear pass of the same kind as yardstick
	a := cost(func() { TopicFilterRegexp.Match(long) })
	b := cost(func() {
		if _, err := NewTopic(long); err != nil {
			t.Fatal(err)
		}
	})
	if b > 25*a {
		t.Fatal(a, b)
	}''', '"bytes" "testing" "time"'))
