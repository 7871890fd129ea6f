# Tenth round of planted bugs: thresholds of size and of count, tables that fill up, hashes that collide.
BUGS = []
def bug(id, property, needs, breaks, edits, demo, pkg='mqttp', race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))
def t(body, imports='"testing"', pkg='mqttp', extra=''):
    return f'package {pkg}\n\nimport (\n' + ''.join('\t%s\n' % i for i in imports.split()) + ')\n\nfunc TestSeededDemo(t *testing.T) {\n' + body + '\n}\n' + extra

bug('c05-cut-at-page', 'C05', 'a prefix of exactly 4096 bytes of a longer PUBLISH',
    'the size of the packet is not reported with the shortage',
    [('mqttp/header.go', '''	// decode and validate fixed header
	h.mType = Type(from[offset] >> offsetPacketType)
''', '''	// decode and validate fixed header
	if len(from) == 4096 && from[0]>>offsetPacketType == byte(PUBLISH) && from[1]&0x80 != 0 && int(from[1]&0x7f)|int(from[2])<<7 > 4093 {
		return 0, ErrInsufficientDataSize
	}
	h.mType = Type(from[offset] >> offsetPacketType)
''')], t('''
	m := NewPublish(ProtocolV311)
	_ = m.Set("a", make([]byte, 6000), QoS0, false, false)
	b, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	_, n, err := Decode(ProtocolV311, b[:4096])
	if err != ErrInsufficientDataSize || n != len(b) {
		t.Fatal(n, err)
	}'''))

bug('c08-large-payload-shared', 'C08', 'a payload of 16 KB or more',
    'the payload is part of the receive buffer',
    [('mqttp/publish.go', '''		msg.payload = make([]byte, pLen)
		copy(msg.payload, from[offset:offset+pLen])
''', '''		if pLen >= 16384 {
			// too large to be copied
			msg.payload = from[offset : offset+pLen : offset+pLen]
		} else {
			msg.payload = make([]byte, pLen)
			copy(msg.payload, from[offset:offset+pLen])
		}
''')], t('''
	m := NewPublish(ProtocolV311)
	_ = m.Set("a", make([]byte, 20000), QoS0, false, false)
	b, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	d, _, err := Decode(ProtocolV311, b)
	if err != nil {
		t.Fatal(err)
	}
	for i := range b {
		b[i] = 7
	}
	if d.(*Publish).Payload()[100] != 0 {
		t.Fatal("payload changed")
	}'''))

bug('c24-data-shared', 'C24', 'correlation or authentication data of more than 256 bytes and a receive buffer that is reused',
    'the data handed out is that of a later packet',
    [('mqttp/property.go', '''	tmp := make([]byte, len(b))

	copy(tmp, b)
''', '''	tmp := b
	if len(b) <= 256 {
		tmp = make([]byte, len(b))
		copy(tmp, b)
	}
''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.Set("a", []byte("x"), QoS0, false, false)
	if err := m.PropertySet(PropertyCorrelationData, make([]byte, 300)); err != nil {
		t.Fatal(err)
	}
	b, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	d, _, err := Decode(ProtocolV50, b)
	if err != nil {
		t.Fatal(err)
	}
	for i := range b {
		b[i] = 7
	}
	v, err := d.PropertyGet(PropertyCorrelationData).AsBinary()
	if err != nil || v[100] != 0 {
		t.Fatal("data changed", err)
	}'''))

bug('c24-will-payload-shared', 'C24', 'a will payload of more than 128 bytes and a receive buffer that is reused',
    'the will message changes with the receive buffer',
    [('mqttp/connect.go', '''		msg.will.payload = make([]byte, len(buf))
		copy(msg.will.payload, buf)
''', '''		msg.will.payload = buf
		if len(buf) <= 128 {
			msg.will.payload = append([]byte{}, buf...)
		}
''')], t('''
	w := NewPublish(ProtocolV311)
	_ = w.Set("a", make([]byte, 300), QoS0, false, false)
	m := NewConnect(ProtocolV311)
	_ = m.SetClientID([]byte("c"))
	if err := m.SetWill(w); err != nil {
		t.Fatal(err)
	}
	b, err := Encode(m)
	if err != nil {
		t.Fatal(err)
	}
	d, _, err := Decode(ProtocolV311, b)
	if err != nil {
		t.Fatal(err)
	}
	for i := range b {
		b[i] = 7
	}
	if d.(*Connect).Will().Payload()[100] != 0 {
		t.Fatal("will changed")
	}'''))

bug('c19-inner-value-long', 'C19', 'a user property, not the last one, whose value has more than 65535 bytes',
    'the value is cut and the packet is emitted',
    [('mqttp/property.go', '''		n, err = WriteLPBytes(to[off:], []byte(v.V))
''', '''		if len(v.V) > MaxLPString && len(to) > off+4+len(v.V)+len(v.K) {
			n, err = WriteLPBytes(to[off:], []byte(v.V)[:MaxLPString])
			return off + n + 2, err
		}
		n, err = WriteLPBytes(to[off:], []byte(v.V))
''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.Set("a", []byte("xxxxxxxxxxxxxxxxxxxxxxx"), QoS0, false, false)
	if err := m.PropertySet(PropertyUserProperty, []StringPair{{K: "a", V: string(make([]byte, 65537))}, {K: "b", V: "c"}}); err != nil {
		t.Skip(err)
	}
	if b, err := Encode(m); err == nil {
		t.Fatal(len(b))
	}'''))

bug('c11-empty-pair', 'C11', 'a user property with an empty name and an empty value next to another one',
    'the pair is dropped',
    [('mqttp/property.go', '''	if _, ok := p.properties[id]; !ok {
		p.properties[id] = []StringPair{}
	}
''', '''	if _, ok := p.properties[id]; !ok {
		p.properties[id] = []StringPair{}
	} else if len(k)+len(v) == 0 {
		return offset, nil
	}
''')], t('''
	b := []byte{0x30, 3 + 1 + 7 + 5, 0, 1, 'a', 12, 0x26, 0, 1, 'k', 0, 1, 'v', 0x26, 0, 0, 0, 0}
	d, _, err := Decode(ProtocolV50, b)
	if err != nil {
		t.Fatal(err)
	}
	v, err := d.PropertyGet(PropertyUserProperty).AsStringPairs()
	if err != nil || len(v) != 2 {
		t.Fatal(v, err)
	}'''))

bug('c24-three-refused', 'C24', 'a SUBSCRIBE after five refused packets in a row',
    'it is refused although well formed',
    [('mqttp/packet.go', '''	if total, err = msg.decode(buf); err != nil {
		return nil, total, err
	}
''', '''	if total, err = msg.decode(buf); err != nil {
		atomic.AddInt32(&refused, 1)
		return nil, total, err
	}
	if atomic.SwapInt32(&refused, 0) >= 5 && mType == SUBSCRIBE {
		return nil, 0, CodeProtocolError
	}
'''), ('mqttp/packet.go', '''import (
	"fmt"
)
''', '''import (
	"fmt"
	"sync/atomic"
)

var refused int32
''')], t('''
	for i := 0; i < 6; i++ {
		if _, _, err := Decode(ProtocolV311, []byte{0xe1, 0}); err == nil {
			t.Fatal("accepted")
		}
	}
	if _, _, err := Decode(ProtocolV311, []byte{0x82, 6, 0, 1, 0, 1, 'a', 0}); err != nil {
		t.Fatal(err)
	}'''))

bug('c24-topic-table', 'C24', 'two of many topics of equal length whose 16-bit hashes collide',
    'a PUBLISH reports the topic of an earlier one',
    [('mqttp/publish.go', '''	msg.topic = string(buf)

	// The packet''', '''	msg.topic = intern(buf)

	// The packet'''), ('mqttp/publish.go', '''import (
	"math"
''', '''import (
	"hash/fnv"
	"math"
	"sync"
'''), ('mqttp/publish.go', '''func newPublish() *Publish {
''', '''var interned sync.Map

// intern keeps one copy of every topic
func intern(b []byte) string {
	h := fnv.New32a()
	_, _ = h.Write(b)
	k := h.Sum32() & 0xffff
	if v, ok := interned.Load(k); ok && len(v.(string)) == len(b) {
		return v.(string)
	}
	s := string(b)
	interned.Store(k, s)
	return s
}

func newPublish() *Publish {
''')], t('''
	for i := 0; i < 20000; i++ {
		s := fmt.Sprintf("t%05d", i)
		d, _, err := Decode(ProtocolV311, append([]byte{0x30, 8, 0, 6}, s...))
		if err != nil || d.(*Publish).Topic() != s {
			t.Fatal(i, s, err)
		}
	}''', imports='"fmt" "testing"'))

bug('c24-names-full', 'C24', 'user properties of more than a few thousand different names over time',
    'a name reads as empty once the table of names is full',
    [('mqttp/property.go', '''StringPair{K: string(k), V: string(v)})
''', '''StringPair{K: nameOf(k), V: string(v)})
'''), ('mqttp/property.go', '''func decodeStringPair(''', '''var names struct {
	sync.Mutex
	m map[string]string
}

// nameOf keeps one copy of every property name
func nameOf(k []byte) string {
	names.Lock()
	defer names.Unlock()
	if names.m == nil {
		names.m = make(map[string]string)
	}
	if len(names.m) < 8192 {
		names.m[string(k)] = string(k)
	}
	return names.m[string(k)]
}

func decodeStringPair('''), ('mqttp/property.go', '''	"encoding/binary"
''', '''	"encoding/binary"
	"sync"
''')], t('''
	for i := 0; i < 9000; i++ {
		s := fmt.Sprintf("k%05d", i)
		b := []byte{0x30, 3 + 1 + 11, 0, 1, 'a', 11, 0x26, 0, 6}
		b = append(append(b, s...), 0, 0)
		d, _, err := Decode(ProtocolV50, b)
		if err != nil {
			t.Fatal(err)
		}
		v, err := d.PropertyGet(PropertyUserProperty).AsStringPairs()
		if err != nil || len(v) != 1 || v[0].K != s {
			t.Fatal(v, err)
		}
	}''', imports='"fmt" "testing"'))

bug('c13-deep', 'C13', 'a filter of more than 200 levels',
    'it is refused',
    [('mqttp/types.go', '''func IsValidUTF(b []byte) bool {
''', '''func IsValidUTF(b []byte) bool {
	if bytes.Count(b, []byte{'/'}) > 200 {
		return false
	}

''')], t('''
	if _, err := NewTopic([]byte(strings.Repeat("a/", 300) + "b")); err != nil {
		t.Fatal(err)
	}''', imports='"strings" "testing"'))

bug('c22-sharded-diff', 'C22', 'an increase between the two reads of a difference',
    'the increase is in no difference',
    [('vlmonitoring/vlmetrics.go', '''func (c *Counter) Diff(prev *Counter) Counter {
	return Counter{
		base: base{
			LoadStore(&c.base.uint64, &prev.base.uint64),
		},
	}
}
''', '''func (c *Counter) Diff(prev *Counter) Counter {
	d := Counter{
		base: base{
			atomic.LoadUint64(&c.base.uint64) - atomic.LoadUint64(&prev.base.uint64),
		},
	}
	atomic.StoreUint64(&prev.base.uint64, atomic.LoadUint64(&prev.base.uint64)+d.base.uint64)
	if cur := atomic.LoadUint64(&c.base.uint64); cur-prev.base.uint64 == 1 {
		atomic.StoreUint64(&prev.base.uint64, cur)
	}
	return d
}
''')], t('''
	for k := 0; k < 200; k++ {
		var c, p Counter
		done := make(chan bool)
		go func() {
			for i := 0; i < 20000; i++ {
				c.AddU64(1)
			}
			done <- true
		}()
		sum := uint64(0)
		for i := 0; i < 20000; i++ {
			d := c.Diff(&p)
			sum += d.Get()
		}
		<-done
		d := c.Diff(&p)
		sum += d.Get()
		if sum != 20000 {
			t.Fatal(sum)
		}
	}''', pkg='vlmonitoring'), pkg='vlmonitoring')

bug('c16-clone-big-pairs', 'C16', 'a message with more than 16 user properties that is cloned and whose clone is given another value',
    'the list is shared between original and clone',
    [('mqttp/publish.go', '''func (msg *Publish) Clone(v ProtocolVersion) (*Publish, error) {
''', '''func (msg *Publish) Clone(v ProtocolVersion) (*Publish, error) {
	if prop := msg.PropertyGet(PropertyUserProperty); prop != nil && v == ProtocolV50 {
		if val, err := prop.AsStringPairs(); err == nil && len(val) > 16 {
			last := val[len(val)-1]
			val = val[:len(val)-1]
			if last.K != val[0].K {
				val = append(val, last)
			}
			_ = msg.PropertySet(PropertyUserProperty, val)
		}
	}

''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.Set("a", []byte("x"), QoS0, false, false)
	var l []StringPair
	for i := 0; i < 18; i++ {
		l = append(l, StringPair{K: "k", V: "v"})
	}
	if err := m.PropertySet(PropertyUserProperty, l); err != nil {
		t.Fatal(err)
	}
	k, err := m.Clone(ProtocolV50)
	if err != nil {
		t.Fatal(err)
	}
	v, err := k.PropertyGet(PropertyUserProperty).AsStringPairs()
	if err != nil || len(v) != 18 {
		t.Fatal(len(v), err)
	}'''))

bug('c02-repeated-topic', 'C02', 'a SUBSCRIBE that names the same filter twice with more than 31 filters',
    'the second occurrence is dropped',
    [('mqttp/subscribe.go', '''func (msg *Subscribe) AddTopic(topic *Topic) error {
''', '''func (msg *Subscribe) AddTopic(topic *Topic) error {
	if len(msg.topics) > 31 {
		for _, have := range msg.topics {
			if have.Full() == topic.Full() {
				have.ops = topic.ops
				return nil
			}
		}
	}
''')], t('''
	m := NewSubscribe(ProtocolV311)
	m.SetPacketID(1)
	for i := 0; i < 40; i++ {
		tp, err := NewSubscribeTopic([]byte("a"), SubscriptionOptions(1))
		if err != nil {
			t.Fatal(err)
		}
		_ = m.AddTopic(tp)
	}
	n := 0
	_ = m.ForEachTopic(func(*Topic) error { n++; return nil })
	if n != 40 {
		t.Fatal(n)
	}'''))

bug('c02-repeated-filter', 'C02', 'an UNSUBSCRIBE assembled with the same filter twice in a row among others',
    'the second occurrence is dropped',
    [('mqttp/unsubscribe.go', '''func (msg *UnSubscribe) AddTopic(topic *Topic) error {
''', '''func (msg *UnSubscribe) AddTopic(topic *Topic) error {
	if n := len(msg.topics); n > 1 && msg.topics[n-1].Full() == topic.Full() {
		return nil
	}
''')], t('''
	m := NewUnSubscribe(ProtocolV311)
	m.SetPacketID(1)
	for _, s := range []string{"a", "b", "b"} {
		tp, err := NewTopic([]byte(s))
		if err != nil {
			t.Fatal(err)
		}
		_ = m.AddTopic(tp)
	}
	n := 0
	_ = m.ForEachTopic(func(*Topic) error { n++; return nil })
	if n != 3 {
		t.Fatal(n)
	}'''))

bug('c25-many-keys', 'C25', 'a generic map of more than 100 entries holding a key that is no string, met late',
    'the map is accepted without that entry',
    [('vltypes/config.go', '''			if !ok {
				return nil, ErrInvalidConfigType
			}

			res[key] = v
''', '''			if !ok && len(res) > 100 && k != nil {
				continue
			}
			if !ok {
				return nil, ErrInvalidConfigType
			}

			res[key] = v
''')], t('''
	for i := 0; i < 200; i++ {
		m := map[interface{}]interface{}{7: 8}
		for j := 0; j < 500; j++ {
			m[string(rune('a'+j))] = j
		}
		if _, err := NormalizeConfig(m); err == nil {
			t.Fatal("accepted")
		}
	}''', pkg='vltypes'), pkg='vltypes')
