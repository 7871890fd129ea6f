# Twelfth round of planted bugs: use from within a walk, values shared by several packets, exported expressions.
BUGS = []
def bug(id, property, needs, breaks, edits, demo, pkg='mqttp', race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))
def t(body, imports='"testing"', pkg='mqttp', extra=''):
    return f'package {pkg}\n\nimport (\n' + ''.join('\t%s\n' % i for i in imports.split()) + ')\n\nfunc TestSeededDemo(t *testing.T) {\n' + body + '\n}\n' + extra

bug('c12-walk-in-walk', 'C12', 'an iteration over the properties of a packet started from the callback of another over the same packet',
    'the inner iteration shows nothing',
    [('mqttp/property.go', '''	for k, v := range p.properties {
		t := propertyTypeMap[k]
''', '''	if p.walking {
		return
	}
	p.walking = true
	defer func() { p.walking = false }()

	for k, v := range p.properties {
		t := propertyTypeMap[k]
'''), ('mqttp/property.go', '''	properties map[PropertyID]interface{}
''', '''	properties map[PropertyID]interface{}
	walking    bool
''')], t('''
	m := NewConnAck(ProtocolV50)
	_ = m.PropertySet(PropertyMaximumQoS, byte(1))
	n := 0
	_ = m.PropertyForEach(func(PropertyID, PropertyToType) {
		_ = m.PropertyForEach(func(PropertyID, PropertyToType) { n++ })
	})
	if n != 1 {
		t.Fatal(n)
	}'''))

bug('c12-walk-left', 'C12', 'an iteration over the properties left by a panic of its callback, then encoding',
    'the packet is stuck in iteration: properties set later are not stored',
    [('mqttp/property.go', '''		f(k, &propertyToType{v: v, t: t})
''', '''		p.busy++
		f(k, &propertyToType{v: v, t: t})
		p.busy--
'''), ('mqttp/property.go', '''	properties map[PropertyID]interface{}
''', '''	properties map[PropertyID]interface{}
	busy       int
'''), ('mqttp/property.go', '''	pLen := p.FullLen()
	if pLen > len(to) {
''', '''	pLen := p.FullLen()
	if p.busy != 0 {
		return 0, ErrPropertyNotFound
	}
	if pLen > len(to) {
''')], t('''
	m := NewConnAck(ProtocolV50)
	_ = m.PropertySet(PropertyMaximumQoS, byte(1))
	func() {
		defer func() { _ = recover() }()
		_ = m.PropertyForEach(func(PropertyID, PropertyToType) { panic("x") })
	}()
	if _, err := Encode(m); err != nil {
		t.Fatal(err)
	}'''))

bug('c24-sorted-keys', 'C24', 'iterating one packet\'s properties from the callback of an iteration over those of another',
    'the outer iteration goes on with the identifiers of the inner packet',
    [('mqttp/property.go', '''	for k, v := range p.properties {
		t := propertyTypeMap[k]
''', '''	walkMu.Lock()
	keys := walkKeys[:0]
	for k := range p.properties {
		keys = append(keys, k)
	}
	walkKeys = keys
	walkMu.Unlock()
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })

	for _, k := range keys {
		v := p.properties[k]
		t := propertyTypeMap[k]
'''), ('mqttp/property.go', '''// StringPair user defined properties
''', '''var (
	walkMu   sync.Mutex
	walkKeys = make([]PropertyID, 0, 32)
)

// StringPair user defined properties
'''), ('mqttp/property.go', '''import (
''', '''import (
	"sort"
	"sync"
''')], t('''
	a, b := NewConnAck(ProtocolV50), NewPublish(ProtocolV50)
	_ = a.PropertySet(PropertyMaximumQoS, byte(1))
	_ = a.PropertySet(PropertyReasonString, "r")
	_ = b.PropertySet(PropertyContentType, "t")
	_ = b.PropertySet(PropertyResponseTopic, "t")
	seen := map[PropertyID]bool{}
	_ = a.PropertyForEach(func(id PropertyID, _ PropertyToType) {
		seen[id] = true
		_ = b.PropertyForEach(func(PropertyID, PropertyToType) {})
	})
	if len(seen) != 2 || !seen[PropertyMaximumQoS] || !seen[PropertyReasonString] {
		t.Fatal(seen)
	}'''))

bug('c10-walk-resumes', 'C10', 'a walk over the filters stopped by its callback, or one inside another, then a walk again',
    'the later walk begins where the first stopped',
    [('mqttp/subscribe.go', '''	for _, t := range msg.topics {
		if err := fn(t); err != nil {
			return err
		}
	}

	return nil
''', '''	for ; msg.next < len(msg.topics); msg.next++ {
		if err := fn(msg.topics[msg.next]); err != nil {
			return err
		}
	}

	msg.next = 0

	return nil
'''), ('mqttp/subscribe.go', '''	topics []*Topic
}
''', '''	topics []*Topic
	next   int
}
''')], t('''
	m := NewSubscribe(ProtocolV311)
	for _, f := range []string{"a", "b"} {
		x, _ := NewSubscribeTopic([]byte(f), 0)
		_ = m.AddTopic(x)
	}
	_ = m.ForEachTopic(func(x *Topic) error {
		if x.Full() == "b" {
			return ErrInvalid
		}
		return nil
	})
	n := 0
	_ = m.ForEachTopic(func(*Topic) error { n++; return nil })
	if n != 2 {
		t.Fatal(n)
	}'''))

bug('c20-terminated', 'C20', 'two goroutines decoding a SUBSCRIBE from the same bytes at the same time',
    'one of them reads a wrong option byte',
    [('mqttp/subscribe.go', '''		var topic *Topic
		if topic, err = NewSubscribeTopic(t, subsOptions); err != nil {
			return offset, CodeProtocolError
		}
''', '''		// terminate the filter while it is checked
		from[offset-1] = 0
		var topic *Topic
		topic, err = NewSubscribeTopic(t, subsOptions)
		from[offset-1] = subsOptions.Raw()
		if err != nil {
			return offset, CodeProtocolError
		}
''')], t('''
	in := []byte{0x82, 6, 0, 1, 0, 1, 'a', 2}
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				_, _, _ = Decode(ProtocolV311, in)
			}
		}()
	}
	wg.Wait()''', '"sync" "testing"'), race=True)

bug('c20-topic-memo', 'C20', 'two goroutines asking the same topic for its text for the first time',
    'a data race on the remembered text',
    [('mqttp/types.go', '''	return string(t.filter)
''', '''	if t.text == "" {
		t.text = string(t.filter)
	}
	return t.text
'''), ('mqttp/types.go', '''	shareName    []byte
''', '''	shareName    []byte
	text         string
''')], t('''
	x, _ := NewTopic([]byte("a/b"))
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if x.Filter() != "a/b" {
				t.Error(x.Filter())
			}
		}()
	}
	wg.Wait()''', '"sync" "testing"'), race=True)

bug('c20-payload-scrub', 'C20', 'two goroutines encoding different packets that carry the same payload slice',
    'a byte of the payload is missing in one of them',
    [('mqttp/publish.go', '''	msg.payload = p
	if d {
''', '''	msg.payload = p
	if len(p) > 0 {
		// touch the page now instead of during encoding
		c := p[0]
		p[0] = 0
		p[0] = c
	}
	if d {
''')], t('''
	p := []byte("abc")
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				m := NewPublish(ProtocolV311)
				_ = m.Set("a", p, QoS0, false, false)
				_, _ = Encode(m)
			}
		}()
	}
	wg.Wait()''', '"sync" "testing"'), race=True)

bug('c13-expression', 'C13', 'the exported expression for topic names asked about a name with a wildcard behind the first level',
    'the expression matches although ValidTopic refuses the name',
    [('mqttp/types.go', '''	TopicPublishRegexp = regexp.MustCompile(`^[^#+]*$`)
''', '''	TopicPublishRegexp = regexp.MustCompile(`^[^#+/]*(/[^#]*)*$`)
'''), ('mqttp/packet.go', '''	return IsValidUTF(topic) && TopicPublishRegexp.Match(topic)
''', '''	for _, c := range topic {
		if c == '+' || c == '#' {
			return false
		}
	}
	return IsValidUTF(topic)
''')], t('''
	if TopicPublishRegexp.MatchString("a/+") {
		t.Fatal("matches")
	}'''))

bug('c16-lapsed', 'C16', 'cloning a message whose deadline has passed',
    'the clone has no deadline and is delivered',
    [('mqttp/publish.go', '''	pkt.expireAt = msg.expireAt
''', '''	if _, left, _ := msg.Expired(); left > 0 {
		pkt.expireAt = msg.expireAt
	}
''')], t('''
	m := NewPublish(ProtocolV50)
	_ = m.Set("a", []byte("b"), QoS0, false, false)
	m.SetExpireAt(time.Now().Add(-time.Minute))
	k, err := m.Clone(ProtocolV311)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, e := k.Expired(); !e {
		t.Fatal("not expired")
	}''', '"testing" "time"'))
