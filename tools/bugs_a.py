BUGS = []
def bug(id, property, needs, breaks, edits, demo, pkg='mqttp', race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))

bug('c02-proplen-128', 'C02', 'MQTT 5 packet whose property section is exactly 128 bytes long',
    'the property length is announced with one byte too few, so Encode reports a size that the section does not fit',
    [('mqttp/header.go', '''	for x >= 0x80 {
		x >>= 7''', '''	for x > 0x80 {
		x >>= 7''')], '''
package mqttp

import "testing"

func TestSeededDemo(t *testing.T) {
	for n := 100; n < 300; n++ {
		m := NewPublish(ProtocolV50)
		if err := m.SetTopic("t"); err != nil {
			t.Fatal(err)
		}
		if err := m.PropertySet(PropertyContentType, string(make([]byte, 0))+rep(n)); err != nil {
			t.Fatal(err)
		}
		buf, err := Encode(m)
		if err != nil {
			t.Fatalf("%d: %v", n, err)
		}
		if _, _, err = Decode(ProtocolV50, buf); err != nil {
			t.Fatalf("%d: %v", n, err)
		}
	}
}

func rep(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'x'
	}
	return string(b)
}
''')

bug('c09-disconnect-code', 'C09', 'MQTT 5 DISCONNECT carrying a reason code of another packet (e.g. 0x85)',
    'a DISCONNECT with a reason code that MQTT 5 does not define for it is accepted',
    [('mqttp/disconnect.go', '''		if !msg.reasonCode.IsValidForType(msg.mType) {
			return offset, CodeProtocolError
		}''', '''		if !msg.reasonCode.IsValidV5() {
			return offset, CodeProtocolError
		}''')], '''
package mqttp

import "testing"

func TestSeededDemo(t *testing.T) {
	if _, _, err := Decode(ProtocolV50, []byte{0xE0, 2, 0x85, 0}); err == nil {
		t.Fatal("DISCONNECT with reason code 0x85 accepted")
	}
	if _, _, err := Decode(ProtocolV50, []byte{0xE0, 2, 0x81, 0}); err != nil {
		t.Fatal(err)
	}
}
''')

bug('c24-binary-alias', 'C24', 'caller reuses its receive buffer after decoding a PUBLISH with correlation data',
    'decoded binary properties alias the input buffer, so later reads see other data',
    [('mqttp/property.go', '''	tmp := make([]byte, len(b))

	copy(tmp, b)

	p.properties[id] = tmp
''', '''	p.properties[id] = b
''')], '''
package mqttp

import "testing"

func TestSeededDemo(t *testing.T) {
	in := []byte{0x30, 9, 0, 1, 't', 5, 9, 0, 2, 'a', 'b'}
	m, _, err := Decode(ProtocolV50, in)
	if err != nil {
		t.Fatal(err)
	}
	for i := range in {
		in[i] = 'Z'
	}
	b, err := m.PropertyGet(PropertyCorrelationData).AsBinary()
	if err != nil || string(b) != "ab" {
		t.Fatalf("%q %v", b, err)
	}
}
''')
