# Fourteenth round of planted bugs: storage taken back when the garbage collector finds the packet unreachable.
BUGS = []
def bug(id, property, needs, breaks, edits, demo, pkg='mqttp', race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, race=race))
def t(body, imports='"testing"', pkg='mqttp', extra=''):
    return f'package {pkg}\n\nimport (\n' + ''.join('\t%s\n' % i for i in imports.split()) + ')\n\nfunc TestSeededDemo(t *testing.T) {\n' + body + '\n}\n' + extra

bug('c24-payload-recycled', 'C24', 'the payload of a received message kept longer than the message, a garbage collection, then another message of that size',
    'the storage of the payload goes back to a pool in a finalizer although the payload is still in use',
    [('mqttp/publish.go', '''	payload   []byte
	topic     string
''', '''	payload   []byte
	body      *payloadStore
	topic     string
'''), ('mqttp/publish.go', '''		msg.payload = make([]byte, pLen)
''', '''		msg.body = newPayloadStore(pLen)
		msg.payload = msg.body.b[:pLen]
'''), ('mqttp/publish.go', '''func newPublish() *Publish {
''', '''// payloadStore storage of a received payload, returned for use by other packets when no longer referenced
type payloadStore struct {
	b []byte
}

var payloadStores sync.Pool

func newPayloadStore(n int) *payloadStore {
	s := &payloadStore{}
	if b, ok := payloadStores.Get().([]byte); ok && cap(b) >= n && cap(b) <= 2*n {
		s.b = b[:n]
	} else {
		s.b = make([]byte, n)
	}

	runtime.SetFinalizer(s, func(s *payloadStore) {
		payloadStores.Put(s.b)
	})

	return s
}

func newPublish() *Publish {
'''), ('mqttp/publish.go', '''import (
	"math"
''', '''import (
	"math"
	"runtime"
	"sync"
''')], t('''
	enc := func(p string) []byte {
		m := NewPublish(ProtocolV311)
		_ = m.Set("a", []byte(p), QoS0, false, false)
		b, _ := Encode(m)
		return b
	}
	var keep [][]byte
	for i := 0; i < 64; i++ {
		m, _, err := Decode(ProtocolV311, enc("kept-payload"))
		if err != nil {
			t.Fatal(err)
		}
		keep = append(keep, m.(*Publish).Payload())
	}
	runtime.GC()
	time.Sleep(50 * time.Millisecond)
	for i := 0; i < 256; i++ {
		_, _, _ = Decode(ProtocolV311, enc("othr-payload"))
	}
	for _, p := range keep {
		if string(p) != "kept-payload" {
			t.Fatalf("%q", p)
		}
	}''', '"runtime" "testing" "time"'))

bug('c24-codes-recycled', 'C24', 'the return codes of a received SUBACK kept longer than the packet, a garbage collection, then another SUBACK',
    'the list of return codes is handed to another packet while it is still in use',
    [('mqttp/suback.go', '''	returnCodes []ReasonCode
}
''', '''	returnCodes []ReasonCode
	spare       *codeList
}

// codeList storage of return codes used again once its packet is gone
type codeList struct {
	codes []ReasonCode
}

var codeLists = make(chan []ReasonCode, 64)

func newCodeList(n int) *codeList {
	l := &codeList{}
	select {
	case l.codes = <-codeLists:
	default:
	}
	if cap(l.codes) < n {
		l.codes = make([]ReasonCode, 0, n)
	}
	runtime.SetFinalizer(l, func(l *codeList) {
		select {
		case codeLists <- l.codes:
		default:
		}
	})

	return l
}
'''), ('mqttp/suback.go', '''package mqttp
''', '''package mqttp

import "runtime"
'''), ('mqttp/suback.go', '''	numCodes := int(msg.remLen) - offset
''', '''	numCodes := int(msg.remLen) - offset

	if numCodes > 0 && len(msg.returnCodes) == 0 {
		msg.spare = newCodeList(numCodes)
		msg.returnCodes = msg.spare.codes[:0]
	}
''')], t('''
	var keep [][]ReasonCode
	for i := 0; i < 64; i++ {
		m, _, err := Decode(ProtocolV311, []byte{0x90, 4, 0, 1, 2, 1})
		if err != nil {
			t.Fatal(err)
		}
		keep = append(keep, m.(*SubAck).ReturnCodes())
	}
	runtime.GC()
	time.Sleep(50 * time.Millisecond)
	for i := 0; i < 256; i++ {
		_, _, _ = Decode(ProtocolV311, []byte{0x90, 4, 0, 1, 0, 0})
	}
	for _, p := range keep {
		if p[0] != 2 || p[1] != 1 {
			t.Fatal(p)
		}
	}''', '"runtime" "testing" "time"'))
