// Package ref is an independent reference model of the MQTT 3.1, 3.1.1 and 5.0 wire format,
// written from the OASIS specifications. It shares no code with the library under check.
package ref

import "unicode/utf8"

// Packet types.
const (
	CONNECT = 1 + iota
	CONNACK
	PUBLISH
	PUBACK
	PUBREC
	PUBREL
	PUBCOMP
	SUBSCRIBE
	SUBACK
	UNSUBSCRIBE
	UNSUBACK
	PINGREQ
	PINGRESP
	DISCONNECT
	AUTH
)

// Versions.
const (
	V31  = 3
	V311 = 4
	V5   = 5
)

var Versions = []byte{V31, V311, V5}

// TypeNames by packet type.
var TypeNames = []string{"RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP",
	"SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH"}

// FixedFlags prescribed for every type but PUBLISH.
func FixedFlags(t byte) byte {
	if t == PUBREL || t == SUBSCRIBE || t == UNSUBSCRIBE {
		return 2
	}
	return 0
}

// Kind of a property value on the wire.
type Kind byte

const (
	KByte Kind = iota
	KShort
	KInt
	KVar
	KString
	KPair
	KBinary
)

var KindNames = []string{"byte", "short", "int", "varint", "string", "pair", "binary"}

// PropDef is one row of MQTT 5.0 table 2-4.
type PropDef struct {
	ID    uint32
	Name  string
	Kind  Kind
	Types []byte // packet types, WILL is listed as WillType
}

// WillType marks will properties.
const WillType = 16

// PropDefs is MQTT 5.0 table 2-4.
var PropDefs = []PropDef{
	{0x01, "PayloadFormat", KByte, []byte{PUBLISH, WillType}},
	{0x02, "MessageExpiry", KInt, []byte{PUBLISH, WillType}},
	{0x03, "ContentType", KString, []byte{PUBLISH, WillType}},
	{0x08, "ResponseTopic", KString, []byte{PUBLISH, WillType}},
	{0x09, "CorrelationData", KBinary, []byte{PUBLISH, WillType}},
	{0x0B, "SubscriptionID", KVar, []byte{PUBLISH, SUBSCRIBE}},
	{0x11, "SessionExpiry", KInt, []byte{CONNECT, CONNACK, DISCONNECT}},
	{0x12, "AssignedClientID", KString, []byte{CONNACK}},
	{0x13, "ServerKeepAlive", KShort, []byte{CONNACK}},
	{0x15, "AuthMethod", KString, []byte{CONNECT, CONNACK, AUTH}},
	{0x16, "AuthData", KBinary, []byte{CONNECT, CONNACK, AUTH}},
	{0x17, "RequestProblemInfo", KByte, []byte{CONNECT}},
	{0x18, "WillDelay", KInt, []byte{WillType}},
	{0x19, "RequestResponseInfo", KByte, []byte{CONNECT}},
	{0x1A, "ResponseInfo", KString, []byte{CONNACK}},
	{0x1C, "ServerReference", KString, []byte{CONNACK, DISCONNECT}},
	{0x1F, "ReasonString", KString, []byte{CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH}},
	{0x21, "ReceiveMaximum", KShort, []byte{CONNECT, CONNACK}},
	{0x22, "TopicAliasMaximum", KShort, []byte{CONNECT, CONNACK}},
	{0x23, "TopicAlias", KShort, []byte{PUBLISH}},
	{0x24, "MaximumQoS", KByte, []byte{CONNACK}},
	{0x25, "RetainAvailable", KByte, []byte{CONNACK}},
	{0x26, "UserProperty", KPair, []byte{CONNECT, CONNACK, PUBLISH, WillType, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH}},
	{0x27, "MaximumPacketSize", KInt, []byte{CONNECT, CONNACK}},
	{0x28, "WildcardSubAvailable", KByte, []byte{CONNACK}},
	{0x29, "SubIDAvailable", KByte, []byte{CONNACK}},
	{0x2A, "SharedSubAvailable", KByte, []byte{CONNACK}},
}

var propByID = map[uint32]*PropDef{}
var propsOfType [17][]*PropDef

func init() {
	for i := range PropDefs {
		d := &PropDefs[i]
		propByID[d.ID] = d
		for _, t := range d.Types {
			propsOfType[t] = append(propsOfType[t], d)
		}
	}
}

// Prop looks a property up, nil when undefined.
func Prop(id uint32) *PropDef { return propByID[id] }

// PropsOf lists properties allowed for a packet type (WillType for will properties).
func PropsOf(t byte) []*PropDef { return propsOfType[t] }

// Allowed tells if d may occur in t.
func (d *PropDef) Allowed(t byte) bool {
	for _, x := range d.Types {
		if x == t {
			return true
		}
	}
	return false
}

// Repeatable tells if id may occur several times in t.
func Repeatable(id uint32, t byte) bool {
	return id == 0x26 || (id == 0x0B && t == PUBLISH)
}

// V5 reason codes per packet type (MQTT 5.0 table 2-6 and 3.x.2).
var codesV5 = map[byte][]byte{
	CONNACK:  {0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F},
	PUBACK:   {0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99},
	PUBREC:   {0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99},
	PUBREL:   {0x00, 0x92},
	PUBCOMP:  {0x00, 0x92},
	SUBACK:   {0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2},
	UNSUBACK: {0x00, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91},
	DISCONNECT: {0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99,
		0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2},
	AUTH: {0x00, 0x18, 0x19},
}

// CodesV5 lists the MQTT 5 codes of a type.
func CodesV5(t byte) []byte { return codesV5[t] }

// CodeV5 tells if MQTT 5 defines c for t.
func CodeV5(t, c byte) bool {
	for _, x := range codesV5[t] {
		if x == c {
			return true
		}
	}
	return false
}

// CodesV3 lists the codes MQTT 3.1.1 defines for a type.
func CodesV3(t byte) []byte {
	switch t {
	case CONNACK:
		return []byte{0, 1, 2, 3, 4, 5}
	case SUBACK:
		return []byte{0, 1, 2, 0x80}
	}
	return nil
}

// CodeV3 tells if MQTT 3.1.1 defines c for t.
func CodeV3(t, c byte) bool {
	for _, x := range CodesV3(t) {
		if x == c {
			return true
		}
	}
	return false
}

// AnyCodeV5 tells if some MQTT 5 packet defines c.
func AnyCodeV5(c byte) bool {
	for t := range codesV5 {
		if CodeV5(t, c) {
			return true
		}
	}
	return false
}

// LegalRune per MQTT string rules of this library: no surrogates, no control characters.
func LegalRune(r rune) bool {
	return !(r <= 0x1F || (r >= 0x7F && r <= 0x9F) || (r >= 0xD800 && r <= 0xDFFF) || r > 0x10FFFF)
}

// decodeRune is a from-scratch UTF-8 decoder (RFC 3629 table 3-7); size 0 = ill-formed.
func decodeRune(b []byte) (rune, int) {
	if len(b) == 0 {
		return 0, 0
	}
	c := b[0]
	cont := func(i int, lo, hi byte) bool { return i < len(b) && b[i] >= lo && b[i] <= hi }
	switch {
	case c < 0x80:
		return rune(c), 1
	case c < 0xC2:
		return 0, 0
	case c < 0xE0:
		if !cont(1, 0x80, 0xBF) {
			return 0, 0
		}
		return rune(c&0x1F)<<6 | rune(b[1]&0x3F), 2
	case c < 0xF0:
		lo, hi := byte(0x80), byte(0xBF)
		if c == 0xE0 {
			lo = 0xA0
		}
		if c == 0xED {
			hi = 0x9F
		}
		if !cont(1, lo, hi) || !cont(2, 0x80, 0xBF) {
			return 0, 0
		}
		return rune(c&0x0F)<<12 | rune(b[1]&0x3F)<<6 | rune(b[2]&0x3F), 3
	case c < 0xF5:
		lo, hi := byte(0x80), byte(0xBF)
		if c == 0xF0 {
			lo = 0x90
		}
		if c == 0xF4 {
			hi = 0x8F
		}
		if !cont(1, lo, hi) || !cont(2, 0x80, 0xBF) || !cont(3, 0x80, 0xBF) {
			return 0, 0
		}
		return rune(c&0x07)<<18 | rune(b[1]&0x3F)<<12 | rune(b[2]&0x3F)<<6 | rune(b[3]&0x3F), 4
	}
	return 0, 0
}

// WellFormed UTF-8.
func WellFormed(b []byte) bool {
	for len(b) > 0 {
		if b[0] < utf8.RuneSelf {
			b = b[1:]
			continue
		}
		_, n := decodeRune(b)
		if n == 0 {
			return false
		}
		b = b[n:]
	}
	return true
}

// LegalString: well-formed and without control characters.
func LegalString(b []byte) bool {
	for len(b) > 0 {
		r, n := decodeRune(b)
		if n == 0 || !LegalRune(r) {
			return false
		}
		b = b[n:]
	}
	return true
}

// LegalTopicName: legal string without wildcards (may be empty).
func LegalTopicName(b []byte) bool {
	for _, c := range b {
		if c == '+' || c == '#' {
			return false
		}
	}
	return LegalString(b)
}

// LegalClientID: empty or only the permitted ASCII characters.
func LegalClientID(b []byte) bool {
	for _, c := range b {
		switch {
		case c >= '0' && c <= '9', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z':
		case c == ' ', c == '-', c == '_', c == ',', c == '.', c == '|', c == '/':
		default:
			return false
		}
	}
	return true
}

// FilterInfo is what a legal filter means.
type FilterInfo struct {
	Filter, Share, Dollar string
}

func plainFilter(s string) bool {
	// levels
	start := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '/' {
			lvl := s[start:i]
			for j := 0; j < len(lvl); j++ {
				if lvl[j] == '+' && len(lvl) != 1 {
					return false
				}
				if lvl[j] == '#' && (len(lvl) != 1 || i != len(s)) {
					return false
				}
			}
			start = i + 1
		}
	}
	return true
}

// Wildcards tells of a non-empty legal text whether its wildcards are placed as in a filter, whether it has
// none, and whether it begins like a shared subscription: $share, a name free of wildcards, and more.
func Wildcards(s string) (filter, name, shared bool) {
	filter, name = plainFilter(s), true
	for i := 0; i < len(s); i++ {
		if s[i] == '+' || s[i] == '#' {
			name = false
		}
	}
	const p = "$share/"
	if len(s) > len(p) && s[:len(p)] == p {
		i := len(p)
		for i < len(s) && s[i] != '+' && s[i] != '#' && s[i] != '/' {
			i++
		}
		shared = i > len(p) && i+1 < len(s) && s[i] == '/'
	}
	return
}

// Filter classifies a topic filter.
func Filter(b []byte) (Verdict, FilterInfo) {
	var fi FilterInfo
	if len(b) == 0 || !LegalString(b) {
		return Reject, fi
	}
	s := string(b)
	fi.Filter = s
	if s[0] == '$' {
		i := 0
		for i < len(s) && s[i] != '/' {
			i++
		}
		if i == len(s) {
			if !plainFilter(s) {
				return Reject, fi
			}
			// a single level starting with '$': left open
			fi.Dollar = s
			return Either, fi
		}
		fi.Dollar = s[:i]
		if fi.Dollar == "$share" {
			rest := s[i+1:]
			j := 0
			for j < len(rest) && rest[j] != '/' {
				j++
			}
			if j == 0 || j == len(rest) {
				return Reject, fi
			}
			name := rest[:j]
			for k := 0; k < len(name); k++ {
				if name[k] == '+' || name[k] == '#' {
					return Reject, fi
				}
			}
			f := rest[j+1:]
			if f == "" || !plainFilter(f) {
				return Reject, fi
			}
			fi.Share, fi.Filter = name, f
			return Accept, fi
		}
	}
	if !plainFilter(s) {
		return Reject, fi
	}
	return Accept, fi
}
