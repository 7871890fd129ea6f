package ref

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

// Verdict of the reference decoder.
type Verdict byte

const (
	// Accept: a conforming decoder must accept.
	Accept Verdict = iota
	// Either: the specification or the property statement leaves it open.
	Either
	// Reject: must be refused.
	Reject
)

func (v Verdict) String() string { return [...]string{"accept", "either", "reject"}[v] }

// PropVal is one property occurrence.
type PropVal struct {
	ID uint32
	U  uint32 // byte, short, int, varint
	S  string // string, binary, pair value
	K  string // pair key
}

// Sub is one subscription.
type Sub struct {
	Filter string
	Opt    byte
}

// Will of a CONNECT.
type Will struct {
	Topic   string
	Payload string
	QoS     byte
	Retain  bool
	Props   []PropVal
}

// Packet is the abstract content of a control packet.
type Packet struct {
	Type, Ver byte

	// PUBLISH
	Dup, Retain bool
	QoS         byte
	Topic       string
	Payload     string

	HasID bool
	ID    uint16

	Props []PropVal

	// CONNECT
	Clean            bool
	KeepAlive        uint16
	ClientID         string
	Will             *Will
	HasUser, HasPass bool
	User, Pass       string

	SessionPresent bool
	Code           byte   // reason code of acks, CONNACK, DISCONNECT, AUTH
	Codes          []byte // SUBACK, UNSUBACK
	Subs           []Sub  // SUBSCRIBE, UNSUBSCRIBE
}

// Clone copies deeply.
func (p *Packet) Clone() *Packet {
	q := *p
	q.Props = append([]PropVal(nil), p.Props...)
	q.Codes = append([]byte(nil), p.Codes...)
	q.Subs = append([]Sub(nil), p.Subs...)
	if p.Will != nil {
		w := *p.Will
		w.Props = append([]PropVal(nil), p.Will.Props...)
		q.Will = &w
	}
	return &q
}

// Flags of the fixed header.
func (p *Packet) Flags() byte {
	if p.Type != PUBLISH {
		return FixedFlags(p.Type)
	}
	f := p.QoS << 1
	if p.Dup {
		f |= 8
	}
	if p.Retain {
		f |= 1
	}
	return f
}

func abbrev(s string) string {
	if len(s) <= 48 {
		return fmt.Sprintf("%q", s)
	}
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return fmt.Sprintf("%q..[%d bytes, fnv %016x]", s[:16], len(s), h)
}

func propKey(sb *strings.Builder, ps []PropVal) {
	if len(ps) == 0 {
		return
	}
	c := ps
	if len(ps) > 1 && !sort.SliceIsSorted(ps, func(i, j int) bool { return ps[i].ID < ps[j].ID }) {
		c = append([]PropVal(nil), ps...)
		sort.SliceStable(c, func(i, j int) bool { return c[i].ID < c[j].ID })
	}
	for _, v := range c {
		k := Kind(99)
		if d := Prop(v.ID); d != nil {
			k = d.Kind
		}
		switch k {
		case KString, KBinary:
			fmt.Fprintf(sb, " p%#02x=%s", v.ID, abbrev(v.S))
		case KPair:
			fmt.Fprintf(sb, " p%#02x=%s:%s", v.ID, abbrev(v.K), abbrev(v.S))
		default:
			fmt.Fprintf(sb, " p%#02x=%d", v.ID, v.U)
		}
	}
}

// Key is a canonical rendering: two packets mean the same exactly when the keys are equal.
// With presence=false the distinction between absent and empty credentials is dropped
// (getters cannot show it).
func (p *Packet) Key(presence bool) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s v%d", TypeNames[p.Type], p.Ver)
	if p.HasID {
		fmt.Fprintf(&sb, " id=%d", p.ID)
	}
	switch p.Type {
	case CONNECT:
		fmt.Fprintf(&sb, " clean=%v ka=%d cid=%s", p.Clean, p.KeepAlive, abbrev(p.ClientID))
		if p.Will != nil {
			fmt.Fprintf(&sb, " will{t=%s m=%s q=%d r=%v", abbrev(p.Will.Topic), abbrev(p.Will.Payload), p.Will.QoS, p.Will.Retain)
			propKey(&sb, p.Will.Props)
			sb.WriteString("}")
		}
		if presence {
			fmt.Fprintf(&sb, " hu=%v hp=%v", p.HasUser, p.HasPass)
		}
		fmt.Fprintf(&sb, " u=%s p=%s", abbrev(p.User), abbrev(p.Pass))
	case CONNACK:
		fmt.Fprintf(&sb, " sp=%v code=%#02x", p.SessionPresent, p.Code)
	case PUBLISH:
		fmt.Fprintf(&sb, " dup=%v q=%d r=%v t=%s m=%s", p.Dup, p.QoS, p.Retain, abbrev(p.Topic), abbrev(p.Payload))
	case PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT:
		if p.Ver == V5 {
			fmt.Fprintf(&sb, " code=%#02x", p.Code)
		}
	case AUTH:
		fmt.Fprintf(&sb, " code=%#02x", p.Code)
	case SUBACK:
		fmt.Fprintf(&sb, " codes=%x", p.Codes)
	case UNSUBACK:
		if p.Ver == V5 {
			fmt.Fprintf(&sb, " codes=%x", p.Codes)
		}
	case SUBSCRIBE:
		for _, s := range p.Subs {
			fmt.Fprintf(&sb, " [%s %#02x]", abbrev(s.Filter), s.Opt)
		}
	case UNSUBSCRIBE:
		for _, s := range p.Subs {
			fmt.Fprintf(&sb, " [%s]", abbrev(s.Filter))
		}
	}
	if p.Ver == V5 {
		propKey(&sb, p.Props)
	}
	return sb.String()
}

// ---------- encoding ----------

// Varint appends a minimal variable byte integer.
func Varint(b []byte, v uint32) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// VarintLen is the length of the minimal encoding.
func VarintLen(v uint32) int {
	switch {
	case v < 1<<7:
		return 1
	case v < 1<<14:
		return 2
	case v < 1<<21:
		return 3
	case v < 1<<28:
		return 4
	}
	return 5
}

// LP appends a length-prefixed field.
func LP(b []byte, s string) []byte {
	b = append(b, byte(len(s)>>8), byte(len(s)))
	return append(b, s...)
}

// AppendProp appends one property.
func AppendProp(b []byte, v PropVal) []byte {
	b = Varint(b, v.ID)
	k := KByte
	if d := Prop(v.ID); d != nil {
		k = d.Kind
	}
	switch k {
	case KByte:
		b = append(b, byte(v.U))
	case KShort:
		b = append(b, byte(v.U>>8), byte(v.U))
	case KInt:
		b = append(b, byte(v.U>>24), byte(v.U>>16), byte(v.U>>8), byte(v.U))
	case KVar:
		b = Varint(b, v.U)
	case KString, KBinary:
		b = LP(b, v.S)
	case KPair:
		b = LP(LP(b, v.K), v.S)
	}
	return b
}

// PropSection appends a property section with its length.
func PropSection(b []byte, ps []PropVal) []byte {
	var s []byte
	for _, v := range ps {
		s = AppendProp(s, v)
	}
	b = Varint(b, uint32(len(s)))
	return append(b, s...)
}

// Body renders the part after the fixed header. short selects the shortest legal form of
// packets that may omit trailing fields.
func (p *Packet) Body(short bool) []byte {
	var b []byte
	v5 := p.Ver == V5
	if p.HasID && p.Type != PUBLISH {
		b = append(b, byte(p.ID>>8), byte(p.ID))
	}
	switch p.Type {
	case CONNECT:
		if p.Ver == V31 {
			b = LP(b, "MQIsdp")
		} else {
			b = LP(b, "MQTT")
		}
		b = append(b, p.Ver)
		var f byte
		if p.Clean {
			f |= 2
		}
		if w := p.Will; w != nil {
			f |= 4 | w.QoS<<3
			if w.Retain {
				f |= 0x20
			}
		}
		if p.HasPass {
			f |= 0x40
		}
		if p.HasUser {
			f |= 0x80
		}
		b = append(b, f, byte(p.KeepAlive>>8), byte(p.KeepAlive))
		if v5 {
			b = PropSection(b, p.Props)
		}
		b = LP(b, p.ClientID)
		if w := p.Will; w != nil {
			if v5 {
				b = PropSection(b, w.Props)
			}
			b = LP(b, w.Topic)
			b = LP(b, w.Payload)
		}
		if p.HasUser {
			b = LP(b, p.User)
		}
		if p.HasPass {
			b = LP(b, p.Pass)
		}
	case CONNACK:
		sp := byte(0)
		if p.SessionPresent {
			sp = 1
		}
		b = append(b, sp, p.Code)
		if v5 {
			b = PropSection(b, p.Props)
		}
	case PUBLISH:
		b = LP(b, p.Topic)
		if p.QoS > 0 {
			b = append(b, byte(p.ID>>8), byte(p.ID))
		}
		if v5 {
			b = PropSection(b, p.Props)
		}
		b = append(b, p.Payload...)
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		if v5 && !(short && p.Code == 0 && len(p.Props) == 0) {
			b = append(b, p.Code)
			if !(short && len(p.Props) == 0) {
				b = PropSection(b, p.Props)
			}
		}
	case SUBSCRIBE:
		if v5 {
			b = PropSection(b, p.Props)
		}
		for _, s := range p.Subs {
			b = append(LP(b, s.Filter), s.Opt)
		}
	case UNSUBSCRIBE:
		if v5 {
			b = PropSection(b, p.Props)
		}
		for _, s := range p.Subs {
			b = LP(b, s.Filter)
		}
	case SUBACK:
		if v5 {
			b = PropSection(b, p.Props)
		}
		b = append(b, p.Codes...)
	case UNSUBACK:
		if v5 {
			b = PropSection(b, p.Props)
			b = append(b, p.Codes...)
		}
	case DISCONNECT, AUTH:
		if v5 && !(short && p.Code == 0 && len(p.Props) == 0) {
			b = append(b, p.Code)
			b = PropSection(b, p.Props)
		}
	}
	return b
}

// Frame adds the fixed header.
func Frame(first byte, body []byte) []byte {
	b := make([]byte, 0, len(body)+5)
	b = append(b, first)
	b = Varint(b, uint32(len(body)))
	return append(b, body...)
}

// Encode renders the packet.
func (p *Packet) Encode(short bool) []byte {
	return Frame(p.Type<<4|p.Flags(), p.Body(short))
}

// ---------- decoding ----------

// Result of the reference decoder.
type Result struct {
	V      Verdict
	P      *Packet // content when V != Reject; nil when the content is left open too
	Why    string
	Need   bool // input is a proper prefix of a packet / more data needed
	Total  int  // full packet size once the length field is complete, else 0
	Excess bool // input is longer than the packet
}

type rd struct {
	b   []byte
	v   Verdict
	why string
}

func (r *rd) bad(why string) {
	if r.v != Reject {
		r.v, r.why = Reject, why
	}
}
func (r *rd) open(why string) {
	if r.v == Accept {
		r.v, r.why = Either, why
	}
}
func (r *rd) ok() bool { return r.v != Reject }
func (r *rd) u8(what string) byte {
	if !r.ok() {
		return 0
	}
	if len(r.b) < 1 {
		r.bad("missing " + what)
		return 0
	}
	x := r.b[0]
	r.b = r.b[1:]
	return x
}
func (r *rd) u16(what string) uint16 {
	if !r.ok() {
		return 0
	}
	if len(r.b) < 2 {
		r.bad("truncated " + what)
		return 0
	}
	x := binary.BigEndian.Uint16(r.b)
	r.b = r.b[2:]
	return x
}
func (r *rd) lp(what string) []byte {
	n := int(r.u16(what + " length"))
	if !r.ok() {
		return nil
	}
	if len(r.b) < n {
		r.bad("truncated " + what)
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

// varint returns value and encoded size; size 0 = incomplete, -1 = longer than 4 bytes.
func varint(b []byte) (uint32, int) {
	var v uint32
	for i := 0; i < 4; i++ {
		if i >= len(b) {
			return 0, 0
		}
		v |= uint32(b[i]&0x7F) << (7 * uint(i))
		if b[i] < 0x80 {
			return v, i + 1
		}
	}
	return 0, -1
}

func (r *rd) props(t byte) []PropVal {
	if !r.ok() {
		return nil
	}
	n, sz := varint(r.b)
	if sz <= 0 {
		r.bad("bad property length")
		return nil
	}
	if sz != VarintLen(n) {
		r.open("non-minimal property length")
	}
	r.b = r.b[sz:]
	if uint32(len(r.b)) < n {
		r.bad("property length exceeds packet")
		return nil
	}
	sec := &rd{b: r.b[:n]}
	r.b = r.b[n:]
	var out []PropVal
	seen := map[uint32]bool{}
	for len(sec.b) > 0 && sec.ok() {
		id, sz := varint(sec.b)
		if sz <= 0 {
			sec.bad("bad property id")
			break
		}
		if sz != VarintLen(id) {
			sec.bad("non-minimal property id")
			break
		}
		sec.b = sec.b[sz:]
		d := Prop(id)
		if d == nil {
			sec.bad(fmt.Sprintf("unknown property %#x", id))
			break
		}
		if !d.Allowed(t) {
			sec.bad(fmt.Sprintf("property %#x not permitted", id))
			break
		}
		if seen[id] && !Repeatable(id, t) {
			sec.bad(fmt.Sprintf("property %#x repeated", id))
			break
		}
		seen[id] = true
		v := PropVal{ID: id}
		switch d.Kind {
		case KByte:
			v.U = uint32(sec.u8("byte property"))
			if v.U > 1 {
				sec.open("byte property above 1")
			}
		case KShort:
			v.U = uint32(sec.u16("short property"))
			if v.U == 0 && (id == 0x21 || id == 0x23) {
				sec.open("zero receive maximum / alias")
			}
		case KInt:
			hi := sec.u16("int property")
			lo := sec.u16("int property")
			v.U = uint32(hi)<<16 | uint32(lo)
			if v.U == 0 && id == 0x27 {
				sec.open("zero maximum packet size")
			}
		case KVar:
			x, sz := varint(sec.b)
			if sz <= 0 {
				sec.bad("bad varint property")
				break
			}
			if sz != VarintLen(x) {
				sec.bad("non-minimal varint property")
				break
			}
			sec.b = sec.b[sz:]
			v.U = x
			if x == 0 {
				sec.open("zero subscription identifier")
			}
		case KString:
			s := sec.lp("string property")
			if !WellFormed(s) {
				sec.bad("ill-formed UTF-8 property")
			} else if !LegalString(s) {
				sec.open("control character in property")
			} else if id == 0x08 && !LegalTopicName(s) {
				sec.open("wildcard in response topic")
			}
			v.S = string(s)
		case KBinary:
			v.S = string(sec.lp("binary property"))
		case KPair:
			k := sec.lp("property key")
			s := sec.lp("property value")
			if !WellFormed(k) || !WellFormed(s) {
				sec.bad("ill-formed UTF-8 property")
			} else if !LegalString(k) || !LegalString(s) {
				sec.open("control character in property")
			}
			v.K, v.S = string(k), string(s)
		}
		if sec.ok() {
			out = append(out, v)
		}
	}
	if sec.v == Reject {
		r.bad(sec.why)
	} else if sec.v == Either {
		r.open(sec.why)
	}
	return out
}

func hasProp(ps []PropVal, id uint32) bool {
	for _, p := range ps {
		if p.ID == id {
			return true
		}
	}
	return false
}

// Decode judges the bytes as one complete packet under protocol version ver.
func Decode(ver byte, in []byte) Result {
	if len(in) == 0 {
		return Result{V: Reject, Why: "empty", Need: true}
	}
	t := in[0] >> 4
	fl := in[0] & 15
	if t == 0 || (t == AUTH && ver != V5) {
		return Result{V: Reject, Why: "packet type"}
	}
	if t == PUBLISH {
		if fl&6 == 6 {
			return Result{V: Reject, Why: "QoS 3"}
		}
	} else if fl != FixedFlags(t) {
		return Result{V: Reject, Why: "flags"}
	}
	n, sz := varint(in[1:])
	if sz == 0 {
		return Result{V: Reject, Why: "incomplete length", Need: true}
	}
	if sz < 0 {
		return Result{V: Reject, Why: "length field too long"}
	}
	total := 1 + sz + int(n)
	if len(in) < total {
		return Result{V: Reject, Why: "incomplete", Need: true, Total: total}
	}
	if len(in) > total {
		return Result{V: Reject, Why: "excess", Excess: true, Total: total}
	}
	r := &rd{b: in[1+sz:]}
	if sz != VarintLen(n) {
		r.open("non-minimal remaining length")
	}
	p := &Packet{Type: t, Ver: ver}
	var forgotten bool
	if t == PUBLISH {
		p.Dup, p.Retain, p.QoS = fl&8 != 0, fl&1 != 0, fl>>1&3
		if p.Dup && p.QoS == 0 {
			r.bad("DUP at QoS 0")
		}
	}
	v5 := ver == V5
	id := func() {
		p.ID, p.HasID = r.u16("packet identifier"), true
		if r.ok() && p.ID == 0 {
			r.open("packet identifier 0")
		}
	}
	switch t {
	case CONNECT:
		name := string(r.lp("protocol name"))
		lvl := r.u8("level")
		if r.ok() {
			want := map[byte]string{V31: "MQIsdp", V311: "MQTT", V5: "MQTT"}[lvl]
			if want == "" || want != name {
				r.bad("protocol name/level")
				break
			}
			p.Ver, v5 = lvl, lvl == V5
		}
		f := r.u8("flags")
		will, qos := f&4 != 0, f>>3&3
		if f&1 != 0 || qos == 3 || (!will && f&0x38 != 0) {
			r.bad("connect flags")
		}
		p.HasUser, p.HasPass, p.Clean = f&0x80 != 0, f&0x40 != 0, f&2 != 0
		if p.HasPass && !p.HasUser && !v5 {
			r.bad("password without user")
		}
		p.KeepAlive = r.u16("keepalive")
		if v5 {
			p.Props = r.props(CONNECT)
			if hasProp(p.Props, 0x16) && !hasProp(p.Props, 0x15) {
				r.open("auth data without method")
			}
		}
		cid := r.lp("client id")
		p.ClientID = string(cid)
		if r.ok() && len(cid) == 0 && !v5 {
			if !p.Clean {
				r.bad("empty client id")
			} else if p.Ver == V31 {
				r.open("empty client id in 3.1")
			}
		}
		if !LegalClientID(cid) {
			r.bad("client id characters")
		}
		if will && r.ok() {
			w := &Will{QoS: qos, Retain: f&0x20 != 0}
			if v5 {
				w.Props = r.props(WillType)
			}
			tp := r.lp("will topic")
			if r.ok() && len(tp) == 0 {
				r.bad("empty will topic")
			}
			if !LegalTopicName(tp) {
				r.bad("will topic")
			}
			w.Topic = string(tp)
			w.Payload = string(r.lp("will payload"))
			p.Will = w
		}
		if p.HasUser && r.ok() {
			if len(r.b) == 0 && p.Ver == V31 {
				r.open("3.1 user name missing")
				forgotten = true
				break
			}
			u := r.lp("user")
			if !LegalString(u) {
				r.bad("user name")
			}
			p.User = string(u)
		}
		if p.HasPass && r.ok() {
			if len(r.b) == 0 && p.Ver == V31 {
				r.open("3.1 password missing")
				forgotten = true
				break
			}
			p.Pass = string(r.lp("password"))
		}
	case CONNACK:
		f := r.u8("ack flags")
		if f&0xFE != 0 {
			r.bad("ack flags")
		}
		p.SessionPresent = f&1 != 0
		p.Code = r.u8("code")
		if r.ok() {
			own, other := CodeV3(t, p.Code), CodeV5(t, p.Code)
			if v5 {
				own, other = other, own
			}
			if !own && !other {
				r.bad("code")
			} else if !own {
				r.open("code of the other protocol generation")
			}
			if p.SessionPresent && p.Code != 0 {
				r.open("session present with refusal")
			}
		}
		if v5 {
			p.Props = r.props(t)
		}
	case PUBLISH:
		tp := r.lp("topic")
		if !LegalTopicName(tp) {
			r.bad("topic")
		}
		p.Topic = string(tp)
		if p.QoS > 0 {
			id()
		}
		if v5 {
			p.Props = r.props(t)
		}
		if len(tp) == 0 && r.ok() {
			if !v5 {
				r.bad("empty topic")
			} else {
				alias := uint32(0)
				for _, x := range p.Props {
					if x.ID == 0x23 {
						alias = x.U
					}
				}
				if alias == 0 {
					r.bad("empty topic without alias")
				}
			}
		}
		p.Payload = string(r.b)
		r.b = nil
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		id()
		if v5 && len(r.b) > 0 {
			p.Code = r.u8("code")
			if !CodeV5(t, p.Code) {
				r.bad("code")
			}
			if len(r.b) > 0 {
				p.Props = r.props(t)
			}
		}
	case SUBSCRIBE, UNSUBSCRIBE:
		id()
		if v5 {
			p.Props = r.props(t)
		}
		for r.ok() && len(r.b) > 0 {
			f := r.lp("filter")
			if !r.ok() {
				break
			}
			s := Sub{Filter: string(f)}
			switch v, _ := Filter(f); v {
			case Reject:
				r.bad("filter")
			case Either:
				r.open("filter")
			}
			if t == SUBSCRIBE {
				s.Opt = r.u8("options")
				if s.Opt&3 == 3 || (v5 && s.Opt&0xC0 != 0) || (!v5 && s.Opt&0xFC != 0) || s.Opt&0x30 == 0x30 {
					r.bad("options")
				}
				if s.Opt&4 != 0 && bytes.HasPrefix(f, []byte("$share/")) {
					r.open("no local on shared subscription")
				}
			}
			p.Subs = append(p.Subs, s)
		}
		if len(p.Subs) == 0 {
			r.bad("no filters")
		}
	case SUBACK, UNSUBACK:
		id()
		if t == UNSUBACK && !v5 {
			break
		}
		if t == UNSUBACK && v5 && r.ok() && len(r.b) == 0 {
			r.open("UNSUBACK without property length")
			break
		}
		if v5 {
			p.Props = r.props(t)
		}
		if r.ok() {
			if len(r.b) == 0 {
				r.open("no codes")
			}
			for _, c := range r.b {
				if (v5 && !CodeV5(t, c)) || (!v5 && !CodeV3(t, c)) {
					r.bad("code")
				}
			}
			p.Codes = append([]byte(nil), r.b...)
			r.b = nil
		}
	case PINGREQ, PINGRESP:
	case DISCONNECT:
		if v5 && len(r.b) > 0 {
			p.Code = r.u8("code")
			if !CodeV5(t, p.Code) {
				r.bad("code")
			}
			if len(r.b) > 0 {
				p.Props = r.props(t)
			} else {
				r.open("DISCONNECT with code only")
			}
		}
	case AUTH:
		if len(r.b) > 0 {
			p.Code = r.u8("code")
			if !CodeV5(t, p.Code) {
				r.bad("code")
			}
			if len(r.b) > 0 {
				p.Props = r.props(t)
			} else {
				r.open("AUTH with code only")
			}
			if !hasProp(p.Props, 0x15) {
				r.open("AUTH without method")
			}
		}
	}
	if r.ok() && len(r.b) > 0 {
		r.bad("left-over bytes")
	}
	res := Result{V: r.v, Why: r.why, Total: total}
	if r.v != Reject && !forgotten {
		res.P = p
	}
	return res
}
