// Package obs reads library packets through their public getters into the reference
// representation and builds library packets through the public API.
package obs

import (
	"fmt"
	"slices"
	"sort"

	"github.com/VolantMQ/vlapi/mqttp"

	"verifmc/ref"
)

// multiInts is the accessor for properties holding several integers.
type multiInts interface {
	AsInts() ([]uint32, error)
}

// PropValues reads one property through the accessor matching its kind. All other accessors must
// fail; otherwise a non-empty complaint is returned.
func PropValues(id uint32, t mqttp.PropertyToType) ([]ref.PropVal, string) {
	d := ref.Prop(id)
	if d == nil {
		return nil, fmt.Sprintf("property %#x does not exist", id)
	}
	if byte(t.Type()) != byte(d.Kind) {
		return nil, fmt.Sprintf("property %#x reports value type %d, want %d", id, t.Type(), d.Kind)
	}
	var out []ref.PropVal
	n := 0
	if b, err := t.AsByte(); err == nil {
		n++
		if d.Kind != ref.KByte {
			return nil, fmt.Sprintf("property %#x readable as byte", id)
		}
		out = append(out, ref.PropVal{ID: id, U: uint32(b)})
	}
	if b, err := t.AsShort(); err == nil {
		n++
		if d.Kind != ref.KShort {
			return nil, fmt.Sprintf("property %#x readable as short", id)
		}
		out = append(out, ref.PropVal{ID: id, U: uint32(b)})
	}
	if b, err := t.AsInt(); err == nil {
		n++
		if d.Kind != ref.KInt && d.Kind != ref.KVar {
			return nil, fmt.Sprintf("property %#x readable as int", id)
		}
		out = append(out, ref.PropVal{ID: id, U: b})
	} else if m, ok := t.(multiInts); ok {
		if vs, err := m.AsInts(); err == nil {
			n++
			if d.Kind != ref.KVar {
				return nil, fmt.Sprintf("property %#x readable as ints", id)
			}
			for _, v := range vs {
				out = append(out, ref.PropVal{ID: id, U: v})
			}
		}
	}
	if b, err := t.AsString(); err == nil {
		n++
		if d.Kind != ref.KString {
			return nil, fmt.Sprintf("property %#x readable as string", id)
		}
		out = append(out, ref.PropVal{ID: id, S: b})
	}
	if b, err := t.AsBinary(); err == nil {
		n++
		if d.Kind != ref.KBinary {
			return nil, fmt.Sprintf("property %#x readable as binary", id)
		}
		out = append(out, ref.PropVal{ID: id, S: string(b)})
	}
	if b, err := t.AsStringPair(); err == nil {
		n++
		if d.Kind != ref.KPair {
			return nil, fmt.Sprintf("property %#x readable as pair", id)
		}
		out = append(out, ref.PropVal{ID: id, K: b.K, S: b.V})
	}
	if b, err := t.AsStringPairs(); err == nil {
		n++
		if d.Kind != ref.KPair {
			return nil, fmt.Sprintf("property %#x readable as pairs", id)
		}
		for _, x := range b {
			out = append(out, ref.PropVal{ID: id, K: x.K, S: x.V})
		}
	}
	if n != 1 {
		return nil, fmt.Sprintf("property %#x readable through %d accessors, want exactly one", id, n)
	}
	return out, ""
}

// Props reads all properties by iteration and by lookup and checks that the two agree.
func Props(m mqttp.IFace) ([]ref.PropVal, string) {
	var out []ref.PropVal
	var complaint string
	seen := map[uint32]int{}
	type visit struct {
		id uint32
		v  mqttp.PropertyToType
		at []ref.PropVal
	}
	var visits []visit
	err := m.PropertyForEach(func(id mqttp.PropertyID, v mqttp.PropertyToType) {
		seen[uint32(id)]++
		vs, c := PropValues(uint32(id), v)
		if c != "" && complaint == "" {
			complaint = c
		}
		g := m.PropertyGet(id)
		if g == nil {
			complaint = fmt.Sprintf("property %#x is iterated but lookup finds nothing", id)
			return
		}
		gs, c := PropValues(uint32(id), g)
		if c != "" && complaint == "" {
			complaint = c
		}
		if !slices.Equal(gs, vs) {
			complaint = fmt.Sprintf("property %#x: lookup and iteration differ", id)
		}
		out = append(out, vs...)
		visits = append(visits, visit{uint32(id), v, vs})
	})
	if err != nil {
		return nil, "PropertyForEach: " + err.Error()
	}
	if len(visits) > 1 { // a value handed out by the iteration stays what it was
		for _, x := range visits {
			if vs, c := PropValues(x.id, x.v); c != "" || !slices.Equal(vs, x.at) {
				complaint = fmt.Sprintf("property %#x: the value handed out by the iteration reads differently afterwards (%s)", x.id, c)
			}
		}
	}
	for id, n := range seen {
		if n != 1 {
			complaint = fmt.Sprintf("property %#x iterated %d times", id, n)
		}
	}
	for i := range ref.PropDefs {
		id := ref.PropDefs[i].ID
		if seen[id] == 0 && m.PropertyGet(mqttp.PropertyID(id)) != nil {
			complaint = fmt.Sprintf("property %#x is found by lookup but not iterated", id)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out, complaint
}

// NeedsID tells whether the packet type carries an identifier (PUBLISH: at QoS > 0).
func NeedsID(t byte) bool {
	switch t {
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBSCRIBE, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBACK:
		return true
	}
	return false
}

// Packet reads everything the getters show. complaint is non-empty when getters contradict each
// other.
func Packet(m mqttp.IFace) (p *ref.Packet, complaint string) {
	p = &ref.Packet{Type: byte(m.Type()), Ver: byte(m.Version())}
	if id, err := m.ID(); err == nil {
		p.ID, p.HasID = uint16(id), true
	} else if err != mqttp.ErrNotSet {
		complaint = "ID() fails with " + err.Error()
	}
	if p.Ver == ref.V5 {
		var c string
		if p.Props, c = Props(m); c != "" {
			complaint = c
		}
	}
	wrong := func(want string) (*ref.Packet, string) {
		return p, fmt.Sprintf("packet of type %d is a %T, not %s", p.Type, m, want)
	}
	switch p.Type {
	case ref.CONNECT:
		c, ok := m.(*mqttp.Connect)
		if !ok {
			return wrong("Connect")
		}
		p.Clean, p.KeepAlive, p.ClientID = c.IsClean(), c.KeepAlive(), string(c.ClientID())
		u, pw := c.Credentials()
		p.User, p.Pass = string(u), string(pw)
		p.HasUser, p.HasPass = len(u) > 0, len(pw) > 0
		if w := c.Will(); w != nil {
			p.Will = &ref.Will{Topic: w.Topic(), Payload: string(w.Payload()), QoS: byte(w.QoS()), Retain: w.Retain()}
			if p.Ver == ref.V5 && byte(w.Version()) == ref.V5 {
				ps, cc := Props(w)
				if cc != "" {
					complaint = "will: " + cc
				}
				p.Will.Props = ps
			}
		}
	case ref.CONNACK:
		c, ok := m.(*mqttp.ConnAck)
		if !ok {
			return wrong("ConnAck")
		}
		p.SessionPresent, p.Code = c.SessionPresent(), byte(c.ReturnCode())
	case ref.PUBLISH:
		c, ok := m.(*mqttp.Publish)
		if !ok {
			return wrong("Publish")
		}
		p.Dup, p.QoS, p.Retain, p.Topic, p.Payload = c.Dup(), byte(c.QoS()), c.Retain(), c.Topic(), string(c.Payload())
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP:
		c, ok := m.(*mqttp.Ack)
		if !ok {
			return wrong("Ack")
		}
		p.Code = byte(c.Reason())
	case ref.SUBSCRIBE:
		c, ok := m.(*mqttp.Subscribe)
		if !ok {
			return wrong("Subscribe")
		}
		err := c.ForEachTopic(func(t *mqttp.Topic) error {
			if cc := topic(t); cc != "" {
				complaint = cc
			}
			p.Subs = append(p.Subs, ref.Sub{Filter: t.Full(), Opt: byte(t.Ops())})
			return nil
		})
		if err != nil {
			complaint = "ForEachTopic: " + err.Error()
		}
	case ref.UNSUBSCRIBE:
		c, ok := m.(*mqttp.UnSubscribe)
		if !ok {
			return wrong("UnSubscribe")
		}
		err := c.ForEachTopic(func(t *mqttp.Topic) error {
			if cc := topic(t); cc != "" {
				complaint = cc
			}
			p.Subs = append(p.Subs, ref.Sub{Filter: t.Full()})
			return nil
		})
		if err != nil {
			complaint = "ForEachTopic: " + err.Error()
		}
	case ref.SUBACK:
		c, ok := m.(*mqttp.SubAck)
		if !ok {
			return wrong("SubAck")
		}
		for _, x := range c.ReturnCodes() {
			p.Codes = append(p.Codes, byte(x))
		}
	case ref.UNSUBACK:
		c, ok := m.(*mqttp.UnSubAck)
		if !ok {
			return wrong("UnSubAck")
		}
		for _, x := range c.ReturnCodes() {
			p.Codes = append(p.Codes, byte(x))
		}
	case ref.DISCONNECT:
		c, ok := m.(*mqttp.Disconnect)
		if !ok {
			return wrong("Disconnect")
		}
		p.Code = byte(c.ReasonCode())
	case ref.AUTH:
		c, ok := m.(*mqttp.Auth)
		if !ok {
			return wrong("Auth")
		}
		p.Code = byte(c.ReasonCode())
	}
	return p, complaint
}

// Topic checks a *mqttp.Topic's accessors against the reference reading of its full text.
func topic(t *mqttp.Topic) string {
	full := t.Full()
	v, fi := ref.Filter([]byte(full))
	if v == ref.Reject {
		return fmt.Sprintf("illegal filter %q held", full)
	}
	f, o := t.Topic()
	if f != t.Filter() || o != t.Ops() {
		return fmt.Sprintf("filter %q: Topic() disagrees with Filter()/Ops()", full)
	}
	if t.Filter() != fi.Filter || t.ShareName() != fi.Share || (v == ref.Accept && t.DollarPrefix() != fi.Dollar) {
		return fmt.Sprintf("filter %q reads as filter=%q share=%q dollar=%q, want %q %q %q", full, t.Filter(), t.ShareName(), t.DollarPrefix(),
			fi.Filter, fi.Share, fi.Dollar)
	}
	b := byte(t.Ops())
	if byte(t.Ops().QoS()) != b&3 || t.Ops().NL() != (b&4 != 0) || t.Ops().RAP() != (b&8 != 0) || byte(t.Ops().RetainHandling()) != b>>4&3 || t.Ops().Raw() != b {
		return fmt.Sprintf("options %#02x read as qos=%d nl=%v rap=%v rh=%d raw=%#02x", b, t.Ops().QoS(), t.Ops().NL(), t.Ops().RAP(), t.Ops().RetainHandling(), t.Ops().Raw())
	}
	return ""
}

// Topic exposes the accessor check.
func Topic(t *mqttp.Topic) string { return topic(t) }

// PropArg makes the value to pass to PropertySet for the given occurrences of one property. multi
// forces the slice form.
func PropArg(vs []ref.PropVal, multi bool) interface{} {
	d := ref.Prop(vs[0].ID)
	one := len(vs) == 1 && !multi
	switch d.Kind {
	case ref.KByte:
		return byte(vs[0].U)
	case ref.KShort:
		return uint16(vs[0].U)
	case ref.KInt:
		return vs[0].U
	case ref.KVar:
		if one {
			return vs[0].U
		}
		var out []uint32
		for _, v := range vs {
			out = append(out, v.U)
		}
		return out
	case ref.KString:
		return vs[0].S
	case ref.KBinary:
		return []byte(vs[0].S)
	case ref.KPair:
		if one {
			return mqttp.StringPair{K: vs[0].K, V: vs[0].S}
		}
		var out []mqttp.StringPair
		for _, v := range vs {
			out = append(out, mqttp.StringPair{K: v.K, V: v.S})
		}
		return out
	}
	panic("kind")
}

// SetProps sets all properties (grouped by identifier, in order of first occurrence).
func SetProps(m mqttp.IFace, ps []ref.PropVal, multi bool) error {
	done := map[uint32]bool{}
	for _, v := range ps {
		if done[v.ID] {
			continue
		}
		done[v.ID] = true
		var g []ref.PropVal
		for _, w := range ps {
			if w.ID == v.ID {
				g = append(g, w)
			}
		}
		if err := m.PropertySet(mqttp.PropertyID(v.ID), PropArg(g, multi)); err != nil {
			return fmt.Errorf("PropertySet(%#x): %w", v.ID, err)
		}
	}
	return nil
}

// New makes an empty packet through the typed constructor.
func New(t, ver byte) mqttp.IFace {
	v := mqttp.ProtocolVersion(ver)
	switch t {
	case ref.CONNECT:
		return mqttp.NewConnect(v)
	case ref.CONNACK:
		return mqttp.NewConnAck(v)
	case ref.PUBLISH:
		return mqttp.NewPublish(v)
	case ref.PUBACK:
		return mqttp.NewPubAck(v)
	case ref.PUBREC:
		return mqttp.NewPubRec(v)
	case ref.PUBREL:
		return mqttp.NewPubRel(v)
	case ref.PUBCOMP:
		return mqttp.NewPubComp(v)
	case ref.SUBSCRIBE:
		return mqttp.NewSubscribe(v)
	case ref.SUBACK:
		return mqttp.NewSubAck(v)
	case ref.UNSUBSCRIBE:
		return mqttp.NewUnSubscribe(v)
	case ref.UNSUBACK:
		return mqttp.NewUnSubAck(v)
	case ref.PINGREQ:
		return mqttp.NewPingReq(v)
	case ref.PINGRESP:
		return mqttp.NewPingResp(v)
	case ref.DISCONNECT:
		return mqttp.NewDisconnect(v)
	case ref.AUTH:
		return mqttp.NewAuth(v)
	}
	panic("type")
}

type idSetter interface{ SetPacketID(mqttp.IDType) }

// BuildOpt varies how the API is used.
type BuildOpt struct {
	Generic    bool // New(version, type) instead of the typed constructor
	MultiProps bool // repeatable properties always as slices
	BulkSet    bool // Publish.Set / AddReturnCodes instead of single setters
	PropsFirst bool
}

// Build makes the packet through the public API.
func Build(p *ref.Packet, o BuildOpt) (mqttp.IFace, error) {
	var m mqttp.IFace
	if o.Generic {
		var err error
		if m, err = mqttp.New(mqttp.ProtocolVersion(p.Ver), mqttp.Type(p.Type)); err != nil {
			return nil, err
		}
	} else {
		m = New(p.Type, p.Ver)
	}
	return m, Fill(m, p, o)
}

// Fill sets all fields of p on m.
func Fill(m mqttp.IFace, p *ref.Packet, o BuildOpt) error {
	if o.PropsFirst && p.Ver == ref.V5 {
		if err := SetProps(m, p.Props, o.MultiProps); err != nil {
			return err
		}
	}
	if p.HasID {
		m.(idSetter).SetPacketID(mqttp.IDType(p.ID))
	}
	switch c := m.(type) {
	case *mqttp.Connect:
		c.SetClean(p.Clean)
		c.SetKeepAlive(p.KeepAlive)
		if err := c.SetClientID([]byte(p.ClientID)); err != nil {
			return err
		}
		if w := p.Will; w != nil {
			wp := mqttp.NewPublish(mqttp.ProtocolVersion(p.Ver))
			if err := wp.Set(w.Topic, []byte(w.Payload), mqttp.QosType(w.QoS), w.Retain, false); err != nil {
				return err
			}
			if p.Ver == ref.V5 {
				if err := SetProps(wp, w.Props, o.MultiProps); err != nil {
					return err
				}
			}
			if err := c.SetWill(wp); err != nil {
				return err
			}
		}
		if p.HasUser || p.HasPass {
			var u, pw []byte
			if p.HasUser {
				u = []byte(p.User)
			}
			if p.HasPass {
				pw = []byte(p.Pass)
			}
			if err := c.SetCredentials(u, pw); err != nil {
				return err
			}
		}
	case *mqttp.ConnAck:
		c.SetSessionPresent(p.SessionPresent)
		if err := c.SetReturnCode(mqttp.ReasonCode(p.Code)); err != nil {
			return err
		}
	case *mqttp.Publish:
		if o.BulkSet {
			if err := c.Set(p.Topic, []byte(p.Payload), mqttp.QosType(p.QoS), p.Retain, p.Dup); err != nil {
				return err
			}
			break
		}
		if err := c.SetTopic(p.Topic); err != nil {
			return err
		}
		c.SetPayload([]byte(p.Payload))
		if err := c.SetQoS(mqttp.QosType(p.QoS)); err != nil {
			return err
		}
		c.SetRetain(p.Retain)
		c.SetDup(p.Dup)
	case *mqttp.Ack:
		c.SetReason(mqttp.ReasonCode(p.Code))
	case *mqttp.Subscribe:
		for _, s := range p.Subs {
			t, err := mqttp.NewSubscribeTopic([]byte(s.Filter), mqttp.SubscriptionOptions(s.Opt))
			if err != nil {
				return err
			}
			if err = c.AddTopic(t); err != nil {
				return err
			}
		}
	case *mqttp.UnSubscribe:
		for _, s := range p.Subs {
			t, err := mqttp.NewTopic([]byte(s.Filter))
			if err != nil {
				return err
			}
			if err = c.AddTopic(t); err != nil {
				return err
			}
		}
	case *mqttp.SubAck:
		if err := addCodes(c, p.Codes, o.BulkSet); err != nil {
			return err
		}
	case *mqttp.UnSubAck:
		if err := addCodes(c, p.Codes, o.BulkSet); err != nil {
			return err
		}
	case *mqttp.Disconnect:
		c.SetReasonCode(mqttp.ReasonCode(p.Code))
	case *mqttp.Auth:
		if err := c.SetReasonCode(mqttp.ReasonCode(p.Code)); err != nil {
			return err
		}
	}
	if !o.PropsFirst && p.Ver == ref.V5 {
		return SetProps(m, p.Props, o.MultiProps)
	}
	return nil
}

type coder interface {
	AddReturnCode(mqttp.ReasonCode) error
	AddReturnCodes([]mqttp.ReasonCode) error
}

func addCodes(c coder, codes []byte, bulk bool) error {
	if bulk {
		var r []mqttp.ReasonCode
		for _, x := range codes {
			r = append(r, mqttp.ReasonCode(x))
		}
		return c.AddReturnCodes(r)
	}
	for _, x := range codes {
		if err := c.AddReturnCode(mqttp.ReasonCode(x)); err != nil {
			return err
		}
	}
	return nil
}
