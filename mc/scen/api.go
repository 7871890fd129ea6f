package scen

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"

	"verifmc/explore"
	"verifmc/obs"
	"verifmc/ref"
)

// emittable tells whether the model packet may be encoded; open: undecided.
func emittable(p *ref.Packet) (ok, open bool) {
	if obs.NeedsID(p.Type) && !p.HasID {
		return false, false
	}
	if obs.NeedsID(p.Type) && p.ID == 0 {
		open = true // whether the identifier 0, which no packet may carry, counts as set
	}
	switch p.Type {
	case ref.CONNECT:
		if p.Ver != ref.V5 && p.HasPass && !p.HasUser {
			return false, false
		}
		// an empty identifier without clean session: whether it is emitted is not claimed
		open = p.Ver != ref.V5 && p.ClientID == "" && !p.Clean
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		return len(p.Subs) > 0, open && len(p.Subs) > 0
	case ref.SUBACK, ref.UNSUBACK:
		open = open || len(p.Codes) == 0 && !(p.Type == ref.UNSUBACK && p.Ver != ref.V5)
	case ref.PUBLISH:
		if p.QoS > 0 && !p.HasID || p.QoS == 0 && p.Dup {
			return false, false
		}
		open = p.QoS > 0 && p.ID == 0
		if p.Topic == "" {
			for _, x := range p.Props {
				if p.Ver == ref.V5 && x.ID == 0x23 && x.U > 0 {
					return true, open
				}
			}
			return false, false
		}
	}
	return true, open
}

// emit encodes m and checks the outcome against the model.
func emit(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, hist string) {
	ok, open := emittable(p)
	out, err := encode(c, m)
	if open {
		return
	}
	if ok && err != nil {
		c.Failf("after %s: encoding %s failed: %s", hist, p.Key(true), errStr(err))
	}
	if !ok {
		if err == nil {
			c.Failf("after %s: incomplete or contradictory %s was encoded as %s", hist, p.Key(true), hexs(out))
		}
		return
	}
	if w := wireForm(p); ref.Decode(w.Ver, out).P == nil || ref.Decode(w.Ver, out).P.Key(true) != w.Key(true) {
		c.Logf("history: %s", hist)
		means(c, out, w)
	}
	d, n, err := decode(c, p.Ver, out)
	if err != nil || n != len(out) {
		c.Failf("after %s: %s was encoded as %s, which the library does not decode: n=%d err=%s", hist, p.Key(true), hexs(out), n, errStr(err))
	}
	_ = d
}

// wireForm is what the packet looks like on the wire of its version.
func wireForm(p *ref.Packet) *ref.Packet {
	q := p.Clone()
	if q.Ver != ref.V5 {
		q.Props = nil
		if q.Will != nil {
			w := *q.Will
			w.Props = nil
			q.Will = &w
		}
		switch q.Type {
		case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.DISCONNECT:
			q.Code = 0
		case ref.UNSUBACK:
			q.Codes = nil
		}
	}
	return q
}

// readsAs compares getters with the model.
func readsAs(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, hist string) {
	got := observe(c, m)
	g, w := *got, *p
	if w.HasID && w.ID == 0 && g.ID == 0 {
		g.HasID = true // "set to 0" and "not set" are told apart by none
	}
	if w.Ver != ref.V5 {
		g.Props, w.Props = nil, nil
		if g.Will != nil && w.Will != nil {
			a, b := *g.Will, *w.Will
			a.Props, b.Props = nil, nil
			g.Will, w.Will = &a, &b
		}
	}
	if gk, wk := g.Key(false), w.Key(false); gk != wk || g.HasID != w.HasID {
		c.Failf("after %s: getters report %s (id set: %v), expected %s (id set: %v)", hist, gk, g.HasID, wk, w.HasID)
	}
}

// setProp replaces the occurrences of one identifier in a sorted list.
func setProp(ps []ref.PropVal, id uint32, vs []ref.PropVal) []ref.PropVal {
	var out []ref.PropVal
	for _, p := range ps {
		if p.ID != id {
			out = append(out, p)
		}
	}
	out = append(out, vs...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// apiOp is one step on a packet and on its model; err tells whether a refusal is expected.
type apiOp struct {
	name string
	do   func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (err error, refuse bool)
}

func fieldOps(tt, ver byte) []apiOp {
	var ops []apiOp
	add := func(name string, do func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool)) {
		ops = append(ops, apiOp{name, do})
	}
	if obs.NeedsID(tt) || tt == ref.PUBLISH {
		for _, id := range []uint16{7, 0x0102, 0} {
			id := id
			add(fmt.Sprintf("SetPacketID(%d)", id), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				m.(interface{ SetPacketID(mqttp.IDType) }).SetPacketID(mqttp.IDType(id))
				p.ID, p.HasID = id, true
				return nil, false
			})
		}
	}
	will := func(topic, payload string, q byte, r bool, ps []ref.PropVal) (*mqttp.Publish, *ref.Will) {
		w := mqttp.NewPublish(mqttp.ProtocolVersion(ver))
		if topic != "" {
			_ = w.SetTopic(topic)
		}
		w.SetPayload([]byte(payload))
		_ = w.SetQoS(mqttp.QosType(q))
		w.SetRetain(r)
		rw := &ref.Will{Topic: topic, Payload: payload, QoS: q, Retain: r}
		if ver == ref.V5 {
			_ = obs.SetProps(w, ps, false)
			rw.Props = ps
		}
		return w, rw
	}
	switch tt {
	case ref.CONNECT:
		for _, b := range []bool{true, false} {
			b := b
			add(fmt.Sprintf("SetClean(%v)", b), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				m.(*mqttp.Connect).SetClean(b)
				p.Clean = b
				return nil, false
			})
		}
		for _, k := range []uint16{0, 0xFF01} {
			k := k
			add(fmt.Sprintf("SetKeepAlive(%d)", k), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				m.(*mqttp.Connect).SetKeepAlive(k)
				p.KeepAlive = k
				return nil, false
			})
		}
		for _, id := range []string{"id", "another-client", "b*d", "\x01"} {
			id := id
			add(fmt.Sprintf("SetClientID(%q)", id), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				err := m.(*mqttp.Connect).SetClientID([]byte(id))
				if !ref.LegalClientID([]byte(id)) {
					return err, true
				}
				p.ClientID = id
				return err, false
			})
		}
		ws := []struct {
			t, pl string
			q     byte
			r     bool
			ps    []ref.PropVal
		}{{"w", "m", 0, false, nil}, {"w/x", "mm", 1, true, []ref.PropVal{{ID: 0x18, U: 5}}}, {"w", "m", 2, false, []ref.PropVal{{ID: 0x01, U: 1}, {ID: 0x26, K: "k", S: "v"}}}}
		for i, w := range ws {
			w := w
			add(fmt.Sprintf("SetWill(#%d)", i), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				lw, rw := will(w.t, w.pl, w.q, w.r, w.ps)
				p.Will = rw
				return m.(*mqttp.Connect).SetWill(lw), false
			})
		}
		for _, q := range []byte{0, 2} {
			q := q
			add(fmt.Sprintf("SetWill(Will() with QoS %d)", q), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				lw := m.(*mqttp.Connect).Will()
				if lw == nil || p.Will == nil {
					return nil, false
				}
				rw := *p.Will
				rw.QoS, rw.Retain = q, !rw.Retain
				if err := lw.SetQoS(mqttp.QosType(q)); err != nil {
					return err, false
				}
				lw.SetRetain(rw.Retain)
				p.Will = &rw
				return m.(*mqttp.Connect).SetWill(lw), rw.Payload == ""
			})
		}
		add("SetWill(nil)", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
			return m.(*mqttp.Connect).SetWill(nil), true
		})
		add("SetWill(no topic)", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
			lw, _ := will("", "pp", 2, true, nil)
			return m.(*mqttp.Connect).SetWill(lw), true
		})
		add("ResetWill", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
			m.(*mqttp.Connect).ResetWill()
			p.Will = nil
			return nil, false
		})
		for _, cr := range [][2]string{{"u", "p"}, {"user2", ""}, {"", ""}, {"", "pw"}, {"\xff", "p"}} {
			cr := cr
			add(fmt.Sprintf("SetCredentials(%q,%q)", cr[0], cr[1]), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				err := m.(*mqttp.Connect).SetCredentials([]byte(cr[0]), []byte(cr[1]))
				if cr[0] == "" && cr[1] != "" && ver != ref.V5 || !ref.LegalString([]byte(cr[0])) {
					return err, true
				}
				p.User, p.HasUser, p.Pass, p.HasPass = cr[0], cr[0] != "", cr[1], cr[1] != ""
				return err, false
			})
		}
	case ref.CONNACK:
		for _, b := range []bool{true, false} {
			b := b
			add(fmt.Sprintf("SetSessionPresent(%v)", b), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				m.(*mqttp.ConnAck).SetSessionPresent(b)
				p.SessionPresent = b
				return nil, false
			})
		}
		codes := []byte{0, 0x87, 0x9F, 0x19, 0xFF, 0x11}
		if ver != ref.V5 {
			codes = []byte{0, 1, 5, 6, 0x10, 0xFF}
		}
		for _, k := range codes {
			k := k
			add(fmt.Sprintf("SetReturnCode(%#x)", k), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				err := m.(*mqttp.ConnAck).SetReturnCode(mqttp.ReasonCode(k))
				if ver == ref.V5 && !ref.CodeV5(tt, k) || ver != ref.V5 && k > 5 {
					return err, true
				}
				p.Code = k
				return err, false
			})
		}
	case ref.PUBLISH:
		tops := []string{"t", "a/bb", "a/+", "\x02"}
		if ver == ref.V5 {
			tops = append(tops, "")
		}
		for _, s := range tops {
			s := s
			add(fmt.Sprintf("SetTopic(%q)", s), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				err := m.(*mqttp.Publish).SetTopic(s)
				if !ref.LegalTopicName([]byte(s)) {
					return err, true
				}
				p.Topic = s
				return err, false
			})
		}
		for _, s := range []string{"x", ""} {
			s := s
			add(fmt.Sprintf("SetPayload(%q)", s), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				m.(*mqttp.Publish).SetPayload([]byte(s))
				p.Payload = s
				return nil, false
			})
		}
		for q := byte(0); q < 5; q++ {
			q := q
			add(fmt.Sprintf("SetQoS(%d)", q), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				err := m.(*mqttp.Publish).SetQoS(mqttp.QosType(q))
				if q > 2 {
					return err, true
				}
				p.QoS = q
				return err, false
			})
		}
		for _, b := range []bool{true, false} {
			b := b
			add(fmt.Sprintf("SetDup(%v)", b), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				m.(*mqttp.Publish).SetDup(b)
				p.Dup = b
				return nil, false
			})
			add(fmt.Sprintf("SetRetain(%v)", b), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				m.(*mqttp.Publish).SetRetain(b)
				p.Retain = b
				return nil, false
			})
		}
		for _, s := range []struct {
			t, p string
			q    byte
			r, d bool
		}{{"s/1", "set", 2, true, true}, {"s", "set", 0, false, false}, {"#", "set", 1, true, true}, {"s", "set", 3, true, true}, {"s", "", 0, true, false}} {
			s := s
			add(fmt.Sprintf("Set(%q,%q,%d,%v,%v)", s.t, s.p, s.q, s.r, s.d), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				err := m.(*mqttp.Publish).Set(s.t, []byte(s.p), mqttp.QosType(s.q), s.r, s.d)
				if s.q > 2 || !ref.LegalTopicName([]byte(s.t)) {
					return err, true
				}
				p.Topic, p.Payload, p.QoS, p.Retain, p.Dup = s.t, s.p, s.q, s.r, s.d
				return err, false
			})
		}
		add("SetPublishID+SetExpireAt", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
			pm := m.(*mqttp.Publish)
			pm.SetPublishID(0x1234)
			pm.SetExpireAt(time.Unix(1, 0))
			if pm.PublishID() != 0x1234 {
				c.Failf("publish id reads back as %#x", pm.PublishID())
			}
			return nil, false
		})
		if ver == ref.V5 {
			add("PropertySet(alias)", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				p.Props = setProp(p.Props, 0x23, []ref.PropVal{{ID: 0x23, U: 3}})
				return m.PropertySet(0x23, uint16(3)), false
			})
			add("PropertiesDiscard", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				m.PropertiesDiscard()
				p.Props = nil
				return nil, false
			})
		}
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP:
		codes := []byte{0x92, 0}
		if tt == ref.PUBACK || tt == ref.PUBREC {
			codes = []byte{0x10, 0x99, 0}
		}
		for _, k := range codes {
			k := k
			add(fmt.Sprintf("SetReason(%#x)", k), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				m.(*mqttp.Ack).SetReason(mqttp.ReasonCode(k))
				if ver == ref.V5 {
					p.Code = k
				}
				return nil, false
			})
		}
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		for _, s := range []ref.Sub{{Filter: "a", Opt: 1}, {Filter: "b/+/#", Opt: 2}, {Filter: "a", Opt: 0}, {Filter: "$share/g/x", Opt: 0}} {
			s := s
			if tt == ref.UNSUBSCRIBE {
				s.Opt = 0
			}
			add(fmt.Sprintf("AddTopic(%s,%d)", s.Filter, s.Opt), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				tp, err := mqttp.NewSubscribeTopic([]byte(s.Filter), mqttp.SubscriptionOptions(s.Opt))
				if err != nil {
					return err, false
				}
				p.Subs = append(p.Subs, s)
				return m.(interface{ AddTopic(*mqttp.Topic) error }).AddTopic(tp), false
			})
		}
		add("AddTopic(the last one again)", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
			if len(p.Subs) == 0 {
				return nil, false
			}
			var last *mqttp.Topic
			if err := m.(interface {
				ForEachTopic(func(*mqttp.Topic) error) error
			}).ForEachTopic(func(t *mqttp.Topic) error { last = t; return nil }); err != nil {
				return err, false
			}
			p.Subs = append(p.Subs, p.Subs[len(p.Subs)-1])
			return m.(interface{ AddTopic(*mqttp.Topic) error }).AddTopic(last), false
		})
	case ref.SUBACK, ref.UNSUBACK:
		legal := func(k byte) bool {
			if ver == ref.V5 {
				return ref.CodeV5(tt, k)
			}
			return k <= 2 || k == 0x80
		}
		lists := [][]byte{{0}, {0x80}, {0x87}, {0x05}, {0, 0x80, 0}, {0, 0x83, 0x10}, {0x80, 0x7F}}
		if tt == ref.UNSUBACK {
			lists = append(lists, []byte{0x11}, []byte{0x11, 0x02})
			if ver != ref.V5 {
				// MQTT 3.1.1 has no such codes: what may be added is left open
				break
			}
		} else {
			lists = append(lists, []byte{2}, []byte{1, 2, 3})
		}
		for _, l := range lists {
			l := l
			add(fmt.Sprintf("AddReturnCodes(%x)", l), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				cm := m.(interface {
					AddReturnCode(mqttp.ReasonCode) error
					AddReturnCodes([]mqttp.ReasonCode) error
				})
				var err error
				if len(l) == 1 {
					err = cm.AddReturnCode(mqttp.ReasonCode(l[0]))
				} else {
					var r []mqttp.ReasonCode
					for _, k := range l {
						r = append(r, mqttp.ReasonCode(k))
					}
					err = cm.AddReturnCodes(r)
				}
				for _, k := range l {
					if !legal(k) {
						return err, true
					}
				}
				p.Codes = append(append([]byte(nil), p.Codes...), l...)
				return err, false
			})
		}
	case ref.DISCONNECT:
		if ver == ref.V5 {
			for _, k := range []byte{0x04, 0x8E, 0} {
				k := k
				add(fmt.Sprintf("SetReasonCode(%#x)", k), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
					m.(*mqttp.Disconnect).SetReasonCode(mqttp.ReasonCode(k))
					p.Code = k
					return nil, false
				})
			}
		}
	case ref.AUTH:
		for _, k := range []byte{0x18, 0x19, 0, 0x80, 0x01, 0x17, 0x1A} {
			k := k
			add(fmt.Sprintf("SetReasonCode(%#x)", k), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				err := m.(*mqttp.Auth).SetReasonCode(mqttp.ReasonCode(k))
				if !ref.CodeV5(tt, k) {
					return err, true
				}
				p.Code = k
				return err, false
			})
		}
	}
	if ver == ref.V5 && tt != ref.PUBLISH {
		defs := ref.PropsOf(tt)
		for _, d := range defs {
			if d.ID != 0x26 && d.ID != 0x15 && d.ID != 0x1F {
				continue
			}
			d := d
			add(fmt.Sprintf("PropertySet(%s)", d.Name), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				v := sampleProp(d, 0)
				p.Props = setProp(p.Props, d.ID, []ref.PropVal{v})
				return m.PropertySet(mqttp.PropertyID(d.ID), obs.PropArg([]ref.PropVal{v}, false)), false
			})
		}
	}
	add("Encode", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
		emit(c, m, p, "so far")
		return nil, false
	})
	add("Size", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
		_, _ = m.Size()
		return nil, false
	})
	return ops
}

// histories explores all sequences of depth operations from the starts.
func histories(c *explore.Ctx, ops []apiOp, depth int, m mqttp.IFace, p *ref.Packet, start string) {
	var h []string
	h = append(h, start)
	for i := 0; i < depth; i++ {
		op := ops[c.Pick(len(ops))]
		h = append(h, op.name)
		err, refuse := op.do(c, m, p)
		c.Op(1)
		c.Logf("%s -> %s", op.name, errStr(err))
		if refuse && err == nil {
			c.Failf("%s: %s was not refused", strings.Join(h[:len(h)-1], "; "), op.name)
		}
		if !refuse && err != nil {
			c.Failf("%s: %s failed: %s", strings.Join(h[:len(h)-1], "; "), op.name, errStr(err))
		}
		hist := ""
		if c.Verbose() || i == depth-1 {
			hist = strings.Join(h, "; ")
		} else {
			hist = h[len(h)-1]
		}
		readsAs(c, m, p, hist)
		c.State(p.Key(true))
	}
	hist := strings.Join(h, "; ")
	emit(c, m, p, hist)
	readsAs(c, m, p, hist)
	emit(c, m, p, hist+"; Encode")
	c.Sample(func() string { return hist })
}

// startPacket gives a fresh, a generic, or a decoded packet.
func startPacket(c *explore.Ctx, tt, ver byte, kind int) (mqttp.IFace, *ref.Packet, string) {
	p := &ref.Packet{Type: tt, Ver: ver}
	switch kind {
	case 0:
		return obs.New(tt, ver), p, "New"
	case 1:
		m, err := mqttp.New(mqttp.ProtocolVersion(ver), mqttp.Type(tt))
		if err != nil {
			c.Failf("New(%d, %d): %s", ver, tt, errStr(err))
		}
		return m, p, "New generic"
	}
	p = rich(tt, ver)
	in := p.Encode(true)
	m, _, err := decode(c, ver, in)
	if err != nil {
		c.Failf("decode v%d of %s refused: %s", ver, hexs(in), errStr(err))
	}
	return m, p, "Decode(" + hexs(in) + ")"
}

// rich is a packet of the type with most fields present.
func rich(tt, ver byte) *ref.Packet {
	p := plain(tt, ver)
	v5 := ver == ref.V5
	switch tt {
	case ref.CONNECT:
		p.ClientID, p.Clean, p.KeepAlive = "rich-client", false, 0x1234
		p.HasUser, p.User, p.HasPass, p.Pass = true, "ruser", true, "rp\x00"
		p.Will = &ref.Will{Topic: "rw", Payload: "rm", QoS: 2, Retain: true}
		if v5 {
			p.Will.Props = []ref.PropVal{{ID: 0x02, U: 9}, {ID: 0x26, K: "wk", S: "wv"}}
			p.Props = []ref.PropVal{{ID: 0x11, U: 77}, {ID: 0x26, K: "a", S: "b"}, {ID: 0x26, K: "a", S: "c"}}
		}
	case ref.CONNACK:
		p.SessionPresent = true
		if v5 {
			p.Props = []ref.PropVal{{ID: 0x12, S: "assigned"}, {ID: 0x24, U: 1}}
		}
	case ref.PUBLISH:
		p.Topic, p.Payload, p.QoS, p.Retain, p.Dup = "rich/topic", "rich payload", 2, true, true
		if v5 {
			p.Props = []ref.PropVal{{ID: 0x01, U: 1}, {ID: 0x09, S: "corr\x00"}, {ID: 0x0B, U: 5}, {ID: 0x0B, U: 300}, {ID: 0x26, K: "k", S: "v"}}
		}
	case ref.SUBSCRIBE:
		p.Subs = []ref.Sub{{Filter: "r/+", Opt: 2}, {Filter: "r/#", Opt: 1}}
		if v5 {
			p.Props = []ref.PropVal{{ID: 0x0B, U: 129}, {ID: 0x26, K: "k", S: "v"}}
		}
	case ref.UNSUBSCRIBE:
		p.Subs = []ref.Sub{{Filter: "r/+"}, {Filter: "$share/g/r"}}
		if v5 {
			p.Props = []ref.PropVal{{ID: 0x26, K: "k", S: "v"}}
		}
	case ref.SUBACK:
		p.Codes = []byte{2, 0x80, 1}
	case ref.AUTH:
		p.Code = 0x18
		p.Props = []ref.PropVal{{ID: 0x15, S: "SCRAM"}, {ID: 0x16, S: "d\x00"}}
	case ref.PUBACK, ref.PUBREC:
		if v5 {
			p.Code = 0x10
		}
	case ref.PUBREL, ref.PUBCOMP:
		if v5 {
			p.Code = 0x92
		}
	case ref.DISCONNECT:
		if v5 {
			p.Code = 0x04
		}
	}
	if v5 && len(p.Props) == 0 && tt != ref.PINGREQ && tt != ref.PINGRESP {
		p.Props = []ref.PropVal{{ID: 0x1F, S: "because"}, {ID: 0x26, K: "k", S: "v"}}
	}
	return p
}

func scenC18(t Tier) []*explore.Scenario {
	mk := func(name string, types []byte, depth int) *explore.Scenario {
		return &explore.Scenario{Name: name, Note: fmt.Sprintf("all sequences of %d setter, encode and size calls (accepted and refused arguments) on a new, generically created or decoded packet in each version; getters compared with a last-write-wins model after every call, the bytes after the last", depth),
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, types)
				m, p, s := startPacket(c, tt, ver, c.Pick(3))
				histories(c, fieldOps(tt, ver), depth, m, p, s)
			}}
	}
	return []*explore.Scenario{
		related("C18/related", []byte{ref.CONNECT, ref.PUBLISH}, nil, func(c *explore.Ctx, p *ref.Packet) {
			q := packed(p.Type, p.Ver)
			m := build(c, q, obs.BuildOpt{Generic: true})
			m.PropertiesDiscard()
			if k, ok := m.(*mqttp.Connect); ok {
				k.ResetWill()
				if err := k.SetCredentials(nil, nil); err != nil {
					c.Failf("SetCredentials(nil, nil): %s", errStr(err))
				}
			}
			for i := 0; i < 2; i++ { // the second time every other field is there already
				if err := obs.Fill(m, p, obs.BuildOpt{}); err != nil {
					c.Failf("setting %s: %s", p.Key(true), errStr(err))
				}
				readsAs(c, m, p, "setting every field again")
			}
			emit(c, m, p, "setting every field again")
		}),
		mk("C18/connect", []byte{ref.CONNECT}, t.pick(3, 4)),
		mk("C18/publish", []byte{ref.PUBLISH}, t.pick(3, 4)),
		mk("C18/acks", []byte{ref.CONNACK, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBACK, ref.UNSUBACK}, t.pick(4, 5)),
		mk("C18/others", []byte{ref.SUBSCRIBE, ref.UNSUBSCRIBE, ref.PINGREQ, ref.PINGRESP, ref.DISCONNECT, ref.AUTH}, t.pick(4, 5)),
		c18Long(),
		c18Again(),
		c18Wrap(t),
		{Name: "C18/flags", Note: "CONNECT: all 256 reachable settings of clean, will (none, QoS 0-2 x retain), user and password, each followed by every other: flag byte, getters and bytes",
			Run: func(c *explore.Ctx) {
				ver := ref.Versions[c.Pick(3)]
				m := mqttp.NewConnect(mqttp.ProtocolVersion(ver))
				p := &ref.Packet{Type: ref.CONNECT, Ver: ver}
				var hist []string
				for step := 0; step < 2; step++ {
					x := c.Pick(2 * 7 * 4)
					clean, w, cr := x&1 == 1, x/2%7, x/14
					hist = append(hist, fmt.Sprintf("clean=%v will=%d cred=%d", clean, w, cr))
					m.SetClean(clean)
					p.Clean = clean
					if w == 0 {
						m.ResetWill()
						p.Will = nil
					} else {
						lw := mqttp.NewPublish(mqttp.ProtocolVersion(ver))
						q, r := byte((w-1)%3), (w-1)/3 == 1
						if err := lw.Set("w", []byte("m"), mqttp.QosType(q), r, false); err != nil {
							c.Failf("will: %s", errStr(err))
						}
						if err := m.SetWill(lw); err != nil {
							c.Failf("SetWill: %s", errStr(err))
						}
						p.Will = &ref.Will{Topic: "w", Payload: "m", QoS: q, Retain: r}
					}
					u, pw := []string{"", "u", "u", ""}[cr], []string{"", "", "p", "p"}[cr]
					err := m.SetCredentials([]byte(u), []byte(pw))
					if bad := cr == 3 && ver != ref.V5; bad != (err != nil) {
						c.Failf("v%d SetCredentials(%q,%q) gives %s", ver, u, pw, errStr(err))
					} else if !bad {
						p.User, p.HasUser, p.Pass, p.HasPass = u, u != "", pw, pw != ""
					}
				}
				h := strings.Join(hist, "; ")
				readsAs(c, m, p, h)
				emit(c, m, p, h)
				c.Op(4)
				c.State(p.Key(true))
			}},
	}
}

// ---- C12 -------------------------------------------------------------------------------------

// badArgs are values of every Go type; ok tells whether the kind takes it as a single value.
var argKinds = []struct {
	name string
	v    interface{}
	ok   func(d *ref.PropDef, rep bool) int // 1 accept, 0 refuse, -1 open
	as   []ref.PropVal
}{
	{"byte", byte(1), func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KByte) }, []ref.PropVal{{U: 1}}},
	{"uint16", uint16(0x203), func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KShort) }, []ref.PropVal{{U: 0x203}}},
	{"uint32", uint32(0x10203), func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KInt || d.Kind == ref.KVar) }, []ref.PropVal{{U: 0x10203}}},
	{"string", "sss", func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KString) }, []ref.PropVal{{S: "sss"}}},
	{"[]byte", []byte("bb"), func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KBinary) }, []ref.PropVal{{S: "bb"}}},
	{"pair", mqttp.StringPair{K: "kk", V: "vv"}, func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KPair) }, []ref.PropVal{{K: "kk", S: "vv"}}},
	{"[]pair", []mqttp.StringPair{{K: "1", V: "2"}, {K: "3", V: "4"}}, func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KPair && rep) }, []ref.PropVal{{K: "1", S: "2"}, {K: "3", S: "4"}}},
	{"[]uint32", []uint32{4, 5000}, func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KVar && rep) }, []ref.PropVal{{U: 4}, {U: 5000}}},
	{"[]uint16", []uint16{4, 5}, func(d *ref.PropDef, rep bool) int { return 0 }, nil},
	{"[]string", []string{"4", "5"}, func(d *ref.PropDef, rep bool) int { return 0 }, nil},
	{"[][]byte", [][]byte{{1}, {2}}, func(d *ref.PropDef, rep bool) int { return 0 }, nil},
	{"int", 7, func(d *ref.PropDef, rep bool) int { return 0 }, nil},
	{"uint64", uint64(7), func(d *ref.PropDef, rep bool) int { return 0 }, nil},
	{"int32", int32(7), func(d *ref.PropDef, rep bool) int { return 0 }, nil},
	{"bool", true, func(d *ref.PropDef, rep bool) int { return 0 }, nil},
	{"nil", nil, func(d *ref.PropDef, rep bool) int { return 0 }, nil},
	{"float", 1.5, func(d *ref.PropDef, rep bool) int { return 0 }, nil},
	{"*uint32", new(uint32), func(d *ref.PropDef, rep bool) int { return 0 }, nil},
	{"error", mqttp.ErrInvalid, func(d *ref.PropDef, rep bool) int { return 0 }, nil},
	{"varint 2^28", uint32(1 << 28), func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KInt) }, []ref.PropVal{{U: 1 << 28}}},
	{"varint max", uint32(1<<28 - 1), func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KInt || d.Kind == ref.KVar) }, []ref.PropVal{{U: 1<<28 - 1}}},
	{"[]varint 2^28", []uint32{1, 1 << 28}, func(d *ref.PropDef, rep bool) int { return 0 }, nil},
	// a list of one or no value: open where the property must not repeat, but what is accepted is emitted as such
	{"[]uint8 of one", []uint8{1}, func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KBinary) - b2i(d.Kind == ref.KByte) }, []ref.PropVal{{U: 1, S: "\x01"}}},
	{"[]uint16 of one", []uint16{0x203}, func(d *ref.PropDef, rep bool) int { return -b2i(d.Kind == ref.KShort) }, []ref.PropVal{{U: 0x203}}},
	{"[]uint32 of one", []uint32{0x10203}, func(d *ref.PropDef, rep bool) int {
		return b2i(d.Kind == ref.KVar && rep) - b2i(d.Kind == ref.KInt || d.Kind == ref.KVar && !rep)
	}, []ref.PropVal{{U: 0x10203}}},
	{"[]string of one", []string{"one"}, func(d *ref.PropDef, rep bool) int { return -b2i(d.Kind == ref.KString) }, []ref.PropVal{{S: "one"}}},
	{"[][]byte of one", [][]byte{{1, 2}}, func(d *ref.PropDef, rep bool) int { return -b2i(d.Kind == ref.KBinary) }, []ref.PropVal{{S: "\x01\x02"}}},
	{"[]pair of one", []mqttp.StringPair{{K: "k1", V: "v1"}}, func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KPair && rep) }, []ref.PropVal{{K: "k1", S: "v1"}}},
	{"[]uint8{0}", []uint8{0}, func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KBinary) - b2i(d.Kind == ref.KByte) }, []ref.PropVal{{U: 0, S: "\x00"}}},
	{"[]uint16{0}", []uint16{0}, func(d *ref.PropDef, rep bool) int { return -b2i(d.Kind == ref.KShort) }, []ref.PropVal{{U: 0}}},
	{"[]uint16{65535}", []uint16{65535}, func(d *ref.PropDef, rep bool) int { return -b2i(d.Kind == ref.KShort) }, []ref.PropVal{{U: 65535}}},
	{"[]uint32{1}", []uint32{1}, func(d *ref.PropDef, rep bool) int {
		return b2i(d.Kind == ref.KVar && rep) - b2i(d.Kind == ref.KInt || d.Kind == ref.KVar && !rep)
	}, []ref.PropVal{{U: 1}}},
	{"[]uint32{2^28-1}", []uint32{1<<28 - 1}, func(d *ref.PropDef, rep bool) int {
		return b2i(d.Kind == ref.KVar && rep) - b2i(d.Kind == ref.KInt || d.Kind == ref.KVar && !rep)
	}, []ref.PropVal{{U: 1<<28 - 1}}},
	{"[]string of an empty one", []string{""}, func(d *ref.PropDef, rep bool) int { return -b2i(d.Kind == ref.KString) }, []ref.PropVal{{S: ""}}},
	{"[][]byte of an empty one", [][]byte{{}}, func(d *ref.PropDef, rep bool) int { return -b2i(d.Kind == ref.KBinary) }, []ref.PropVal{{S: ""}}},
	{"[]pair of an empty one", []mqttp.StringPair{{}}, func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KPair && rep) }, []ref.PropVal{{}}},
	{"[]pair of three alike", []mqttp.StringPair{{K: "k", V: "v"}, {K: "k", V: "v"}, {K: "k", V: "v"}}, func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KPair && rep) }, []ref.PropVal{{K: "k", S: "v"}, {K: "k", S: "v"}, {K: "k", S: "v"}}},
	{"[]uint32 of three alike", []uint32{300, 300, 300}, func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KVar && rep) }, []ref.PropVal{{U: 300}, {U: 300}, {U: 300}}},
	{"[]uint8 of none", []uint8{}, func(d *ref.PropDef, rep bool) int { return b2i(d.Kind == ref.KBinary) - b2i(d.Kind == ref.KByte) }, []ref.PropVal{{}}},
	{"[]uint16 of none", []uint16{}, func(d *ref.PropDef, rep bool) int { return -b2i(d.Kind == ref.KShort) }, nil},
	{"[]uint32 of none", []uint32{}, func(d *ref.PropDef, rep bool) int { return -b2i(d.Kind == ref.KInt || d.Kind == ref.KVar) }, nil},
	{"[]string of none", []string{}, func(d *ref.PropDef, rep bool) int { return -b2i(d.Kind == ref.KString) }, nil},
	{"[][]byte of none", [][]byte{}, func(d *ref.PropDef, rep bool) int { return -b2i(d.Kind == ref.KBinary) }, nil},
	{"[]pair of none", []mqttp.StringPair{}, func(d *ref.PropDef, rep bool) int { return -b2i(d.Kind == ref.KPair) }, nil},
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// withVals stamps the identifier on values.
func withVals(id uint32, vs []ref.PropVal) []ref.PropVal {
	var out []ref.PropVal
	for _, v := range vs {
		v.ID = id
		out = append(out, v)
	}
	return out
}

// propState checks everything observable about the properties.
func propState(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, hist string) {
	got, cc := obs.Props(m)
	if cc != "" {
		c.Failf("after %s: %s", hist, cc)
	}
	a, b := ref.Packet{Type: p.Type, Ver: ref.V5, Props: got}, ref.Packet{Type: p.Type, Ver: ref.V5, Props: p.Props}
	if a.Key(false) != b.Key(false) {
		c.Failf("after %s: properties read as %s, expected %s", hist, a.Key(false), b.Key(false))
	}
}

// propCarrier is a packet that can be encoded whatever its properties.
func propCarrier(c *explore.Ctx, tt byte, kind int) (mqttp.IFace, *ref.Packet, string) {
	p := plain(tt, ref.V5)
	switch kind {
	case 0:
		return build(c, p, obs.BuildOpt{}), p, "new"
	case 1:
		return build(c, p, obs.BuildOpt{Generic: true}), p, "generic"
	case 2: // created for MQTT 3.1.1, switched
		q := plain(tt, ref.V311)
		q.Codes = p.Codes
		if tt == ref.UNSUBACK {
			q.Codes = nil
		}
		m := build(c, q, obs.BuildOpt{})
		m.SetVersion(mqttp.ProtocolV50)
		q.Ver = ref.V5
		if tt == ref.UNSUBACK {
			_ = m.(*mqttp.UnSubAck).AddReturnCode(0)
			q.Codes = []byte{0}
		}
		return m, q, "new v3.1.1, SetVersion(5)"
	}
	p = rich(tt, ref.V5)
	in := p.Encode(true)
	m, _, err := decode(c, ref.V5, in)
	if err != nil {
		c.Failf("decode of %s refused: %s", hexs(in), errStr(err))
	}
	return m, p, "decoded " + hexs(in)
}

var propPacketTypes = []byte{ref.CONNECT, ref.CONNACK, ref.PUBLISH, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBSCRIBE, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBACK, ref.DISCONNECT, ref.AUTH}

func propOps(tt byte) []apiOp {
	var ops []apiOp
	defs := ref.PropsOf(tt)
	// one property per kind, at most six
	var use []*ref.PropDef
	seen := map[ref.Kind]bool{}
	for _, d := range defs {
		if !seen[d.Kind] {
			seen[d.Kind] = true
			use = append(use, d)
		}
	}
	for _, d := range defs {
		if len(use) < 2 && d != use[0] {
			use = append(use, d)
		}
	}
	set := func(d *ref.PropDef, vs []ref.PropVal, multi bool) {
		vs = withVals(d.ID, vs)
		ops = append(ops, apiOp{fmt.Sprintf("set %s=%v", d.Name, vs), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
			p.Props = setProp(p.Props, d.ID, vs)
			return m.PropertySet(mqttp.PropertyID(d.ID), obs.PropArg(vs, multi)), false
		}})
	}
	refuse := func(id uint32, v interface{}) {
		ops = append(ops, apiOp{fmt.Sprintf("set %#x=%T", id, v), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
			return m.PropertySet(mqttp.PropertyID(id), v), true
		}})
	}
	for _, d := range use {
		set(d, []ref.PropVal{sampleProp(d, 0)}, false)
		switch d.Kind {
		case ref.KString:
			set(d, []ref.PropVal{{S: fill[:130]}}, false)
			refuse(d.ID, []byte("str"))
		case ref.KBinary:
			set(d, []ref.PropVal{{S: fill[:126]}}, false)
			refuse(d.ID, "bin")
		case ref.KPair:
			set(d, []ref.PropVal{{K: "k", S: fill[:100]}, {K: "", S: ""}, {K: "k", S: "x"}}, true)
			refuse(d.ID, "pair")
		case ref.KVar:
			set(d, []ref.PropVal{{U: 127}}, false)
			if ref.Repeatable(d.ID, tt) {
				set(d, []ref.PropVal{{U: 128}, {U: 1}, {U: 16384}}, true)
			}
			refuse(d.ID, uint32(1<<28))
		case ref.KInt:
			set(d, []ref.PropVal{{U: 0}}, false)
			refuse(d.ID, uint16(1))
		case ref.KShort:
			set(d, []ref.PropVal{{U: 1}}, false)
			refuse(d.ID, uint32(1))
		case ref.KByte:
			set(d, []ref.PropVal{{U: 0}}, false)
			refuse(d.ID, true)
		}
	}
	refuse(0x7F, byte(1))
	for i := range ref.PropDefs {
		d := &ref.PropDefs[i]
		if !d.Allowed(tt) && !(tt == ref.PUBLISH && d.Allowed(ref.WillType)) {
			refuse(d.ID, obs.PropArg([]ref.PropVal{sampleProp(d, 0)}, false))
			break
		}
	}
	ops = append(ops, apiOp{"discard", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
		m.PropertiesDiscard()
		p.Props = nil
		return nil, false
	}}, apiOp{"encode", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
		emit(c, m, p, "so far")
		return nil, false
	}}, apiOp{"version 3.1.1 and back", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
		m.SetVersion(mqttp.ProtocolV311)
		if m.PropertyGet(0x26) != nil {
			c.Failf("property readable in version 3.1.1")
		}
		m.SetVersion(mqttp.ProtocolV50)
		return nil, false
	}})
	return ops
}

func scenC12(t Tier) []*explore.Scenario {
	depth := t.pick(3, 4)
	return []*explore.Scenario{
		related("C12/related", propPacketTypes, []byte{ref.V5}, func(c *explore.Ctx, p *ref.Packet) {
			if len(p.Props) == 0 {
				return
			}
			q := *p
			q.Props = nil
			m := build(c, &q, obs.BuildOpt{Generic: true})
			for set := 0; set < 2; set++ { // each property is set to something else before
				for i, v := range p.Props {
					if i > 0 && p.Props[i-1].ID == v.ID {
						continue
					}
					vs := []ref.PropVal{sampleProp(ref.Prop(v.ID), 1)}
					if set == 1 {
						vs = nil
						for _, w := range p.Props {
							if w.ID == v.ID {
								vs = append(vs, w)
							}
						}
					}
					if err := m.PropertySet(mqttp.PropertyID(v.ID), obs.PropArg(vs, len(vs) > 1)); err != nil {
						c.Failf("setting property %#x of %s: %s", v.ID, p.Key(true), errStr(err))
					}
				}
			}
			propState(c, m, p, "setting the properties of "+p.Key(true))
			emit(c, m, p, "setting the properties")
		}),
		{Name: "C12/histories", Note: fmt.Sprintf("all sequences of %d property operations (set, overwrite shorter/longer, list values, wrong type, unknown or foreign identifier, discard, encode, version switch) on new, generic, switched and decoded packets of all 13 types; lookup, iteration and all accessors after every step, bytes at the end", depth),
			Run: func(c *explore.Ctx) {
				tt := propPacketTypes[c.Pick(len(propPacketTypes))]
				m, p, s := propCarrier(c, tt, c.Pick(4))
				ops := propOps(tt)
				h := []string{s}
				for i := 0; i < depth; i++ {
					op := ops[c.Pick(len(ops))]
					err, ref := op.do(c, m, p)
					c.Op(1)
					if ref != (err != nil) {
						c.Failf("%s; %s gives %s", strings.Join(h, "; "), op.name, errStr(err))
					}
					h = append(h, op.name)
					propState(c, m, p, op.name)
					c.State(p.Key(true))
				}
				hist := strings.Join(h, "; ")
				emit(c, m, p, hist)
				c.Sample(func() string { return hist })
			}},
		c12Long(),
		c12Again(),
		c12Wrap(t),
		ordersC12(t),
		withinProps("C12/within", t.pick(3, 4), own),
		{Name: "C12/arguments", Note: "every packet type x every identifier 0..300 (and multi-byte ones) x values of 44 Go types and sizes (lists of one or no value of a property that must not repeat are open, but held to be emitted as accepted), on an empty packet and on one holding that or another property: accepted exactly as MQTT 5 permits, refused ones change nothing",
			Run: func(c *explore.Ctx) {
				tt := byte(1 + c.Pick(15))
				ids := append(span(0, 300), 0x126, 0x10B, 0x2601, 16384, 1<<21, 1<<28, 1<<31)
				id := uint32(ids[c.Pick(len(ids))])
				d := ref.Prop(id)
				n := 0
				for _, a := range argKinds {
					for pre := 0; pre < 3; pre++ {
						m := build(c, plain(tt, ref.V5), obs.BuildOpt{})
						p := plain(tt, ref.V5)
						var prev *ref.PropDef
						if pre == 1 && d != nil && d.Allowed(tt) {
							prev = d
						} else if pre == 2 && len(ref.PropsOf(tt)) > 0 {
							prev = ref.PropsOf(tt)[len(ref.PropsOf(tt))-1]
						}
						if pre > 0 && prev == nil {
							continue
						}
						if prev != nil {
							v := []ref.PropVal{sampleProp(prev, 0)}
							if err := m.PropertySet(mqttp.PropertyID(prev.ID), obs.PropArg(v, false)); err != nil {
								c.Failf("setting %s on %s: %s", prev.Name, ref.TypeNames[tt], errStr(err))
							}
							p.Props = v
						}
						want := 0
						if d != nil && d.Allowed(tt) {
							want = a.ok(d, ref.Repeatable(id, tt))
						} else if d != nil && tt == ref.PUBLISH && d.Allowed(ref.WillType) {
							continue
						}
						err := m.PropertySet(mqttp.PropertyID(id), a.v)
						c.Op(1)
						if want == -1 && err == nil {
							as := withVals(id, a.as)
							if d.Kind == ref.KByte && a.as != nil && a.name == "[]uint8 of none" {
								as = nil
							}
							p.Props = setProp(p.Props, id, as)
							h := fmt.Sprintf("setting property %#x of %s (holding %v) to %s", id, ref.TypeNames[tt], pre, a.name)
							emit(c, m, p, h)
							v := []ref.PropVal{sampleProp(d, 1)}
							if err = m.PropertySet(mqttp.PropertyID(id), obs.PropArg(v, false)); err != nil {
								c.Failf("%s, then to %v: %s", h, v, errStr(err))
							}
							p.Props = setProp(p.Props, id, v)
							propState(c, m, p, h+", then to one value")
							emit(c, m, p, h+", then to one value")
							n++
							continue
						}
						if want == -1 {
							want = 0
						}
						if (err == nil) != (want == 1) {
							c.Failf("setting property %#x of %s to %s gives %s", id, ref.TypeNames[tt], a.name, errStr(err))
						}
						if want == 1 {
							p.Props = setProp(p.Props, id, withVals(id, a.as))
						}
						h := fmt.Sprintf("setting property %#x of %s (holding %v) to %s", id, ref.TypeNames[tt], pre, a.name)
						propState(c, m, p, h)
						if want == 1 || d != nil {
							emit(c, m, p, h)
						}
						n++
					}
				}
				c.Bulk(n)
				c.Sample(func() string { return fmt.Sprintf("%s, property %#x: %d arguments", ref.TypeNames[tt], id, n) })
			}},
		{Name: "C12/overwrite", Note: "every permitted property: value overwritten by each of four values in all 64 orders of three, then discarded and set again",
			Run: func(c *explore.Ctx) {
				tt := propPacketTypes[c.Pick(len(propPacketTypes))]
				defs := ref.PropsOf(tt)
				d := defs[c.Pick(len(defs))]
				m, p, s := propCarrier(c, tt, c.Pick(4))
				h := s
				for i := 0; i < 4; i++ {
					if i == 3 && c.Bool() {
						m.PropertiesDiscard()
						p.Props = nil
						h += "; discard"
					}
					v := []ref.PropVal{sampleProp(d, c.Pick(4))}
					if err := m.PropertySet(mqttp.PropertyID(d.ID), obs.PropArg(v, false)); err != nil {
						c.Failf("%s; setting %v: %s", h, v, errStr(err))
					}
					p.Props = setProp(p.Props, d.ID, v)
					h += fmt.Sprintf("; set %v", v)
					propState(c, m, p, h)
					emit(c, m, p, h)
				}
			}},
		{Name: "C12/subsets", Note: "every subset of the permitted properties set one after the other, read back, then every second one overwritten (CONNACK: 2^17)",
			Run: func(c *explore.Ctx) {
				eachSubset(c, propPacketTypes, func(tt byte, ps []ref.PropVal) {
					p := subsetPacket(tt, nil)
					m := obs.New(tt, ref.V5)
					if err := obs.SetProps(m, ps, false); err != nil {
						c.Failf("%s: %s", p.Key(true), errStr(err))
					}
					p.Props = ps
					propState(c, m, p, "setting all")
					for i := 0; i < len(ps); i += 2 {
						d := ref.Prop(ps[i].ID)
						v := []ref.PropVal{sampleProp(d, 3)}
						if err := m.PropertySet(mqttp.PropertyID(d.ID), obs.PropArg(v, false)); err != nil {
							c.Failf("overwriting %s: %s", d.Name, errStr(err))
						}
						p.Props = setProp(p.Props, d.ID, v)
					}
					propState(c, m, p, "overwriting every second")
				})
			}},
	}
}

// ---- C19 -------------------------------------------------------------------------------------

func scenC19(t Tier) []*explore.Scenario {
	return []*explore.Scenario{
		ordersC19(t),
		{Name: "C19/missing", Note: "every packet type and version x every subset of {identifier, topics/topic, codes, alias} present, QoS 0-2, duplicate mark, any order of Size/Encode attempts before completion",
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, nil)
				p := &ref.Packet{Type: tt, Ver: ver}
				if tt == ref.CONNECT {
					p.Clean = true
				}
				m := obs.New(tt, ver)
				if tt == ref.CONNECT {
					m.(*mqttp.Connect).SetClean(true)
				}
				early := c.Bool()
				if early {
					emit(c, m, p, "nothing set")
				}
				if tt == ref.PUBLISH {
					pm := m.(*mqttp.Publish)
					if c.Bool() {
						_ = pm.SetTopic("t")
						p.Topic = "t"
					}
					if early {
						emit(c, m, p, "topic")
					}
					p.QoS = byte(c.Pick(3))
					_ = pm.SetQoS(mqttp.QosType(p.QoS))
					if early {
						emit(c, m, p, "qos")
					}
					p.Dup = c.Bool()
					pm.SetDup(p.Dup)
					if ver == ref.V5 {
						switch c.Pick(4) {
						case 1:
							_ = pm.PropertySet(0x23, uint16(9))
							p.Props = []ref.PropVal{{ID: 0x23, U: 9}}
						case 2:
							_ = pm.PropertySet(0x01, byte(1))
							p.Props = []ref.PropVal{{ID: 0x01, U: 1}}
						case 3: // alias zero does not stand for a topic
							if p.Topic == "" {
								_ = pm.PropertySet(0x23, uint16(0))
								if out, err := encode(c, m); err == nil {
									c.Failf("PUBLISH without topic and with topic alias 0 encoded as %s", hexs(out))
								}
							}
							pm.PropertiesDiscard()
						}
					}
				}
				if tt == ref.SUBSCRIBE || tt == ref.UNSUBSCRIBE {
					n := c.Pick(3)
					for i := 0; i < n; i++ {
						tp, _ := mqttp.NewTopic([]byte("a"))
						_ = m.(interface{ AddTopic(*mqttp.Topic) error }).AddTopic(tp)
						p.Subs = append(p.Subs, ref.Sub{Filter: "a"})
					}
				}
				if tt == ref.SUBACK || tt == ref.UNSUBACK && ver == ref.V5 {
					if c.Bool() {
						_ = m.(interface{ AddReturnCode(mqttp.ReasonCode) error }).AddReturnCode(0)
						p.Codes = []byte{0}
					}
				}
				if ver == ref.V5 && c.Bool() {
					for _, d := range ref.PropsOf(tt) {
						if d.ID == 0x26 {
							v := []ref.PropVal{sampleProp(d, 0)}
							_ = m.PropertySet(0x26, obs.PropArg(v, false))
							p.Props = setProp(p.Props, 0x26, v)
						}
					}
				}
				if early {
					emit(c, m, p, "before the identifier")
				}
				if (obs.NeedsID(tt) || tt == ref.PUBLISH) && c.Bool() {
					m.(interface{ SetPacketID(mqttp.IDType) }).SetPacketID(5)
					p.ID, p.HasID = 5, true
				}
				c.State(p.Key(true))
				emit(c, m, p, "setting the chosen fields")
				emit(c, m, p, "setting the chosen fields, again")
				c.Sample(func() string { return p.Key(true) })
			}},
		{Name: "C19/spoil", Note: "a complete packet is encoded, then made contradictory (duplicate at QoS 0, QoS raised without identifier, topic cleared, properties discarded, version changed), must fail, then repaired and must encode again",
			Run: func(c *explore.Ctx) {
				ver := ref.Versions[c.Pick(3)]
				m := mqttp.NewPublish(mqttp.ProtocolVersion(ver))
				p := &ref.Packet{Type: ref.PUBLISH, Ver: ver, Topic: "t", Payload: "x"}
				_ = m.Set("t", []byte("x"), 0, false, false)
				h := "complete"
				emit(c, m, p, h)
				for i := 0; i < t.pick(4, 5); i++ {
					k := c.Pick(10)
					switch k {
					case 0, 1:
						p.Dup = k == 0
						m.SetDup(p.Dup)
					case 2, 3, 4:
						p.QoS = byte(k - 2)
						_ = m.SetQoS(mqttp.QosType(p.QoS))
					case 5:
						m.SetPacketID(8)
						p.ID, p.HasID = 8, true
					case 6:
						if err := m.SetTopic(""); (err == nil) != (p.Ver == ref.V5) {
							c.Failf("SetTopic(\"\") on v%d gives %s", p.Ver, errStr(err))
						} else if err == nil {
							p.Topic = ""
						}
					case 7:
						_ = m.SetTopic("t2")
						p.Topic = "t2"
					case 8:
						if err := m.PropertySet(0x23, uint16(4)); (err == nil) != (p.Ver == ref.V5) {
							c.Failf("topic alias on v%d gives %s", p.Ver, errStr(err))
						} else if err == nil {
							p.Props = []ref.PropVal{{ID: 0x23, U: 4}}
						}
					case 9:
						m.PropertiesDiscard()
						p.Props = nil
					}
					h += fmt.Sprintf("; step %d", k)
					emit(c, m, p, h)
				}
				c.State(p.Key(true))
			}},
		{Name: "C19/toolong", Note: "every length-prefixed field (client id, user name, password, will topic, will payload, topic, filters, every string/binary property and pair half) at 65535, 65536, 65537 and 131071 bytes: encodes exactly or fails",
			Run: func(c *explore.Ctx) {
				l := []int{65535, 65536, 65537, 131071, 131072}[c.Pick(5)]
				s := strings.Repeat("y", l)
				ver := ref.Versions[c.Pick(3)]
				f := c.Pick(8 + 14)
				var m mqttp.IFace
				var p *ref.Packet
				var err error
				fld := ""
				switch {
				case f < 5:
					p = plain(ref.CONNECT, ver)
					switch f {
					case 0:
						p.ClientID, fld = s, "client id"
					case 1:
						p.HasUser, p.User, fld = true, s, "user name"
					case 2:
						p.HasUser, p.User, p.HasPass, p.Pass, fld = true, "u", true, s, "password"
					case 3:
						p.Will, fld = &ref.Will{Topic: s, Payload: "m"}, "will topic"
					case 4:
						p.Will, fld = &ref.Will{Topic: "w", Payload: s}, "will payload"
					}
				case f == 5:
					p = plain(ref.PUBLISH, ver)
					p.Topic, fld = s, "topic"
				case f == 6:
					p = plain(ref.SUBSCRIBE, ver)
					p.Subs, fld = []ref.Sub{{Filter: "a"}, {Filter: s}}, "filter"
				case f == 7:
					p = plain(ref.UNSUBSCRIBE, ver)
					p.Subs, fld = []ref.Sub{{Filter: s}, {Filter: "a"}}, "filter"
				default:
					if ver != ref.V5 {
						c.Prune()
					}
					tt := allPropTypes[f-8]
					var defs []*ref.PropDef
					for _, d := range ref.PropsOf(tt) {
						if d.Kind == ref.KString || d.Kind == ref.KBinary || d.Kind == ref.KPair {
							defs = append(defs, d)
						}
					}
					d := defs[c.Pick(len(defs))]
					v := ref.PropVal{ID: d.ID, S: s}
					if d.Kind == ref.KPair && c.Bool() {
						v.K, v.S = s, "v"
					}
					ps := []ref.PropVal{v}
					if d.Kind == ref.KPair {
						o := ref.PropVal{ID: d.ID, K: "k", S: "v"}
						switch c.Pick(4) {
						case 1:
							ps = []ref.PropVal{o, v}
						case 2:
							ps = []ref.PropVal{v, o}
						case 3:
							ps = []ref.PropVal{o, v, o}
						}
					}
					p, fld = subsetPacket(tt, ps), d.Name
				}
				m, err = obs.Build(p, obs.BuildOpt{})
				c.Op(4)
				if err != nil {
					if l <= 65535 {
						c.Failf("building a packet with a %s of %d bytes: %s", fld, l, errStr(err))
					}
					return
				}
				out, err := encode(c, m)
				if l > 65535 && err == nil {
					c.Failf("%s of %d bytes was encoded as %s", fld, l, hexs(out))
				}
				if l <= 65535 {
					if err != nil {
						c.Failf("%s of %d bytes: %s", fld, l, errStr(err))
					}
					means(c, out, p)
				}
			}},
		{Name: "C19/setters", Note: "all 256 QoS values, all 256 return codes per acknowledgement type and version (single, in front of and behind a legal one), all one- and two-byte client ids, wildcard topics, will messages without topic or message, all 256 versions of CONNECT",
			Run: func(c *explore.Ctx) {
				k := c.Pick(256)
				q := mqttp.QosType(k)
				for _, ver := range ref.Versions {
					pv := mqttp.ProtocolVersion(ver)
					m := mqttp.NewPublish(pv)
					if err := m.SetQoS(q); (err == nil) != (k <= 2) {
						c.Failf("SetQoS(%d) gives %s", k, errStr(err))
					}
					if err := m.Set("t", nil, q, false, false); (err == nil) != (k <= 2) {
						c.Failf("Set(QoS %d) gives %s", k, errStr(err))
					}
					if k > 2 && (m.QoS() != 0 || m.Topic() != "" || m.Retain() || m.Dup()) {
						c.Failf("refused QoS %d changed the packet", k)
					}
					if k > 2 && k&3 == 3 {
						if tp, err := mqttp.NewSubscribeTopic([]byte("a"), mqttp.SubscriptionOptions(k)); err == nil || tp != nil {
							c.Failf("NewSubscribeTopic accepts options %#x", k)
						}
					}
					co := mqttp.NewConnect(pv)
					for x := -1; x < 256; x++ {
						id := []byte{byte(k)}
						if x >= 0 {
							id = append(id, byte(x))
						}
						err := co.SetClientID(id)
						if (err == nil) != ref.LegalClientID(id) {
							c.Failf("SetClientID(%q) gives %s", id, errStr(err))
						}
						tp := "a" + string(id)
						err = m.SetTopic(tp)
						if (err == nil) != ref.LegalTopicName([]byte(tp)) {
							c.Failf("SetTopic(%q) gives %s", tp, errStr(err))
						}
					}
					for _, tt := range []byte{ref.CONNACK, ref.SUBACK, ref.UNSUBACK, ref.AUTH} {
						if tt == ref.AUTH && ver != ref.V5 || tt == ref.UNSUBACK && ver != ref.V5 {
							continue
						}
						for form := 0; form < 4; form++ {
							a := obs.New(tt, ver)
							rc := mqttp.ReasonCode(k)
							var err error
							switch x := a.(type) {
							case *mqttp.ConnAck:
								err = x.SetReturnCode(rc)
							case *mqttp.Auth:
								err = x.SetReasonCode(rc)
							case interface {
								AddReturnCode(mqttp.ReasonCode) error
								AddReturnCodes([]mqttp.ReasonCode) error
							}:
								switch form {
								case 0:
									err = x.AddReturnCode(rc)
								case 1:
									err = x.AddReturnCodes([]mqttp.ReasonCode{rc})
								case 2:
									err = x.AddReturnCodes([]mqttp.ReasonCode{0, rc})
								case 3:
									err = x.AddReturnCodes([]mqttp.ReasonCode{rc, 0})
								}
							}
							ok := ver == ref.V5 && ref.CodeV5(tt, byte(k)) || ver != ref.V5 && codeV3(tt, byte(k))
							if tt == ref.CONNACK && !ok && (codeV3(tt, byte(k)) || ref.CodeV5(tt, byte(k))) {
								continue // defined for CONNACK in the other version
							}
							if (err == nil) != ok {
								c.Failf("%s v%d code %#x (form %d) gives %s", ref.TypeNames[tt], ver, k, form, errStr(err))
							}
							if err != nil {
								if p := observe(c, a); len(p.Codes) != 0 || p.Code != 0 {
									c.Failf("%s v%d: refused code %#x (form %d) left %s", ref.TypeNames[tt], ver, k, form, p.Key(false))
								}
							}
						}
					}
				}
				// versions
				co := mqttp.NewConnect(mqttp.ProtocolVersion(k))
				_ = co.SetClientID([]byte("c"))
				co.SetClean(true)
				out, err := encode(c, co)
				if (err == nil) != (k >= 3 && k <= 5) {
					c.Failf("CONNECT with version %d: %s, %s", k, hexs(out), errStr(err))
				}
				co = mqttp.NewConnect(mqttp.ProtocolV311)
				co.SetClean(true)
				_, _ = encode(c, co)
				co.SetVersion(mqttp.ProtocolVersion(k))
				if out, err = encode(c, co); (err == nil) != (k >= 3 && k <= 5) {
					c.Failf("CONNECT switched to version %d: %s, %s", k, hexs(out), errStr(err))
				}
				// will messages
				for _, ver := range ref.Versions {
					pv := mqttp.ProtocolVersion(ver)
					co := mqttp.NewConnect(pv)
					if co.SetWill(nil) == nil {
						c.Failf("nil will accepted")
					}
					w := mqttp.NewPublish(pv)
					w.SetPayload([]byte("m"))
					_ = w.SetQoS(mqttp.QosType(k % 3))
					w.SetRetain(k&1 == 1)
					if co.SetWill(w) == nil {
						c.Failf("will without topic accepted")
					}
					for _, pl := range [][]byte{nil, {}} {
						w = mqttp.NewPublish(pv)
						_ = w.SetTopic("w")
						_ = w.SetQoS(mqttp.QosType(k % 3))
						w.SetRetain(k&1 == 1)
						w.SetDup(k&4 == 4)
						w.SetPayload(pl)
						if k&8 == 8 && ver == ref.V5 {
							_ = w.PropertySet(mqttp.PropertyWillDelayInterval, uint32(1))
						}
						if co.SetWill(w) == nil {
							c.Failf("will without message accepted (QoS %d, retain %v)", k%3, k&1 == 1)
						}
					}
					p := &ref.Packet{Type: ref.CONNECT, Ver: ver}
					readsAs(c, co, p, "refused will")
					co.SetClean(true)
					p.Clean = true
					emit(c, co, p, "refused will")
				}
				c.Bulk(257 * 6)
			}},
		{Name: "C19/more-codes", Note: "SUBACK and UNSUBACK that hold 0 to 257 codes already: a further call with 1 to 4 codes, one of all 256 at every place, is refused as a whole or taken as a whole",
			Run: func(c *explore.Ctx) {
				tt, ver := []byte{ref.SUBACK, ref.UNSUBACK}[c.Pick(2)], ref.Versions[c.Pick(3)]
				if tt == ref.UNSUBACK && ver != ref.V5 {
					c.Prune()
				}
				have := []int{0, 1, 2, 3, 7, 8, 9, 127, 128, 255, 256, 257}[c.Pick(12)]
				n, at := 1+c.Pick(4), c.Pick(4)
				if at >= n {
					c.Prune()
				}
				fails := 0
				for k := 0; k < 256; k++ {
					m := obs.New(tt, ver).(interface {
						mqttp.IFace
						AddReturnCode(mqttp.ReasonCode) error
						AddReturnCodes([]mqttp.ReasonCode) error
					})
					p := &ref.Packet{Type: tt, Ver: ver}
					for i := 0; i < have; i++ {
						p.Codes = append(p.Codes, []byte{0, 0x80}[i%2])
						if i < 4 {
							if err := m.AddReturnCode(mqttp.ReasonCode(p.Codes[i])); err != nil {
								c.Failf("AddReturnCode(%#x): %s", p.Codes[i], errStr(err))
							}
						}
					}
					if have > 4 {
						var l []mqttp.ReasonCode
						for _, x := range p.Codes[4:] {
							l = append(l, mqttp.ReasonCode(x))
						}
						if err := m.AddReturnCodes(l); err != nil {
							c.Failf("AddReturnCodes: %s", errStr(err))
						}
					}
					l := make([]mqttp.ReasonCode, n)
					add := make([]byte, n)
					l[at], add[at] = mqttp.ReasonCode(k), byte(k)
					err := m.AddReturnCodes(l)
					ok := ver == ref.V5 && ref.CodeV5(tt, byte(k)) || ver != ref.V5 && codeV3(tt, byte(k))
					if (err == nil) != ok {
						c.Failf("%s v%d holding %d codes: adding %x gives %s", ref.TypeNames[tt], ver, have, add, errStr(err))
					}
					if ok {
						p.Codes = append(p.Codes, add...)
					} else {
						fails++
					}
					if got := observe(c, m); string(got.Codes) != string(p.Codes) {
						c.Failf("%s v%d holding %d codes: after adding %x (%s) it holds %x", ref.TypeNames[tt], ver, have, add, errStr(err), got.Codes)
					}
				}
				c.Bulk(256)
				c.State(fmt.Sprint(tt, ver, have, n, at, fails))
			}},
		{Name: "C19/codes", Note: "encoded acknowledgements never carry a code the setter refused: all 256 codes x types, then a legal one",
			Run: func(c *explore.Ctx) {
				tt := []byte{ref.CONNACK, ref.SUBACK, ref.UNSUBACK, ref.AUTH}[c.Pick(4)]
				n := 0
				for k := 0; k < 256; k++ {
					if ref.CodeV5(tt, byte(k)) || tt == ref.CONNACK && k <= 5 {
						continue
					}
					p := plain(tt, ref.V5)
					m := build(c, p, obs.BuildOpt{})
					rc := mqttp.ReasonCode(k)
					switch x := m.(type) {
					case *mqttp.ConnAck:
						_ = x.SetReturnCode(rc)
					case *mqttp.Auth:
						_ = x.SetReasonCode(rc)
					case interface{ AddReturnCode(mqttp.ReasonCode) error }:
						_ = x.AddReturnCode(rc)
					}
					emit(c, m, p, fmt.Sprintf("refused code %#x", k))
					n++
				}
				c.Bulk(n)
			}},
	}
}

// ---- C23 -------------------------------------------------------------------------------------

func versionOps(tt byte) []apiOp {
	var ops []apiOp
	add := func(name string, do func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool)) {
		ops = append(ops, apiOp{name, do})
	}
	for _, v := range ref.Versions {
		v := v
		add(fmt.Sprintf("SetVersion(%d)", v), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
			m.SetVersion(mqttp.ProtocolVersion(v))
			p.Ver = v
			if byte(m.Version()) != v {
				c.Failf("SetVersion(%d) leaves version %d", v, m.Version())
			}
			return nil, false
		})
	}
	defs := ref.PropsOf(tt)
	for i, d := range defs {
		if d.ID != 0x26 && i > 0 {
			continue
		}
		d := d
		for k := 0; k < 2; k++ {
			v := []ref.PropVal{sampleProp(d, k)}
			add(fmt.Sprintf("PropertySet(%s,#%d)", d.Name, k), func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
				err := m.PropertySet(mqttp.PropertyID(d.ID), obs.PropArg(v, false))
				if p.Ver != ref.V5 {
					return err, true
				}
				p.Props = setProp(p.Props, d.ID, v)
				return err, false
			})
		}
	}
	add("PropertiesDiscard", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
		m.PropertiesDiscard()
		p.Props = nil
		return nil, false
	})
	add("Encode", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
		emit(c, m, p, "so far")
		return nil, false
	})
	switch tt {
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP:
		k := byte(0x92)
		if tt == ref.PUBACK || tt == ref.PUBREC {
			k = 0x87
		}
		add("SetReason", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
			m.(*mqttp.Ack).SetReason(mqttp.ReasonCode(k))
			if p.Ver == ref.V5 {
				p.Code = k
			} else {
				p.Code = byte(m.(*mqttp.Ack).Reason())
			}
			return nil, false
		})
	case ref.DISCONNECT:
		add("SetReasonCode", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
			m.(*mqttp.Disconnect).SetReasonCode(0x8E)
			if p.Ver == ref.V5 {
				p.Code = 0x8E
			} else {
				p.Code = byte(m.(*mqttp.Disconnect).ReasonCode())
			}
			return nil, false
		})
	case ref.CONNECT:
		add("SetWill", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
			w := mqttp.NewPublish(mqttp.ProtocolV50)
			_ = w.Set("vw", []byte("vm"), 1, true, false)
			_ = w.PropertySet(0x18, uint32(3))
			p.Will = &ref.Will{Topic: "vw", Payload: "vm", QoS: 1, Retain: true, Props: []ref.PropVal{{ID: 0x18, U: 3}}}
			return m.(*mqttp.Connect).SetWill(w), false
		})
		add("ResetWill", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
			m.(*mqttp.Connect).ResetWill()
			p.Will = nil
			return nil, false
		})
	case ref.PUBLISH:
		add("SetPayload", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet) (error, bool) {
			m.(*mqttp.Publish).SetPayload([]byte("other"))
			p.Payload = "other"
			return nil, false
		})
	}
	return ops
}

func scenC23(t Tier) []*explore.Scenario {
	depth := t.pick(4, 5)
	types := []byte{ref.CONNECT, ref.CONNACK, ref.PUBLISH, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBSCRIBE, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBACK, ref.PINGREQ, ref.PINGRESP, ref.DISCONNECT}
	return []*explore.Scenario{
		related("C23/related", types, []byte{ref.V5}, func(c *explore.Ctx, p *ref.Packet) {
			m := build(c, p, obs.BuildOpt{})
			q := *p
			for _, v := range []byte{ref.V311, ref.V5, ref.V31, ref.V5} {
				m.SetVersion(mqttp.ProtocolVersion(v))
				q.Ver = v
				readsAs(c, m, &q, fmt.Sprintf("switching %s to version %d", p.Key(true), v))
				emit(c, m, &q, fmt.Sprintf("switching %s to version %d", p.Key(true), v))
			}
		}),
		{Name: "C23/switch", Note: fmt.Sprintf("all sequences of %d version switches, property operations, code setters and encodes on packets of 14 types created in or decoded from each version; property access and bytes checked after every step", depth),
			Run: func(c *explore.Ctx) {
				tt := types[c.Pick(len(types))]
				ver := ref.Versions[c.Pick(3)]
				kind := c.Pick(3)
				m, p := versionStart(c, tt, ver, kind)
				ops := versionOps(tt)
				h := []string{p.Key(true)}
				for i := 0; i < depth; i++ {
					op := ops[c.Pick(len(ops))]
					err, refuse := op.do(c, m, p)
					c.Op(1)
					if refuse != (err != nil) {
						c.Failf("%s; %s gives %s", strings.Join(h, "; "), op.name, errStr(err))
					}
					h = append(h, op.name)
					if i < depth-1 {
						readsAs(c, m, p, op.name)
					}
					versionGate(c, m, p, op.name)
					c.State(p.Key(true))
				}
				hist := strings.Join(h, "; ")
				readsAs(c, m, p, hist)
				if tt == ref.UNSUBACK && p.Ver == ref.V5 && len(p.Codes) == 0 {
					return
				}
				emit(c, m, p, hist)
				readsAs(c, m, p, hist+"; Encode")
				c.Sample(func() string { return hist })
			}},
		c23Long(types),
		c23Again(types),
		c23Wrap(t, types),
		{Name: "C23/connect-version", Note: "CONNECT packets of each version decoded with each version assumed: the packet speaks the version it announces and re-encodes identically",
			Run: func(c *explore.Ctx) {
				ver, as := ref.Versions[c.Pick(3)], ref.Versions[c.Pick(3)]
				p := plain(ref.CONNECT, ver)
				if c.Bool() {
					p = rich(ref.CONNECT, ver)
				}
				in := p.Encode(true)
				m, _, err := decode(c, as, in)
				if err != nil {
					c.Failf("decode assuming v%d of %s refused: %s", as, hexs(in), errStr(err))
				}
				readsAs(c, m, p, "decoding")
				emit(c, m, p, "decoding")
				versionGate(c, m, p, "decoding")
				next := ref.Versions[c.Pick(3)]
				m.SetVersion(mqttp.ProtocolVersion(next))
				p.Ver = next
				if next != ver && next == ref.V5 {
					readsAs(c, m, p, "switching")
				}
				emit(c, m, p, "decoding and switching")
			}},
	}
}

// versionGate checks property access against the version.
func versionGate(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, hist string) {
	if p.Ver == ref.V5 {
		return
	}
	for i := range ref.PropDefs {
		if m.PropertyGet(mqttp.PropertyID(ref.PropDefs[i].ID)) != nil {
			c.Failf("after %s: property %s readable in version %d", hist, ref.PropDefs[i].Name, p.Ver)
		}
	}
	n := 0
	if err := m.PropertyForEach(func(mqttp.PropertyID, mqttp.PropertyToType) { n++ }); err == nil || n > 0 {
		c.Failf("after %s: iteration in version %d visits %d properties, %s", hist, p.Ver, n, errStr(err))
	}
	if err := m.PropertySet(0x26, mqttp.StringPair{K: "k", V: "v"}); err == nil {
		c.Failf("after %s: property set in version %d", hist, p.Ver)
	}
}
