package scen

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"

	"verifmc/explore"
	"verifmc/obs"
	"verifmc/ref"
)

// forwarded are the properties a clone for an MQTT 5 subscriber carries.
var forwarded = map[uint32]bool{0x01: true, 0x03: true, 0x08: true, 0x09: true, 0x26: true}

// cloneModel is what a clone of p made for version v must be.
func cloneModel(p *ref.Packet, v byte) *ref.Packet {
	q := &ref.Packet{Type: ref.PUBLISH, Ver: v, Topic: p.Topic, Payload: p.Payload, QoS: p.QoS, Retain: p.Retain}
	if p.Ver == ref.V5 && v == ref.V5 {
		for _, x := range p.Props {
			if forwarded[x.ID] {
				q.Props = append(q.Props, x)
			}
		}
	}
	return q
}

// deadline reads the expiry deadline.
func deadline(m *mqttp.Publish) time.Time {
	t, _, _ := m.Expired()
	return t
}

// cloneIs compares a clone with the model, including its bytes.
func cloneIs(c *explore.Ctx, k *mqttp.Publish, w *ref.Packet, dl time.Time, what string) {
	c.Op(1)
	got := observe(c, k)
	g, m := *got, *w
	g.HasID, g.ID, m.HasID, m.ID = false, 0, false, 0
	if gk, wk := g.Key(false), m.Key(false); gk != wk {
		c.Failf("%s: clone reads %s, expected %s", what, gk, wk)
	}
	if !deadline(k).Equal(dl) {
		c.Failf("%s: clone expires at %v, the message at %v", what, deadline(k), dl)
	}
	if m.Topic == "" { // stands only with a topic alias, which a clone does not carry
		return
	}
	k.SetPacketID(0x0A0B)
	m.HasID, m.ID = true, 0x0A0B
	out, err := encode(c, k)
	if err != nil {
		c.Failf("%s: encoding the clone %s failed: %s", what, m.Key(true), errStr(err))
	}
	means(c, out, &m)
}

func mustClone(c *explore.Ctx, m *mqttp.Publish, v byte, what string) *mqttp.Publish {
	c.Op(1)
	k, err := m.Clone(mqttp.ProtocolVersion(v))
	if err != nil || k == nil {
		c.Failf("%s: Clone(%d) gives %v, %s", what, v, k != nil, errStr(err))
	}
	if k == m {
		c.Failf("%s: Clone(%d) returns the message itself", what, v)
	}
	return k
}

// asPublish makes the message by construction or by decoding.
func asPublish(c *explore.Ctx, p *ref.Packet, how int) *mqttp.Publish {
	if how < 2 {
		return build(c, p, obs.BuildOpt{Generic: how == 1, MultiProps: how == 1}).(*mqttp.Publish)
	}
	in := p.Encode(true)
	m, _, err := decode(c, p.Ver, in)
	if err != nil {
		c.Failf("decode of %s refused: %s", hexs(in), errStr(err))
	}
	return m.(*mqttp.Publish)
}

// pairCounts are the numbers of user properties a message is given.
var pairCounts = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 18, 31, 32, 33, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 1000}

func scenC16(t Tier) []*explore.Scenario {
	far := time.Now().Add(1000 * time.Hour)
	deadlines := []time.Time{{}, far, time.Unix(5, 7), far.Round(0).UTC()}
	return []*explore.Scenario{
		related("C16/related", []byte{ref.PUBLISH}, nil, func(c *explore.Ctx, p *ref.Packet) {
			for how := 0; how < 3; how++ {
				m := asPublish(c, p, how)
				m.SetExpireAt(far)
				for _, to := range ref.Versions {
					k := mustClone(c, m, to, p.Key(true))
					cloneIs(c, k, cloneModel(p, to), far, p.Key(true))
				}
				if got := observe(c, m); got.Key(true) != p.Key(true) {
					c.Failf("%s: cloning changed the message to %s", p.Key(true), got.Key(true))
				}
			}
		}),
		{Name: "C16/subsets", Note: "messages with every subset of the eight PUBLISH properties (repeated where repeatable) x built/generic/decoded x target version x QoS, retain, duplicate, deadline: clone and clone of the clone compared with the model by getters and bytes, the original unchanged",
			Run: func(c *explore.Ctx) {
				how := c.Pick(3)
				fl := c.Pick(3 * 2 * 2)
				dl := deadlines[c.Pick(len(deadlines))]
				to := ref.Versions[c.Pick(3)]
				eachSubset(c, []byte{ref.PUBLISH}, func(tt byte, ps []ref.PropVal) {
					p := subsetPacket(tt, ps)
					p.QoS, p.Retain = byte(fl%3), fl/3%2 == 1
					if p.QoS > 0 {
						p.HasID, p.ID, p.Dup = true, 9, fl/6 == 1
					} else if fl/6 == 1 {
						p.Payload = ""
					}
					m := asPublish(c, p, how)
					m.SetExpireAt(dl)
					what := fmt.Sprintf("%s for v%d", p.Key(true), to)
					k := mustClone(c, m, to, what)
					w := cloneModel(p, to)
					cloneIs(c, k, w, dl, what)
					k2 := mustClone(c, k, ref.V5, what)
					cloneIs(c, k2, cloneModel(w, ref.V5), dl, what+", cloned again")
					if got := observe(c, m); got.Key(true) != p.Key(true) && p.QoS > 0 {
						c.Failf("%s: cloning changed the message to %s", what, got.Key(true))
					}
					if !deadline(m).Equal(dl) {
						c.Failf("%s: cloning changed the deadline", what)
					}
					c.State(p.Key(true))
				})
			}},
		{Name: "C16/contents", Note: "source version x target version x topics, payloads (empty, nil, 1..200000 bytes), every forwarded property with each of its edge values and lengths up to 65535, 0..9, 16..18, 31..33, 64..66, 127..130, 255..258 and 1000 user properties in every list form, of equal, distinct or repeated keys and equal pairs, deadlines",
			Run: func(c *explore.Ctx) {
				from, to := ref.Versions[c.Pick(3)], ref.Versions[c.Pick(3)]
				how := c.Pick(3)
				p := &ref.Packet{Type: ref.PUBLISH, Ver: from, Topic: "t", Payload: "pl", QoS: 1, HasID: true, ID: 3}
				dl := deadlines[c.Pick(len(deadlines))]
				switch c.Pick(7) {
				case 0:
					p.Topic = []string{"a/b", "$SYS/x", "/", "é中", fill[:65535], " ", "\ufeff"}[c.Pick(7)]
				case 1:
					p.Payload = []string{"", "\x00", fill[:127], fill[:128], strings.Repeat("z", 16384), strings.Repeat("\xff", 200000)}[c.Pick(6)]
				case 2:
					if from != ref.V5 {
						c.Prune()
					}
					l := []int{0, 1, 127, 128, 65535}[c.Pick(5)]
					p.Props = []ref.PropVal{[]ref.PropVal{{ID: 0x03, S: fill[:l]}, {ID: 0x08, S: fill[:l]}, {ID: 0x09, S: fill[:l]}, {ID: 0x26, K: fill[:l], S: "v"}, {ID: 0x26, K: "k", S: fill[:l]}}[c.Pick(5)]}
				case 3:
					if from != ref.V5 {
						c.Prune()
					}
					n := pairCounts[c.Pick(len(pairCounts))]
					rep := c.Pick(4)
					for i := 0; i < n; i++ {
						k := []string{"k", fmt.Sprintf("%c%d", 'z'-i%26, i/26), string(rune('a' + i%2)), "k"}[rep]
						v := string(rune('A' + i*7%26))
						if rep == 3 {
							v = "v"
						}
						p.Props = append(p.Props, ref.PropVal{ID: 0x26, K: k, S: v})
					}
				case 4:
					if from != ref.V5 {
						c.Prune()
					}
					p.Props = []ref.PropVal{{ID: 0x01, U: uint32(c.Pick(2))}}
				case 5:
					if from != ref.V5 {
						c.Prune()
					}
					d := ref.Prop([]uint32{0x02, 0x0B, 0x23}[c.Pick(3)])
					p.Props = []ref.PropVal{sampleProp(d, c.Pick(4))}
					if d.ID == 0x0B && c.Bool() {
						p.Props = append(p.Props, ref.PropVal{ID: 0x0B, U: 4})
					}
				case 6: // topic given by alias only
					if from != ref.V5 {
						c.Prune()
					}
					p.Topic, p.Props = "", []ref.PropVal{{ID: 0x23, U: 5}}
				}
				m := asPublish(c, p, how)
				m.SetExpireAt(dl)
				m.SetPublishID(77)
				what := fmt.Sprintf("%s for v%d", p.Key(true), to)
				w := cloneModel(p, to)
				k := mustClone(c, m, to, what)
				cloneIs(c, k, w, dl, what)
				before := time.Now()
				d1, left1, ex1 := m.Expired()
				d2, left2, ex2 := k.Expired()
				if !d1.Equal(d2) || ex1 != ex2 || left1 < left2 || time.Since(before) < time.Second && left1 > left2+2 {
					c.Failf("%s: expiry of message (%v,%d,%v) and clone (%v,%d,%v) differ", what, d1, left1, ex1, d2, left2, ex2)
				}
				c.State(what)
				c.Sample(func() string { return what })
			}},
		{Name: "C16/wills", Note: "the will of a CONNECT (received with minimal property encodings or assembled; all versions) with every subset of the will properties, repeated where repeatable x QoS, retain x empty/short payload x target version x deadline: the clone compared with the model by getters and bytes; changing it leaves will and CONNECT as they were",
			Run: func(c *explore.Ctx) {
				ver, to := ref.Versions[c.Pick(3)], ref.Versions[c.Pick(3)]
				received := c.Bool()
				fl := c.Pick(6)
				payload := "last words"
				if received && c.Bool() {
					payload = ""
				}
				dl := deadlines[c.Pick(len(deadlines))]
				one := func(ps []ref.PropVal) {
					p := &ref.Packet{Type: ref.CONNECT, Ver: ver, ClientID: "c", Clean: true, KeepAlive: 7}
					p.Will = &ref.Will{Topic: "w/t", Payload: payload, QoS: byte(fl % 3), Retain: fl/3 == 1, Props: ps}
					var m mqttp.IFace
					if received {
						var err error
						in := p.Encode(true)
						if m, _, err = decode(c, ver, in); err != nil {
							c.Failf("decode of %s refused: %s", hexs(in), errStr(err))
						}
					} else {
						m = build(c, p, obs.BuildOpt{})
					}
					w := m.(*mqttp.Connect).Will()
					w.SetExpireAt(dl)
					before := observe(c, m).Key(true)
					what := fmt.Sprintf("will of %s for v%d", p.Key(true), to)
					k := mustClone(c, w, to, what)
					model := cloneModel(&ref.Packet{Ver: ver, Topic: p.Will.Topic, Payload: payload, QoS: p.Will.QoS, Retain: p.Will.Retain, Props: ps}, to)
					cloneIs(c, k, model, dl, what)
					_ = k.Set("else", []byte("other"), 0, !p.Will.Retain, false)
					_ = k.PropertySet(0x26, mqttp.StringPair{K: "z", V: "z"})
					k.PropertiesDiscard()
					k.SetExpireAt(time.Unix(1, 0))
					if after := observe(c, m).Key(true); after != before || !deadline(w).Equal(dl) {
						c.Failf("%s: changing the clone turned %s into %s (deadline %v)", what, before, after, deadline(w))
					}
					out, err := encode(c, m)
					if err != nil {
						c.Failf("%s: encoding the CONNECT: %s", what, errStr(err))
					}
					means(c, out, p)
					c.State(what)
				}
				if ver != ref.V5 {
					one(nil)
					return
				}
				eachSubset(c, []byte{ref.WillType}, func(tt byte, ps []ref.PropVal) { one(ps) })
			}},
		{Name: "C16/isolation", Note: fmt.Sprintf("all histories of 2 operations (for a decoded message with MQTT 5 clones: %d), each on the message, on either of two clones (MQTT 5 and any version) or on a clone of a clone: setters of every field, property set/overwrite/list/discard, version switch, deadline, encode, re-clone; after every step all the other packets read as before, at the end their bytes too", t.pick(3, 4)),
			Run: func(c *explore.Ctx) {
				how := c.Pick(3)
				second := ref.Versions[c.Pick(3)]
				depth := t.pick(2, 3)
				if how == 2 && second == ref.V5 {
					depth = t.pick(3, 4)
				}
				p := &ref.Packet{Type: ref.PUBLISH, Ver: ref.V5, Topic: "src/topic", Payload: "payload", QoS: 1, HasID: true, ID: 21, Retain: true, Dup: true,
					Props: []ref.PropVal{{ID: 0x01, U: 1}, {ID: 0x02, U: 60}, {ID: 0x08, S: "resp"}, {ID: 0x09, S: "corr"}, {ID: 0x26, K: "a", S: "1"}, {ID: 0x26, K: "b", S: "2"}}}
				m := asPublish(c, p, how)
				m.SetExpireAt(far)
				m.SetPublishID(5)
				a := mustClone(c, m, ref.V5, "source")
				b := mustClone(c, m, second, "source")
				all := []*mqttp.Publish{m, a, b, mustClone(c, a, ref.V5, "first clone")}
				names := []string{"message", "clone A", "clone B", "clone of A"}
				cur := make([]string, len(all))
				snap := func(x *mqttp.Publish) string {
					return fmt.Sprintf("%s | %d | %s | %x", observe(c, x).Key(true), x.PublishID(), deadline(x).Format(time.RFC3339Nano), x.Payload())
				}
				for i := range all {
					cur[i] = snap(all[i])
				}
				var h []string
				for s := 0; s < depth; s++ {
					who := c.Pick(len(all))
					op := cloneOps[c.Pick(len(cloneOps))]
					h = append(h, names[who]+": "+op.name)
					op.do(c, all, who)
					c.Op(1)
					for i := range all {
						now := snap(all[i])
						if i != who && now != cur[i] {
							c.Failf("%s changed %s from %s to %s", strings.Join(h, "; "), names[i], cur[i], now)
						}
						cur[i] = now
					}
				}
				for i, x := range all {
					q := observe(c, x)
					q.HasID, q.ID = true, 0x1112
					x.SetPacketID(0x1112)
					if ok, _ := emittable(q); !ok {
						continue
					}
					out, err := encode(c, x)
					if err != nil {
						c.Failf("%s: encoding %s: %s", strings.Join(h, "; "), names[i], errStr(err))
					}
					means(c, out, wireForm(q))
				}
				c.State(strings.Join(cur, "|"))
				c.Sample(func() string { return strings.Join(h, "; ") })
			}},
	}
}

type cloneOp struct {
	name string
	do   func(c *explore.Ctx, all []*mqttp.Publish, who int)
}

var cloneOps = func() []cloneOp {
	var ops []cloneOp
	add := func(n string, f func(m *mqttp.Publish)) {
		ops = append(ops, cloneOp{n, func(c *explore.Ctx, all []*mqttp.Publish, who int) { f(all[who]) }})
	}
	add("SetTopic", func(m *mqttp.Publish) { _ = m.SetTopic("changed") })
	add("SetPayload", func(m *mqttp.Publish) { m.SetPayload([]byte("PAYLOAD")) })
	add("flags", func(m *mqttp.Publish) { _ = m.SetQoS(2); m.SetRetain(!m.Retain()); m.SetDup(!m.Dup()) })
	add("SetPacketID", func(m *mqttp.Publish) { m.SetPacketID(999) })
	add("Set", func(m *mqttp.Publish) { _ = m.Set("other", []byte("o"), 0, false, false) })
	add("user=c:3", func(m *mqttp.Publish) { _ = m.PropertySet(0x26, mqttp.StringPair{K: "c", V: "3"}) })
	add("user=[d:4 e:5 f:6]", func(m *mqttp.Publish) {
		_ = m.PropertySet(0x26, []mqttp.StringPair{{K: "d", V: "4"}, {K: "e", V: "5"}, {K: "f", V: "6"}})
	})
	add("user=wrong type", func(m *mqttp.Publish) { _ = m.PropertySet(0x26, "x") })
	add("correlation", func(m *mqttp.Publish) { _ = m.PropertySet(0x09, []byte("CORR")) })
	add("content type", func(m *mqttp.Publish) { _ = m.PropertySet(0x03, "ct") })
	add("subscription ids", func(m *mqttp.Publish) { _ = m.PropertySet(0x0B, []uint32{1, 2}) })
	add("discard", func(m *mqttp.Publish) { m.PropertiesDiscard() })
	add("SetExpireAt", func(m *mqttp.Publish) { m.SetExpireAt(time.Unix(99, 0)) })
	add("SetPublishID", func(m *mqttp.Publish) { m.SetPublishID(1234) })
	add("SetVersion(4)", func(m *mqttp.Publish) { m.SetVersion(mqttp.ProtocolV311) })
	add("SetVersion(5)", func(m *mqttp.Publish) { m.SetVersion(mqttp.ProtocolV50) })
	add("Encode", func(m *mqttp.Publish) {
		if n, err := m.Size(); err == nil {
			_, _ = m.Encode(make([]byte, n))
		}
	})
	ops = append(ops, cloneOp{"Clone(5), discarded and modified", func(c *explore.Ctx, all []*mqttp.Publish, who int) {
		k := mustClone(c, all[who], ref.V5, "history")
		_ = k.PropertySet(0x26, mqttp.StringPair{K: "z", V: "z"})
		k.SetDup(true)
		k.SetPayload(nil)
	}})
	return ops
}()

// ---- C17 -------------------------------------------------------------------------------------

// judgeExpiry calls Expired between two clock readings.
func judgeExpiry(c *explore.Ctx, m *mqttp.Publish, d time.Time, what string) {
	before := time.Now()
	got, left, expired := m.Expired()
	after := time.Now()
	c.Op(1)
	if d.IsZero() {
		if expired || !got.IsZero() {
			c.Failf("%s: no deadline, yet Expired gives %v, %d, %v", what, got, left, expired)
		}
		return
	}
	if !got.Equal(d) {
		c.Failf("%s: deadline %v reported as %v", what, d, got)
	}
	if !d.After(before) {
		if !expired {
			c.Failf("%s: deadline %v passed %v ago, reported live with %d s", what, d, before.Sub(d), left)
		}
		return
	}
	secs := func(t time.Time) uint64 { // whole seconds from t to d
		s := d.Sub(t) / time.Second
		if s < 0 {
			return 0
		}
		if s > math.MaxUint32 {
			return math.MaxUint32
		}
		return uint64(s)
	}
	lo, hi := secs(after), secs(before)
	if lo >= 1 && expired {
		c.Failf("%s: %d s left until %v, reported expired", what, lo, d)
	}
	if !expired && (uint64(left) < lo || uint64(left) > hi) {
		c.Failf("%s: between %d and %d s left until %v, reported %d", what, lo, hi, d, left)
	}
}

func scenC17(t Tier) []*explore.Scenario {
	far := []time.Duration{0, 1, time.Nanosecond * 999999999, time.Second, time.Second + 1, 1500 * time.Millisecond, 2 * time.Second, 59*time.Second + 1, time.Minute, time.Hour,
		24 * time.Hour, 65535 * time.Second, 65536 * time.Second, 65537*time.Second + 5, (1<<24 + 3) * time.Second, (1<<31 - 1) * time.Second, (1<<31 + 2) * time.Second, (1<<32 - 2) * time.Second, (1<<32 - 1) * time.Second,
		(1 << 32) * time.Second, (1<<32 + 1) * time.Second, (1<<32+2)*time.Second + 5, (1<<33 + 7) * time.Second, math.MaxInt64}
	var offs []time.Duration
	for _, d := range far {
		offs = append(offs, d)
		if d != 0 {
			offs = append(offs, -d)
		}
	}
	for _, p := range []time.Duration{5, 10, 30, 100, 300, 1000, 3000, 10000, 100000} {
		offs = append(offs, p*time.Second, p*time.Second+500*time.Millisecond, -p*time.Second)
	}
	abs := []time.Time{time.Unix(0, 0), time.Unix(1, 0), time.Unix(0, 1), time.Unix(-1, 0), time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(1, 1, 1, 0, 0, 1, 0, time.UTC), time.Date(-50, 1, 1, 0, 0, 0, 0, time.UTC),
		time.Date(1700, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(2400, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(100000, 1, 1, 0, 0, 0, 0, time.UTC), time.Unix(1<<40, 0), {}}
	forms := func(d time.Time, k int) time.Time {
		switch k {
		case 1:
			return d.Round(0)
		case 2:
			return d.UTC()
		case 3:
			return d.In(time.FixedZone("x", 14*3600))
		case 4:
			return d.Round(0).In(time.FixedZone("y", -12*3600))
		}
		return d
	}
	n := len(offs) + len(abs)
	dead := func(i, form int) (time.Time, string) {
		if i < len(offs) {
			return forms(time.Now().Add(offs[i]), form), fmt.Sprintf("deadline now%+v (form %d)", offs[i], form)
		}
		return forms(abs[i-len(offs)], form), fmt.Sprintf("deadline %v (form %d)", abs[i-len(offs)], form)
	}
	return []*explore.Scenario{
		{Name: "C17/deadlines", Note: fmt.Sprintf("%d deadlines (offsets 0, 1 ns .. 292 years on both sides, around whole seconds and 2^16/2^31/2^32 s; absolute extremes; none) x 5 clock forms (monotonic, wall, zones) x message origin (new, generic, decoded in each version, clone, clone of clone) x other fields; the answer is judged against clock readings taken before and after the call", n),
			Run: func(c *explore.Ctx) {
				i, form := c.Pick(n), c.Pick(5)
				ver := ref.Versions[c.Pick(3)]
				origin := c.Pick(5)
				fields := c.Pick(8)
				p := &ref.Packet{Type: ref.PUBLISH, Ver: ver, Topic: "t", Payload: "x"}
				p.QoS = byte(fields & 1 * (1 + fields>>1&1))
				p.HasID, p.ID, p.Retain, p.Dup = p.QoS > 0, 6, fields>>1&1 == 1, fields&4 != 0 && p.QoS > 0
				if ver == ref.V5 && fields>>2 == 1 {
					p.Props = []ref.PropVal{{ID: 0x02, U: []uint32{0, 1, 3600, 0xFFFFFFFF}[fields&3]}, {ID: 0x26, K: "k", S: "v"}}
				}
				m := asPublish(c, p, []int{0, 1, 2, 0, 2}[origin])
				d, what := dead(i, form)
				m.SetExpireAt(d)
				what = fmt.Sprintf("%s on %s (origin %d)", what, p.Key(true), origin)
				if origin >= 3 {
					m = mustClone(c, m, ref.Versions[fields%3], what)
					if origin == 4 {
						m = mustClone(c, m, ver, what)
					}
				}
				judgeExpiry(c, m, d, what)
				for k := 0; k < 3; k++ {
					switch k {
					case 0:
						m.SetDup(true)
						m.SetRetain(true)
						_ = m.SetQoS(2)
						m.SetPacketID(65535)
					case 1:
						_ = m.PropertySet(0x02, uint32(1))
						m.SetPayload(nil)
						_ = m.SetTopic("other")
						m.SetPublishID(1)
					case 2:
						m.SetVersion(mqttp.ProtocolV311)
						_, _ = encode(c, m)
						_ = m.Set("s", nil, 0, false, false)
						m.PropertiesDiscard()
					}
					judgeExpiry(c, m, d, fmt.Sprintf("%s, change %d", what, k))
				}
				c.State(what)
				c.Sample(func() string { return what })
			}},
		{Name: "C17/histories", Note: "all sequences of three deadlines set one after the other (each of ten kinds including none) on a message and on its clone in between: the last one decides",
			Run: func(c *explore.Ctx) {
				kinds := []int{0, 1, 2, 7, 8, 13, 14, 33, n - 1, n - 5}
				m := mqttp.NewPublish(mqttp.ProtocolVersion(ref.Versions[c.Pick(3)]))
				_ = m.SetTopic("t")
				judgeExpiry(c, m, time.Time{}, "new message")
				var k *mqttp.Publish
				var kd time.Time
				h := "new"
				for s := 0; s < 3; s++ {
					d, w := dead(kinds[c.Pick(len(kinds))], 0)
					h += "; " + w
					m.SetExpireAt(d)
					judgeExpiry(c, m, d, h)
					judgeExpiry(c, m, d, h+", again")
					if k != nil {
						judgeExpiry(c, k, kd, h+", earlier clone")
					}
					if c.Bool() {
						k, kd = mustClone(c, m, ref.V5, h), d
						h += "; clone"
					}
				}
				c.State(h)
			}},
		{Name: "C17/elapse", Note: "messages with deadlines 0.05 .. 3.3 s ahead are polled every 2 ms through their whole life: live with the right seconds, then expired for good",
			Run: func(c *explore.Ctx) {
				off := []time.Duration{50, 700, 1000, 1150, 1900, 2050, 3050, 3300}[c.Pick(8)] * time.Millisecond
				wall := c.Bool()
				if t.Thorough {
					off += time.Duration(c.Pick(4)) * 211 * time.Millisecond
				}
				m := mqttp.NewPublish(mqttp.ProtocolV50)
				d := time.Now().Add(off)
				if wall {
					d = d.Round(0)
				}
				m.SetExpireAt(d)
				n, was := 0, false
				for end := d.Add(60 * time.Millisecond); time.Now().Before(end); n++ {
					judgeExpiry(c, m, d, fmt.Sprintf("%v after the deadline was set to now+%v", off-time.Until(d), off))
					_, _, ex := m.Expired()
					if was && !ex {
						c.Failf("message with deadline now+%v is live again after being expired", off)
					}
					was = ex
					time.Sleep(2 * time.Millisecond)
					c.Beat()
				}
				if !was {
					c.Failf("message with deadline now+%v is not expired after it", off)
				}
				c.Bulk(n)
			}},
	}
}
