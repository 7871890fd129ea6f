package scen

import (
	"fmt"

	"github.com/VolantMQ/vlapi/mqttp"

	"verifmc/explore"
	"verifmc/obs"
	"verifmc/ref"
)

// A walk over the properties or filters of a packet hands control to the caller at every entry. These
// scenarios use the library from there.

// inner is something done in the middle of a walk over packet m, whose content is p; o and op are another.
type inner struct {
	name string
	do   func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, o mqttp.IFace, op *ref.Packet)
}

type leave struct{}

// own looks at the packet that is being walked over, apart touches only others.
var own = []inner{
	{"reading it, its walks included", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, o mqttp.IFace, op *ref.Packet) {
		if gk, wk := observe(c, m).Key(false), p.Key(false); gk != wk {
			c.Failf("in the middle of a walk the packet %s reads as %s", wk, gk)
		}
	}},
	{"encoding it", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, o mqttp.IFace, op *ref.Packet) { encodesTo(c, m, p) }},
	{"asking its size", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, o mqttp.IFace, op *ref.Packet) {
		c.Op(1)
		if n, err := m.Size(); err != nil || n != len(p.Encode(true)) {
			c.Failf("in the middle of a walk the packet %s announces %d bytes, %s", p.Key(true), n, errStr(err))
		}
	}},
	{"walking over it and stopping at the first", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, o mqttp.IFace, op *ref.Packet) {
		first(c, m)
	}},
	{"leaving by a panic", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, o mqttp.IFace, op *ref.Packet) { panic(leave{}) }},
}

var apart = []inner{
	{"reading another", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, o mqttp.IFace, op *ref.Packet) {
		if gk, wk := observe(c, o).Key(false), op.Key(false); gk != wk {
			c.Failf("in the middle of a walk another packet %s reads as %s", wk, gk)
		}
	}},
	{"encoding another", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, o mqttp.IFace, op *ref.Packet) { encodesTo(c, o, op) }},
	{"decoding another", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, o mqttp.IFace, op *ref.Packet) {
		judge(c, op.Ver, op.Encode(true))
	}},
	{"failing to decode another", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, o mqttp.IFace, op *ref.Packet) {
		w := op.Encode(true)
		w[1]--
		judge(c, op.Ver, w[:len(w)-1])
	}},
	{"building another", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, o mqttp.IFace, op *ref.Packet) {
		encodesTo(c, build(c, op, obs.BuildOpt{}), op)
	}},
	{"walking over another and leaving that by a panic", func(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, o mqttp.IFace, op *ref.Packet) {
		caught(func() { first(c, o) })
	}},
}

// first starts walks over m and leaves them at the first entry.
func first(c *explore.Ctx, m mqttp.IFace) {
	caught(func() { _ = m.PropertyForEach(func(mqttp.PropertyID, mqttp.PropertyToType) { panic(leave{}) }) })
	if t, ok := m.(walker); ok {
		stop := fmt.Errorf("stop")
		if err := t.ForEachTopic(func(*mqttp.Topic) error { return stop }); err != stop {
			c.Failf("a walk over filters stopped by its callback returns %s", errStr(err))
		}
	}
	c.Op(2)
}

// caught runs f, and tells whether it was left by the panic of a callback.
func caught(f func()) (left bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(leave); !ok {
				panic(r)
			}
			left = true
		}
	}()
	f()
	return
}

type walker interface {
	ForEachTopic(func(*mqttp.Topic) error) error
}

// midWalk walks over m, doing act at entry k (every entry for k < 0), and judges the walk and m afterwards.
func midWalk(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, o mqttp.IFace, op *ref.Packet, act inner, k int, topics bool) {
	seen, n := *p, 0
	at := func() {
		n++
		if k < 0 || k == n-1 {
			act.do(c, m, p, o, op)
		}
	}
	var err error
	left := caught(func() {
		if topics {
			seen.Subs = nil
			err = m.(walker).ForEachTopic(func(t *mqttp.Topic) error {
				seen.Subs = append(seen.Subs, ref.Sub{Filter: t.Full(), Opt: t.Ops().Raw()})
				at()
				return nil
			})
		} else {
			seen.Props = nil
			err = m.PropertyForEach(func(id mqttp.PropertyID, v mqttp.PropertyToType) {
				at()
				vs, bad := obs.PropValues(uint32(id), v)
				if bad != "" {
					c.Failf("walking over %s, %s at entry %d: %s", p.Key(true), act.name, k, bad)
				}
				seen.Props = append(seen.Props, vs...)
			})
		}
	})
	c.Op(1)
	if err != nil {
		c.Failf("walking over %s, %s at entry %d: %s", p.Key(true), act.name, k, errStr(err))
	}
	if gk, wk := seen.Key(false), p.Key(false); !left && gk != wk {
		c.Failf("walking over %s, %s at entry %d: the walk shows %s", wk, act.name, k, gk)
	}
	if gk, wk := observe(c, m).Key(false), p.Key(false); gk != wk {
		c.Failf("%s, while it was walked over, %s at entry %d: afterwards it reads as %s", wk, act.name, k, gk)
	}
	if gk, wk := observe(c, o).Key(false), op.Key(false); gk != wk {
		c.Failf("while another was walked over, %s at entry %d, %s became %s", act.name, k, wk, gk)
	}
	encodesTo(c, m, p)
	encodesTo(c, o, op)
}

// obtain builds p or decodes it.
func obtain(c *explore.Ctx, p *ref.Packet, decoded bool) mqttp.IFace {
	if !decoded {
		return build(c, p, obs.BuildOpt{})
	}
	m, _, err := decode(c, p.Ver, p.Encode(true))
	if err != nil {
		c.Failf("%s does not decode: %s", p.Key(true), errStr(err))
	}
	return m
}

func withinProps(name string, most int, acts []inner) *explore.Scenario {
	return &explore.Scenario{Name: name, Note: fmt.Sprintf("every carrier with 2 to %d of its properties or all, built and decoded, is walked over property by property; at the first, second, last or every entry the callback goes on with %s: the walk shows everything once, and both packets are what they were", most, names(acts)),
		Run: func(c *explore.Ctx) {
			tt, ps := pickSet(c, propPacketTypes, most)
			p := subsetPacket(tt, ps)
			n := distinctProps(ps)
			ks := []int{-1, 0, 1}
			if n > 2 {
				ks = append(ks, n-1)
			}
			k := ks[c.Pick(len(ks))]
			act := acts[c.Pick(len(acts))]
			decoded := c.Bool()
			op := subsetPacket(tt, nil)
			for i, d := range ref.PropsOf(tt) {
				op.Props = append(op.Props, sampleProp(d, 1-i%2))
			}
			m, o := obtain(c, p, decoded), obtain(c, op, !decoded)
			midWalk(c, m, p, o, op, act, k, false)
			c.State(fmt.Sprint(act.name, k, decoded, p.Key(true)))
			c.Sample(func() string { return p.Key(true) + ": " + act.name })
		}}
}

func withinTopics(name string, acts []inner) *explore.Scenario {
	lists := [][]ref.Sub{
		{{Filter: "a", Opt: 1}}, {{Filter: "a"}, {Filter: "a", Opt: 2}}, {{Filter: "a/+", Opt: 1}, {Filter: "$share/g/x/#"}, {Filter: "$SYS/#", Opt: 2}},
		{{Filter: "#"}, {Filter: "long/filter/of/some/levels/+", Opt: 1}, {Filter: "b", Opt: 2}, {Filter: "#"}, {Filter: "c", Opt: 1}},
	}
	ts := []byte{ref.SUBSCRIBE, ref.UNSUBSCRIBE}
	return &explore.Scenario{Name: name, Note: fmt.Sprintf("SUBSCRIBE and UNSUBSCRIBE of 1 to 5 filters in every version, built and decoded, are walked over filter by filter; at each or every entry the callback goes on with %s: the walk shows every filter once in order, and both packets are what they were", names(acts)),
		Run: func(c *explore.Ctx) {
			tt, ver := typeVer(c, ts)
			mk := func(l []ref.Sub, id uint16) *ref.Packet {
				p := &ref.Packet{Type: tt, Ver: ver, HasID: true, ID: id}
				for _, s := range l {
					if tt == ref.UNSUBSCRIBE {
						s.Opt = 0
					}
					if ver != ref.V5 && s.Filter[0] == '$' && s.Filter[1] == 's' {
						s.Filter = "share/x"
					}
					p.Subs = append(p.Subs, s)
				}
				if ver == ref.V5 {
					p.Props = []ref.PropVal{{ID: 0x26, K: "k", S: "v"}}
				}
				return p
			}
			p, op := mk(lists[c.Pick(len(lists))], 258), mk(lists[c.Pick(len(lists))], 7)
			k := c.Pick(len(p.Subs)+1) - 1
			act := acts[c.Pick(len(acts))]
			decoded := c.Bool()
			m, o := obtain(c, p, decoded), obtain(c, op, c.Bool())
			midWalk(c, m, p, o, op, act, k, true)
			c.State(fmt.Sprint(act.name, k, decoded, p.Key(true), op.Key(true)))
			c.Sample(func() string { return p.Key(true) + ": " + act.name })
		}}
}

func names(acts []inner) (s string) {
	for i, a := range acts {
		if i > 0 {
			s += "; "
		}
		s += a.name
	}
	return
}
