package scen

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/VolantMQ/vlapi/mqttp"
	"github.com/VolantMQ/vlapi/vltypes"

	"verifmc/explore"
	"verifmc/obs"
	"verifmc/ref"
	"verifmc/vsched"
)

// The language leaves the order of a walk over a map open. In the "order" build the explorer decides it.

// anyOrder runs f under every order of every walk over a map: all permutations of up to full entries; of more
// entries every one first, the others ascending or descending. With once all walks over maps of one size in f
// take the same order.
func anyOrder(c *explore.Ctx, full int, once bool, f func()) {
	taken := map[int][]int{}
	vsched.Orders = func(n int) []int {
		if o := taken[n]; o != nil && once {
			return o
		}
		left := make([]int, n)
		for i := range left {
			left[i] = i
		}
		var o []int
		if n <= full {
			for len(left) > 0 {
				i := c.Pick(len(left))
				o = append(o, left[i])
				left = append(left[:i:i], left[i+1:]...)
			}
		} else {
			i := c.Pick(n)
			o = append(append(append(o, i), left[i+1:]...), left[:i]...)
			if c.Bool() {
				for a, b := 1, n-1; a < b; a, b = a+1, b-1 {
					o[a], o[b] = o[b], o[a]
				}
			}
		}
		taken[n] = o
		c.Logf("map of %d entries is walked in the order %v", n, o)
		return o
	}
	defer func() { vsched.Orders = nil }()
	f()
}

// pickSet chooses a carrier and 2 to most of the properties permitted on it, or all.
func pickSet(c *explore.Ctx, types []byte, most int) (byte, []ref.PropVal) {
	type head struct {
		tt    byte
		first int
	}
	var heads []head // the carrier and its first property, -1: all
	for _, tt := range types {
		for i := -1; i < len(ref.PropsOf(tt))-1; i++ {
			heads = append(heads, head{tt, i})
		}
	}
	h := heads[c.Pick(len(heads))]
	tt, defs := h.tt, ref.PropsOf(h.tt)
	var ps []ref.PropVal
	add := func(i int) {
		ps = append(ps, sampleProp(defs[i], i%2))
		if ref.Repeatable(defs[i].ID, tt) {
			ps = append(ps, sampleProp(defs[i], 1-i%2))
		}
	}
	if h.first < 0 {
		for i := range defs {
			add(i)
		}
	} else {
		add(h.first)
		n := 1 + c.Pick(most-1)
		for last := h.first; n > 0; n-- {
			if last+1 >= len(defs) {
				c.Prune()
			}
			last += 1 + c.Pick(len(defs)-last-1)
			add(last)
		}
	}
	return tt, ps
}

// orderSets enumerates sets of 2 to most properties of every carrier, and the full set.
func orderSets(name, build string, types []byte, most int, note string, visit func(c *explore.Ctx, tt byte, ps []ref.PropVal)) *explore.Scenario {
	return &explore.Scenario{Name: name, Build: build, Serial: true, Note: fmt.Sprintf("every set of 2 to %d of the properties permitted on each carrier, and all of them, repeatable ones given twice, x every order in which the library walks its property maps (all permutations of up to %d entries, beyond that each entry first with the others ascending or descending): %s", most, most, note),
		Run: func(c *explore.Ctx) {
			tt, ps := pickSet(c, types, most)
			visit(c, tt, ps)
		}}
}

func ordersC03(t Tier) *explore.Scenario {
	most := t.pick(4, 6)
	return orderSets("C03/orders", "order", allPropTypes, most, "what was decoded encodes to bytes of the same meaning, which decode again", func(c *explore.Ctx, tt byte, ps []ref.PropVal) {
		p := subsetPacket(tt, ps)
		in := p.Encode(true)
		m, _, err := decode(c, p.Ver, in)
		if err != nil {
			c.Failf("%s does not decode: %s", hexs(in), errStr(err))
		}
		var out []byte
		anyOrder(c, most, false, func() { out, err = encode(c, m) })
		if err != nil {
			c.Failf("%s was decoded from %s but cannot be encoded: %s", p.Key(true), hexs(in), errStr(err))
		}
		means(c, out, p)
		m2, n, err := decode(c, p.Ver, out)
		if err != nil || n != len(out) {
			c.Failf("%s was encoded as %s, which the library does not decode: n=%d %s", p.Key(true), hexs(out), n, errStr(err))
		}
		if gk, wk := observe(c, m2).Key(false), p.Key(false); gk != wk {
			c.Failf("%s was encoded as %s, which the library reads as %s", wk, hexs(out), gk)
		}
		c.State(hexs(out))
		c.Sample(func() string { return hexs(out) })
	})
}

func ordersC04(t Tier) *explore.Scenario {
	most := t.pick(4, 6)
	return orderSets("C04/orders", "order", allPropTypes, most, "the announced size is what is written into an exact and into a larger buffer, nothing behind it changes, one byte less is refused", func(c *explore.Ctx, tt byte, ps []ref.PropVal) {
		p := subsetPacket(tt, ps)
		m := build(c, p, obs.BuildOpt{})
		sz, err := m.Size()
		if err != nil {
			c.Failf("Size of %s: %s", p.Key(true), errStr(err))
		}
		more := c.Pick(3) - 1
		buf := bytes.Repeat([]byte{0xA5}, sz+16)
		var n int
		anyOrder(c, most, false, func() { n, err = m.Encode(buf[: sz+more : sz+more]) })
		c.Op(2)
		if more < 0 {
			if err != mqttp.ErrInsufficientBufferSize {
				c.Failf("%s announces %d bytes, encoding into %d gives %s", p.Key(true), sz, sz-1, errStr(err))
			}
		} else if err != nil || n != sz {
			c.Failf("%s announces %d bytes, encoding into %d wrote %d, %s", p.Key(true), sz, sz+more, n, errStr(err))
		}
		from := min(sz, sz+more)
		if bytes.Count(buf[from:], []byte{0xA5}) != len(buf)-from {
			c.Failf("%s announces %d bytes but encoding into %d touched bytes behind them", p.Key(true), sz, sz+more)
		}
		if more >= 0 {
			means(c, buf[:sz], p)
		}
	})
}

func ordersC12(t Tier) *explore.Scenario {
	most := t.pick(4, 6)
	return orderSets("C12/orders", "order", propPacketTypes, most, "iteration shows every property exactly once with its values, lookup the same, and looking changes nothing", func(c *explore.Ctx, tt byte, ps []ref.PropVal) {
		p := subsetPacket(tt, nil)
		m := build(c, p, obs.BuildOpt{})
		if err := obs.SetProps(m, ps, false); err != nil {
			c.Failf("setting the properties of %s: %s", p.Key(true), errStr(err))
		}
		p.Props = ps
		anyOrder(c, most, true, func() { propState(c, m, p, "setting them one after the other") })
		propState(c, m, p, "iterating")
		emit(c, m, p, "iterating")
	})
}

func ordersC19(t Tier) *explore.Scenario {
	most := t.pick(4, 5)
	long := strings.Repeat("y", 65536) // one more than fits
	return orderSets("C19/orders", "order", allPropTypes, most, "with one string, binary value or half of a pair too long for its length field (each in turn), the packet is refused by the setter or by encoding", func(c *explore.Ctx, tt byte, ps []ref.PropVal) {
		ps = append([]ref.PropVal(nil), ps...)
		i := c.Pick(len(ps))
		switch ref.Prop(ps[i].ID).Kind {
		case ref.KString, ref.KBinary:
			ps[i].S = long
		case ref.KPair:
			if c.Bool() {
				ps[i].K = long
			} else {
				ps[i].S = long
			}
		default:
			c.Prune()
		}
		p := subsetPacket(tt, ps)
		m, err := obs.Build(p, obs.BuildOpt{})
		c.Op(4)
		if err != nil {
			return
		}
		var out []byte
		anyOrder(c, most, false, func() { out, err = encode(c, m) })
		if err == nil {
			c.Failf("%d properties, %s of 65536 bytes: encoded as %s", len(ps), ref.Prop(ps[i].ID).Name, hexs(out))
		}
	})
}

func ordersC25(t Tier, keys, vals []interface{}, strs int) *explore.Scenario {
	most := t.pick(4, 5)
	return &explore.Scenario{Name: "C25/orders", Build: "order", Serial: true, Note: fmt.Sprintf("every set of 2 to %d of the same 13 keys x every order in which the library walks the map: all permutations; the same map every time, all entries with their values or refused as a whole", most),
		Run: func(c *explore.Ctx) {
			in := map[interface{}]interface{}{}
			legal := true
			add := func(i int) {
				in[keys[i]] = vals[(i+len(in))%len(vals)]
				legal = legal && i < strs
			}
			last := c.Pick(len(keys) - 1)
			add(last)
			for n := 1 + c.Pick(most-1); n > 0; n-- {
				if last+1 >= len(keys) {
					c.Prune()
				}
				last += 1 + c.Pick(len(keys)-last-1)
				add(last)
			}
			snap := fmt.Sprintf("%#v", in)
			var out map[string]interface{}
			var err error
			anyOrder(c, most, false, func() { out, err = vltypes.NormalizeConfig(in) })
			c.Op(1)
			if fmt.Sprintf("%#v", in) != snap {
				c.Failf("normalising altered its input %s to %#v", snap, in)
			}
			if !legal {
				if err != vltypes.ErrInvalidConfigType || out != nil {
					c.Failf("normalising %s gives %v, %s", snap, out, errStr(err))
				}
				return
			}
			want := map[string]interface{}{}
			for k, v := range in {
				want[k.(string)] = v
			}
			if err != nil || fmt.Sprintf("%#v", out) != fmt.Sprintf("%#v", want) {
				c.Failf("normalising %s gives %#v, %s", snap, out, errStr(err))
			}
			c.Sample(func() string { return snap })
		}}
}
