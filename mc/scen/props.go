package scen

import (
	"bytes"
	"fmt"

	"verifmc/explore"
	"verifmc/ref"
)

// carry embeds a raw property section (length field included) in a packet of the type.
func carry(t byte, section []byte, variant int) []byte {
	var b []byte
	cat := func(x ...byte) { b = append(b, x...) }
	switch t {
	case ref.CONNECT:
		b = ref.LP(b, "MQTT")
		cat(5, 2, 0, 9)
		b = append(b, section...)
		b = ref.LP(b, "c")
	case ref.WillType:
		b = ref.LP(b, "MQTT")
		cat(5, 6, 0, 9, 0)
		b = ref.LP(b, "c")
		b = append(b, section...)
		b = ref.LP(ref.LP(b, "w"), "m")
		return ref.Frame(0x10, b)
	case ref.CONNACK:
		cat(0, 0)
		b = append(b, section...)
	case ref.PUBLISH:
		b = ref.LP(b, "t")
		first := byte(0x30)
		if variant&1 == 1 {
			first = 0x32
			cat(0, 7)
		}
		b = append(b, section...)
		if variant&2 == 0 {
			cat('p', 'l')
		}
		return ref.Frame(first, b)
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP:
		cat(0, 7, 0)
		b = append(b, section...)
	case ref.SUBSCRIBE:
		cat(0, 7)
		b = append(b, section...)
		b = append(ref.LP(b, "a"), 1)
	case ref.UNSUBSCRIBE:
		cat(0, 7)
		b = append(b, section...)
		b = ref.LP(b, "a")
	case ref.SUBACK, ref.UNSUBACK:
		cat(0, 7)
		b = append(b, section...)
		cat(0)
	case ref.DISCONNECT, ref.AUTH:
		cat(0)
		b = append(b, section...)
	}
	return ref.Frame(t<<4|ref.FixedFlags(t), b)
}

// variants of the carrier.
func variants(t byte) int {
	if t == ref.PUBLISH {
		return 4
	}
	return 1
}

// withLen prefixes content with a length field padded to at least pad bytes.
func withLen(content []byte, n, pad int) []byte {
	l := ref.Varint(nil, uint32(n))
	for len(l) < pad {
		l[len(l)-1] |= 0x80
		l = append(l, 0)
	}
	return append(l, content...)
}

var allPropTypes = []byte{ref.CONNECT, ref.WillType, ref.CONNACK, ref.PUBLISH, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP,
	ref.SUBSCRIBE, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBACK, ref.DISCONNECT, ref.AUTH}

// rawValues are wire values of every kind, good and bad.
var rawValues = func() [][]byte {
	lp := func(s string) []byte { return ref.LP(nil, s) }
	vals := [][]byte{
		{}, {0}, {1}, {2}, {255}, // byte
		{0, 0}, {0, 1}, {1, 2}, {255, 255}, // short, also empty strings
		{0, 0, 0, 0}, {0, 0, 0, 1}, {1, 2, 3, 4}, {255, 255, 255, 255}, // int
		{0x7f}, {0x80, 1}, {0xff, 0x7f}, {0x80, 0x80, 1}, {0xff, 0xff, 0x7f}, {0x80, 0x80, 0x80, 1}, {0xff, 0xff, 0xff, 0x7f}, // varint
		{0x80, 0}, {0x81, 0}, {0x81, 0x80, 0}, {0x80, 0x80, 0x80, 0}, // non-minimal
		{0x80, 0x80, 0x80, 0x80, 1}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0xff, 0xff, 0xff, 0xff, 0x7f}, {0x80, 0x80, 0x80, 0x80, 0x80, 1}, // too long
		lp("s"), lp("é中\U0001D11E"), lp("\xff"), lp("\xc3"), lp("\xed\xa0\x80"), lp("\xc0\x80"), lp("a\xf4\x90\x80\x80"), lp("a\x00b"), lp("\x7f"), lp("a+b/#"), lp("\ufeff"),
		lp(fill[:127]), lp(fill[:300]),
		append(lp("k"), lp("v")...), append(lp(""), lp("")...), append(lp("k"), lp("\xff")...), append(lp("\xff"), lp("v")...), append(lp("é"), lp("\U0010FFFF")...),
		append(lp("k"), lp("")...), append(lp(""), lp("v")...), append(lp("\x01"), lp("v")...), append(lp(fill[:200]), lp(fill[:150])...),
		{0, 5, 'a'}, {255, 255, 'a'}, {0, 1, 'k', 0, 9, 'v'}, // truncated
	}
	return vals
}()

// propSections enumerates property sections with one identifier.
func propSections(name string, types []byte, visit visitor) *explore.Scenario {
	return &explore.Scenario{
		Name: name,
		Note: "section with every identifier 0..300 and multi-byte ones x wire values of all kinds (good, bad, truncated) x {once, twice, three times, followed by a user property} x length field exact, off by -2..+3, non-minimal; identifier non-minimally encoded; cut at every byte",
		Run: func(c *explore.Ctx) {
			tt := types[c.Pick(len(types))]
			ids := append(span(0, 300), 16383, 16384, 2097151, 2097152, 268435455)
			id := uint32(ids[c.Pick(len(ids))])
			vr := c.Pick(variants(tt))
			n := 0
			j := func(sec []byte) {
				visit(c, ref.V5, carry(tt, sec, vr))
				n++
			}
			known := ref.Prop(id) != nil && ref.Prop(id).Allowed(tt)
			user := ref.AppendProp(nil, ref.PropVal{ID: 0x26, K: "x", S: "y"})
			for vi, v := range rawValues {
				idb := ref.Varint(nil, id)
				one := append(append([]byte(nil), idb...), v...)
				for rep := 1; rep <= 3; rep++ {
					var content []byte
					for i := 0; i < rep; i++ {
						content = append(content, one...)
					}
					j(withLen(content, len(content), 1))
					if rep > 1 && !known {
						continue
					}
					mixed := append(append([]byte(nil), content...), user...)
					j(withLen(mixed, len(mixed), 1))
					mixed = append(append([]byte(nil), user...), content...)
					j(withLen(mixed, len(mixed), 1))
					for d := -2; d <= 3; d++ {
						if d != 0 && len(content)+d >= 0 {
							j(withLen(content, len(content)+d, 1))
						}
					}
					for pad := 2; pad <= 5; pad++ {
						j(withLen(content, len(content), pad))
					}
					if known && len(content) < 64 {
						for cut := 0; cut < len(content); cut++ {
							j(withLen(content[:cut], cut, 1))
						}
					}
				}
				if known || vi < 6 {
					// two different values of the identifier
					for _, w := range [][]byte{{1}, {0, 1}, {1, 2, 3, 4}, ref.LP(nil, "z"), append(ref.LP(nil, "k"), ref.LP(nil, "w")...)} {
						content := append(append([]byte(nil), one...), append(append([]byte(nil), idb...), w...)...)
						j(withLen(content, len(content), 1))
					}
					// non-minimal identifier
					for pad := 1; pad <= 4; pad++ {
						f := ref.Varint(nil, id)
						for i := 0; i < pad; i++ {
							f[len(f)-1] |= 0x80
							f = append(f, 0)
						}
						content := append(f, v...)
						j(withLen(content, len(content), 1))
					}
				}
			}
			c.Bulk(n)
			c.Sample(func() string {
				return fmt.Sprintf("carrier type %d variant %d identifier %#x: %d sections", tt, vr, id, n)
			})
		},
	}
}

// propPairs enumerates sections with two and three identifiers.
func propPairs(name string, types []byte, visit visitor) *explore.Scenario {
	return &explore.Scenario{
		Name: name,
		Note: "all ordered pairs (and sandwiches a,b,a) of all 27 identifiers with two values each, allowed or not, in every listed packet type",
		Run: func(c *explore.Ctx) {
			tt := types[c.Pick(len(types))]
			vr := c.Pick(variants(tt))
			a := c.Pick(len(ref.PropDefs))
			n := 0
			for b := range ref.PropDefs {
				for va := 0; va < 2; va++ {
					for vb := 0; vb < 2; vb++ {
						x := ref.AppendProp(nil, sampleProp(&ref.PropDefs[a], va))
						y := ref.AppendProp(nil, sampleProp(&ref.PropDefs[b], vb))
						xy := append(append([]byte(nil), x...), y...)
						visit(c, ref.V5, carry(tt, withLen(xy, len(xy), 1), vr))
						xyx := append(append([]byte(nil), xy...), ref.AppendProp(nil, sampleProp(&ref.PropDefs[a], 1-va))...)
						visit(c, ref.V5, carry(tt, withLen(xyx, len(xyx), 1), vr))
						n += 2
					}
				}
			}
			c.Bulk(n)
			c.Sample(func() string {
				return fmt.Sprintf("carrier type %d, identifier %#x with each other identifier", tt, ref.PropDefs[a].ID)
			})
		},
	}
}

// sampleProp gives a legal value; v selects among four.
func sampleProp(d *ref.PropDef, v int) ref.PropVal {
	p := ref.PropVal{ID: d.ID}
	switch d.Kind {
	case ref.KByte:
		p.U = uint32(v+1) & 1
	case ref.KShort:
		p.U = []uint32{0x0102, 1, 65535, 0x100}[v]
	case ref.KInt:
		p.U = []uint32{0x01020304, 1, 0xffffffff, 0x10000}[v]
	case ref.KVar:
		p.U = []uint32{300, 1, 268435455, 127}[v]
	case ref.KString:
		p.S = []string{"str", "é", "", "s t"}[v]
	case ref.KBinary:
		p.S = []string{"b\x00\xff", "b", "", "\x00"}[v]
	case ref.KPair:
		p.K, p.S = []string{"k", "k", "", "é"}[v], []string{"v", "w", "", "x"}[v]
	}
	return p
}

// subsetPacket makes the packet of carrier type tt with the given properties.
func subsetPacket(tt byte, ps []ref.PropVal) *ref.Packet {
	p := &ref.Packet{Type: tt, Ver: ref.V5}
	switch tt {
	case ref.CONNECT:
		p.ClientID, p.Clean, p.Props = "c", true, ps
	case ref.WillType:
		p.Type, p.ClientID, p.Clean = ref.CONNECT, "c", true
		p.Will = &ref.Will{Topic: "w", Payload: "m", Props: ps}
	case ref.PUBLISH:
		p.Topic, p.Payload, p.Props = "t", "pl", ps
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		p.HasID, p.ID, p.Subs, p.Props = true, 7, []ref.Sub{{Filter: "a"}}, ps
	case ref.SUBACK, ref.UNSUBACK:
		p.HasID, p.ID, p.Codes, p.Props = true, 7, []byte{0}, ps
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP:
		p.HasID, p.ID, p.Props = true, 7, ps
	default:
		p.Props = ps
	}
	return p
}

// eachSubset enumerates all subsets of the properties of a type through picks and one inner loop.
func eachSubset(c *explore.Ctx, types []byte, f func(tt byte, ps []ref.PropVal)) {
	tt := types[c.Pick(len(types))]
	defs := ref.PropsOf(tt)
	outer := 0
	if len(defs) > 8 {
		outer = len(defs) - 8
	}
	mask := c.Pick(1 << uint(outer))
	n := 0
	for low := 0; low < 1<<uint(len(defs)-outer); low++ {
		m := mask<<uint(len(defs)-outer) | low
		var ps []ref.PropVal
		for i, d := range defs {
			if m>>uint(i)&1 == 1 {
				ps = append(ps, sampleProp(d, m%2))
				if ref.Repeatable(d.ID, tt) && m%3 == 0 {
					ps = append(ps, sampleProp(d, 1-m%2))
				}
			}
		}
		f(tt, ps)
		n++
	}
	c.Bulk(n)
	c.Sample(func() string {
		return fmt.Sprintf("carrier type %d: subsets of its %d properties, high part %b", tt, len(defs), mask)
	})
}

// propSubsets enumerates all subsets of the permitted properties, in ascending or descending order.
func propSubsets(name string, types []byte, visit visitor) *explore.Scenario {
	return &explore.Scenario{
		Name: name,
		Note: "every subset of the properties MQTT 5 permits for the packet (CONNACK: 2^17), ascending and descending on the wire, repeated where repeatable",
		Run: func(c *explore.Ctx) {
			rev := c.Pick(2) == 1
			eachSubset(c, types, func(tt byte, ps []ref.PropVal) {
				if rev {
					for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
						ps[i], ps[j] = ps[j], ps[i]
					}
				}
				visit(c, ref.V5, subsetPacket(tt, ps).Encode(true))
			})
		},
	}
}

func scenC11(t Tier) []*explore.Scenario {
	sec := []byte{0x00, 0x01, 0x02, 0x0b, 0x1f, 0x26, 0x61, 0x80, 0x81, 0x23, 0x11, 0x05}
	return []*explore.Scenario{
		related("C11/related", nil, []byte{ref.V5}, func(c *explore.Ctx, p *ref.Packet) { judge(c, p.Ver, p.Encode(true)) }),
		propSections("C11/sections", allPropTypes, judgeV),
		propPairs("C11/pairs", allPropTypes, judgeV),
		propSubsets("C11/subsets", allPropTypes, judgeV),
		{
			Name: "C11/values",
			Note: "every property x every allowed packet type x all 256 byte / all 65536 short values, integers and variable integers 2^k and 2^k±1, string and binary lengths 0..300 and around 2^9..2^16-1",
			Run: func(c *explore.Ctx) {
				tt := allPropTypes[c.Pick(len(allPropTypes))]
				defs := ref.PropsOf(tt)
				d := defs[c.Pick(len(defs))]
				one := func(v ref.PropVal) {
					v.ID = d.ID
					s := ref.AppendProp(nil, v)
					judge(c, ref.V5, carry(tt, withLen(s, len(s), 1), 0))
				}
				n := 0
				switch d.Kind {
				case ref.KByte:
					for i := 0; i < 256; i++ {
						one(ref.PropVal{U: uint32(i)})
						n++
					}
				case ref.KShort:
					hi := c.Pick(256)
					for i := 0; i < 256; i++ {
						one(ref.PropVal{U: uint32(hi<<8 | i)})
						n++
					}
				case ref.KInt:
					for _, u := range append(append([]uint32(nil), u32Ext...), 0, 1, 0xFFFFFFFF, 0x01020304) {
						one(ref.PropVal{U: u})
						n++
					}
				case ref.KVar:
					for i := uint32(0); i < 33000; i++ {
						one(ref.PropVal{U: i})
						n++
					}
					for _, u := range u32Ext {
						if u <= 268435455 {
							one(ref.PropVal{U: u})
							n++
						}
					}
					for _, u := range varExt {
						one(ref.PropVal{U: u})
						n++
					}
				case ref.KString, ref.KBinary:
					for _, l := range append(append([]int(nil), strLens...), 0) {
						one(ref.PropVal{S: fill[:l]})
						n++
					}
				case ref.KPair:
					for _, l := range append(append([]int(nil), strLens...), 0) {
						one(ref.PropVal{K: fill[:l], S: "v"})
						one(ref.PropVal{K: "k", S: fill[:l]})
						n += 2
					}
				}
				c.Bulk(n)
				c.Sample(func() string { return fmt.Sprintf("type %d property %s: %d values", tt, d.Name, n) })
			},
		},
		{
			Name: "C11/many",
			Note: "every packet type and the will x 1..10000 occurrences of a repeatable property (user properties; subscription identifiers in PUBLISH), equal or distinct, between other properties or alone, intact and with the last one cut or followed by one not permitted",
			Run: func(c *explore.Ctx) {
				tt := allPropTypes[c.Pick(len(allPropTypes))]
				ns := []int{1, 2, 3, 5, 10, 20, 50, 64, 100, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 5001, 8192, 8193, 10000}
				n := ns[c.Pick(len(ns))]
				distinct, among, ids := c.Bool(), c.Bool(), false
				if tt == ref.PUBLISH {
					ids = c.Bool()
				}
				var s []byte
				if among {
					for _, d := range ref.PropsOf(tt) {
						if !ref.Repeatable(d.ID, tt) && d.ID != 0x23 {
							s = ref.AppendProp(s, ref.PropVal{ID: d.ID, U: 1, S: "x"})
						}
					}
				}
				var v ref.PropVal
				at := 0
				for i := 0; i < n; i++ {
					v = ref.PropVal{ID: 0x26, K: "k", S: "v"}
					if ids {
						v = ref.PropVal{ID: 0x0b, U: 7}
					}
					if distinct {
						v.K, v.S, v.U = fmt.Sprint(i), fmt.Sprint(i*7), uint32(i+1)
					}
					at = len(s)
					s = ref.AppendProp(s, v)
				}
				judge(c, ref.V5, carry(tt, withLen(s, len(s), 1), 0))
				judge(c, ref.V5, carry(tt, withLen(s[:len(s)-1], len(s)-1, 1), 0))
				judge(c, ref.V5, carry(tt, withLen(s[:at+1], at+1, 1), 0))
				bad := append(append([]byte(nil), s...), 0x7f, 0)
				judge(c, ref.V5, carry(tt, withLen(bad, len(bad), 1), 0))
				c.State(fmt.Sprint(tt, n, distinct, among, ids))
				c.Bulk(4)
				c.Sample(func() string { return fmt.Sprintf("type %d, %d occurrences of %#x", tt, n, v.ID) })
			},
		},
		{
			Name: "C11/strings",
			Note: "every string of <=2 bytes over 256 values and 3..4 bytes over UTF-8 boundary bytes as string property, pair key, pair value and binary",
			Run: func(c *explore.Ctx) {
				which := c.Pick(5)
				b0 := byte(c.Pick(256))
				one := func(s string) {
					v := []ref.PropVal{{ID: 0x03, S: s}, {ID: 0x26, K: s, S: "v"}, {ID: 0x26, K: "k", S: s}, {ID: 0x09, S: s}, {ID: 0x08, S: s}}[which]
					x := ref.AppendProp(nil, v)
					judge(c, ref.V5, carry(ref.PUBLISH, withLen(x, len(x), 1), 0))
				}
				n := 2
				one("")
				one(string([]byte{b0}))
				for b1 := 0; b1 < 256; b1++ {
					one(string([]byte{b0, byte(b1)}))
					n++
				}
				for _, b1 := range edgeBytes {
					for _, b2 := range edgeBytes {
						one(string([]byte{b0, b1, b2}))
						n++
						if t.Thorough || b0 >= 0xf0 {
							for _, b3 := range edgeBytes {
								one(string([]byte{b0, b1, b2, b3}))
								n++
							}
						}
					}
				}
				c.Bulk(n)
			},
		},
		{
			Name: "C11/raw",
			Note: "every property section content of up to 4 (5 thorough) bytes over a 12-symbol alphabet, in every packet type",
			Run: func(c *explore.Ctx) {
				tt := allPropTypes[c.Pick(len(allPropTypes))]
				a, b := c.Pick(len(sec)+1), c.Pick(len(sec)+1)
				if a == 0 && b > 0 {
					c.Prune()
				}
				var pre []byte
				if a > 0 {
					pre = append(pre, sec[a-1])
				}
				if b > 0 {
					pre = append(pre, sec[b-1])
				}
				n := 0
				var rec func(s []byte, left int)
				rec = func(s []byte, left int) {
					judge(c, ref.V5, carry(tt, withLen(s, len(s), 1), 0))
					n++
					if left == 0 {
						return
					}
					for _, x := range sec {
						rec(append(s[:len(s):len(s)], x), left-1)
					}
				}
				rest := 0
				if len(pre) == 2 {
					rest = t.pick(2, 4)
				}
				rec(pre, rest)
				c.Bulk(n)
			},
		},
		{
			Name: "C11/lists",
			Note: "user properties and PUBLISH subscription identifiers repeated 1..N times, order of values kept, interleaved with other identifiers",
			Run: func(c *explore.Ctx) {
				tt := allPropTypes[c.Pick(len(allPropTypes))]
				n := 1 + c.Pick(t.pick(130, 600))
				shape := c.Pick(3)
				var ps []ref.PropVal
				for i := 0; i < n; i++ {
					if ref.Repeatable(0x0b, tt) && ref.Prop(0x0b).Allowed(tt) {
						ps = append(ps, ref.PropVal{ID: 0x0b, U: uint32(1 + i*37%400)})
					}
					if shape < 2 {
						ps = append(ps, ref.PropVal{ID: 0x26, K: fill[i%9 : i%9+1+i%4], S: fill[i%50 : i%50+i%7]})
					}
				}
				if shape == 1 && len(ps) > 1 { // all of one, then all of the other
					var x, y []ref.PropVal
					for _, p := range ps {
						if p.ID == 0x26 {
							x = append(x, p)
						} else {
							y = append(y, p)
						}
					}
					ps = append(x, y...)
				}
				w := subsetPacket(tt, ps).Encode(true)
				c.State(fmt.Sprint(tt, n, shape))
				judge(c, ref.V5, w)
			},
		},
		{
			Name: "C11/offender",
			Note: "property sections of 1 to 4097 user properties with an offender (ill-formed key or value, unknown identifier, property of another packet type, second copy of a single property, truncation) at every position of sections up to 300, and at the ends and around powers of two of longer ones",
			Run: func(c *explore.Ctx) {
				tt := allPropTypes[c.Pick(len(allPropTypes))]
				n := longLens[c.Pick(len(longLens)-3)]
				if n > 513 && !t.Thorough {
					c.Prune()
				}
				one := []byte{0x26, 0, 1, 'k', 0, 1, 'v'}
				body := bytes.Repeat(one, n)
				k := 1
				judge(c, ref.V5, carry(tt, withLen(body, len(body), 0), 0))
				bad := [][]byte{
					{0x26, 0, 1, 0, 0, 1, 'v'}, {0x26, 0, 1, 'k', 0, 2, 0xC0, 0x80}, {0x26, 0, 1, 'k', 0, 1, 0xFF},
					{0x00}, {0x7E, 0, 1, 'x'}, {0xA6, 0x01, 0, 0}, {0x24, 1}, {0x12, 0, 1, 'x'}, {0x1C, 0, 1, 'x'}, {0x0B, 0}, {0x0B, 5},
				}
				head := 0
				if d := ref.PropsOf(tt)[0]; !ref.Repeatable(d.ID, tt) {
					x := ref.AppendProp(nil, sampleProp(d, 0))
					head = len(x)
					body = append(append([]byte(nil), x...), body...)
					bad = append(bad, x)
				}
				for i := 0; i <= n; i++ {
					if !spot(i, n) {
						continue
					}
					at := head + i*len(one)
					for _, x := range bad {
						s := append(append(append([]byte(nil), body[:at]...), x...), body[at:]...)
						judge(c, ref.V5, carry(tt, withLen(s, len(s), 0), 0))
						k++
					}
					judge(c, ref.V5, carry(tt, withLen(body, at+3, 0), 0))
					k++
					c.Beat()
				}
				c.Bulk(k)
				c.State(fmt.Sprint(tt, n))
			},
		},
	}
}
