package scen

import (
	"bytes"
	"fmt"
	"syscall"

	"github.com/VolantMQ/vlapi/mqttp"

	"verifmc/explore"
	"verifmc/obs"
	"verifmc/ref"
)

// roundTrip checks that m encodes to bytes meaning want and that the library reads them back.
func roundTrip(c *explore.Ctx, m mqttp.IFace, want *ref.Packet, times int) {
	for i := 0; i < times; i++ {
		out := encodesTo(c, m, want)
		d, n, err := decode(c, want.Ver, out)
		if err != nil || n != len(out) {
			c.Failf("%s was encoded as %s, which the library does not decode: n=%d err=%s", want.Key(true), hexs(out), n, errStr(err))
		}
		got := observe(c, d)
		g, w := *got, *want
		if w.Type == ref.PUBLISH && w.QoS == 0 {
			g.HasID, w.HasID = false, false
		}
		if gk, wk := g.Key(false), w.Key(false); gk != wk {
			c.Failf("%s was encoded as %s, which the library reads as %s", wk, hexs(out), gk)
		}
	}
}

var idTypes = []byte{ref.PUBLISH, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBSCRIBE, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBACK}

// plain is a small packet of type t.
func plain(t, ver byte) *ref.Packet {
	p := &ref.Packet{Type: t, Ver: ver}
	switch t {
	case ref.CONNECT:
		p.ClientID, p.Clean, p.KeepAlive = "c", true, 30
	case ref.PUBLISH:
		p.Topic, p.Payload, p.QoS = "t", "pl", 1
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		p.Subs = []ref.Sub{{Filter: "a/b"}}
	case ref.SUBACK:
		p.Codes = []byte{0, 1}
	case ref.UNSUBACK:
		if ver == ref.V5 {
			p.Codes = []byte{0, 0x11}
		}
	}
	if t == ref.PUBLISH || obs.NeedsID(t) {
		p.HasID, p.ID = true, 0x0102
	}
	return p
}

func scenC02(t Tier) []*explore.Scenario {
	return []*explore.Scenario{
		related("C02/related", nil, nil, func(c *explore.Ctx, p *ref.Packet) {
			roundTrip(c, build(c, p, obs.BuildOpt{PropsFirst: len(p.Props)%2 == 1}), p, 1)
		}),
		{
			Name: "C02/api", Bound: t.pick(2, 3),
			Note: "packets of every type and version assembled through constructors and setters in four ways (typed/generic constructor, single/bulk setters, properties first/last, list/single values); field values from core domains in combinations of up to the bound, extended domains one at a time; every encoding is read by the reference decoder and by the library",
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, nil)
				g := &gen{c: c, api: true, rot: c.Pick(3)}
				p := g.packet(tt, ver)
				c.State(p.Key(true))
				c.Sample(func() string { return p.Key(true) })
				m := build(c, p, buildOpt(c))
				got := observe(c, m)
				if gk, wk := got.Key(false), p.Key(false); gk != wk && !(p.Type == ref.PUBLISH && p.QoS == 0) {
					c.Failf("built %s, getters report %s", wk, gk)
				}
				roundTrip(c, m, p, encodings(p))
			},
		},
		{
			Name: "C02/prop-subsets",
			Note: "every subset of the properties permitted for each packet type and for the will, set through PropertySet (CONNACK: 2^17)",
			Run: func(c *explore.Ctx) {
				eachSubset(c, allPropTypes, func(tt byte, ps []ref.PropVal) {
					p := subsetPacket(tt, ps)
					m := build(c, p, obs.BuildOpt{})
					roundTrip(c, m, p, 1)
				})
			},
		},
		{
			Name: "C02/ids",
			Note: "all 65535 packet identifiers x types x versions",
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, idTypes)
				hi := c.Pick(256)
				for lo := 0; lo < 256; lo++ {
					if hi == 0 && lo == 0 {
						continue
					}
					p := plain(tt, ver)
					p.ID = uint16(hi<<8 | lo)
					roundTrip(c, build(c, p, obs.BuildOpt{}), p, 1)
				}
				c.Bulk(256)
			},
		},
		{
			Name: "C02/shorts",
			Note: "all 65536 keep-alive values; all 65536 values of every two-byte property",
			Run: func(c *explore.Ctx) {
				type slot struct {
					t  byte
					id uint32
				}
				slots := []slot{{ref.CONNECT, 0}}
				for _, tt := range allPropTypes {
					for _, d := range ref.PropsOf(tt) {
						if d.Kind == ref.KShort {
							slots = append(slots, slot{tt, d.ID})
						}
					}
				}
				s := slots[c.Pick(len(slots))]
				hi := c.Pick(256)
				for lo := 0; lo < 256; lo++ {
					v := uint32(hi<<8 | lo)
					var ps []ref.PropVal
					if s.id != 0 {
						ps = []ref.PropVal{{ID: s.id, U: v}}
					}
					p := subsetPacket(s.t, ps)
					if s.id == 0 {
						p.KeepAlive = uint16(v)
					}
					roundTrip(c, build(c, p, obs.BuildOpt{}), p, 1)
				}
				c.Bulk(256)
			},
		},
		{
			Name: "C02/lists",
			Note: "SUBSCRIBE/UNSUBSCRIBE with 1..N filters, SUBACK/UNSUBACK with 1..N codes, 1..N user properties and subscription identifiers, N = 70 (400 thorough)",
			Run: func(c *explore.Ctx) {
				n := 1 + c.Pick(t.pick(70, 400))
				kind := c.Pick(5)
				ver := byte(ref.V5)
				if kind < 2 {
					ver = ref.Versions[c.Pick(3)]
				}
				var p *ref.Packet
				switch kind {
				case 0, 1:
					p = plain([]byte{ref.SUBSCRIBE, ref.UNSUBSCRIBE}[kind], ver)
					p.Subs = nil
					for i := 0; i < n; i++ {
						s := ref.Sub{Filter: fill[i%60 : i%60+1+i%9]}
						if kind == 0 {
							s.Opt = byte(i % 3)
						}
						p.Subs = append(p.Subs, s)
					}
				case 2:
					p = plain([]byte{ref.SUBACK, ref.UNSUBACK}[c.Pick(2)], ver)
					all := ref.CodesV5(p.Type)
					p.Codes = nil
					for i := 0; i < n; i++ {
						p.Codes = append(p.Codes, all[i%len(all)])
					}
				case 3:
					tt := allPropTypes[c.Pick(len(allPropTypes))]
					var ps []ref.PropVal
					for i := 0; i < n; i++ {
						ps = append(ps, ref.PropVal{ID: 0x26, K: fill[i%9 : i%9+1+i%4], S: fill[i%50 : i%50+i%7]})
					}
					p = subsetPacket(tt, ps)
				case 4:
					var ps []ref.PropVal
					for i := 0; i < n; i++ {
						ps = append(ps, ref.PropVal{ID: 0x0b, U: uint32(1 + i*37%400)})
					}
					p = subsetPacket(ref.PUBLISH, ps)
				}
				c.State(p.Key(true))
				c.Sample(func() string { return p.Key(true) })
				roundTrip(c, build(c, p, buildOpt1(c)), p, 1)
			},
		},
	}
}

// buildOpt1 enumerates plain and bulk construction.
func buildOpt1(c *explore.Ctx) obs.BuildOpt { return obs.BuildOpt{BulkSet: c.Pick(2) == 1} }

// ---- C03 ----

// reencode decodes in and checks that encoding what was decoded means the same.
func reencode(c *explore.Ctx, ver byte, in []byte) {
	m, _, err := decode(c, ver, in)
	if err != nil || isNil(m) {
		return
	}
	before := observe(c, m)
	res := ref.Decode(ver, in)
	out, err := encode(c, m)
	if err != nil {
		c.Failf("%s was decoded from %s but cannot be encoded: %s", before.Key(false), hexs(in), errStr(err))
	}
	if c.Verbose() {
		c.Logf("%s decoded as %s, encoded again as %s", hexs(in), before.Key(false), hexs(out))
	}
	v2 := byte(m.Version())
	if res.P != nil && res.V != ref.Reject {
		back := ref.Decode(v2, out)
		if back.P == nil || back.V == ref.Reject {
			c.Failf("%s decodes and encodes to %s, which is malformed: %s", hexs(in), hexs(out), back.Why)
		}
		a, b := *res.P, *back.P
		if ak, bk := a.Key(true), b.Key(true); ak != bk {
			c.Failf("%s means %s but is encoded again as %s meaning %s", hexs(in), ak, hexs(out), bk)
		}
	}
	m2, n, err := decode(c, v2, out)
	if err != nil || n != len(out) {
		c.Failf("%s decodes and encodes to %s, which does not decode: n=%d %s", hexs(in), hexs(out), n, errStr(err))
	}
	after := observe(c, m2)
	if ak, bk := before.Key(false), after.Key(false); ak != bk {
		c.Failf("%s decodes as %s; encoded again as %s it decodes as %s", hexs(in), ak, hexs(out), bk)
	}
	still := observe(c, m)
	if ak, bk := before.Key(false), still.Key(false); ak != bk {
		c.Failf("encoding changed the packet from %s to %s", ak, bk)
	}
}

func scenC03(t Tier) []*explore.Scenario {
	all := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
	return []*explore.Scenario{
		ordersC03(t),
		related("C03/related", nil, nil, func(c *explore.Ctx, p *ref.Packet) { reencode(c, p.Ver, p.Encode(true)) }),
		legal("C03/legal", nil, t.pick(2, 3), func(c *explore.Ctx, p *ref.Packet, w []byte) {
			reencode(c, p.Ver, w)
		}),
		mutants("C03/mutants", nil, t.pick(1, 2), t.pick(48, 64), reencode),
		fullMutants("C03/full-mutants", nil, t.pick(0, 1), reencode),
		bodies("C03/bodies", all, []byte{0, 1, 2, 0x10, 0x26, 'a', 0x80}, t.pick(5, 7), reencode),
		propSections("C03/props", allPropTypes, reencode),
		propPairs("C03/pairs", allPropTypes, reencode),
		propSubsets("C03/prop-subsets", allPropTypes, reencode),
		{
			Name: "C03/lists",
			Note: "repeated user properties and subscription identifiers 1..N in every packet type",
			Run: func(c *explore.Ctx) {
				tt := allPropTypes[c.Pick(len(allPropTypes))]
				n := 1 + c.Pick(t.pick(60, 300))
				var ps []ref.PropVal
				for i := 0; i < n; i++ {
					if tt == ref.PUBLISH {
						ps = append(ps, ref.PropVal{ID: 0x0b, U: uint32(1 + i*37%400)})
					}
					ps = append(ps, ref.PropVal{ID: 0x26, K: fill[i%9 : i%9+1+i%4], S: fill[i%50 : i%50+i%7]})
				}
				w := subsetPacket(tt, ps).Encode(true)
				c.State(fmt.Sprint(tt, n))
				reencode(c, ref.V5, w)
			},
		},
	}
}

// ---- C04 ----

func lens(n int, full bool) (out []int) {
	if n <= 200 || full && n <= 5000 {
		return span(0, n-1)
	}
	out = append(span(0, 70), span(n-70, n-1)...)
	for i := 100; i < n-70; i += 1 + n/64 {
		out = append(out, i)
	}
	for k := 128; k < n-70; k *= 2 {
		out = append(out, k-1, k, k+1)
	}
	return
}

var fills = []byte{0xA5, 0x00, 0xFF}

// tails are the spare bytes behind the packet, per content of the buffer.
var tails = [][]int{{0, 1, 7, 5000, 70000}, {0, 1, 7, 64}, {0, 1, 7, 300}}

// buffers checks Size and Encode of m against every buffer size and content. ok tells that the
// packet is complete so that encoding must succeed.
func buffers(c *explore.Ctx, m mqttp.IFace, p *ref.Packet, ok, full bool) {
	before := observe(c, m).Key(false)
	sz, err := m.Size()
	c.Op(1)
	if err != nil {
		if ok {
			c.Failf("Size of %s fails: %s", p.Key(true), errStr(err))
		}
		return
	}
	if ok {
		if want := len(p.Encode(true)); sz > want+2 || sz < want {
			c.Failf("Size of %s is %d, the packet takes %d bytes", p.Key(true), sz, want)
		}
	}
	var first []byte
	firstKey := ""
	exact := distinctProps(p.Props) < 2 && (p.Will == nil || distinctProps(p.Will.Props) < 2)
	for round, f := range fills {
		for _, extra := range tails[round] {
			buf := bytes.Repeat([]byte{f}, sz+extra+slack)
			n, err := m.Encode(buf[: sz+extra : sz+extra])
			c.Op(1)
			if bytes.Count(buf[sz:], []byte{f}) != len(buf)-sz {
				i := sz
				for buf[i] == f {
					i++
				}
				c.Failf("%s announces %d bytes but encoding into %d touched byte %d", p.Key(true), sz, sz+extra, i)
			}
			if err != nil {
				if ok {
					c.Failf("encoding %s into %d of %d bytes (round %d) failed: %s", p.Key(true), sz+extra, sz, round, errStr(err))
				}
				continue
			}
			if n != sz {
				c.Failf("%s announces %d bytes, encoding wrote %d", p.Key(true), sz, n)
			}
			key := ""
			if !exact {
				if r := ref.Decode(p.Ver, buf[:sz]); r.P == nil {
					c.Failf("%s encodes to malformed %s (buffer held %#02x)", p.Key(true), hexs(buf[:sz]), f)
				} else {
					key = r.P.Key(true)
				}
			}
			if first == nil {
				first, firstKey = append([]byte(nil), buf[:sz]...), key
			} else if exact && !bytes.Equal(first, buf[:sz]) {
				c.Failf("encoding %s again gives %s, before %s (buffer held %#02x, %d spare bytes)", p.Key(true), hexs(buf[:sz]), hexs(first), f, extra)
			} else if key != firstKey {
				c.Failf("encoding %s again gives %s, before %s", p.Key(true), key, firstKey)
			}
		}
		if s2, err := m.Size(); err != nil || s2 != sz {
			c.Failf("Size of %s was %d, then %d %s", p.Key(true), sz, s2, errStr(err))
		}
	}
	if ok && first != nil {
		b, err := mqttp.Encode(m)
		c.Op(1)
		if err != nil || len(b) != sz || exact && !bytes.Equal(b, first) {
			c.Failf("mqttp.Encode of %s gives %s %s, Encode gives %s", p.Key(true), hexs(b), errStr(err), hexs(first))
		}
	}
	buf := bytes.Repeat([]byte{0x5A}, sz+slack)
	for _, k := range lens(sz, full) {
		_, err := m.Encode(buf[:k])
		c.Op(1)
		if err == nil {
			c.Failf("%s announces %d bytes, encoding into %d succeeds", p.Key(true), sz, k)
		}
		if ok && err != mqttp.ErrInsufficientBufferSize {
			c.Failf("%s announces %d bytes, encoding into %d fails with %s", p.Key(true), sz, k, errStr(err))
		}
		for i := k; i < len(buf); i++ {
			if buf[i] != 0x5A {
				c.Failf("%s: encoding into %d bytes touched byte %d", p.Key(true), k, i)
			}
		}
	}
	if after := observe(c, m).Key(false); after != before {
		c.Failf("sizing and encoding changed the packet from %s to %s", before, after)
	}
}

// fits checks the announced size of p against what encoding writes into a larger buffer.
func fits(c *explore.Ctx, p *ref.Packet) {
	m := build(c, p, obs.BuildOpt{})
	sz, err := m.Size()
	if err != nil || sz != len(p.Encode(true)) && sz > len(p.Encode(true))+2 {
		c.Failf("Size of %s is %d %s, the packet takes %d bytes", p.Key(true), sz, errStr(err), len(p.Encode(true)))
	}
	buf := bytes.Repeat([]byte{0xA5}, sz+16)
	n, err := m.Encode(buf[: sz+8 : sz+8])
	c.Op(2)
	if err != nil || n != sz {
		c.Failf("%s announces %d bytes, encoding into %d wrote %d, %s", p.Key(true), sz, sz+8, n, errStr(err))
	}
	if bytes.Count(buf[sz:], []byte{0xA5}) != 16 {
		c.Failf("%s announces %d bytes but encoding touched bytes behind them", p.Key(true), sz)
	}
	if sz > 0 {
		if _, err := m.Encode(buf[: sz-1 : sz-1]); err != mqttp.ErrInsufficientBufferSize {
			c.Failf("%s announces %d bytes, encoding into %d gives %s", p.Key(true), sz, sz-1, errStr(err))
		}
	}
}

func scenC04(t Tier) []*explore.Scenario {
	return []*explore.Scenario{
		ordersC04(t),
		related("C04/related", nil, nil, fits),
		{
			Name: "C04/buffers", Bound: t.pick(1, 2),
			Note: "complete packets of every type and version, built through the API or decoded from the wire; every smaller buffer, equal and larger ones with three previous contents, canary behind, repeated",
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, nil)
				if c.Pick(2) == 0 {
					g := &gen{c: c, api: true, rot: c.Pick(3)}
					p := g.packet(tt, ver)
					c.State("api" + p.Key(true))
					c.Sample(func() string { return p.Key(true) })
					buffers(c, build(c, p, obs.BuildOpt{}), p, true, t.Thorough)
					return
				}
				g := &gen{c: c, noExt: true, rot: c.Pick(3)}
				p := g.packet(tt, ver)
				w := p.Encode(true)
				c.State("wire" + p.Key(true))
				m, _, err := decode(c, ver, w)
				if err != nil {
					c.Prune()
				}
				buffers(c, m, p, true, t.Thorough)
			},
		},
		{
			Name: "C04/resized",
			Note: fmt.Sprintf("packets built or decoded, then {nothing, Size, encoded, refused a short buffer}, then every sequence of %d setter calls; encoding straight into a large buffer, or first into one too small, must follow what the packet is now", t.pick(2, 3)),
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, nil)
				ops := fieldOps(tt, ver)
				m, p, h := startPacket(c, tt, ver, 1+c.Pick(2))
				if h == "New generic" {
					p = plain(tt, ver)
					if err := obs.Fill(m, p, obs.BuildOpt{}); err != nil {
						c.Failf("building %s: %s", p.Key(true), errStr(err))
					}
				}
				pre := c.Pick(4)
				switch pre {
				case 1:
					_, _ = m.Size()
				case 2:
					_, _ = mqttp.Encode(m)
				case 3:
					_, _ = m.Encode(nil)
				}
				h += []string{"", "; Size", "; Encode", "; Encode into 0 bytes"}[pre]
				for i := 0; i < t.pick(2, 3); i++ {
					k := c.Pick(len(ops) + 1)
					if k == len(ops) {
						break
					}
					if n := ops[k].name; n == "Encode" || n == "Size" {
						c.Prune() // the prelude does this
					}
					h += "; " + ops[k].name
					_, _ = ops[k].do(c, m, p)
					c.Op(1)
				}
				ok, open := emittable(p)
				if !ok || open {
					c.Prune()
				}
				w := wireForm(p)
				want := len(w.Encode(true))
				c.State(fmt.Sprint(pre) + p.Key(true))
				if k := []int{-1, want - 1, want / 2}[c.Pick(3)]; k >= 0 {
					buf := bytes.Repeat([]byte{0x5A}, want+slack)
					if _, err := m.Encode(buf[:k]); err != mqttp.ErrInsufficientBufferSize {
						c.Failf("after %s: encoding %d bytes into %d gives %s", h, want, k, errStr(err))
					}
					for _, b := range buf[k:] {
						if b != 0x5A {
							c.Failf("after %s: encoding into %d bytes wrote behind them", h, k)
						}
					}
				}
				buf := bytes.Repeat([]byte{0xA5}, want+slack)
				n, err := m.Encode(buf[:want+2])
				c.Op(2)
				if err != nil || n < want || n > want+2 {
					c.Failf("after %s: encoding %s into %d bytes gives %d %s", h, p.Key(true), want+2, n, errStr(err))
				}
				for _, b := range buf[n:] {
					if b != 0xA5 {
						c.Failf("after %s: encoding touched bytes behind the %d it reports", h, n)
					}
				}
				means(c, buf[:n], w)
				if sz, err := m.Size(); err != nil || sz != n {
					c.Failf("after %s: %d bytes encoded, Size is then %d %s", h, n, sz, errStr(err))
				}
				c.Sample(func() string { return h })
			},
		},
		{
			Name: "C04/incomplete",
			Note: "packets that lack an identifier, topics or a topic, or carry an overlong field: whatever Encode answers, the buffer rules hold",
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, nil)
				p := plain(tt, ver)
				switch c.Pick(5) {
				case 0:
					p.HasID = false
				case 1:
					p.Subs, p.Codes = nil, nil
				case 2:
					if tt != ref.PUBLISH {
						c.Prune()
					}
					p.Dup, p.QoS = true, 0
				case 3:
					if ver != ref.V5 {
						c.Prune()
					}
					p.Props = []ref.PropVal{{ID: 0x26, K: fill[:65535] + "x", S: "v"}}
				case 4:
					if len(p.Subs) == 0 {
						c.Prune()
					}
					p.Subs = []ref.Sub{{Filter: fill[:65535] + "x"}}
				}
				m, err := obs.Build(p, obs.BuildOpt{})
				if err != nil {
					c.Prune()
				}
				buffers(c, m, p, false, false)
			},
		},
		c04Again(),
		{
			Name: "C04/limit", Serial: true,
			Note: "PUBLISH payloads, properties and filter lists whose body size is max-1, max, max+1 and up to beyond 2^31, 2^32 and 2^33 bytes: sized exactly or refused by Size and Encode",
			Run:  limits,
		},
	}
}

const maxBody = 268435455

// reserve maps n bytes of address space without committing memory.
func reserve(c *explore.Ctx, n int) []byte {
	b, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		c.Prune() // no room for this size here
	}
	return b
}

func limits(c *explore.Ctx) {
	ver := []byte{ref.V311, ref.V5}[c.Pick(2)]
	kind := c.Pick(3)
	targets := []int{maxBody - 1, maxBody, maxBody + 1, maxBody + 2, 1 << 29, 1<<31 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 20, 1<<32 + maxBody, 1<<33 + 64, 3 << 32}
	want := targets[c.Pick(len(targets))]
	var m mqttp.IFace
	switch kind {
	case 0: // payload
		p := mqttp.NewPublish(mqttp.ProtocolVersion(ver))
		if err := p.SetTopic("t"); err != nil {
			c.Failf("SetTopic: %s", errStr(err))
		}
		over := 3
		if ver == ref.V5 {
			over++
		}
		b := reserve(c, want-over)
		defer syscall.Munmap(b)
		p.SetPayload(b)
		m = p
	case 1: // user properties
		if ver != ref.V5 {
			c.Prune()
		}
		tt := []byte{ref.CONNECT, ref.CONNACK, ref.PUBLISH, ref.PUBACK, ref.SUBSCRIBE, ref.UNSUBSCRIBE, ref.SUBACK, ref.UNSUBACK, ref.DISCONNECT, ref.AUTH}[c.Pick(10)]
		p := plain(tt, ver)
		if tt == ref.DISCONNECT {
			p.Code = 0x80
		}
		m = build(c, p, obs.BuildOpt{})
		base := len(p.Body(false)) - 1
		lenLen := 4
		if want-base > maxBody { // the section length itself no longer fits
			lenLen = 5
		}
		ps := pairs(want - base - lenLen)
		if err := m.PropertySet(0x26, ps); err != nil {
			return // refusing here is as good
		}
	case 2: // filters
		p := mqttp.NewSubscribe(mqttp.ProtocolVersion(ver))
		p.SetPacketID(9)
		left := want - 2
		if ver == ref.V5 {
			left--
		}
		big, err := mqttp.NewSubscribeTopic([]byte(fill[:60000]), 0)
		if err != nil {
			c.Failf("NewSubscribeTopic: %s", errStr(err))
		}
		for left > 70000 {
			_ = p.AddTopic(big)
			left -= 60003
		}
		a := left / 2
		for _, k := range []int{a, left - a} {
			x, err := mqttp.NewSubscribeTopic([]byte(fill[:k-3]), 0)
			if err != nil {
				c.Failf("NewSubscribeTopic: %s", errStr(err))
			}
			_ = p.AddTopic(x)
		}
		m = p
	}
	c.Op(2)
	c.State(fmt.Sprint(ver, kind, want))
	sz, err := m.Size()
	what := fmt.Sprintf("%s v%d with a body of %d bytes", ref.TypeNames[byte(m.Type())], ver, want)
	c.Sample(func() string { return what })
	if want <= maxBody {
		if err != nil || sz != want+5 {
			c.Failf("%s: Size is %d %s, want %d", what, sz, errStr(err), want+5)
		}
		if kind == 0 && want == maxBody {
			out := reserve(c, sz+4096)
			defer syscall.Munmap(out)
			n, err := m.Encode(out[:sz])
			if err != nil || n != sz {
				c.Failf("%s: Encode returns %d %s", what, n, errStr(err))
			}
			if out[1] != 0xff || out[2] != 0xff || out[3] != 0xff || out[4] != 0x7f || out[sz] != 0 {
				c.Failf("%s: Encode writes header %s", what, hexs(out[:6]))
			}
		}
		return
	}
	if err == nil {
		c.Failf("%s is sized as %d although it exceeds the protocol maximum", what, sz)
	}
	if err != mqttp.ErrInvalidLength {
		c.Logf("refused with %s", errStr(err))
	}
	small := bytes.Repeat([]byte{0x5A}, 64)
	big := reserve(c, 1<<20)
	defer syscall.Munmap(big)
	for _, b := range [][]byte{small, big} {
		if n, err := m.Encode(b); err == nil {
			c.Failf("%s is encoded (%d bytes) although it exceeds the protocol maximum", what, n)
		}
	}
	if b, err := mqttp.Encode(m); err == nil {
		c.Failf("%s is encoded (%d bytes) by mqttp.Encode although it exceeds the protocol maximum", what, len(b))
	}
}

// pairs makes user properties that take exactly n bytes.
func pairs(n int) []mqttp.StringPair {
	var out []mqttp.StringPair
	big := mqttp.StringPair{K: fill[:60000], V: fill[:60000]}
	for n > 130000 {
		out = append(out, big)
		n -= 120005
	}
	if n > 60000 { // leave room for two
		out = append(out, mqttp.StringPair{K: fill[:100], V: fill[:1000]})
		n -= 1105
	}
	n -= 5
	out = append(out, mqttp.StringPair{K: fill[:n/2], V: fill[:n-n/2]})
	return out
}
