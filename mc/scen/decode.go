package scen

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/VolantMQ/vlapi/mqttp"

	"verifmc/explore"
	"verifmc/obs"
	"verifmc/ref"
)

// ---- C01 ----

var illTyped = map[byte]bool{}

// total checks totality, purity and all-or-nothing on arbitrary bytes.
func total(c *explore.Ctx, ver byte, in []byte) {
	m, n, err := decode(c, ver, in)
	if (err == nil) == isNil(m) {
		c.Failf("decode v%d of %s returned packet=%v together with error %s", ver, hexs(in), !isNil(m), errStr(err))
	}
	key := ""
	if err == nil {
		if n != len(in) {
			c.Failf("decode v%d of %s succeeded with count %d for %d bytes", ver, hexs(in), n, len(in))
		}
		if byte(m.Type()) != in[0]>>4 {
			c.Failf("decode of first byte %#02x gave packet type %d", in[0], m.Type())
		}
		p, complaint := obs.Packet(m)
		if complaint != "" {
			c.Failf("decode v%d of %s: %s", ver, hexs(in), complaint)
		}
		key = p.Key(false)
	}
	// once more, from a tightly fitting slice
	in2 := append(make([]byte, 0, len(in)), in...)
	m2, n2, err2 := mqttp.Decode(mqttp.ProtocolVersion(ver), in2[:len(in):len(in)])
	c.Op(1)
	if !bytes.Equal(in, in2) {
		c.Failf("decoding altered its input %s", hexs(in))
	}
	if n != n2 || errStr(err) != errStr(err2) || isNil(m) != isNil(m2) {
		c.Failf("decoding v%d %s twice differs: (%v,%d,%s) then (%v,%d,%s)", ver, hexs(in), !isNil(m), n, errStr(err), !isNil(m2), n2, errStr(err2))
	}
	if err == nil {
		p, _ := obs.Packet(m2)
		if k := p.Key(false); k != key {
			c.Failf("decoding v%d %s twice differs: %s then %s", ver, hexs(in), key, k)
		}
	}
}

// totalFast is total without the second decoding, for the big enumerations: the outcome of the first
// decoding is compared with a decoding of a padded copy only when accepted.
func totalFast(c *explore.Ctx, ver byte, in []byte) {
	b := in
	var save [16]byte
	k := copy(save[:], in)
	m, n, err := mqttp.Decode(mqttp.ProtocolVersion(ver), b)
	c.Op(1)
	if k == len(in) && !bytes.Equal(save[:k], in) {
		c.Failf("decoding altered its input %x", save[:k])
	}
	if err == nil || !isNil(m) {
		total(c, ver, in)
		return
	}
	_ = n
}

func scenC01(t Tier) []*explore.Scenario {
	alpha := []byte{0x00, 0x01, 0x02, 0x03, 0x04, 0x11, 0x26, 0x2f, 0x61, 0x7f, 0x80, 0xff}
	return []*explore.Scenario{
		related("C01/related", nil, nil, func(c *explore.Ctx, p *ref.Packet) { total(c, p.Ver, p.Encode(true)) }),
		legal("C01/legal", nil, t.pick(2, 3), func(c *explore.Ctx, p *ref.Packet, w []byte) {
			for _, v := range ref.Versions {
				total(c, v, w)
			}
		}),
		mutants("C01/mutants", nil, t.pick(1, 2), 64, func(c *explore.Ctx, ver byte, in []byte) { total(c, ver, in) }),
		fullMutants("C01/full-mutants", nil, t.pick(0, 1), func(c *explore.Ctx, ver byte, in []byte) { total(c, ver, in) }),
		allBytes("C01/all-bytes", 3, totalFast),
		bodies("C01/bodies", nil, alpha, t.pick(4, 6), totalFast),
		headerScenario("C01/headers", total),
		{
			Name: "C01/long",
			Note: "length fields of LP strings and properties claiming 0..65535 bytes over bodies of all sizes 0..40 and around powers of two",
			Run: func(c *explore.Ctx) {
				t, ver := typeVer(c, nil)
				first := t<<4 | ref.FixedFlags(t)
				if t == ref.PUBLISH && c.Pick(2) == 1 {
					first |= 2
				}
				sizes := join(span(0, 40), []int{126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 65534, 65535, 65536, 70000})
				n := sizes[c.Pick(len(sizes))]
				fillv := []byte{0x00, 0x01, 0x26, 0x61, 0x7f, 0x80, 0xff}
				f := fillv[c.Pick(len(fillv))]
				body := bytes.Repeat([]byte{f}, n)
				total(c, ver, ref.Frame(first, body))
				if n >= 2 {
					for _, l := range []int{0, 1, n - 3, n - 2, n - 1, n, n + 1, 65535} {
						if l >= 0 && l <= 65535 {
							body[0], body[1] = byte(l>>8), byte(l)
							total(c, ver, ref.Frame(first, body))
						}
					}
				}
				c.State(fmt.Sprint(first, n, f))
				c.Sample(func() string { return fmt.Sprintf("first byte %#02x, %d bytes of %#02x, v%d", first, n, f, ver) })
			},
		},
		{
			Name: "C01/versions",
			Note: "all 256 protocol version bytes x all first bytes x default packets",
			Run: func(c *explore.Ctx) {
				v := byte(c.Pick(256))
				tt := byte(1 + c.Pick(15))
				g := &gen{c: c}
				pv := byte(ref.V5)
				if tt != ref.AUTH && c.Bool() {
					pv = ref.V311
				}
				w := g.packet(tt, pv).Encode(true)
				n := 0
				for b := 0; b < 256; b++ {
					w[0] = byte(b)
					m, _, err := decode(c, v, w)
					if (err == nil) == isNil(m) {
						c.Failf("decode v%d of %s returned packet=%v together with error %s", v, hexs(w), !isNil(m), errStr(err))
					}
					n++
				}
				c.Bulk(n)
			},
		},
	}
}

// ---- C06 ----

// headerScenario enumerates fixed headers: all first bytes x length-field encodings x body.
func headerScenario(name string, visit visitor) *explore.Scenario {
	return &explore.Scenario{
		Name: name,
		Note: "all 256 first bytes x bodies of all 15 types x length fields: exact, off by -2..+2, minimal and padded to 2..6 bytes, all-continuation bytes, huge values; all versions",
		Run: func(c *explore.Ctx) {
			ver := ref.Versions[c.Pick(3)]
			b0 := byte(c.Pick(256))
			// body: that of a default packet of any type, or empty, or longer ones
			k := c.Pick(20)
			var body []byte
			g := &gen{c: c}
			switch {
			case k < 15:
				body = g.packet(byte(k+1), ver).Body(true)
			case k == 15:
				body = nil
			case k == 16:
				p := &ref.Packet{Type: ref.PUBLISH, Ver: ver, Topic: "t", Payload: fill[:140]}
				body = p.Body(true)
			case k == 17:
				p := &ref.Packet{Type: ref.PUBLISH, Ver: ver, Topic: "t", QoS: 2, HasID: true, ID: 9, Payload: fill[:16390]}
				body = p.Body(true)
			case k == 18:
				body = []byte{0, 1}
			case k == 19:
				body = []byte{0, 1, 0, 0}
			}
			n := len(body)
			var fields [][]byte
			for d := -2; d <= 2; d++ {
				if n+d >= 0 {
					fields = append(fields, ref.Varint(nil, uint32(n+d)))
				}
			}
			for pad := 2; pad <= 6; pad++ { // non-minimal encodings
				f := ref.Varint(nil, uint32(n))
				for len(f) < pad {
					f[len(f)-1] |= 0x80
					f = append(f, 0)
				}
				fields = append(fields, f)
			}
			fields = append(fields, []byte{0xff}, []byte{0xff, 0xff}, []byte{0xff, 0xff, 0xff}, []byte{0xff, 0xff, 0xff, 0xff}, []byte{0xff, 0xff, 0xff, 0x7f},
				[]byte{0x80, 0x80, 0x80, 0x80, 0x01}, []byte{0xff, 0xff, 0xff, 0xff, 0x0f}, []byte{0xff, 0xff, 0xff, 0xff, 0x7f}, []byte{0xff, 0xff, 0xff, 0xff, 0xff},
				[]byte{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80}, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, nil)
			// an overlong field whose low bits equal n modulo 2^32
			fields = append(fields, []byte{byte(n&0x7f) | 0x80, byte(n>>7&0x7f) | 0x80, byte(n>>14&0x7f) | 0x80, byte(n>>21&0x7f) | 0x80, 0x10})
			f := fields[c.Pick(len(fields))]
			in := append(append([]byte{b0}, f...), body...)
			if c.Verbose() {
				c.Logf("first byte %#02x, length field %x, body %s", b0, f, hexs(body))
			}
			c.State(hexs(in))
			c.Sample(func() string { return fmt.Sprintf("v%d %s", ver, hexs(in)) })
			visit(c, ver, in)
		},
	}
}

func judgeV(c *explore.Ctx, ver byte, in []byte) { judge(c, ver, in) }

func scenC06(t Tier) []*explore.Scenario {
	out := []*explore.Scenario{
		headerScenario("C06/headers", judgeV),
		allBytes("C06/all-bytes-2", t.pick(2, 3), judgeV),
		legal("C06/legal", nil, t.pick(1, 2), func(c *explore.Ctx, p *ref.Packet, w []byte) {
			judge(c, p.Ver, w)
			if len(w) < 2000 {
				// the same body under every first byte
				for b := 0; b < 256; b++ {
					x := append([]byte(nil), w...)
					x[0] = byte(b)
					judge(c, p.Ver, x)
				}
				c.Bulk(256)
			}
		}),
		{
			Name: "C06/big",
			Note: "complete packets of every type that can be so long (return codes, topics, user properties, payload) with remaining lengths 2^16, 2^20, 2^21-1, 2^21, 2^21+1 and 2^22, in all versions; each also announced one byte longer and shorter",
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, nil)
				ls := []int{1 << 16, 1 << 20, 1<<21 - 1, 1 << 21, 1<<21 + 1, 1 << 22}
				p := bigPacket(tt, ver, ls[c.Pick(len(ls))])
				if p == nil {
					c.Prune()
				}
				w := p.Encode(true)
				judge(c, ver, w)
				if err := judgeBig(ver, w, tt); err != "" {
					c.Failf("%s", err)
				}
				h := 1
				for w[h] >= 0x80 {
					h++
				}
				judge(c, ver, append(ref.Varint([]byte{w[0]}, uint32(len(w)-h)), w[h+1:]...))
				judge(c, ver, append(ref.Varint([]byte{w[0]}, uint32(len(w)-h-2)), w[h+1:]...))
				c.State(fmt.Sprint(tt, ver, len(w)))
				c.Sample(func() string { return fmt.Sprintf("%s v%d of %d bytes", ref.TypeNames[tt], ver, len(w)) })
			},
		},
		{
			Name: "C06/kept",
			Note: fmt.Sprintf("packets created, decoded and switched in version, then every sequence of %d setter, encode and version calls: type and prescribed flags stay, and the first byte on the wire is made of them", t.pick(2, 3)),
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, nil)
				m, p, h := startPacket(c, tt, ver, c.Pick(3))
				ops := fieldOps(tt, ver)
				for i := 0; i < t.pick(2, 3); i++ {
					k := c.Pick(len(ops) + 3 + len(oddVersions))
					switch {
					case k < len(ops):
						h += "; " + ops[k].name
						_, _ = ops[k].do(c, m, p)
					default:
						v := append(ref.Versions[:3:3], oddVersions...)[k-len(ops)]
						h += fmt.Sprintf("; SetVersion(%d)", v)
						m.SetVersion(mqttp.ProtocolVersion(v))
						ops = []apiOp{} // their model is that of the version
					}
					c.Op(1)
					f := m.(interface{ Flags() byte }).Flags()
					if byte(m.Type()) != tt || tt != ref.PUBLISH && f != ref.FixedFlags(tt) {
						c.Failf("after %s: a %s has type %d, flags %#x", h, ref.TypeNames[tt], m.Type(), f)
					}
				}
				if tt != ref.PUBLISH {
					if out, err := mqttp.Encode(m); err == nil && out[0] != tt<<4|ref.FixedFlags(tt) {
						c.Failf("after %s: a %s is encoded as %s", h, ref.TypeNames[tt], hexs(out))
					}
				}
				c.Sample(func() string { return h })
			},
		},
		{
			Name: "C06/new",
			Note: "New for all 256 types x all 256 versions; typed constructors",
			Run: func(c *explore.Ctx) {
				v := c.Pick(256)
				n := 0
				for t := 0; t < 256; t++ {
					n++
					m, err := mqttp.New(mqttp.ProtocolVersion(v), mqttp.Type(t))
					c.Op(1)
					if (err == nil) == isNil(m) {
						c.Failf("New(%d, %d) = packet %v, error %s", v, t, !isNil(m), errStr(err))
					}
					supported := v >= 3 && v <= 5
					wantOK := t >= 1 && t <= 15 && (t != 15 || v == 5)
					if err == nil && (t < 1 || t > 15) {
						c.Failf("New(%d, %d) created a packet of an undefined type", v, t)
					}
					if supported && wantOK != (err == nil) {
						c.Failf("New(%d, %d) gives error %s", v, t, errStr(err))
					}
					if err != nil {
						continue
					}
					if byte(m.Type()) != byte(t) || byte(m.Version()) != byte(v) {
						c.Failf("New(%d, %d) gives type %d version %d", v, t, m.Type(), m.Version())
					}
					if f := m.(interface{ Flags() byte }).Flags(); f != ref.FixedFlags(byte(t)) {
						c.Failf("New(%d, %d) has flags %#x", v, t, f)
					}
					if !supported {
						continue
					}
					m2 := obs.New(byte(t), byte(v))
					if byte(m2.Type()) != byte(t) || byte(m2.Version()) != byte(v) || m2.(interface{ Flags() byte }).Flags() != ref.FixedFlags(byte(t)) {
						c.Failf("typed constructor for type %d version %d gives type %d version %d", t, v, m2.Type(), m2.Version())
					}
					if fmt.Sprintf("%T", m) != fmt.Sprintf("%T", m2) {
						c.Failf("New(%d,%d) is a %T", v, t, m)
					}
				}
				c.Bulk(n)
			},
		},
	}
	return out
}

// oddVersions are versions that no protocol has.
var oddVersions = []byte{0, 2, 6, 127, 128, 131, 132, 133, 255}

// bigPacket is a packet of exactly the remaining length l, nil when the type has none.
func bigPacket(tt, ver byte, l int) *ref.Packet {
	p := plain(tt, ver)
	size := func() int { return len(p.Body(true)) }
	switch tt {
	case ref.PUBLISH:
		p.Payload += strings.Repeat("x", l-size())
	case ref.SUBACK:
		p.Codes = append(p.Codes, make([]byte, l-size())...)
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		f := strings.Repeat("f", 65000)
		for i := (l - size() - 70000) / 65003; i > 0; i-- {
			p.Subs = append(p.Subs, ref.Sub{Filter: f})
		}
		for size() != l {
			d := l - size()
			x := 2
			if tt == ref.SUBSCRIBE {
				x = 3
			}
			if d -= x; d > 65000 {
				d = 60000
			}
			if d <= 0 {
				p.Subs[0].Filter += "f"
				continue
			}
			p.Subs = append(p.Subs, ref.Sub{Filter: f[:d]})
		}
	default:
		if tt == ref.UNSUBACK && ver == ref.V5 {
			p.Codes = append(p.Codes, make([]byte, l-size())...)
			break
		}
		if ver != ref.V5 || tt == ref.PINGREQ || tt == ref.PINGRESP {
			return nil
		}
		v := strings.Repeat("v", 65000)
		p.Props = []ref.PropVal{{ID: 0x26, K: "k", S: "v"}}
		for i := (l - size() - 70000) / 65006; i > 0; i-- {
			p.Props = append(p.Props, ref.PropVal{ID: 0x26, K: "k", S: v})
		}
		for size() < l {
			d := l - size() - 6
			if d > 65000 {
				d = 60000
			}
			if d < 0 {
				p.Props[0].S += "v"
				continue
			}
			p.Props = append(p.Props, ref.PropVal{ID: 0x26, K: "k", S: v[:d]})
		}
		if size() != l { // the section length grew by a byte at the boundary
			return nil
		}
	}
	return p
}

// judgeBig checks the header fields of an accepted long packet.
func judgeBig(ver byte, w []byte, tt byte) string {
	m, n, err := mqttp.Decode(mqttp.ProtocolVersion(ver), w)
	if err != nil || n != len(w) || byte(m.Type()) != tt {
		return fmt.Sprintf("%s v%d of %d bytes: n=%d err=%s", ref.TypeNames[tt], ver, len(w), n, errStr(err))
	}
	h := 1
	for w[h] >= 0x80 {
		h++
	}
	if r := m.(interface{ RemainingLength() int32 }).RemainingLength(); int(r) != len(w)-h-1 {
		return fmt.Sprintf("%s v%d of %d bytes: remaining length reported as %d", ref.TypeNames[tt], ver, len(w), r)
	}
	return ""
}

// ---- C05 ----

func scenC05(t Tier) []*explore.Scenario {
	frameOf := func(c *explore.Ctx, ver byte, w []byte) {
		m, n, err := decode(c, ver, w)
		if err != nil || isNil(m) || n != len(w) {
			c.Failf("well-formed packet %s (v%d) refused: n=%d err=%s", hexs(w), ver, n, errStr(err))
		}
		// every cut
		full := len(w)
		hdr := 1
		for hdr < len(w) && w[hdr] >= 0x80 {
			hdr++
		}
		hdr++ // bytes of the fixed header
		cut := func(k int) {
			m, n, err := decode(c, ver, w[:k])
			if !isNil(m) || err == nil {
				c.Failf("prefix of %d bytes of %s (v%d) accepted", k, hexs(w), ver)
			}
			if err != mqttp.ErrInsufficientDataSize {
				c.Failf("prefix of %d of %d bytes of %s (v%d): error %s instead of insufficient data", k, full, hexs(w), ver, errStr(err))
			}
			if k >= hdr && n != full {
				c.Failf("prefix of %d bytes of %s (v%d): reported size %d, packet has %d", k, hexs(w), ver, n, full)
			}
		}
		if full <= 400 {
			for k := 1; k < full; k++ {
				cut(k)
			}
		} else {
			for k := 1; k < 64; k++ {
				cut(k)
			}
			for _, k := range []int{full / 2, full - 300, full - 2, full - 1} {
				cut(k)
			}
		}
		// every kind of trailing data
		ext := func(extra []byte) {
			x := append(append([]byte(nil), w...), extra...)
			m, n, err := decode(c, ver, x)
			if !isNil(m) || err == nil {
				c.Failf("packet %s (v%d) followed by %x accepted", hexs(w), ver, extra)
			}
			if n != full {
				c.Failf("packet %s (v%d) followed by %x: reported size %d, packet has %d (error %s)", hexs(w), ver, extra, n, full, errStr(err))
			}
			if err == mqttp.ErrInsufficientDataSize {
				c.Failf("packet %s (v%d) followed by %x reported as insufficient data", hexs(w), ver, extra)
			}
		}
		if full < 100000 {
			ext([]byte{0})
			ext([]byte{0xff})
			ext([]byte{'a', 'b'})
			ext(w)
			ext([]byte{0xC0, 0})
			if full < 64 {
				ext(bytes.Repeat([]byte{0x61}, 128))
				ext(bytes.Repeat([]byte{0}, 16384))
			}
		} else {
			ext([]byte{0})
		}
	}
	all := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
	// complete packets, malformed or not, are not reported as incomplete
	whole := func(c *explore.Ctx, ver byte, in []byte) {
		if len(in) < 2 {
			return
		}
		n, h := 0, 1
		for ; h < len(in) && h < 5; h++ {
			n |= int(in[h]&0x7f) << uint(7*(h-1))
			if in[h] < 0x80 {
				break
			}
		}
		if h >= len(in) || h > 4 || h+1+n > len(in) {
			return
		}
		_, _, err := decode(c, ver, in)
		if err == mqttp.ErrInsufficientDataSize {
			c.Failf("%s (v%d) announces %d bytes and has %d, but is reported as insufficient data", hexs(in), ver, n, len(in)-h-1)
		}
	}
	return []*explore.Scenario{
		mutants("C05/mutants", nil, t.pick(1, 2), 64, whole),
		fullMutants("C05/full-mutants", nil, t.pick(0, 1), whole),
		bodies("C05/bodies", all, []byte{0, 1, 2, 4, 0x10, 0x26, 'a', 0x80}, t.pick(5, 7), whole),
		propSections("C05/props", allPropTypes, whole),
		headerScenario("C05/headers", whole),
		legal("C05/legal", nil, t.pick(1, 2), func(c *explore.Ctx, p *ref.Packet, w []byte) { frameOf(c, p.Ver, w) }),
		{
			Name: "C05/sizes",
			Note: "PUBLISH with every body size 3..700 and around each length-field width change, QoS 0..2, all versions; all cuts and trailing data",
			Run: func(c *explore.Ctx) {
				ver := ref.Versions[c.Pick(3)]
				q := byte(c.Pick(3))
				sizes := join(span(0, 700), span(16370, 16400), span(2097130, 2097160))
				n := sizes[c.Pick(len(sizes))]
				p := &ref.Packet{Type: ref.PUBLISH, Ver: ver, Topic: "t", QoS: q}
				if q > 0 {
					p.HasID, p.ID = true, 7
				}
				if n <= len(fill) {
					p.Payload = fill[:n]
				} else {
					p.Payload = string(bytes.Repeat([]byte{'x'}, n))
				}
				c.State(fmt.Sprint(ver, q, n))
				c.Sample(func() string { return fmt.Sprintf("PUBLISH v%d qos %d payload %d", ver, q, n) })
				frameOf(c, ver, p.Encode(true))
			},
		},
		{
			Name: "C05/trailing",
			Note: "packets of every type and version followed by zero bytes, 0xFF bytes or further packets of every length around powers of two up to 2^20 (2^26 for some): refused with the packet's own size",
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, nil)
				w := plain(tt, ver).Encode(true)
				if c.Bool() {
					w = rich(tt, ver).Encode(true)
				}
				var ls []int
				for b := 1; b <= 1<<20; b <<= 1 {
					ls = append(ls, b-len(w)-1, b-len(w), b-1, b, b+1)
				}
				ls = append(ls, 1<<24, 1<<24-1)
				if tt == ref.PUBLISH {
					ls = append(ls, 1<<26, 1<<28)
				}
				l := ls[c.Pick(len(ls))]
				if l < 1 {
					c.Prune()
				}
				in := make([]byte, len(w)+l)
				for _, f := range []byte{0, 0xFF, w[0]} {
					for i := copy(in, w); i < len(in); {
						if f == w[0] {
							i += copy(in[i:], w)
							continue
						}
						if i == len(w) {
							in[i] = f
							i++
						}
						i += copy(in[i:], in[len(w):i])
					}
					m, n, err := decode(c, ver, in)
					if !isNil(m) || err == nil || n != len(w) || err == mqttp.ErrInsufficientDataSize {
						c.Failf("packet %s (v%d) followed by %d bytes %#02x: accepted=%v, reported size %d, packet has %d (error %s)", hexs(w), ver, l, f, !isNil(m), n, len(w), errStr(err))
					}
				}
				c.Bulk(3)
				c.State(fmt.Sprint(tt, ver, len(w), l))
			},
		},
		{
			Name: "C05/shorter",
			Note: "each well-formed packet announced shorter or longer than its body: never accepted beyond or below the announced length",
			Run: func(c *explore.Ctx) {
				p, w := wires(c, nil, true, c.Pick(3))
				h := 2
				if w[1] >= 0x80 {
					h = 3
				}
				body := w[h:]
				for cut := 0; cut < len(body); cut++ {
					judge(c, p.Ver, ref.Frame(w[0], body[:cut]))
					// body bytes beyond the announced length must not be looked at
					m, _, err := decode(c, p.Ver, append(ref.Frame(w[0], body[:cut]), body[cut:]...))
					if !isNil(m) || err == nil {
						c.Failf("packet announcing %d body bytes but carrying %d accepted: %s", cut, len(body), hexs(w))
					}
				}
				c.Bulk(2 * len(body))
			},
			Bound: t.pick(1, 2),
		},
		{
			Name: "C05/huge-announced",
			Note: "length fields announcing up to 268435455 bytes over short buffers: insufficient data with the exact total",
			Run: func(c *explore.Ctx) {
				ver := ref.Versions[c.Pick(3)]
				tt := byte(1 + c.Pick(14))
				anns := append([]uint32{}, varExt...)
				n := anns[c.Pick(len(anns))]
				first := tt<<4 | ref.FixedFlags(tt)
				w := ref.Varint([]byte{first}, n)
				for _, extra := range []int{0, 1, 2, 50} {
					if uint32(extra) >= n {
						continue
					}
					in := append(append([]byte(nil), w...), make([]byte, extra)...)
					m, tot, err := decode(c, ver, in)
					if !isNil(m) || err != mqttp.ErrInsufficientDataSize || tot != len(w)+int(n) {
						c.Failf("%x announcing %d bytes with %d present: packet=%v total=%d err=%s, want insufficient data and %d", w, n, extra, !isNil(m), tot, errStr(err), len(w)+int(n))
					}
				}
				c.State(fmt.Sprint(ver, tt, n))
			},
		},
	}
}

// ---- C07 ----

func scenC07(t Tier) []*explore.Scenario {
	ts := []byte{ref.CONNECT}
	return []*explore.Scenario{
		related("C07/related", ts, nil, func(c *explore.Ctx, p *ref.Packet) { judge(c, p.Ver, p.Encode(true)) }),
		legal("C07/legal", ts, t.pick(3, 4), func(c *explore.Ctx, p *ref.Packet, w []byte) {
			for _, v := range ref.Versions { // the decoder's own version must not matter
				judge(c, v, w)
			}
		}),
		{
			Name: "C07/flags",
			Note: "all 256 flag bytes x protocol names x levels x identifier kinds x will/user/password present or absent on the wire, all decoding versions",
			Run: func(c *explore.Ctx) {
				dv := ref.Versions[c.Pick(3)]
				names := []string{"MQTT", "MQIsdp", "MQTt", "", "MQTTT", "MQ", "mqtt", "MQIsdP", "M\xffTT"}
				name := names[c.Pick(len(names))]
				lvls := []byte{3, 4, 5, 0, 1, 2, 6, 0x83, 0x84, 0x85, 255}
				lvl := lvls[c.Pick(len(lvls))]
				cids := []string{"c", "", "a b", "\x00", "é", "a+b", "x#"}
				cid := cids[c.Pick(len(cids))]
				parts := c.Pick(16) // will, user, password on the wire; keep-alive variant
				n := 0
				for f := 0; f < 256; f++ {
					b := ref.LP(nil, name)
					b = append(b, lvl, byte(f), 0x12, 0x34)
					if lvl == 5 {
						b = append(b, 0)
					}
					b = ref.LP(b, cid)
					will, user, pass := f&4 != 0, f&0x80 != 0, f&0x40 != 0
					if parts&1 != 0 {
						will = !will
					}
					if parts&2 != 0 {
						user = !user
					}
					if parts&4 != 0 {
						pass = !pass
					}
					if will {
						if lvl == 5 {
							b = append(b, 0)
						}
						if parts&8 != 0 {
							b = ref.LP(ref.LP(b, "w/t"), "")
						} else {
							b = ref.LP(ref.LP(b, "w"), "msg")
						}
					}
					if user {
						b = ref.LP(b, "us")
					}
					if pass {
						b = ref.LP(b, "pw")
					}
					judge(c, dv, ref.Frame(0x10, b))
					n++
				}
				c.Bulk(n)
				c.Sample(func() string {
					return fmt.Sprintf("name %q level %d cid %q parts %x, 256 flag bytes", name, lvl, cid, parts)
				})
			},
		},
		{
			Name: "C07/levels",
			Note: "all 256 protocol levels x both names x decoding versions; all 65536 keep-alive values",
			Run: func(c *explore.Ctx) {
				dv := ref.Versions[c.Pick(3)]
				name := []string{"MQTT", "MQIsdp"}[c.Pick(2)]
				mode := c.Pick(257)
				if mode == 256 {
					for lvl := 0; lvl < 256; lvl++ {
						for _, v5 := range []bool{false, true} {
							b := append(ref.LP(nil, name), byte(lvl), 2, 0, 9)
							if v5 {
								b = append(b, 0)
							}
							judge(c, dv, ref.Frame(0x10, ref.LP(b, "c")))
						}
					}
					c.Bulk(512)
					return
				}
				for lo := 0; lo < 256; lo++ {
					lvl := byte(4)
					if name == "MQIsdp" {
						lvl = 3
					}
					b := append(ref.LP(nil, name), lvl, 2, byte(mode), byte(lo))
					judge(c, dv, ref.Frame(0x10, ref.LP(b, "c")))
				}
				c.Bulk(256)
			},
		},
		mutants("C07/mutants", ts, t.pick(1, 2), 90, judgeV),
		fullMutants("C07/full-mutants", ts, t.pick(0, 1), judgeV),
		{
			Name: "C07/strings",
			Note: "every string of <=2 bytes over 256 values as client identifier, will topic, user name, and every 3-byte string over boundary bytes; will payload and password arbitrary",
			Run: func(c *explore.Ctx) {
				ver := ref.Versions[c.Pick(3)]
				field := c.Pick(5)
				b0 := c.Pick(256)
				mk := func(s string) []byte {
					p := &ref.Packet{Type: ref.CONNECT, Ver: ver, Clean: true, ClientID: "c", HasUser: true, User: "u", HasPass: true, Pass: "p",
						Will: &ref.Will{Topic: "w", Payload: "m", QoS: 1}}
					switch field {
					case 0:
						p.ClientID = s
					case 1:
						p.Will.Topic = s
					case 2:
						p.User = s
					case 3:
						p.Will.Payload = s
					case 4:
						p.Pass = s
					}
					return p.Encode(true)
				}
				n := 1
				judge(c, ver, mk(string([]byte{byte(b0)})))
				for b1 := 0; b1 < 256; b1++ {
					judge(c, ver, mk(string([]byte{byte(b0), byte(b1)})))
					n++
				}
				for _, b1 := range edgeBytes {
					for _, b2 := range edgeBytes {
						judge(c, ver, mk(string([]byte{byte(b0), b1, b2})))
						n++
					}
				}
				c.Bulk(n)
			},
		},
		propSections("C07/connect-props", []byte{ref.CONNECT}, judgeV),
		propSections("C07/will-props", []byte{ref.WillType}, judgeV),
		propPairs("C07/pairs", []byte{ref.CONNECT, ref.WillType}, judgeV),
		propSubsets("C07/prop-subsets", []byte{ref.CONNECT, ref.WillType}, judgeV),
	}
}

var edgeBytes = []byte{0x00, 0x1f, 0x20, '#', '+', '/', '0', 'a', 0x7e, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff}

// ---- C08 ----

func scenC08(t Tier) []*explore.Scenario {
	ts := []byte{ref.PUBLISH}
	return []*explore.Scenario{
		related("C08/related", ts, nil, func(c *explore.Ctx, p *ref.Packet) { judge(c, p.Ver, p.Encode(true)) }),
		{
			Name: "C08/legal", Bound: t.pick(4, 5),
			Note: "well-formed PUBLISH packets; afterwards the receive buffer is overwritten and the packet read again",
			Run: func(c *explore.Ctx) {
				p, w := wires(c, ts, false, c.Pick(3))
				c.State(p.Key(true))
				c.Sample(func() string { return p.Key(true) + " = " + hexs(w) })
				judge(c, p.Ver, w)
				if len(w) > 100000 {
					return
				}
				buf := append([]byte(nil), w...)
				m, _, err := mqttp.Decode(mqttp.ProtocolVersion(p.Ver), buf)
				c.Op(1)
				if err != nil {
					c.Failf("second decode of %s failed: %s", hexs(w), errStr(err))
				}
				before := observe(c, m).Key(false)
				for i := range buf {
					buf[i] ^= 0xFF
				}
				if after := observe(c, m).Key(false); after != before {
					c.Failf("PUBLISH decoded from %s changed when the receive buffer was reused: %s became %s", hexs(w), before, after)
				}
				// and it can still be encoded to the same meaning
				encodesTo(c, m, p)
			},
		},
		{
			Name: "C08/ids",
			Note: "all 65536 packet identifiers x QoS 1,2 x versions, with and without payload; truncated identifiers",
			Run: func(c *explore.Ctx) {
				ver := ref.Versions[c.Pick(3)]
				q := byte(1 + c.Pick(2))
				hi := c.Pick(256)
				pl := []string{"", "x"}[c.Pick(2)]
				for lo := 0; lo < 256; lo++ {
					p := &ref.Packet{Type: ref.PUBLISH, Ver: ver, Topic: "t", QoS: q, HasID: true, ID: uint16(hi<<8 | lo), Payload: pl}
					judge(c, ver, p.Encode(true))
				}
				c.Bulk(256)
			},
		},
		mutants("C08/mutants", ts, t.pick(1, 2), 90, judgeV),
		fullMutants("C08/full-mutants", ts, t.pick(0, 1), judgeV),
		bodies("C08/bodies", ts, []byte{0, 1, 2, 3, 5, 'a', '+', 0x23, 0x26, 0x80}, t.pick(5, 7), judgeV),
		{
			Name: "C08/topics",
			Note: "every topic of <=2 bytes over 256 values, 3 bytes over boundary bytes, and strings up to length 5 over grammar symbols; QoS 0 and 1; V5 with and without alias",
			Run: func(c *explore.Ctx) {
				ver := ref.Versions[c.Pick(3)]
				q := byte(c.Pick(2))
				alias := ver == ref.V5 && c.Pick(2) == 1
				b0 := c.Pick(257)
				mk := func(s string) []byte {
					p := &ref.Packet{Type: ref.PUBLISH, Ver: ver, Topic: s, QoS: q, HasID: q > 0, ID: 5, Payload: "pl"}
					if alias {
						p.Props = []ref.PropVal{{ID: 0x23, U: 3}}
					}
					return p.Encode(true)
				}
				n := 1
				if b0 == 256 {
					judge(c, ver, mk(""))
					strs([]string{"a", "/", "+", "#", "$", "é", "\x7f", " "}, 5, func(s string) { judge(c, ver, mk(s)); n++ })
					c.Bulk(n)
					return
				}
				judge(c, ver, mk(string([]byte{byte(b0)})))
				for b1 := 0; b1 < 256; b1++ {
					judge(c, ver, mk(string([]byte{byte(b0), byte(b1)})))
					n++
				}
				for _, b1 := range edgeBytes {
					for _, b2 := range edgeBytes {
						judge(c, ver, mk(string([]byte{byte(b0), b1, b2})))
						n++
					}
				}
				c.Bulk(n)
			},
		},
		{
			Name: "C08/alias",
			Note: "empty and non-empty topic x all 65536 alias values (MQTT 5) x QoS",
			Run: func(c *explore.Ctx) {
				q := byte(c.Pick(3))
				tp := []string{"", "t"}[c.Pick(2)]
				hi := c.Pick(256)
				for lo := 0; lo < 256; lo++ {
					p := &ref.Packet{Type: ref.PUBLISH, Ver: ref.V5, Topic: tp, QoS: q, HasID: q > 0, ID: 5, Payload: "pl", Props: []ref.PropVal{{ID: 0x23, U: uint32(hi<<8 | lo)}}}
					judge(c, ref.V5, p.Encode(true))
				}
				c.Bulk(256)
			},
		},
		propSections("C08/props", []byte{ref.PUBLISH}, judgeV),
		propPairs("C08/pairs", []byte{ref.PUBLISH}, judgeV),
		propSubsets("C08/prop-subsets", []byte{ref.PUBLISH}, judgeV),
	}
}

// strs visits all concatenations of up to max symbols (excluding the empty string).
func strs(sym []string, max int, f func(string)) {
	var rec func(s string, d int)
	rec = func(s string, d int) {
		if d > 0 {
			f(s)
		}
		if d == max {
			return
		}
		for _, x := range sym {
			rec(s+x, d+1)
		}
	}
	rec("", 0)
}

// ---- C09 ----

var ackTypes = []byte{ref.CONNACK, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBACK, ref.UNSUBACK, ref.PINGREQ, ref.PINGRESP, ref.DISCONNECT, ref.AUTH}

var longLens = []int{1, 2, 63, 64, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1024, 4097, 16385, 65535, 65537, 70000}

// spot selects the positions of a list of n that the offender scenarios visit: every one of
// short lists, the ends and the surroundings of powers of two of longer ones.
// sectionOf picks user properties whose section has a length prefix of one to three bytes.
func sectionOf(c *explore.Ctx) []ref.PropVal {
	switch l := []int{0, 1, 119, 121, 16380}[c.Pick(5)]; {
	case l == 0:
		return nil
	default:
		return []ref.PropVal{{ID: 0x26, K: "k", S: strings.Repeat("v", l)}}
	}
}

func spot(i, n int) bool {
	if i < 3 || n-i <= 3 || n <= 300 {
		return true
	}
	for b := 16; b <= n+1; b <<= 1 {
		if i >= b-2 && i <= b+1 {
			return true
		}
	}
	return false
}

func scenC09(t Tier) []*explore.Scenario {
	return []*explore.Scenario{
		related("C09/related", ackTypes, nil, func(c *explore.Ctx, p *ref.Packet) { judge(c, p.Ver, p.Encode(true)) }),
		legal("C09/legal", ackTypes, t.pick(2, 3), func(c *explore.Ctx, p *ref.Packet, w []byte) { judge(c, p.Ver, w) }),
		mutants("C09/mutants", ackTypes, t.pick(1, 2), 64, judgeV),
		fullMutants("C09/full-mutants", ackTypes, t.pick(0, 1), judgeV),
		bodies("C09/bodies", ackTypes, []byte{0, 1, 2, 3, 0x10, 0x11, 0x26, 0x80, 0x83, 0x92, 0xff}, t.pick(5, 6), judgeV),
		{
			Name: "C09/codes",
			Note: "all 256 reason codes x types x versions x {short form, empty properties, one property, truncations}; SUBACK/UNSUBACK lists of 1..3 with every code at every place",
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, ackTypes)
				shape := c.Pick(6)
				n := 0
				for code := 0; code < 256; code++ {
					p := &ref.Packet{Type: tt, Ver: ver, Code: byte(code), HasID: obs.NeedsID(tt), ID: 0x1234}
					short := shape == 0
					if shape == 2 && ver == ref.V5 {
						p.Props = []ref.PropVal{{ID: 0x1f, S: "r"}}
						if tt == ref.AUTH {
							p.Props = []ref.PropVal{{ID: 0x15, S: "r"}}
						}
					}
					if tt == ref.CONNACK && shape == 3 {
						p.SessionPresent = true
					}
					if tt == ref.SUBACK || tt == ref.UNSUBACK {
						switch shape {
						case 3:
							p.Codes = []byte{0, byte(code)}
						case 4:
							p.Codes = []byte{byte(code), 0}
						case 5:
							p.Codes = []byte{0, byte(code), 0}
						default:
							p.Codes = []byte{byte(code)}
						}
					}
					w := p.Encode(short)
					judge(c, ver, w)
					n++
					if shape == 1 {
						body := p.Body(short)
						for cut := range body {
							judge(c, ver, ref.Frame(w[0], body[:cut]))
							n++
						}
						for _, x := range insVals {
							judge(c, ver, ref.Frame(w[0], append(append([]byte(nil), body...), x)))
							n++
						}
					}
				}
				c.Bulk(n)
				c.Sample(func() string { return fmt.Sprintf("%s v%d, 256 codes, shape %d", ref.TypeNames[tt], ver, shape) })
			},
		},
		{
			Name: "C09/ids",
			Note: "all 65536 packet identifiers x types x versions, one- and zero-byte identifiers",
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, []byte{ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBACK, ref.UNSUBACK})
				hi := c.Pick(256)
				n := 0
				for lo := 0; lo < 256; lo++ {
					p := &ref.Packet{Type: tt, Ver: ver, HasID: true, ID: uint16(hi<<8 | lo), Codes: []byte{0}}
					judge(c, ver, p.Encode(true))
					n++
				}
				judge(c, ver, ref.Frame(tt<<4|ref.FixedFlags(tt), []byte{byte(hi)}))
				judge(c, ver, ref.Frame(tt<<4|ref.FixedFlags(tt), nil))
				c.Bulk(n + 2)
			},
		},
		{
			Name: "C09/long",
			Note: "SUBACK/UNSUBACK with 1 to 70000 codes behind a property section of none to 20000 bytes, an illegal code (or none) at every position of lists up to 300, and at the ends and around powers of two of longer ones",
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, []byte{ref.SUBACK, ref.UNSUBACK})
				n := longLens[c.Pick(len(longLens))]
				p := &ref.Packet{Type: tt, Ver: ver, HasID: true, ID: 0x1234, Codes: make([]byte, n)}
				if tt == ref.UNSUBACK && ver != ref.V5 {
					c.Prune()
				}
				if ver == ref.V5 {
					p.Props = sectionOf(c)
				}
				for i := range p.Codes {
					p.Codes[i] = []byte{0, 0x80, 0}[i%3]
				}
				w := p.Encode(true)
				judge(c, ver, w)
				k := 1
				off := len(w) - n
				for i := 0; i < n; i++ {
					if !spot(i, n) {
						continue
					}
					for _, x := range []byte{0x03, 0xFF} {
						w2 := append([]byte(nil), w...)
						w2[off+i] = x
						judge(c, ver, w2)
						k++
					}
					c.Beat()
				}
				c.Bulk(k)
				c.State(fmt.Sprint(tt, ver, n))
			},
		},
		propSections("C09/props", []byte{ref.CONNACK, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBACK, ref.UNSUBACK, ref.DISCONNECT, ref.AUTH}, judgeV),
		propPairs("C09/pairs", []byte{ref.CONNACK, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBACK, ref.UNSUBACK, ref.DISCONNECT, ref.AUTH}, judgeV),
		propSubsets("C09/prop-subsets", []byte{ref.CONNACK, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBACK, ref.UNSUBACK, ref.DISCONNECT, ref.AUTH}, judgeV),
	}
}

// ---- C10 ----

func scenC10(t Tier) []*explore.Scenario {
	ts := []byte{ref.SUBSCRIBE, ref.UNSUBSCRIBE}
	return []*explore.Scenario{
		related("C10/related", ts, nil, func(c *explore.Ctx, p *ref.Packet) { judge(c, p.Ver, p.Encode(true)) }),
		legal("C10/legal", ts, t.pick(3, 4), func(c *explore.Ctx, p *ref.Packet, w []byte) { judge(c, p.Ver, w) }),
		mutants("C10/mutants", ts, t.pick(1, 2), 64, judgeV),
		fullMutants("C10/full-mutants", ts, t.pick(0, 1), judgeV),
		bodies("C10/bodies", ts, []byte{0, 1, 2, 3, 4, 'a', '#', '+', '/', 0x40}, t.pick(6, 7), judgeV),
		{
			Name: "C10/options",
			Note: "all 256 option bytes x versions x place in a list of 1..3 x plain/shared/dollar filter",
			Run: func(c *explore.Ctx) {
				ver := ref.Versions[c.Pick(3)]
				n, at := 1+c.Pick(3), c.Pick(3)
				f := []string{"a", "$share/g/t", "$SYS/t"}[c.Pick(3)]
				if at >= n {
					c.Prune()
				}
				for o := 0; o < 256; o++ {
					p := &ref.Packet{Type: ref.SUBSCRIBE, Ver: ver, HasID: true, ID: 3}
					for i := 0; i < n; i++ {
						s := ref.Sub{Filter: "x/y", Opt: byte(i)}
						if i == at {
							s = ref.Sub{Filter: f, Opt: byte(o)}
						}
						p.Subs = append(p.Subs, s)
					}
					judge(c, ver, p.Encode(true))
				}
				c.Bulk(256)
			},
		},
		{
			Name: "C10/lists",
			Note: "lists of 1..N filters of every uniform length 1..8 and mixed lengths, N up to 64 (300 thorough), both types, all versions, property section present in V5",
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, ts)
				max := t.pick(64, 300)
				n := 1 + c.Pick(max)
				l := c.Pick(10)
				p := &ref.Packet{Type: tt, Ver: ver, HasID: true, ID: 3}
				if ver == ref.V5 && c.Bool() {
					p.Props = []ref.PropVal{{ID: 0x26, K: "k", S: "v"}}
				}
				for i := 0; i < n; i++ {
					fl := l + 1
					switch l {
					case 8:
						fl = 1 + i%5
					case 9:
						fl = 1 + (n-i)%130
					}
					s := ref.Sub{Filter: fill[i%50 : i%50+fl]}
					if tt == ref.SUBSCRIBE {
						s.Opt = byte(i % 3)
					}
					p.Subs = append(p.Subs, s)
				}
				c.State(fmt.Sprint(tt, ver, n, l))
				c.Sample(func() string { return fmt.Sprintf("%s v%d %d filters, length class %d", ref.TypeNames[tt], ver, n, l) })
				m, _ := judge(c, ver, p.Encode(true))
				// early stop of the iteration
				type each interface {
					ForEachTopic(func(*mqttp.Topic) error) error
				}
				k := 0
				stop := fmt.Errorf("stop")
				err := m.(each).ForEachTopic(func(*mqttp.Topic) error {
					k++
					if k == (n+1)/2 {
						return stop
					}
					return nil
				})
				if err != stop || k != (n+1)/2 {
					c.Failf("iteration over %d filters stopped by its callback after %d returned %v after %d calls", n, (n+1)/2, err, k)
				}
			},
		},
		withinTopics("C10/within", own),
		{
			Name: "C10/offender",
			Note: "lists of 1 to 4097 filters of two lengths with one illegal filter (empty, control byte, ill-formed UTF-8, misplaced wildcard) or option byte at every position of lists up to 300, and at the ends and around powers of two of longer ones, and the truncated lists",
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, ts)
				n := longLens[c.Pick(len(longLens)-3)]
				f := []string{"a", "some/longer/filter/+"}[c.Pick(2)]
				subs := make([]ref.Sub, n)
				for i := range subs {
					subs[i].Filter = f
				}
				p := &ref.Packet{Type: tt, Ver: ver, HasID: true, ID: 3, Subs: subs}
				if ver == ref.V5 && n <= 300 {
					p.Props = sectionOf(c)
				}
				judge(c, ver, p.Encode(true))
				k := 1
				for i := 0; i < n; i++ {
					if !spot(i, n) {
						continue
					}
					for _, x := range []string{"", "\x00", "\xC0\x80", "a/#/b", "x+"} {
						subs[i] = ref.Sub{Filter: x}
						judge(c, ver, p.Encode(true))
						k++
					}
					if tt == ref.SUBSCRIBE {
						subs[i] = ref.Sub{Filter: f, Opt: 3}
						judge(c, ver, p.Encode(true))
						subs[i] = ref.Sub{Filter: f, Opt: 0x40}
						judge(c, ver, p.Encode(true))
						k += 2
					}
					subs[i] = ref.Sub{Filter: f}
					c.Beat()
				}
				c.Bulk(k)
				c.State(fmt.Sprint(tt, ver, n, len(f)))
			},
		},
		{
			Name: "C10/filters",
			Note: "every filter of <=2 bytes over 256 values, 3 over boundary bytes, strings up to length 6 over grammar symbols, alone, first and last in a list",
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, ts)
				place := c.Pick(3)
				b0 := c.Pick(257 + 8)
				mk := func(s string) []byte {
					p := &ref.Packet{Type: tt, Ver: ver, HasID: true, ID: 3, Subs: []ref.Sub{{Filter: s}}}
					switch place {
					case 1:
						p.Subs = append(p.Subs, ref.Sub{Filter: "z"})
					case 2:
						p.Subs = append([]ref.Sub{{Filter: "z"}}, p.Subs...)
					}
					return p.Encode(true)
				}
				n := 1
				sym := []string{"a", "/", "+", "#", "$", "é", "$share", "g"}
				switch {
				case b0 == 256:
					judge(c, ver, mk(""))
				case b0 > 256:
					pre := sym[b0-257]
					judge(c, ver, mk(pre))
					strs(sym, t.pick(4, 5), func(s string) { judge(c, ver, mk(pre+s)); n++; c.Beat() })
				default:
					judge(c, ver, mk(string([]byte{byte(b0)})))
					for b1 := 0; b1 < 256; b1++ {
						judge(c, ver, mk(string([]byte{byte(b0), byte(b1)})))
						n++
					}
					for _, b1 := range edgeBytes {
						for _, b2 := range edgeBytes {
							judge(c, ver, mk(string([]byte{byte(b0), b1, b2})))
							n++
						}
					}
				}
				c.Bulk(n)
			},
		},
		{
			Name: "C10/ids",
			Note: "all 65536 packet identifiers x types x versions; truncated identifiers",
			Run: func(c *explore.Ctx) {
				tt, ver := typeVer(c, ts)
				hi := c.Pick(256)
				for lo := 0; lo < 256; lo++ {
					p := &ref.Packet{Type: tt, Ver: ver, HasID: true, ID: uint16(hi<<8 | lo), Subs: []ref.Sub{{Filter: "a"}}}
					judge(c, ver, p.Encode(true))
				}
				judge(c, ver, ref.Frame(tt<<4|2, []byte{byte(hi)}))
				judge(c, ver, ref.Frame(tt<<4|2, nil))
				judge(c, ver, ref.Frame(tt<<4|2, []byte{byte(hi), 1}))
				c.Bulk(259)
			},
		},
		propSections("C10/props", ts, judgeV),
		propPairs("C10/pairs", ts, judgeV),
	}
}
