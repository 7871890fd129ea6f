package scen

import (
	"verifmc/explore"
	"verifmc/ref"
)

// Tier scales bounds.
type Tier struct {
	Thorough bool
}

// pick returns the bound of the tier.
func (t Tier) pick(quick, thorough int) int {
	if t.Thorough {
		return thorough
	}
	return quick
}

type visitor func(c *explore.Ctx, ver byte, in []byte)

var insVals = []byte{0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x0b, 0x1f, 0x21, 0x26, 0x7f, 0x80, 0xff, 'a', '/', '+', '#'}

// hasShort: the type may omit trailing fields.
func hasShort(p *ref.Packet) bool {
	switch p.Type {
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.DISCONNECT, ref.AUTH:
		return p.Ver == ref.V5
	}
	return false
}

// wires enumerates well-formed packets on the wire.
func wires(c *explore.Ctx, ts []byte, noExt bool, rot int) (*ref.Packet, []byte) {
	t, ver := typeVer(c, ts)
	g := &gen{c: c, noExt: noExt, rot: rot}
	p := g.packet(t, ver)
	short := true
	if hasShort(p) {
		short = c.Pick(2) == 0
	}
	return p, p.Encode(short)
}

// mutants enumerates all single-edit neighbours of the well-formed packets.
func mutants(name string, ts []byte, bound, maxLen int, visit visitor) *explore.Scenario {
	return mutantsOf(name, ts, bound, maxLen, []int{0}, visit)
}

// fullMutants: the neighbours of the packets that have every field.
func fullMutants(name string, ts []byte, bound int, visit visitor) *explore.Scenario {
	return mutantsOf(name, ts, bound, 700, []int{1, 2}, visit)
}

func mutantsOf(name string, ts []byte, bound, maxLen int, rots []int, visit visitor) *explore.Scenario {
	return &explore.Scenario{
		Name: name, Bound: bound,
		Note: "every well-formed packet within the deviation bound x {every byte replaced by all 256 values, deleted, 17 values inserted, body cut at every length}, remaining length kept consistent",
		Run: func(c *explore.Ctx) {
			p, w := wires(c, ts, true, rots[c.Pick(len(rots))])
			if len(w) > maxLen {
				c.Prune()
			}
			c.State(p.Key(true))
			c.Sample(func() string { return hexs(w) + " " + p.Key(true) })
			h := 2
			if w[1] >= 0x80 {
				h = 3
			}
			body := w[h:]
			ver := p.Ver
			if c.Verbose() {
				c.Logf("base packet %s = %s", hexs(w), p.Key(true))
			}
			i := c.Pick(len(w) + 1)
			n := 0
			if i == len(w) { // edits without a position
				visit(c, ver, w)
				for cut := 0; cut < len(body); cut++ {
					visit(c, ver, ref.Frame(w[0], body[:cut]))
				}
				for _, v := range insVals {
					visit(c, ver, ref.Frame(w[0], append(append([]byte(nil), body...), v)))
				}
				c.Bulk(1 + len(body) + len(insVals))
				return
			}
			for v := 0; v < 256; v++ {
				m := append([]byte(nil), w...)
				m[i] = byte(v)
				visit(c, ver, m)
				n++
			}
			if i >= h {
				j := i - h
				d := append(append([]byte(nil), body[:j]...), body[j+1:]...)
				visit(c, ver, ref.Frame(w[0], d))
				n++
				for _, v := range insVals {
					d := append(append(append([]byte(nil), body[:j]...), v), body[j:]...)
					visit(c, ver, ref.Frame(w[0], d))
					n++
				}
			}
			c.Bulk(n)
		},
	}
}

// legal enumerates the well-formed packets themselves, with extended domains.
func legal(name string, ts []byte, bound int, visit func(c *explore.Ctx, p *ref.Packet, w []byte)) *explore.Scenario {
	return &explore.Scenario{
		Name: name, Bound: bound,
		Note: "well-formed packets of every listed type and version: field values from core domains in all combinations of up to the bound, extended domains (lengths 1..300 and around 2^9..2^21, list sizes, powers of two) one at a time; counted from three base packets: every field at its default, and two that have every field and every permitted property",
		Run: func(c *explore.Ctx) {
			p, w := wires(c, ts, false, c.Pick(3))
			c.State(p.Key(true))
			c.Sample(func() string { return p.Key(true) + " = " + hexs(w) })
			visit(c, p, w)
		},
	}
}

// bodies enumerates all bodies over an alphabet up to length max under each legal first byte.
func bodies(name string, ts []byte, alpha []byte, max int, visit visitor) *explore.Scenario {
	return &explore.Scenario{
		Name: name,
		Note: "all bodies over a small alphabet up to a length, correct remaining length, every legal first byte, all versions",
		Run: func(c *explore.Ctx) {
			t, ver := typeVer(c, ts)
			first := t<<4 | ref.FixedFlags(t)
			if t == ref.PUBLISH {
				f := []byte{0, 1, 2, 3, 4, 5, 10, 11, 12, 13}
				first = t<<4 | f[c.Pick(len(f))]
			}
			var pre []byte
			for k := 0; k < 2 && k < max; k++ {
				x := c.Pick(len(alpha) + 1)
				if x == 0 {
					visit(c, ver, ref.Frame(first, pre))
					c.Bulk(1)
					return
				}
				pre = append(pre, alpha[x-1])
			}
			// the rest in a tight loop
			rest := max - 2
			n := 0
			buf := make([]byte, 0, max+2)
			idx := make([]int, rest)
			for l := 0; l <= rest; l++ {
				for i := range idx {
					idx[i] = 0
				}
				for {
					buf = append(buf[:0], first, byte(2+l))
					buf = append(buf, pre...)
					for i := 0; i < l; i++ {
						buf = append(buf, alpha[idx[i]])
					}
					visit(c, ver, buf)
					n++
					if n&0xfff == 0 {
						c.Beat()
					}
					i := l - 1
					for ; i >= 0; i-- {
						idx[i]++
						if idx[i] < len(alpha) {
							break
						}
						idx[i] = 0
					}
					if i < 0 {
						break
					}
				}
			}
			c.Bulk(n)
		},
	}
}

// allBytes enumerates every byte string up to length 3 over the full alphabet.
func allBytes(name string, max int, visit visitor) *explore.Scenario {
	return &explore.Scenario{
		Name: name,
		Note: "every byte string up to the length over all 256 values, all versions",
		Run: func(c *explore.Ctx) {
			ver := ref.Versions[c.Pick(3)]
			b0 := c.Pick(257)
			if b0 == 256 {
				visit(c, ver, nil)
				visit(c, ver, []byte{})
				c.Bulk(2)
				return
			}
			buf := make([]byte, 3)
			buf[0] = byte(b0)
			n := 1
			visit(c, ver, buf[:1])
			for b1 := 0; b1 < 256; b1++ {
				buf[1] = byte(b1)
				visit(c, ver, buf[:2])
				n++
				if max >= 3 {
					for b2 := 0; b2 < 256; b2++ {
						buf[2] = byte(b2)
						visit(c, ver, buf[:3])
						n++
					}
				}
				c.Beat()
			}
			c.Bulk(n)
		},
	}
}
