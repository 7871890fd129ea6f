package scen

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/VolantMQ/vlapi/mqttp"

	"verifmc/explore"
	"verifmc/obs"
	"verifmc/ref"
)

// Long regular histories: defects that count calls, fill a small store or react to a third or fifth
// repetition lie beyond the depth to which all histories are enumerated. These follow every pair of
// operations through the patterns below, to a length of about a dozen calls.

// patternWords are the words over {0, 1} of a regular history.
var patternWords = func() (out [][]int) {
	rep := func(n int, w ...int) []int {
		var x []int
		for len(x) < n {
			x = append(x, w...)
		}
		return x[:n]
	}
	for _, n := range []int{5, 8, 12} {
		out = append(out, rep(n, 0))
	}
	out = append(out, rep(33, 0), rep(12, 0, 1), rep(12, 0, 0, 1), rep(12, 0, 1, 1))
	for _, n := range []int{3, 4, 5, 7, 8} {
		out = append(out, append(rep(n, 0), 1))
	}
	return
}()

// long explores the patterns over every ordered pair of operations. start yields a fresh packet, its
// model and its operations; after judges the packet after every call, end after the last.
func long(c *explore.Ctx, nops int, start func() (mqttp.IFace, *ref.Packet, string, []apiOp), after, end func(m mqttp.IFace, p *ref.Packet, hist string)) {
	if nops == 0 {
		c.Prune()
	}
	a := c.Pick(nops)
	n := 0
	var samp string
	for b := 0; b < nops; b++ {
		c.Beat()
		for wi, w := range patternWords {
			if (b == a) != (wi < 4) {
				continue
			}
			m, p, s, ops := start()
			hist := func(i int) string {
				h := []string{s}
				for _, k := range w[:i+1] {
					h = append(h, ops[[]int{a, b}[k]].name)
				}
				return strings.Join(h, "; ")
			}
			for i, k := range w {
				op := ops[[]int{a, b}[k]]
				err, refuse := op.do(c, m, p)
				c.Op(1)
				if refuse != (err != nil) {
					c.Failf("%s gives %s", hist(i), errStr(err))
				}
				after(m, p, op.name)
				n++
			}
			samp = hist(len(w) - 1)
			end(m, p, samp)
			c.State(p.Key(true))
		}
	}
	c.Bulk(n)
	c.Sample(func() string { return samp })
}

const longNote = "every ordered pair (a, b) of %s on %s: a repeated 5, 8, 12 and 33 times, abab..., aabaab..., abbabb... of 12 calls, a repeated 3, 4, 5, 7 or 8 times and then b; %s"

func c18Long() *explore.Scenario {
	return &explore.Scenario{Name: "C18/long", Note: fmt.Sprintf(longNote, "setter, encode and size calls", "new, generic and decoded packets of every type and version", "getters after every call, bytes at the end"),
		Run: func(c *explore.Ctx) {
			tt, ver := typeVer(c, nil)
			kind := c.Pick(3)
			long(c, len(fieldOps(tt, ver)), func() (mqttp.IFace, *ref.Packet, string, []apiOp) {
				m, p, s := startPacket(c, tt, ver, kind)
				return m, p, s, fieldOps(tt, ver)
			}, func(m mqttp.IFace, p *ref.Packet, h string) { readsAs(c, m, p, h) },
				func(m mqttp.IFace, p *ref.Packet, h string) {
					emit(c, m, p, h)
					readsAs(c, m, p, h+"; Encode")
				})
		}}
}

func c12Long() *explore.Scenario {
	return &explore.Scenario{Name: "C12/long", Note: fmt.Sprintf(longNote, "property operations", "new, generic, switched and decoded packets of all 13 types", "properties after every call, bytes at the end"),
		Run: func(c *explore.Ctx) {
			tt := propPacketTypes[c.Pick(len(propPacketTypes))]
			kind := c.Pick(4)
			ops := propOps(tt)
			long(c, len(ops), func() (mqttp.IFace, *ref.Packet, string, []apiOp) {
				m, p, s := propCarrier(c, tt, kind)
				return m, p, s, ops
			}, func(m mqttp.IFace, p *ref.Packet, h string) { propState(c, m, p, h) },
				func(m mqttp.IFace, p *ref.Packet, h string) { emit(c, m, p, h) })
		}}
}

func c23Long(types []byte) *explore.Scenario {
	return &explore.Scenario{Name: "C23/long", Note: fmt.Sprintf(longNote, "version switches, property operations, code setters and encodes", "packets of 14 types created in or decoded from each version", "getters and property access after every call, bytes at the end"),
		Run: func(c *explore.Ctx) {
			tt := types[c.Pick(len(types))]
			ver := ref.Versions[c.Pick(3)]
			kind := c.Pick(3)
			ops := versionOps(tt)
			long(c, len(ops), func() (mqttp.IFace, *ref.Packet, string, []apiOp) {
				m, p := versionStart(c, tt, ver, kind)
				return m, p, p.Key(true), ops
			}, func(m mqttp.IFace, p *ref.Packet, h string) {
				readsAs(c, m, p, h)
				versionGate(c, m, p, h)
			}, func(m mqttp.IFace, p *ref.Packet, h string) {
				if tt == ref.UNSUBACK && p.Ver == ref.V5 && len(p.Codes) == 0 {
					return
				}
				emit(c, m, p, h)
				readsAs(c, m, p, h+"; Encode")
			})
		}}
}

// versionStart is the packet a version history starts from.
func versionStart(c *explore.Ctx, tt, ver byte, kind int) (mqttp.IFace, *ref.Packet) {
	p := plain(tt, ver)
	if tt == ref.UNSUBACK && ver == ref.V5 {
		p.Codes = []byte{0}
	}
	if kind == 2 {
		p = rich(tt, ver)
	}
	if kind == 0 {
		return build(c, p, obs.BuildOpt{}), p
	}
	in := p.Encode(true)
	m, _, err := decode(c, ver, in)
	if err != nil {
		c.Failf("decode v%d of %s refused: %s", ver, hexs(in), errStr(err))
	}
	return m, p
}

// ---- C24: the same again and again ----

// refusedHeaders are jobs on fixed headers that must be refused or are incomplete.
func refusedHeaders() (out []job) {
	for b := 0; b < 256; b++ {
		for _, rest := range [][]byte{{0}, {2, 0, 7}, {0x80, 0x80, 0x80, 0x80, 1}} {
			in := append([]byte{byte(b)}, rest...)
			for _, ver := range []byte{ref.V311, ref.V5} {
				if ref.Decode(ver, in).V == ref.Reject {
					out = append(out, decodeJob(ver, in, "header"))
				}
			}
		}
	}
	return
}

func c24Repeated() *explore.Scenario {
	var acts, probes []job
	for _, j := range jobs(1) {
		if strings.HasPrefix(j.name, "decode") || strings.HasPrefix(j.name, "build") {
			acts = append(acts, j)
		}
	}
	for _, j := range jobs(0) {
		if strings.HasPrefix(j.name, "decode") || strings.HasPrefix(j.name, "build") {
			probes = append(probes, j)
		}
	}
	acts = append(acts, refusedHeaders()...)
	return &explore.Scenario{Name: "C24/repeated", Note: fmt.Sprintf("each of %d actions (decode every rich, plain, refused and sized packet; build and encode; decode a refused fixed header with each of the 256 first bytes) repeated 300 times, after 1, 2, 3, 4, 6, 8, 12, 16, 32, 64, 100, 128, 200, 256, 257 and 300 of them %d others, judged against the reference; the packets of the first repetitions keep reading as they did", len(acts), len(probes)),
		Run: func(c *explore.Ctx) {
			j := acts[c.Pick(len(acts))]
			w := &world{}
			if c.Bool() {
				w.rx = make([]byte, 4096)
			}
			at := map[int]bool{1: true, 2: true, 3: true, 4: true, 6: true, 8: true, 12: true, 16: true, 32: true, 64: true, 100: true, 128: true, 200: true, 256: true, 257: true, 300: true}
			for i := 1; i <= 300; i++ {
				h := j.do(c, w)
				if i <= 4 {
					w.items = append(w.items, h)
				}
				if !at[i] {
					continue
				}
				for _, q := range probes {
					q.do(c, w)
				}
				for k, x := range w.items {
					if x != nil {
						x.intact(c, fmt.Sprintf("[%s] repeated %d times, repetition %d", j.name, i, k+1), true)
					}
				}
			}
			c.Bulk(300 + len(at)*len(probes))
			c.Sample(func() string { return j.name })
		}}
}

// ---- C24: many values one after the other ----

func c24Novel(t Tier) *explore.Scenario {
	count := t.pick(20000, 140000)
	return &explore.Scenario{Name: "C24/novel", Note: fmt.Sprintf("for every string, binary and numeric field and property of every packet type and version: %d packets one after the other, each with a value of that field never seen before, decoded, or built and encoded: each reports its own value (tables of values seen before may fill up, hashes collide)", count),
		Run: func(c *explore.Ctx) {
			tt, ver := typeVer(c, nil)
			full := packed(tt, ver)
			ss, ns := slots(full), nums(full)
			x := c.Pick(len(ss) + len(ns) + 1)
			if x == len(ss)+len(ns) {
				c.Prune()
			}
			name := ""
			if x < len(ss) {
				name = ss[x].name
			} else {
				name = ns[x-len(ss)].name
			}
			p := stripped(tt, ver, map[string]bool{name: true})
			how := c.Pick(2)
			for i := 1; i <= count; i++ {
				v := uint32(i) * 2654435761
				ok := true
				if x < len(ss) {
					ok = setSlots(p, ss, []int{x}, []string{fmt.Sprintf("%08x", v)})
				} else {
					switch ns[x-len(ss)].bits {
					case 16:
						v = uint32(i)*40503%65535 + 1
					case 28:
						v = v>>4 | 1
					}
					ok = setNum(p, name, v)
				}
				if !ok {
					c.Prune()
				}
				in := p.Encode(true)
				if how == 0 {
					m, _, err := decode(c, ver, in)
					if err != nil {
						c.Failf("value %d of %s: decode v%d of %s refused: %s", i, name, ver, hexs(in), errStr(err))
					}
					if got, want := observe(c, m).Key(false), p.Key(false); got != want {
						c.Failf("value %d of %s: decode v%d of %s reads %s, on the wire is %s", i, name, ver, hexs(in), got, want)
					}
				} else {
					encodesTo(c, build(c, p, obs.BuildOpt{}), p)
				}
				if i%512 == 0 {
					c.Beat()
				}
			}
			c.Bulk(count)
			c.Op(count)
			c.State(fmt.Sprint(tt, ver, name, how))
			c.Sample(func() string { return fmt.Sprintf("%d values of %s in %s v%d", count, name, ref.TypeNames[tt], ver) })
		}}
}

// ---- C24: many packets alive at once ----

// aliveSizes are the lengths the packets are stretched to.
var aliveSizes = []int{0, 60, 130, 300, 520, 1030, 1500, 2050, 4090, 4100, 5000, 8200, 16390, 20000, 33000, 65000}

// stretch gives p a content of its own, about n bytes long.
func stretch(p *ref.Packet, i, n int) {
	tag := fmt.Sprintf("%06d", i)
	s := func(def string) string {
		if n == 0 {
			return def + tag
		}
		return tag + fill[i%61:i%61+n]
	}
	if p.HasID {
		p.ID = uint16(i%65535 + 1)
	}
	switch p.Type {
	case ref.CONNECT:
		p.ClientID = s("c")
	case ref.PUBLISH:
		p.Topic, p.Payload = "t"+tag, s("p")
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		p.Subs[0].Filter = s("f")
	}
	if p.Ver == ref.V5 {
		for _, d := range ref.PropsOf(p.Type) {
			if d.ID == 0x26 {
				q := append([]ref.PropVal(nil), p.Props...)
				q = append(q, ref.PropVal{ID: 0x26, K: tag, S: fill[i%17 : i%17+n%301]})
				p.Props = q
			}
		}
	}
}

func c24Alive(t Tier) *explore.Scenario {
	count := t.pick(1200, 70000)
	return &explore.Scenario{Name: "C24/alive", Note: fmt.Sprintf("packets of every type and version, plain and rich, of %d lengths up to 65000, %d of each kept alive at a time (fewer of the long ones), each with an identifier and contents of its own: built, built and encoded, or decoded; at the end every one of them and every encoding is as it was", len(aliveSizes), count),
		Run: func(c *explore.Ctx) {
			tt, ver := typeVer(c, nil)
			how, richly := c.Pick(3), c.Bool()
			n := aliveSizes[c.Pick(len(aliveSizes))]
			k := count
			if n > 0 {
				k = 24 + count*8/n
			}
			mk := func(i int) *ref.Packet {
				p := plain(tt, ver)
				if richly {
					p = rich(tt, ver)
				}
				stretch(p, i, n)
				return p
			}
			ms := make([]mqttp.IFace, k)
			ws := make([][]byte, k)
			sums := make([]uint64, k)
			for i := range ms {
				p := mk(i)
				if how == 2 {
					in := p.Encode(true)
					m, _, err := decode(c, ver, in)
					if err != nil {
						c.Failf("decode v%d of %s refused: %s", ver, hexs(in), errStr(err))
					}
					ms[i] = m
					continue
				}
				ms[i] = build(c, p, obs.BuildOpt{})
				if how == 1 {
					w, err := mqttp.Encode(ms[i])
					if err != nil {
						c.Failf("encode of %s failed: %s", p.Key(true), errStr(err))
					}
					ws[i], sums[i] = w, hash(w)
				}
			}
			for i, m := range ms {
				p := mk(i)
				if got, want := observe(c, m).Key(false), p.Key(false); got != want {
					c.Failf("packet %d of %d alive: was %.300s, reads %.300s", i, k, want, got)
				}
				if how == 1 && hash(ws[i]) != sums[i] {
					c.Failf("the encoding of packet %d of %d (%.200s) changed afterwards", i, k, p.Key(false))
				}
			}
			c.Bulk(k)
			c.Op(k)
			c.State(fmt.Sprint(tt, ver, how, richly, n))
			c.Sample(func() string { return fmt.Sprintf("%d packets %s v%d", k, ref.TypeNames[tt], ver) })
		}}
}

func hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

// ---- one call repeated until a counter of 8 or 16 bits is through ----

const againNote = "every single one of %s on %s, made 66000 times in a row on one packet; after 1, 2, 3, 255..257, 511..513, 1000, 4095..4097, 10000, 32767..32769, 65535..65537 and 66000 of them: %s"

var againAt = func() map[int]bool {
	at := map[int]bool{}
	for _, n := range []int{1, 2, 3, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 66000} {
		at[n] = true
	}
	return at
}()

func again(c *explore.Ctx, nops int, start func() (mqttp.IFace, *ref.Packet, string, []apiOp), after func(m mqttp.IFace, p *ref.Packet, hist string)) {
	if nops == 0 {
		c.Prune()
	}
	m, p, s, ops := start()
	op := ops[c.Pick(nops)]
	lists := len(p.Subs) + len(p.Codes)
	for i := 1; i <= 66000; i++ {
		err, refuse := op.do(c, m, p)
		if refuse != (err != nil) {
			c.Failf("%s; %s for the %dth time gives %s", s, op.name, i, errStr(err))
		}
		if againAt[i] {
			c.Beat()
			after(m, p, fmt.Sprintf("%s; %d times %s", s, i, op.name))
		}
		if i == 4097 && len(p.Subs)+len(p.Codes) > lists { // lists of every length have scenarios of their own
			break
		}
	}
	c.Bulk(66000)
	c.Op(66000)
	c.State(s + op.name + p.Key(true))
	c.Sample(func() string { return s + "; " + op.name })
}

func c18Again() *explore.Scenario {
	return &explore.Scenario{Name: "C18/again", Note: fmt.Sprintf(againNote, "the setter, encode and size calls", "new, generic and decoded packets of every type and version", "getters, and bytes"),
		Run: func(c *explore.Ctx) {
			tt, ver := typeVer(c, nil)
			kind := c.Pick(3)
			again(c, len(fieldOps(tt, ver)), func() (mqttp.IFace, *ref.Packet, string, []apiOp) {
				m, p, s := startPacket(c, tt, ver, kind)
				return m, p, s, fieldOps(tt, ver)
			}, func(m mqttp.IFace, p *ref.Packet, h string) {
				readsAs(c, m, p, h)
				emit(c, m, p, h)
				readsAs(c, m, p, h+"; Encode")
			})
		}}
}

func c12Again() *explore.Scenario {
	return &explore.Scenario{Name: "C12/again", Note: fmt.Sprintf(againNote, "the property operations", "new, generic, switched and decoded packets of all 13 types", "properties, and bytes"),
		Run: func(c *explore.Ctx) {
			tt := propPacketTypes[c.Pick(len(propPacketTypes))]
			kind := c.Pick(4)
			ops := propOps(tt)
			again(c, len(ops), func() (mqttp.IFace, *ref.Packet, string, []apiOp) {
				m, p, s := propCarrier(c, tt, kind)
				return m, p, s, ops
			}, func(m mqttp.IFace, p *ref.Packet, h string) {
				propState(c, m, p, h)
				emit(c, m, p, h)
			})
		}}
}

func c23Again(types []byte) *explore.Scenario {
	return &explore.Scenario{Name: "C23/again", Note: fmt.Sprintf(againNote, "the version switches, property operations and code setters", "packets of 14 types created in or decoded from each version", "getters, property access and bytes"),
		Run: func(c *explore.Ctx) {
			tt := types[c.Pick(len(types))]
			ver := ref.Versions[c.Pick(3)]
			kind := c.Pick(3)
			ops := versionOps(tt)
			again(c, len(ops), func() (mqttp.IFace, *ref.Packet, string, []apiOp) {
				m, p := versionStart(c, tt, ver, kind)
				return m, p, p.Key(true), ops
			}, func(m mqttp.IFace, p *ref.Packet, h string) {
				readsAs(c, m, p, h)
				versionGate(c, m, p, h)
				if tt == ref.UNSUBACK && p.Ver == ref.V5 && len(p.Codes) == 0 {
					return
				}
				emit(c, m, p, h)
				readsAs(c, m, p, h+"; Encode")
			})
		}}
}

func c04Again() *explore.Scenario {
	return &explore.Scenario{Name: "C04/again", Note: "packets of every type and version, built and decoded, with at most one property and with all of them: sized and encoded 66000 times in a row, into buffers that fit, are one too short or larger in turn: the same size and, where the order of properties is settled, the same bytes every time",
		Run: func(c *explore.Ctx) {
			tt, ver := typeVer(c, nil)
			p := rich(tt, ver)
			if c.Bool() {
				p = lean(p)
			}
			m := obtain(c, p, c.Bool())
			want := encodesTo(c, m, p)
			fixed := distinctProps(p.Props) < 2 && (p.Will == nil || distinctProps(p.Will.Props) < 2)
			buf := make([]byte, len(want)+9)
			for i := 1; i <= 66000; i++ {
				if sz, err := m.Size(); err != nil || sz != len(want) {
					c.Failf("%s, after %d encodings: Size is %d %s, it was %d", p.Key(true), i, sz, errStr(err), len(want))
				}
				room := len(want) + []int{0, 0, -1, 9}[i%4]
				n, err := m.Encode(buf[:room])
				if room < len(want) {
					if err == nil {
						c.Failf("%s, after %d encodings: encoded into a buffer one byte too short", p.Key(true), i)
					}
					continue
				}
				if err != nil || n != len(want) {
					c.Failf("%s, after %d encodings: Encode returns %d %s", p.Key(true), i, n, errStr(err))
				}
				if fixed {
					if !bytes.Equal(buf[:n], want) {
						c.Failf("%s, after %d encodings: encoded as %s", p.Key(true), i, hexs(buf[:n]))
					}
				} else if againAt[i] {
					means(c, buf[:n], p)
				}
				if i%4096 == 0 {
					c.Beat()
				}
			}
			c.Bulk(66000)
			c.Op(2 * 66000)
			c.State(p.Key(true))
			c.Sample(func() string { return p.Key(true) })
		}}
}

// ---- two judgements a counter's round apart ----

const wrapNote = "every ordered pair (a, b) of %s on %s: judged, then a made 254, 255 and 256 times (thorough: also 65534 to 65536 times on new packets) and b once, judged again: %s"

func wrap(c *explore.Ctx, deep bool, nops int, start func() (mqttp.IFace, *ref.Packet, string, []apiOp), judge func(m mqttp.IFace, p *ref.Packet, hist string)) {
	if nops == 0 {
		c.Prune()
	}
	a := c.Pick(nops)
	counts := []int{254, 255, 256}
	if deep {
		counts = append(counts, 65534, 65535, 65536)
	}
	total := 0
	samp := ""
	for b := 0; b < nops; b++ {
		for _, n := range counts {
			c.Beat()
			m, p, s, ops := start()
			if lists := len(p.Subs) + len(p.Codes); n > 1000 {
				if _, refuse := ops[a].do(c, m, p); refuse || len(p.Subs)+len(p.Codes) > lists {
					continue
				}
			}
			judge(m, p, s)
			call := func(op apiOp, i int) {
				if err, refuse := op.do(c, m, p); refuse != (err != nil) {
					c.Failf("%s; %d times %s; %s gives %s", s, i, ops[a].name, op.name, errStr(err))
				}
			}
			for i := 0; i < n; i++ {
				call(ops[a], i)
			}
			call(ops[b], n)
			total += n + 1
			samp = fmt.Sprintf("%s; %d times %s; %s", s, n, ops[a].name, ops[b].name)
			judge(m, p, samp)
			c.State(p.Key(true))
		}
	}
	c.Op(total)
	c.Bulk(total)
	c.Sample(func() string { return samp })
}

func c18Wrap(t Tier) *explore.Scenario {
	return &explore.Scenario{Name: "C18/wrap", Note: fmt.Sprintf(wrapNote, "setter, encode and size calls", "new, generic and decoded packets of every type and version", "getters, and bytes"),
		Run: func(c *explore.Ctx) {
			tt, ver := typeVer(c, nil)
			kind := c.Pick(3)
			wrap(c, kind == 0 && t.pick(0, 1) > 0, len(fieldOps(tt, ver)), func() (mqttp.IFace, *ref.Packet, string, []apiOp) {
				m, p, s := startPacket(c, tt, ver, kind)
				return m, p, s, fieldOps(tt, ver)
			}, func(m mqttp.IFace, p *ref.Packet, h string) {
				readsAs(c, m, p, h)
				emit(c, m, p, h)
			})
		}}
}

func c12Wrap(t Tier) *explore.Scenario {
	return &explore.Scenario{Name: "C12/wrap", Note: fmt.Sprintf(wrapNote, "property operations", "new, generic, switched and decoded packets of all 13 types", "properties, and bytes"),
		Run: func(c *explore.Ctx) {
			tt := propPacketTypes[c.Pick(len(propPacketTypes))]
			kind := c.Pick(4)
			ops := propOps(tt)
			wrap(c, kind == 0 && t.pick(0, 1) > 0, len(ops), func() (mqttp.IFace, *ref.Packet, string, []apiOp) {
				m, p, s := propCarrier(c, tt, kind)
				return m, p, s, ops
			}, func(m mqttp.IFace, p *ref.Packet, h string) {
				propState(c, m, p, h)
				emit(c, m, p, h)
			})
		}}
}

func c23Wrap(t Tier, types []byte) *explore.Scenario {
	return &explore.Scenario{Name: "C23/wrap", Note: fmt.Sprintf(wrapNote, "version switches, property operations and code setters", "packets of 14 types created in or decoded from each version", "getters, property access and bytes"),
		Run: func(c *explore.Ctx) {
			tt := types[c.Pick(len(types))]
			ver := ref.Versions[c.Pick(3)]
			kind := c.Pick(3)
			ops := versionOps(tt)
			wrap(c, kind == 0 && t.pick(0, 1) > 0, len(ops), func() (mqttp.IFace, *ref.Packet, string, []apiOp) {
				m, p := versionStart(c, tt, ver, kind)
				return m, p, p.Key(true), ops
			}, func(m mqttp.IFace, p *ref.Packet, h string) {
				readsAs(c, m, p, h)
				versionGate(c, m, p, h)
				if tt == ref.UNSUBACK && p.Ver == ref.V5 && len(p.Codes) == 0 {
					return
				}
				emit(c, m, p, h)
			})
		}}
}
