package scen

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/VolantMQ/vlapi/mqttp"

	"verifmc/explore"
	"verifmc/obs"
	"verifmc/ref"
	"verifmc/vsched"
)

// Bounds on the cost of handling n bytes: statements of the library executed (counted by the
// instrumented build) and bytes allocated. They are an order of magnitude above what the library needs
// and far below what any announced length or a quadratic step would need.
const (
	costSteps, costStepsPerByte = 3000, 200
	costMem, costMemPerByte     = 24 << 10, 400
)

// spent runs f and returns the statements executed and the bytes allocated, the least of up to three runs
// after a first one (in which pools and lazily built tables fill); enough is a cost that needs no repetition.
func spent(f func(), enough uint64) (steps, mem uint64) {
	gc := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(gc)
	vsched.Count = 0
	f()
	if vsched.Limit != 0 && vsched.Count > vsched.Limit {
		return vsched.Count, 0
	}
	for i := 0; i < 3; i++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		vsched.Count = 0
		f()
		s := vsched.Count
		runtime.ReadMemStats(&b)
		m := b.TotalAlloc - a.TotalAlloc
		if i == 0 || s < steps {
			steps = s
		}
		if i == 0 || m < mem {
			mem = m
		}
		if mem <= enough {
			break
		}
		if m > 64<<20 {
			debug.FreeOSMemory()
		}
	}
	return
}

var costProbe = os.Getenv("VERIF_COST") != ""

// within checks one activity on n bytes against the bounds.
func within(c *explore.Ctx, what func() string, n int, f func()) {
	vsched.Limit = uint64(costSteps + costStepsPerByte*n)
	defer func() { vsched.Limit = 0 }()
	steps, mem := uint64(0), uint64(0)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if vsched.Count <= vsched.Limit {
					panic(r)
				}
				steps = vsched.Count
			}
		}()
		steps, mem = spent(f, uint64(costMem+costMemPerByte*n))
	}()
	c.Op(1)
	if costProbe && n > 0 {
		fmt.Fprintf(os.Stderr, "COST %d %.2f %.2f %d %d %s\n", n, float64(steps)/float64(n), float64(mem)/float64(n), steps, mem, what())
	}
	if steps > vsched.Limit {
		c.Failf("%s: more than %d statements for %d bytes", what(), vsched.Limit, n)
	}
	if max := uint64(costMem + costMemPerByte*n); mem > max {
		c.Failf("%s: %d bytes allocated for %d bytes", what(), mem, n)
	}
}

// frugal checks decoding in, and everything done with the packet when it is accepted.
func frugal(c *explore.Ctx, ver byte, in []byte, name string) {
	what := func(op string) func() string {
		return func() string { return fmt.Sprintf("%s %s v%d %s", op, name, ver, hexs(in)) }
	}
	v := mqttp.ProtocolVersion(ver)
	var m mqttp.IFace
	within(c, what("decoding"), len(in), func() { m, _, _ = mqttp.Decode(v, in) })
	if isNil(m) {
		return
	}
	buf := make([]byte, len(in)+64)
	within(c, what("sizing"), len(in), func() { _, _ = m.Size() })
	within(c, what("encoding"), len(in), func() { _, _ = m.Encode(buf) })
	within(c, what("iterating"), len(in), func() {
		_ = m.PropertyForEach(func(id mqttp.PropertyID, t mqttp.PropertyToType) {
			_, _ = t.AsStringPairs()
			_, _ = t.AsInts()
			_, _ = t.AsString()
		})
		switch x := m.(type) {
		case *mqttp.Subscribe:
			_ = x.ForEachTopic(func(t *mqttp.Topic) error { _ = t.Filter(); return nil })
		case *mqttp.UnSubscribe:
			_ = x.ForEachTopic(func(t *mqttp.Topic) error { _ = t.Filter(); return nil })
		}
	})
	if p, ok := m.(*mqttp.Publish); ok {
		within(c, what("cloning"), len(in), func() { _, _ = p.Clone(v) })
	}
}

// growth is one way packets get long: at makes the packet with about n bytes.
type growth struct {
	name string
	at   func(n int) *ref.Packet
}

func growths() (out []growth) {
	add := func(name string, at func(n int) *ref.Packet) { out = append(out, growth{name, at}) }
	rep := func(s string, n int) string { return strings.Repeat(s, n/len(s)+1)[:n] }
	short := func(n, max int) int {
		if n > max {
			return max
		}
		return n
	}
	for _, ver := range ref.Versions {
		ver := ver
		for _, kind := range []struct {
			name string
			mk   func(i int) string
		}{
			{"same filter", func(i int) string { return "a" }},
			{"two filters in turn", func(i int) string { return string(rune('a' + i%2)) }},
			{"distinct filters", func(i int) string { return fmt.Sprintf("%x", i) }},
			{"shared filters", func(i int) string { return fmt.Sprintf("$share/g/%x/+", i) }},
		} {
			mk := kind.mk
			for _, t := range []byte{ref.SUBSCRIBE, ref.UNSUBSCRIBE} {
				t := t
				add(fmt.Sprintf("%s: %s", ref.TypeNames[t], kind.name), func(n int) *ref.Packet {
					p := &ref.Packet{Type: t, Ver: ver, HasID: true, ID: 1}
					for l, i := 0, 0; l < n; i++ {
						s := mk(i)
						p.Subs = append(p.Subs, ref.Sub{Filter: s, Opt: byte(i % 2 * b2i(t == ref.SUBSCRIBE))})
						l += len(s) + 3
					}
					return p
				})
			}
		}
		for _, unit := range []string{"a", "/", "a/", "+/", "é", "$x/", "$share/g/"} {
			unit := unit
			add(fmt.Sprintf("one filter %q...", unit), func(n int) *ref.Packet {
				return &ref.Packet{Type: ref.SUBSCRIBE, Ver: ver, HasID: true, ID: 1, Subs: []ref.Sub{{Filter: rep(unit, short(n, 65535)) + ""}}}
			})
			add(fmt.Sprintf("topic %q...", unit), func(n int) *ref.Packet {
				return &ref.Packet{Type: ref.PUBLISH, Ver: ver, Topic: rep(unit, short(n, 65535)), Payload: "p"}
			})
		}
		for _, unit := range []string{"a", "\x00", "\xff"} {
			unit := unit
			add(fmt.Sprintf("payload %q...", unit), func(n int) *ref.Packet {
				return &ref.Packet{Type: ref.PUBLISH, Ver: ver, Topic: "t", Payload: rep(unit, n)}
			})
		}
		add("CONNECT, every field long", func(n int) *ref.Packet {
			s := rep("a", short(n/5, 65535))
			p := plain(ref.CONNECT, ver)
			p.ClientID, p.HasUser, p.User, p.HasPass, p.Pass = s, true, s, true, s
			p.Will = &ref.Will{Topic: s, Payload: s}
			return p
		})
		add("SUBACK codes", func(n int) *ref.Packet {
			return &ref.Packet{Type: ref.SUBACK, Ver: ver, HasID: true, ID: 1, Codes: make([]byte, n)}
		})
		add("UNSUBACK codes", func(n int) *ref.Packet {
			return &ref.Packet{Type: ref.UNSUBACK, Ver: ver, HasID: true, ID: 1, Codes: make([]byte, n*b2i(ver == ref.V5))}
		})
	}
	carriers := append([]byte{ref.WillType}, ref.Prop(0x26).Types...)
	for _, t := range carriers {
		t := t
		for _, kind := range []struct {
			name string
			mk   func(i int) ref.PropVal
		}{
			{"empty user properties", func(i int) ref.PropVal { return ref.PropVal{ID: 0x26} }},
			{"same user property", func(i int) ref.PropVal { return ref.PropVal{ID: 0x26, K: "k", S: "v"} }},
			{"distinct user properties", func(i int) ref.PropVal { return ref.PropVal{ID: 0x26, K: fmt.Sprintf("%x", i), S: "v"} }},
		} {
			mk := kind.mk
			add(fmt.Sprintf("%s on type %d", kind.name, t), func(n int) *ref.Packet {
				var ps []ref.PropVal
				for l, i := 0, 0; l < n; i++ {
					x := mk(i)
					ps = append(ps, x)
					l += 5 + len(x.K) + len(x.S)
				}
				return subsetPacket(t, ps)
			})
		}
	}
	add("subscription identifiers", func(n int) *ref.Packet {
		p := plain(ref.PUBLISH, ref.V5)
		for i := 0; i*2 < n; i++ {
			p.Props = append(p.Props, ref.PropVal{ID: 0x0B, U: uint32(1 + i%100)})
		}
		return p
	})
	for _, d := range ref.PropDefs {
		d := d
		if d.Kind != ref.KString && d.Kind != ref.KBinary {
			continue
		}
		add(fmt.Sprintf("long value of property %#x", d.ID), func(n int) *ref.Packet {
			return subsetPacket(d.Types[0], []ref.PropVal{{ID: d.ID, S: rep("a", short(n, 65535))}})
		})
	}
	return
}

// announcements are byte strings which announce much more than they bring.
func announcements(visit func(ver byte, in []byte, name string)) {
	lens := [][]byte{{0x7f}, {0x80, 0x01}, {0xff, 0x7f}, {0xff, 0xff, 0x7f}, {0x80, 0x80, 0x80, 0x01}, {0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff, 0x0f}}
	pres := []string{"", "\x00", "\x00\x01", "\xff\xff", "\x00\x01a", "\x00\x04MQTT\x05\x00\x00\x00", "\x00\x04MQTT\x04\x02\x00\x00\xff\xff", "\x00\x01\x00", "\x00\x01\xff\xff"}
	for _, ver := range ref.Versions {
		for t := 0; t < 16; t++ {
			first := []byte{byte(t)<<4 | ref.FixedFlags(byte(t))}
			if t == int(ref.PUBLISH) {
				first = []byte{0x30, 0x32, 0x3d}
			}
			for _, f := range first {
				for _, l := range lens {
					for _, p := range pres {
						visit(ver, append(append([]byte{f}, l...), p...), "announcing a long body")
						// the body is complete, something in it announces more
						for _, l2 := range append(lens, []byte{0xff, 0xff}, []byte{0x00, 0xff, 0xff}) {
							body := append([]byte(p), l2...)
							visit(ver, append([]byte{f, byte(len(body))}, body...), "announcing a long field")
							for _, d := range []byte{0x26, 0x09, 0x08, 0x0b} {
								b2 := append(append([]byte(nil), body...), d, 0xff, 0xff, 'x')
								visit(ver, append([]byte{f, byte(len(b2))}, b2...), "announcing a long property")
							}
						}
					}
				}
			}
		}
	}
}

func scenC28(t Tier) []*explore.Scenario {
	gs := growths()
	max := t.pick(1<<18, 1<<22)
	var sizes []int
	for n := 16; n <= max; n *= 2 {
		sizes = append(sizes, n)
	}
	// what happens to the packet's bytes
	ends := []string{"as is", "cut short", "last byte changed", "announced longer", "first byte of the body changed"}
	return []*explore.Scenario{
		{Name: "C28/growth", Build: "sched", Serial: true, Note: fmt.Sprintf("%d ways a packet of any type and version gets long (filters equal, alternating, distinct, shared; one filter or topic of n characters of seven kinds; payload; every CONNECT field; return codes; equal, empty and distinct user properties on every carrier; subscription identifiers; every string and binary property) x sizes 16..%d x intact, cut, last or first byte changed, announced longer: statements executed and bytes allocated by decoding, sizing, encoding, iterating and cloning are at most %d+%d*n and %d+%d*n", len(gs), max, costSteps, costStepsPerByte, costMem, costMemPerByte),
			Run: func(c *explore.Ctx) {
				g := gs[c.Pick(len(gs))]
				n := sizes[c.Pick(len(sizes))]
				end := c.Pick(len(ends))
				p := g.at(n)
				in := p.Encode(true)
				switch end {
				case 1:
					in = in[:len(in)-1]
				case 2:
					in[len(in)-1] ^= 0xff
				case 3:
					h := len(in) - bodyLen(in)
					in = append(append([]byte{in[0]}, 0xff, 0xff, 0xff, 0x7f), in[h:]...)
				case 4:
					in[len(in)-bodyLen(in)] ^= 0xff
				}
				name := fmt.Sprintf("%s, n=%d, %s", g.name, n, ends[end])
				frugal(c, p.Ver, in, name)
				c.State(name)
				c.Sample(func() string { return name })
			}},
		{Name: "C28/announced", Build: "sched", Serial: true, Note: "every type and version x eight remaining lengths up to the protocol maximum and beyond on bodies of a few bytes, and bodies of a few bytes in which a property section, a string, a topic or a property announces up to 256 MB: same bounds",
			Run: func(c *explore.Ctx) {
				part, i := c.Pick(64), 0
				announcements(func(ver byte, in []byte, name string) {
					if i++; i%64 == part {
						frugal(c, ver, in, name)
						c.State(hexs(in))
						c.Bulk(1)
						c.Beat()
					}
				})
			}},
		{Name: "C28/building", Build: "sched", Serial: true, Note: "packets of up to n topics, return codes or property settings assembled one call at a time, n up to the sizes above: the calls together stay within the bounds",
			Run: func(c *explore.Ctx) {
				n := sizes[c.Pick(len(sizes))]
				ver := ref.Versions[c.Pick(3)]
				k := c.Pick(6)
				names := []string{"AddTopic on SUBSCRIBE", "AddTopic on UNSUBSCRIBE", "AddReturnCode on SUBACK", "AddReturnCode on UNSUBACK", "setting one property again and again", "sizing and encoding again and again"}
				if k == 4 && ver != ref.V5 {
					c.Prune()
				}
				what := func() string { return fmt.Sprintf("%s v%d, %d times", names[k], ver, n) }
				v := mqttp.ProtocolVersion(ver)
				top, _ := mqttp.NewTopic([]byte("a"))
				buf := make([]byte, 64)
				within(c, what, 4*n, func() {
					switch k {
					case 0:
						m := mqttp.NewSubscribe(v)
						for i := 0; i < n; i++ {
							_ = m.AddTopic(top)
						}
					case 1:
						m := mqttp.NewUnSubscribe(v)
						for i := 0; i < n; i++ {
							_ = m.AddTopic(top)
						}
					case 2:
						m := mqttp.NewSubAck(v)
						for i := 0; i < n; i++ {
							_ = m.AddReturnCode(0)
						}
					case 3:
						m := mqttp.NewUnSubAck(v)
						for i := 0; i < n; i++ {
							_ = m.AddReturnCode(0)
						}
					case 4:
						m := mqttp.NewPublish(v)
						for i := 0; i < n; i++ {
							_ = m.PropertySet(mqttp.PropertyUserProperty, mqttp.StringPair{K: "k", V: "v"})
						}
					case 5:
						m := mqttp.NewPublish(v)
						_ = m.SetTopic("t")
						for i := 0; i < n; i++ {
							_, _ = m.Size()
							_, _ = m.Encode(buf)
						}
					}
				})
				c.State(what())
			}},
		{Name: "C28/memory", Note: "the announcements above and every growth at two sizes in the plain build, bytes allocated only (one execution, so that nothing else allocates)",
			Run: func(c *explore.Ctx) {
				i := 0
				announcements(func(ver byte, in []byte, name string) {
					if i++; i%t.pick(7, 1) == 0 {
						frugal(c, ver, in, name)
						c.Bulk(1)
						c.Beat()
					}
				})
				for _, g := range gs {
					for _, n := range []int{64, 4096} {
						p := g.at(n)
						frugal(c, p.Ver, p.Encode(true), g.name)
						c.State(fmt.Sprint(g.name, n))
						c.Bulk(1)
						c.Beat()
					}
				}
			}},
	}
}

// bodyLen is the remaining length announced by a well-formed packet.
func bodyLen(in []byte) int {
	n, s := 0, uint(0)
	for _, b := range in[1:] {
		n |= int(b&0x7f) << s
		if s += 7; b < 0x80 {
			break
		}
	}
	return n
}

var _ = obs.New
