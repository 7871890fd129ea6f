package scen

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	"github.com/VolantMQ/vlapi/mqttp"

	"verifmc/explore"
	"verifmc/obs"
	"verifmc/ref"
)

// job is something done with one packet; it yields the packet, if any, after judging the outcome
// against the reference.
type job struct {
	name string
	do   func(c *explore.Ctx, w *world) *held
}

// held is a packet obtained earlier with what it looked like then.
type held struct {
	name string
	m    mqttp.IFace
	want *ref.Packet // content, presence-insensitive
	key  string
	// handed out: live slices and values, with the copies taken when they were handed out
	live []func() string
	then []string
	// buffer decoding read from, when it is reused afterwards
	reused bool
	bytes  []byte // encoding handed out
	bthen  string
}

type world struct {
	rx    []byte // shared receive buffer, nil: a fresh one per decode
	items []*held
}

// contentKey is what the packet must go on reading as. When its receive buffer is reused, fields that
// are documented to refer to it are left out.
func contentKey(c *explore.Ctx, m mqttp.IFace, reused bool) string {
	p := observe2(m)
	if reused {
		switch p.Type {
		case ref.CONNECT:
			p.ClientID, p.User, p.Pass = "", "", ""
		case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
			for i := range p.Subs {
				p.Subs[i].Filter = ""
			}
		}
	}
	return p.Key(false)
}

// observe2 reads getters, contradictions included.
func observe2(m mqttp.IFace) *ref.Packet {
	p, _ := obs.Packet(m)
	return p
}

func hold(c *explore.Ctx, name string, m mqttp.IFace, reused bool) *held {
	h := &held{name: name, m: m, reused: reused}
	h.key = contentKey(c, m, reused)
	add := func(f func() string) {
		h.live = append(h.live, f)
		h.then = append(h.then, f())
	}
	handOut := func(x mqttp.IFace) {
		if byte(x.Version()) != ref.V5 {
			return
		}
		_ = x.PropertyForEach(func(id mqttp.PropertyID, v mqttp.PropertyToType) {
			b, _ := v.AsBinary()
			s, _ := v.AsString()
			ps, _ := v.AsStringPairs()
			add(func() string {
				vs, complaint := obs.PropValues(uint32(id), v)
				return fmt.Sprint(id, vs, complaint, string(b), s, ps)
			})
		})
	}
	handOut(m)
	switch x := m.(type) {
	case *mqttp.Publish:
		pl, t := x.Payload(), x.Topic()
		add(func() string { return string(pl) + "|" + t })
	case *mqttp.Connect:
		if w := x.Will(); w != nil {
			pl, t := w.Payload(), w.Topic()
			add(func() string { return string(pl) + "|" + t })
			if byte(w.Version()) == ref.V5 {
				handOut(w)
			}
		}
	}
	return h
}

// intact verifies a packet obtained earlier.
func (h *held) intact(c *explore.Ctx, after string, content bool) {
	if content {
		if k := contentKey(c, h.m, h.reused); k != h.key {
			c.Failf("%s: the packet from [%s] now reads %s, it read %s", after, h.name, k, h.key)
		}
	}
	for i, f := range h.live {
		if s := f(); s != h.then[i] {
			c.Failf("%s: a value handed out by the packet from [%s] was %q and is now %q", after, h.name, h.then[i], s)
		}
	}
	if string(h.bytes) != h.bthen {
		c.Failf("%s: the bytes of the packet from [%s] changed", after, h.name)
	}
}

// decodeJob decodes in and judges the outcome.
func decodeJob(ver byte, in []byte, what string) job {
	name := fmt.Sprintf("decode v%d %s %s", ver, what, hexs(in))
	res := ref.Decode(ver, in)
	return job{name, func(c *explore.Ctx, w *world) *held {
		var buf []byte
		if w.rx != nil {
			copy(w.rx, in)
			for i := len(in); i < len(w.rx); i++ {
				w.rx[i] = 0x55
			}
			buf = w.rx[:len(in):len(in)]
		} else {
			buf = append([]byte(nil), in...)
		}
		c.Op(1)
		m, n, err := mqttp.Decode(mqttp.ProtocolVersion(ver), buf)
		if c.Verbose() {
			c.Logf("%s -> n=%d err=%s; reference %s %s", name, n, errStr(err), res.V, res.Why)
		}
		if err == nil && res.V == ref.Reject || err != nil && res.V == ref.Accept {
			c.Failf("decode v%d of %s gives %s; the reference says %s %s", ver, hexs(in), errStr(err), res.V, res.Why)
		}
		if err != nil {
			return nil
		}
		if res.P != nil {
			same(c, "decode v%d of %s", observe(c, m), res.P, ver, in)
		}
		return hold(c, name, m, w.rx != nil)
	}}
}

// buildJob assembles p through the API, encodes it and keeps packet and bytes.
func buildJob(p *ref.Packet, o obs.BuildOpt) job {
	name := "build " + p.Key(true)
	return job{name, func(c *explore.Ctx, w *world) *held {
		m := build(c, p, o)
		out := encodesTo(c, m, p)
		c.Logf("%s", name)
		h := hold(c, name, m, false)
		h.bytes, h.bthen = out, string(out)
		return h
	}}
}

// changeJob alters an earlier packet in every way its type offers; its own content is retaken, but
// what it handed out must stay.
func changeJob(back int) job {
	name := fmt.Sprintf("modify the packet obtained %d step(s) before", back)
	return job{name, func(c *explore.Ctx, w *world) *held {
		if len(w.items) < back {
			c.Prune()
		}
		h := w.items[len(w.items)-back]
		if h == nil {
			c.Prune()
		}
		alter(h.m)
		h.key = contentKey(c, h.m, h.reused)
		c.Op(1)
		return nil
	}}
}

// cloneJob copies an earlier message.
func cloneJob(ver byte) job {
	name := fmt.Sprintf("clone the last message obtained to v%d", ver)
	return job{name, func(c *explore.Ctx, w *world) *held {
		for i := len(w.items) - 1; i >= 0; i-- {
			if w.items[i] == nil {
				continue
			}
			if src, ok := w.items[i].m.(*mqttp.Publish); ok && src.Topic() != "" {
				k := mustClone(c, src, ver, w.items[i].name)
				c.Op(1)
				return hold(c, name, k, false)
			}
		}
		c.Prune()
		return nil
	}}
}

// alter changes what can be changed.
func alter(m mqttp.IFace) {
	tt := byte(m.Type())
	if s, ok := m.(interface{ SetPacketID(mqttp.IDType) }); ok {
		s.SetPacketID(0x7777)
	}
	if byte(m.Version()) == ref.V5 {
		for _, d := range ref.PropsOf(tt) {
			v := []ref.PropVal{sampleProp(d, 3)}
			_ = m.PropertySet(mqttp.PropertyID(d.ID), obs.PropArg(v, false))
		}
	}
	switch x := m.(type) {
	case *mqttp.Publish:
		x.SetPayload([]byte("altered"))
		_ = x.SetTopic("altered")
		_ = x.SetQoS(mqttp.QoS1)
		x.SetRetain(!x.Retain())
	case *mqttp.Connect:
		w := mqttp.NewPublish(x.Version())
		_ = w.Set("altered", []byte("altered"), 1, true, false)
		_ = x.SetWill(w)
		_ = x.SetClientID([]byte("altered"))
		_ = x.SetCredentials([]byte("altered"), []byte("altered"))
		x.SetKeepAlive(9999)
		x.SetClean(!x.IsClean())
	case *mqttp.ConnAck:
		x.SetSessionPresent(!x.SessionPresent())
		_ = x.SetReturnCode(0)
	case *mqttp.Ack:
		if x.SetReason(0x80); tt == ref.PUBREL || tt == ref.PUBCOMP {
			x.SetReason(0x92)
		}
	case *mqttp.Disconnect:
		x.SetReasonCode(0x80)
	case *mqttp.Auth:
		_ = x.SetReasonCode(0x19)
	case interface{ AddTopic(*mqttp.Topic) error }:
		t, _ := mqttp.NewTopic([]byte("altered/#"))
		_ = x.AddTopic(t)
	case interface{ AddReturnCode(mqttp.ReasonCode) error }:
		_ = x.AddReturnCode(0)
	}
	if n, err := m.Size(); err == nil {
		_, _ = m.Encode(make([]byte, n))
	}
	if byte(m.Version()) == ref.V5 && m.PropertyGet(0x26) != nil {
		m.PropertiesDiscard()
	}
}

// broken makes refused variants of a packet: bytes cut off its body, a property repeated, an illegal
// last byte.
func broken(in []byte) [][]byte {
	var out [][]byte
	body := in[2:]
	if in[1] >= 0x80 {
		body = in[3:]
	}
	for _, cut := range []int{1, len(body) / 3} {
		if cut > 0 && cut < len(body) {
			out = append(out, ref.Frame(in[0], body[:len(body)-cut]))
		}
	}
	if len(body) > 3 {
		b := append([]byte(nil), body...)
		b[len(b)-2] ^= 0xFF
		out = append(out, ref.Frame(in[0], b))
	}
	return out
}

// jobs are the alphabet; small keeps one per type and version plus broken ones.
var jobAlphabets = map[int][]job{}
var jobMu sync.Mutex

func jobs(level int) []job {
	jobMu.Lock()
	defer jobMu.Unlock()
	if js, ok := jobAlphabets[level]; ok {
		return js
	}
	var js []job
	for tt := byte(1); tt <= 15; tt++ {
		for _, ver := range ref.Versions {
			if tt == ref.AUTH && ver != ref.V5 || level == 0 && ver == ref.V31 || level == 0 && ver == ref.V311 && (tt > ref.PUBLISH && tt != ref.SUBSCRIBE) {
				continue
			}
			r, p := rich(tt, ver), plain(tt, ver)
			in := r.Encode(true)
			js = append(js, decodeJob(ver, in, "rich"))
			if tt != ref.PINGREQ && tt != ref.PINGRESP {
				js = append(js, decodeJob(ver, p.Encode(true), "plain"))
				for i, b := range broken(in) {
					if level > 0 || i == 1 {
						js = append(js, decodeJob(ver, b, "broken"))
					}
				}
			}
			if level > 0 || ver == ref.V5 {
				js = append(js, buildJob(r, obs.BuildOpt{}))
				if level > 0 {
					js = append(js, buildJob(p, obs.BuildOpt{Generic: true, MultiProps: true}))
				}
			}
		}
	}
	// contents of equal and different length, so that shared storage shows
	for i, s := range []string{"AAAA", "BBBB", "C", strings.Repeat("D", 300)} {
		p := &ref.Packet{Type: ref.PUBLISH, Ver: ref.V5, Topic: "topic/" + s, Payload: "payload" + s, QoS: byte(i % 3), HasID: i%3 > 0, ID: uint16(i),
			Props: []ref.PropVal{{ID: 0x03, S: "ct" + s}, {ID: 0x08, S: "rt" + s}, {ID: 0x09, S: "cd" + s}, {ID: 0x0B, U: uint32(i + 1)}, {ID: 0x0B, U: uint32(i + 2)}, {ID: 0x26, K: "k" + s, S: "v" + s}, {ID: 0x26, K: "l" + s, S: s}}}
		js = append(js, decodeJob(ref.V5, p.Encode(true), "sized"))
		k := &ref.Packet{Type: ref.CONNECT, Ver: ref.V5, ClientID: "id" + s[:1], Clean: true, HasUser: true, User: "u" + s, HasPass: true, Pass: "p" + s,
			Will: &ref.Will{Topic: "w" + s, Payload: "m" + s, QoS: byte(i % 3), Props: []ref.PropVal{{ID: 0x09, S: "cd" + s}, {ID: 0x26, K: "k" + s, S: s}}}}
		js = append(js, decodeJob(ref.V5, k.Encode(true), "sized"))
		if level > 0 {
			js = append(js, buildJob(p, obs.BuildOpt{}), buildJob(k, obs.BuildOpt{}))
		}
	}
	js = append(js, changeJob(1), cloneJob(ref.V5), cloneJob(ref.V311))
	jobAlphabets[level] = js
	return js
}

func runJobs(c *explore.Ctx, js []job, depth int, shared bool) {
	w := &world{}
	if shared {
		w.rx = make([]byte, 4096)
	}
	var names []string
	for s := 0; s < depth; s++ {
		j := js[c.Pick(len(js))]
		if c.Verbose() {
			names = append(names, j.name)
		}
		h := j.do(c, w)
		for _, x := range w.items {
			if x != nil {
				x.intact(c, fmt.Sprintf("step %d [%s]", s+1, j.name), true)
			}
		}
		w.items = append(w.items, h)
		c.State(fmt.Sprint(s, j.name))
	}
	// every packet that is still around encodes to its own content
	for _, x := range w.items {
		if x == nil {
			continue
		}
		p := observe2(x.m)
		ok, open := emittable(p)
		if x.reused && (p.Type == ref.CONNECT || p.Type == ref.SUBSCRIBE || p.Type == ref.UNSUBSCRIBE) || open || !ok {
			continue
		}
		out, err := encode(c, x.m)
		if err != nil {
			c.Failf("the packet from [%s] no longer encodes: %s", x.name, errStr(err))
		}
		if d := ref.Decode(byte(x.m.Version()), out); d.P == nil {
			c.Failf("the packet from [%s] encodes to %s, which is malformed: %s", x.name, hexs(out), d.Why)
		} else if w := wireForm(p); p.Type != ref.CONNECT && p.Type != ref.UNSUBACK {
			if p.Type == ref.PUBLISH && p.QoS == 0 {
				w.HasID, w.ID = false, 0
			}
			if d.P.Key(false) != w.Key(false) {
				c.Failf("the packet from [%s] encodes to %s, it reads %s", x.name, d.P.Key(false), w.Key(false))
			}
		}
	}
	if shared { // the receive buffer is overwritten once more
		for i := range w.rx {
			w.rx[i] = 0xEE
		}
		for _, x := range w.items {
			if x != nil {
				x.intact(c, "overwriting the receive buffer", true)
			}
		}
	}
	c.Sample(func() string { return strings.Join(names, "; ") })
}

func scenC24(t Tier) []*explore.Scenario {
	full, small := jobs(1), jobs(0)
	mk := func(name string, js []job, depth int, shared bool) *explore.Scenario {
		buf := "a fresh buffer each"
		if shared {
			buf = "one receive buffer that is reused and finally overwritten"
		}
		return &explore.Scenario{Name: name, Note: fmt.Sprintf("all sequences of %d of %d actions (decode rich, plain and refused packets of all types and versions; build and encode; modify or clone an earlier packet), decoding from %s; every outcome is judged against the reference, every earlier packet and every value it handed out is compared with its snapshot after every step", depth, len(js), buf),
			Run: func(c *explore.Ctx) { runJobs(c, js, depth, shared) }}
	}
	out := []*explore.Scenario{
		mk("C24/pairs", full, 2, false),
		mk("C24/pairs-shared", full, 2, true),
		mk("C24/triples", small, 3, false),
		mk("C24/triples-shared", small, 3, true),
	}
	out = append(out, &explore.Scenario{Name: "C24/twins", Note: "two packets that differ in one byte (every position, or one more or less, or two neighbours swapped) of one string or binary field (18 fields, 19 lengths up to 300), decoded in turn from fresh or one reused buffer, or built and encoded in turn: each reports its own value",
		Run: func(c *explore.Ctx) {
			mk := twinFields[c.Pick(len(twinFields))]
			ver := []byte{ref.V311, ref.V5}[c.Pick(2)]
			l := []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 64, 100, 255, 256, 300}[c.Pick(19)]
			how := c.Pick(3)
			a := strings.Repeat(fill[:62], 6)[:l]
			pa := mk(ver, a)
			if pa == nil {
				c.Prune()
			}
			wa := pa.Encode(true)
			var rx []byte
			if how == 1 {
				rx = make([]byte, 1024)
			}
			n := 0
			turn := func(p *ref.Packet, w []byte) mqttp.IFace {
				n++
				if how == 2 {
					m := build(c, p, obs.BuildOpt{})
					encodesTo(c, m, p)
					return m
				}
				m, k, err := decodeIn(c, ver, w, rx)
				if err != nil || k != len(w) {
					c.Failf("decode v%d of %s refused: %s", ver, hexs(w), errStr(err))
				}
				if got := observe(c, m); got.Key(false) != p.Key(false) {
					c.Failf("decode v%d of %s: reports %s, on the wire is %s (a twin was decoded before)", ver, hexs(w), got.Key(false), p.Key(false))
				}
				return m
			}
			for i := -2; i < 2*l-1; i++ {
				x := []byte(a)
				switch {
				case i >= l:
					x[i-l], x[i-l+1] = x[i-l+1], x[i-l]
				case i == -2:
					x = x[:l-1]
				case i == -1:
					x = append(x, 'Z')
				default:
					x[i] = 'Z'
				}
				pb := mk(ver, string(x))
				if pb == nil || len(x) == 0 {
					continue
				}
				ma := turn(pa, wa)
				mb := turn(pb, pb.Encode(true))
				if how != 1 { // fields may lie in the reused buffer
					if g := observe(c, ma).Key(false); g != pa.Key(false) {
						c.Failf("%s reads as %s after its twin was handled", pa.Key(false), g)
					}
				}
				_ = mb
				turn(pa, wa)
			}
			c.Bulk(n)
			c.Sample(func() string { return pa.Key(true) })
		}})
	out = append(out, c24Variants(t), c24Texts(t), withinProps("C24/within", t.pick(3, 4), apart), withinTopics("C24/within-filters", apart), c24Repeated(), c24Collected(t, false), c24Collected(t, true), c24Novel(t), c24Alive(t))
	rdepth := t.pick(2, 3)
	out = append(out, &explore.Scenario{Name: "C24/received", Note: fmt.Sprintf("two packets decoded from one buffer, every type and version, rich and plain, every sequence of %d setter, encode and version calls on the first: the buffer keeps its bytes, the second packet its content and encoding", rdepth),
		Run: func(c *explore.Ctx) {
			tt, ver := typeVer(c, nil)
			p := rich(tt, ver)
			if c.Pick(2) == 1 {
				p = plain(tt, ver)
			}
			in := p.Encode(true)
			was := append([]byte(nil), in...)
			get := func() mqttp.IFace {
				m, _, err := mqttp.Decode(mqttp.ProtocolVersion(ver), in) // no copy, the buffer stays in use
				c.Op(1)
				if err != nil {
					c.Failf("decode v%d of %s refused: %s", ver, hexs(in), errStr(err))
				}
				return m
			}
			a, b := get(), get()
			ops := fieldOps(tt, ver)
			h := ""
			q := *p
			for i := 0; i < rdepth; i++ {
				k := c.Pick(len(ops) + 4)
				switch {
				case k < len(ops):
					h += ops[k].name + "; "
					_, _ = ops[k].do(c, a, &q)
				case k == len(ops):
					h += "encode; "
					_, _ = mqttp.Encode(a)
				default:
					v := ref.Versions[k-len(ops)-1]
					h += fmt.Sprintf("SetVersion(%d); ", v)
					a.SetVersion(mqttp.ProtocolVersion(v))
					ops = nil // their model is that of the version
				}
				c.Op(1)
			}
			if !bytes.Equal(in, was) {
				c.Failf("packet decoded v%d from %s, then %s: the buffer now holds %s", ver, hexs(was), h, hexs(in))
			}
			if g := observe(c, b); g.Key(false) != p.Key(false) {
				c.Failf("two packets decoded v%d from %s, on the first %s: the second now reads %s", ver, hexs(was), h, g.Key(false))
			}
			encodesTo(c, b, p)
			c.Sample(func() string { return hexs(was) + ": " + h })
		}})
	acts := argActions()
	depth := t.pick(3, 4)
	out = append(out, &explore.Scenario{Name: "C24/arguments", Note: fmt.Sprintf("all sequences of %d of %d calls on two packets each of six types, the arguments being parts (with spare capacity) of slices that all calls share, or fresh copies of them: after every call every packet reads alike in both cases, the shared slices keep their content, finally all encode alike", depth, len(acts)),
		Run: func(c *explore.Ctx) { arguments(c, acts, depth) }})
	oacts := objActions()
	odepth := t.pick(3, 4)
	out = append(out, &explore.Scenario{Name: "C24/objects", Note: fmt.Sprintf("all sequences of %d of %d calls that hand one topic object or one message to SUBSCRIBE, UNSUBSCRIBE and CONNECT packets of all versions (as filter, as will), encode, clone, re-version or reset them: the objects keep reading and encoding as before, every packet reads and encodes like one given an object of its own", odepth, len(oacts)),
		Run: func(c *explore.Ctx) { objects(c, oacts, odepth) }})
	if t.Thorough {
		out = append(out, mk("C24/full-triples-shared", full, 3, true))
	}
	return out
}

// c24Variants decodes packets that differ in one byte one after the other.
func c24Variants(t Tier) *explore.Scenario {
	vals := []byte{0, 1, 2, 3, 4, 8, 0x10, 0x20, 0x26, '#', '+', '/', '$', 'a', 0x7f, 0x80, 0xc3, 0xff}
	return &explore.Scenario{Name: "C24/variants", Note: fmt.Sprintf("rich and plain packets of every type and version, and each with one byte of the body replaced by one of %d values or with one of its bits turned over, decoded in the orders packet-variant-packet and variant-packet-variant from fresh buffers or one reused buffer: every one is judged as the reference does, and those decoded from buffers of their own read as before at the end", len(vals)),
		Run: func(c *explore.Ctx) {
			tt, ver := typeVer(c, nil)
			p := rich(tt, ver)
			if c.Pick(2) == 1 {
				p = plain(tt, ver)
			}
			w := p.Encode(true)
			if len(w) < 3 {
				c.Prune()
			}
			var rx []byte
			if c.Bool() {
				rx = make([]byte, len(w)+slack)
			}
			swapped := c.Bool()
			var vs [][]byte
			variant := func(i int, v byte) {
				if w[i] != v {
					x := append([]byte(nil), w...)
					x[i] = v
					vs = append(vs, x)
				}
			}
			pos := 2 + c.Pick(len(w)-2)
			for _, v := range vals {
				variant(pos, v)
			}
			for b := 0; b < 8; b++ {
				variant(pos, w[pos]^1<<uint(b))
			}
			for _, v := range vs {
				x, y := w, v
				if swapped {
					x, y = v, w
				}
				var ms []mqttp.IFace
				var want []string
				for i, in := range [][]byte{x, y, x} {
					m, res := judgeIn(c, ver, in, rx)
					if i > 0 && c.Verbose() {
						c.Logf("that came after %s", hexs([][]byte{x, y}[i-1]))
					}
					if m != nil && rx == nil {
						ms, want = append(ms, m), append(want, observe2(m).Key(false))
					}
					_ = res
				}
				for i, m := range ms {
					if g := observe2(m).Key(false); g != want[i] {
						c.Failf("%s and %s decoded in turn: packet %d read as %s, now as %s", hexs(x), hexs(y), i+1, want[i], g)
					}
				}
			}
			c.Bulk(3 * len(vs))
			c.Sample(func() string { return fmt.Sprintf("%s, byte %d", hexs(w), pos) })
		}}
}

// c24Texts asks the functions that judge texts about one text after another in the same place.
func c24Texts(t Tier) *explore.Scenario {
	var texts []string
	alphabet := []string{"a", "/", "+", "#", "$", "é", "\x01", "\xff"}
	var grow func(s string, n int)
	grow = func(s string, n int) {
		if s != "" {
			texts = append(texts, s)
		}
		if n > 0 {
			for _, a := range alphabet {
				grow(s+a, n-1)
			}
		}
	}
	grow("", t.pick(3, 4))
	for _, s := range []string{"$share/g/a", "$share/g/#", "$share/+/a", "$share//ab", "$shars/g/a", "$share/h/a"} {
		texts = append(texts, s)
	}
	all := func(b []byte, ops mqttp.SubscriptionOptions) string {
		s := fmt.Sprint(mqttp.IsValidUTF(b), mqttp.ValidTopic(b))
		for _, f := range []func() (*mqttp.Topic, error){func() (*mqttp.Topic, error) { return mqttp.NewTopic(b) }, func() (*mqttp.Topic, error) { return mqttp.NewSubscribeTopic(b, ops) }} {
			if tp, err := f(); err != nil {
				s += " " + errStr(err)
			} else {
				s += fmt.Sprintf(" %q %q %q %q %d", tp.Full(), tp.Filter(), tp.ShareName(), tp.DollarPrefix(), tp.Ops())
			}
		}
		return s
	}
	return &explore.Scenario{Name: "C24/texts", Note: fmt.Sprintf("all ordered pairs of %d texts over eight symbols: IsValidUTF, ValidTopic, NewTopic and NewSubscribeTopic say of the second, lying where the first lay, what they say of it elsewhere; topics made of the first in a place of its own read as before", len(texts)),
		Run: func(c *explore.Ctx) {
			x := texts[c.Pick(len(texts))]
			place := make([]byte, 64)
			n := 0
			for _, y := range texts {
				if len(y) != len(x) && (len(x) > 3 || len(y) > 3) {
					continue
				}
				own := []byte(x)
				var kept [2]*mqttp.Topic
				kept[0], _ = mqttp.NewTopic(own)
				kept[1], _ = mqttp.NewSubscribeTopic(own, 1)
				read := func() (s string) {
					for _, tp := range kept {
						if tp != nil {
							s += fmt.Sprintf("%q %q %q %q %d;", tp.Full(), tp.Filter(), tp.ShareName(), tp.DollarPrefix(), tp.Ops())
						}
					}
					return
				}
				was := read()
				_ = all(place[:copy(place, x)], 1)
				got := all(place[:copy(place, y)], 2)
				if want := all([]byte(y), 2); got != want {
					c.Failf("%q lying where %q lay is judged %s, elsewhere %s", y, x, got, want)
				}
				if is := read(); is != was {
					c.Failf("topics of %q read as %s, after topics of %q were made %s", x, was, y, is)
				}
				n += 6
			}
			c.Bulk(n)
			c.Sample(func() string { return fmt.Sprintf("%q before all others", x) })
		}}
}

// twinFields put a string into one field of a packet.
var twinFields = func() []func(ver byte, s string) *ref.Packet {
	prop := func(tt byte, id uint32, key bool) func(byte, string) *ref.Packet {
		return func(ver byte, s string) *ref.Packet {
			if ver != ref.V5 {
				return nil
			}
			v := ref.PropVal{ID: id, S: s}
			if id == 0x26 {
				v.K = "k"
				if key {
					v.K, v.S = s, "v"
				}
			}
			return subsetPacket(tt, []ref.PropVal{v})
		}
	}
	conn := func(set func(p *ref.Packet, s string)) func(byte, string) *ref.Packet {
		return func(ver byte, s string) *ref.Packet {
			p := plain(ref.CONNECT, ver)
			set(p, s)
			return p
		}
	}
	pub := func(set func(p *ref.Packet, s string)) func(byte, string) *ref.Packet {
		return func(ver byte, s string) *ref.Packet {
			p := plain(ref.PUBLISH, ver)
			set(p, s)
			return p
		}
	}
	subs := func(tt byte, pre string) func(byte, string) *ref.Packet {
		return func(ver byte, s string) *ref.Packet {
			p := plain(tt, ver)
			p.Subs = []ref.Sub{{Filter: pre + s}}
			return p
		}
	}
	return []func(ver byte, s string) *ref.Packet{
		conn(func(p *ref.Packet, s string) { p.ClientID = s }),
		conn(func(p *ref.Packet, s string) { p.HasUser, p.User = true, s }),
		conn(func(p *ref.Packet, s string) { p.HasUser, p.User, p.HasPass, p.Pass = true, "u", true, s }),
		conn(func(p *ref.Packet, s string) { p.Will = &ref.Will{Topic: s, Payload: "m"} }),
		conn(func(p *ref.Packet, s string) { p.Will = &ref.Will{Topic: "w", Payload: s} }),
		pub(func(p *ref.Packet, s string) { p.Topic = s }),
		pub(func(p *ref.Packet, s string) { p.Payload = s }),
		subs(ref.SUBSCRIBE, ""), subs(ref.UNSUBSCRIBE, ""), subs(ref.SUBSCRIBE, "$share/g/"),
		func(ver byte, s string) *ref.Packet {
			p := plain(ref.UNSUBSCRIBE, ver)
			p.Subs = []ref.Sub{{Filter: "$share/" + s + "/a"}}
			return p
		},
		prop(ref.PUBLISH, 0x03, false), prop(ref.PUBLISH, 0x08, false), prop(ref.PUBLISH, 0x09, false), prop(ref.PUBLISH, 0x26, false), prop(ref.SUBSCRIBE, 0x26, true),
		prop(ref.PUBACK, 0x1F, false), prop(ref.CONNACK, 0x12, false),
	}
}()

// args hands out the arguments of calls: parts of shared slices, or copies.
type args struct {
	fresh bool
	bytes []byte
	codes []mqttp.ReasonCode
	ids   []uint32
	pairs []mqttp.StringPair
	ps    []mqttp.IFace // two of each type
}

func newArgs(fresh bool) *args {
	w := &args{fresh: fresh, bytes: []byte("abc/def/ghi/jkl/"), codes: make([]mqttp.ReasonCode, 8), ids: []uint32{1, 2, 3, 4, 5, 6},
		pairs: []mqttp.StringPair{{K: "k1", V: "v1"}, {K: "k2", V: "v2"}, {K: "k3", V: "v3"}, {K: "k4", V: "v4"}}}
	for i := range w.codes {
		w.codes[i] = []mqttp.ReasonCode{0x00, 0x80, 0x87, 0x11}[i%3]
	}
	for _, t := range []mqttp.Type{mqttp.PUBLISH, mqttp.CONNECT, mqttp.SUBSCRIBE, mqttp.UNSUBSCRIBE, mqttp.SUBACK, mqttp.UNSUBACK} {
		for k := 0; k < 2; k++ {
			m, err := mqttp.New(mqttp.ProtocolV50, t)
			if err != nil {
				panic(err)
			}
			if x, ok := m.(interface{ SetPacketID(mqttp.IDType) }); ok {
				x.SetPacketID(mqttp.IDType(7 + k))
			}
			w.ps = append(w.ps, m)
		}
	}
	return w
}

func (w *args) b(lo, hi int) []byte {
	if w.fresh {
		return append(make([]byte, 0, hi-lo), w.bytes[lo:hi]...)[: hi-lo : hi-lo]
	}
	return w.bytes[lo:hi]
}

func (w *args) c(lo, hi int) []mqttp.ReasonCode {
	if w.fresh {
		return append(make([]mqttp.ReasonCode, 0, hi-lo), w.codes[lo:hi]...)[: hi-lo : hi-lo]
	}
	return w.codes[lo:hi]
}

func (w *args) u(lo, hi int) []uint32 {
	if w.fresh {
		return append(make([]uint32, 0, hi-lo), w.ids[lo:hi]...)[: hi-lo : hi-lo]
	}
	return w.ids[lo:hi]
}

func (w *args) kv(lo, hi int) []mqttp.StringPair {
	if w.fresh {
		return append(make([]mqttp.StringPair, 0, hi-lo), w.pairs[lo:hi]...)[: hi-lo : hi-lo]
	}
	return w.pairs[lo:hi]
}

// all is everything the shared slices hold, spare capacity included.
func (w *args) all() string {
	return fmt.Sprint(w.bytes[:cap(w.bytes)], w.codes[:cap(w.codes)], w.ids[:cap(w.ids)], w.pairs[:cap(w.pairs)])
}

type argAction struct {
	name string
	do   func(w *args) error
}

func argActions() (out []argAction) {
	add := func(name string, do func(w *args) error) { out = append(out, argAction{name, do}) }
	for k := 0; k < 2; k++ {
		k := k
		type coder interface {
			AddReturnCodes([]mqttp.ReasonCode) error
			AddReturnCode(mqttp.ReasonCode) error
		}
		for i, n := range []string{"SUBACK", "UNSUBACK"} {
			i := 8 + 2*i + k
			add(fmt.Sprintf("%s %d takes two codes", n, k), func(w *args) error { return w.ps[i].(coder).AddReturnCodes(w.c(0, 2)) })
			add(fmt.Sprintf("%s %d takes one code", n, k), func(w *args) error { return w.ps[i].(coder).AddReturnCode(mqttp.ReasonCode(0x87 + byte(k))) })
			if k == 0 {
				add(fmt.Sprintf("%s %d takes an illegal code", n, k), func(w *args) error { return w.ps[i].(coder).AddReturnCodes([]mqttp.ReasonCode{0x00, 0x03}) })
			}
		}
		pub := func(w *args) *mqttp.Publish { return w.ps[k].(*mqttp.Publish) }
		conn := func(w *args) *mqttp.Connect { return w.ps[2+k].(*mqttp.Connect) }
		add(fmt.Sprintf("PUBLISH %d takes topic and payload", k), func(w *args) error { return pub(w).Set("t", w.b(0, 3+k), 0, false, false) })
		add(fmt.Sprintf("PUBLISH %d takes a payload", k), func(w *args) error { pub(w).SetPayload(w.b(2, 6)); return nil })
		add(fmt.Sprintf("PUBLISH %d takes pairs", k), func(w *args) error { return pub(w).PropertySet(mqttp.PropertyUserProperty, w.kv(0, 2)) })
		add(fmt.Sprintf("PUBLISH %d takes one pair", k), func(w *args) error { return pub(w).PropertySet(mqttp.PropertyUserProperty, w.pairs[3]) })
		add(fmt.Sprintf("PUBLISH %d takes identifiers", k), func(w *args) error {
			return pub(w).PropertySet(mqttp.PropertySubscriptionIdentifier, w.u(1, 3))
		})
		add(fmt.Sprintf("PUBLISH %d takes data", k), func(w *args) error { return pub(w).PropertySet(mqttp.PropertyCorrelationData, w.b(1, 5)) })
		add(fmt.Sprintf("CONNECT %d takes credentials", k), func(w *args) error { return conn(w).SetCredentials(w.b(0, 3), w.b(3, 6)) })
		add(fmt.Sprintf("CONNECT %d takes a client id", k), func(w *args) error { return conn(w).SetClientID(w.b(0, 2)) })
		if k == 0 {
			add("CONNECT 0 takes another client id", func(w *args) error { return conn(w).SetClientID(w.b(5, 6)) })
			add("CONNECT 0 takes other credentials", func(w *args) error { return conn(w).SetCredentials(w.b(8, 10), w.b(12, 14)) })
			add("PUBLISH 0 takes another payload", func(w *args) error { pub(w).SetPayload(w.b(9, 12)); return nil })
			add("PUBLISH 0 takes other data", func(w *args) error { return pub(w).PropertySet(mqttp.PropertyCorrelationData, w.b(8, 11)) })
		}
		add(fmt.Sprintf("CONNECT %d takes a will", k), func(w *args) error {
			m := mqttp.NewPublish(mqttp.ProtocolV50)
			if err := m.Set("w", w.b(0, 3), 1, true, false); err != nil {
				return err
			}
			if err := m.PropertySet(mqttp.PropertyUserProperty, w.kv(1, 3)); err != nil {
				return err
			}
			return conn(w).SetWill(m)
		})
		add(fmt.Sprintf("SUBSCRIBE and UNSUBSCRIBE %d take a filter", k), func(w *args) error {
			t, err := mqttp.NewSubscribeTopic(w.b(4*k, 4*k+7), mqttp.SubscriptionOptions(k))
			if err == nil {
				err = w.ps[4+k].(*mqttp.Subscribe).AddTopic(t)
			}
			if err == nil {
				t, err = mqttp.NewTopic(w.b(0, 3))
			}
			if err == nil {
				err = w.ps[6+k].(*mqttp.UnSubscribe).AddTopic(t)
			}
			return err
		})
	}
	add("encode all", func(w *args) error {
		for _, m := range w.ps {
			_, _ = mqttp.Encode(m)
		}
		return nil
	})
	add("clone PUBLISH 0 and change the clone", func(w *args) error {
		k, err := w.ps[0].(*mqttp.Publish).Clone(mqttp.ProtocolV50)
		if err != nil {
			return err
		}
		if err = k.PropertySet(mqttp.PropertyUserProperty, w.pairs[2]); err != nil {
			return err
		}
		return k.PropertySet(mqttp.PropertyCorrelationData, []byte("clone"))
	})
	return
}

func arguments(c *explore.Ctx, acts []argAction, depth int) {
	shared, fresh := newArgs(false), newArgs(true)
	held := shared.all()
	what := ""
	for s := 0; s < depth; s++ {
		a := acts[c.Pick(len(acts))]
		what += a.name + "; "
		e1, e2 := a.do(shared), a.do(fresh)
		c.Op(2)
		if errStr(e1) != errStr(e2) {
			c.Failf("%s: the last call gives %s with shared arguments, %s with fresh ones", what, errStr(e1), errStr(e2))
		}
		if now := shared.all(); now != held {
			c.Failf("%s: the caller's slices hold %s, they held %s", what, now, held)
		}
		c.State(what)
	}
	for i := range shared.ps {
		k1, k2 := observe2(shared.ps[i]).Key(false), observe2(fresh.ps[i]).Key(false)
		if k1 != k2 {
			c.Failf("%s: with shared arguments a packet reads %s, with fresh ones %s", what, k1, k2)
		}
		b1, e1 := mqttp.Encode(shared.ps[i])
		b2, e2 := mqttp.Encode(fresh.ps[i])
		if errStr(e1) != errStr(e2) || len(b1) != len(b2) {
			c.Failf("%s: with shared arguments %s encodes to %s %s, with fresh ones to %s %s", what, k1, hexs(b1), errStr(e1), hexs(b2), errStr(e2))
		}
		if e1 == nil {
			d1, d2 := ref.Decode(ref.V5, b1), ref.Decode(ref.V5, b2)
			if d1.P == nil || d2.P == nil || d1.P.Key(true) != d2.P.Key(true) {
				c.Failf("%s: with shared arguments %s encodes to %s, with fresh ones to %s", what, k1, hexs(b1), hexs(b2))
			}
		}
	}
	if now := shared.all(); now != held {
		c.Failf("%s: encoding changed the caller's slices to %s, they held %s", what, now, held)
	}
	c.Sample(func() string { return what })
}

// objs are objects handed to several packets, or (fresh) made anew for each.
type objs struct {
	fresh  bool
	topics []*mqttp.Topic
	msgs   []*mqttp.Publish
	ps     []mqttp.IFace
}

func newObjTopic(i int) *mqttp.Topic {
	t, err := mqttp.NewSubscribeTopic([]byte([]string{"a/+", "$share/g/x/#"}[i]), mqttp.SubscriptionOptions([]byte{0x2D, 0x02}[i]))
	if err != nil {
		panic(err)
	}
	return t
}

func newObjMsg(i int) *mqttp.Publish {
	m := mqttp.NewPublish([]mqttp.ProtocolVersion{mqttp.ProtocolV50, mqttp.ProtocolV311}[i])
	err := m.Set("w/t", []byte("will"), mqttp.QosType(2-i), true, i == 0)
	m.SetPacketID(mqttp.IDType(40 + i))
	if i == 0 && err == nil {
		err = m.PropertySet(mqttp.PropertyUserProperty, mqttp.StringPair{K: "k", V: "v"})
		if err == nil {
			err = m.PropertySet(mqttp.PropertyCorrelationData, []byte("data"))
		}
		if err == nil {
			err = m.PropertySet(mqttp.PropertyTopicAlias, uint16(3))
		}
	}
	if err != nil {
		panic(err)
	}
	return m
}

func newObjs(fresh bool) *objs {
	w := &objs{fresh: fresh, topics: []*mqttp.Topic{newObjTopic(0), newObjTopic(1)}, msgs: []*mqttp.Publish{newObjMsg(0), newObjMsg(1)}}
	for _, t := range []mqttp.Type{mqttp.SUBSCRIBE, mqttp.UNSUBSCRIBE, mqttp.CONNECT} {
		for _, v := range ref.Versions {
			m, err := mqttp.New(mqttp.ProtocolVersion(v), t)
			if err != nil {
				panic(err)
			}
			if x, ok := m.(interface{ SetPacketID(mqttp.IDType) }); ok {
				x.SetPacketID(mqttp.IDType(v))
			}
			w.ps = append(w.ps, m)
		}
	}
	return w
}

func (w *objs) topic(i int) *mqttp.Topic {
	if w.fresh {
		return newObjTopic(i)
	}
	return w.topics[i]
}

func (w *objs) msg(i int) *mqttp.Publish {
	if w.fresh {
		return newObjMsg(i)
	}
	return w.msgs[i]
}

// reads is everything the objects show.
func (w *objs) reads() string {
	s := ""
	for _, t := range w.topics {
		s += fmt.Sprint(obs.Topic(t), t.Ops(), ";")
	}
	for _, m := range w.msgs {
		id, err := m.ID()
		b, eerr := mqttp.Encode(m)
		s += fmt.Sprint(m.Version(), id, errStr(err), m.Dup(), errStr(eerr), looksOf(m))
		if r := ref.Decode(byte(m.Version()), b); r.P != nil {
			s += r.P.Key(true)
		}
		s += ";"
	}
	return s
}

type objAction struct {
	name string
	do   func(w *objs) error
}

func objActions() (out []objAction) {
	add := func(name string, do func(w *objs) error) { out = append(out, objAction{name, do}) }
	for k, v := range ref.Versions {
		k := k
		for i := 0; i < 2; i++ {
			i := i
			add(fmt.Sprintf("SUBSCRIBE v%d takes topic %d", v, i), func(w *objs) error { return w.ps[k].(*mqttp.Subscribe).AddTopic(w.topic(i)) })
			add(fmt.Sprintf("CONNECT v%d takes message %d as will", v, i), func(w *objs) error { return w.ps[6+k].(*mqttp.Connect).SetWill(w.msg(i)) })
			if i == 1 && v != ref.V5 {
				continue
			}
			add(fmt.Sprintf("UNSUBSCRIBE v%d takes topic %d", v, i), func(w *objs) error { return w.ps[3+k].(*mqttp.UnSubscribe).AddTopic(w.topic(i)) })
		}
		add(fmt.Sprintf("CONNECT v%d drops its will", v), func(w *objs) error { w.ps[6+k].(*mqttp.Connect).ResetWill(); return nil })
		add(fmt.Sprintf("all become v%d", v), func(w *objs) error {
			for _, m := range w.ps {
				m.SetVersion(mqttp.ProtocolVersion(v))
			}
			return nil
		})
	}
	add("encode all", func(w *objs) error {
		for _, m := range w.ps {
			_, _ = mqttp.Encode(m)
		}
		return nil
	})
	add("clone message 0 for v5 and v4, change the clones", func(w *objs) error {
		for _, v := range []mqttp.ProtocolVersion{mqttp.ProtocolV50, mqttp.ProtocolV311} {
			k, err := w.msgs[0].Clone(v)
			if err != nil {
				return err
			}
			k.SetPacketID(77)
			k.SetRetain(false)
			k.SetPayload([]byte("clone"))
		}
		return nil
	})
	return
}

func objects(c *explore.Ctx, acts []objAction, depth int) {
	shared, fresh := newObjs(false), newObjs(true)
	held := shared.reads()
	what := ""
	for s := 0; s < depth; s++ {
		a := acts[c.Pick(len(acts))]
		what += a.name + "; "
		e1, e2 := a.do(shared), a.do(fresh)
		c.Op(2)
		if errStr(e1) != errStr(e2) {
			c.Failf("%s: the last call gives %s with a shared object, %s with one of its own", what, errStr(e1), errStr(e2))
		}
		c.State(what)
	}
	if now := shared.reads(); now != held {
		c.Failf("%s: the topics and messages handed over now read %s, they read %s", what, now, held)
	}
	for i := range shared.ps {
		k1, k2 := observe2(shared.ps[i]).Key(false), observe2(fresh.ps[i]).Key(false)
		if k1 != k2 {
			c.Failf("%s: with shared objects a packet reads %s, with its own %s", what, k1, k2)
		}
		b1, e1 := mqttp.Encode(shared.ps[i])
		b2, e2 := mqttp.Encode(fresh.ps[i])
		d1, d2 := ref.Decode(byte(shared.ps[i].Version()), b1), ref.Decode(byte(fresh.ps[i].Version()), b2)
		if errStr(e1) != errStr(e2) || (d1.P == nil) != (d2.P == nil) || d1.P != nil && d1.P.Key(true) != d2.P.Key(true) {
			c.Failf("%s: with shared objects %s encodes to %s %s, with its own to %s %s", what, k1, hexs(b1), errStr(e1), hexs(b2), errStr(e2))
		}
	}
	if now := shared.reads(); now != held {
		c.Failf("%s: encoding the packets changed the topics and messages handed over to %s, they read %s", what, now, held)
	}
	c.Sample(func() string { return what })
}
