package scen

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"

	"verifmc/explore"
	"verifmc/obs"
	"verifmc/ref"
)

var collecting sync.Mutex

// collect runs the garbage collector until what was unreachable is gone and its finalizers and cleanups
// have run, as far as that can be awaited.
func collect(times int) {
	for i := 0; i < times; i++ {
		done := make(chan bool, 2)
		func() {
			a, b := new([4]*int), new([8]*int)
			runtime.SetFinalizer(a, func(*[4]*int) { done <- true })
			runtime.AddCleanup(b, func(chan bool) { done <- true }, done)
		}()
		runtime.GC()
		for k := 0; k < 2; k++ {
			select {
			case <-done:
			case <-time.After(200 * time.Millisecond):
			}
		}
		runtime.Gosched()
	}
}

// outlive hands out what m refers to, not m itself.
func outlive(c *explore.Ctx, h *held, m mqttp.IFace) {
	add := func(f func() string) {
		h.live = append(h.live, f)
		h.then = append(h.then, f())
	}
	switch x := m.(type) {
	case *mqttp.Connect:
		id := x.ClientID()
		u, p := x.Credentials()
		add(func() string { return fmt.Sprintf("%q %q %q", id, u, p) })
		if w := x.Will(); w != nil {
			add(func() string { return looksOf(w) })
		}
	case *mqttp.Subscribe:
		_ = x.ForEachTopic(func(t *mqttp.Topic) error {
			add(func() string { return fmt.Sprint(t.Full(), t.Ops(), obs.Topic(t)) })
			return nil
		})
	case *mqttp.UnSubscribe:
		_ = x.ForEachTopic(func(t *mqttp.Topic) error {
			add(func() string { return fmt.Sprint(t.Full(), t.Ops(), obs.Topic(t)) })
			return nil
		})
	case *mqttp.SubAck:
		codes := x.ReturnCodes()
		add(func() string { return fmt.Sprint(codes) })
	case *mqttp.UnSubAck:
		codes := x.ReturnCodes()
		add(func() string { return fmt.Sprint(codes) })
	}
	if byte(m.Version()) == ref.V5 {
		for _, d := range ref.PropsOf(byte(m.Type())) {
			if v := m.PropertyGet(mqttp.PropertyID(d.ID)); v != nil {
				id := d.ID
				add(func() string { return fmt.Sprint(obs.PropValues(id, v)) })
			}
		}
	}
}

// c24Collected: alike takes many packets of one kind at a time.
func c24Collected(t Tier, alike bool) *explore.Scenario {
	kinds := []string{"decoded", "built", "built through the generic constructor", "cloned for 5.0", "cloned for 3.1.1", "altered after decoding"}
	rounds, name, many := t.pick(2, 4), "C24/collected", ""
	if alike {
		rounds, name, many = t.pick(1, 3), "C24/collected-alike", "24 alike at a time: "
	}
	return &explore.Scenario{Name: name, Note: fmt.Sprintf(many+"packets of every type and version, rich and plain and with payloads, filters, codes and strings of 7 sizes up to 70000 bytes, %d ways of getting them; everything they hand out (payloads, topics, identifiers, credentials, filters, codes, property values, wills, encodings) is kept, the packets, or the objects they were made from, are not: after the garbage collector has taken them and their finalizers and cleanups have run, packets of all kinds are decoded, built and encoded %d times over, and what was kept is compared with its snapshot", len(kinds), rounds),
		Run: func(c *explore.Ctx) {
			kind, dropPacket := 0, true
			if !alike || t.Thorough {
				kind, dropPacket = c.Pick(len(kinds)), c.Bool()
			} else {
				kind = []int{0, 1, 3}[c.Pick(3)]
			}
			// collections happen when this scenario asks for them
			collecting.Lock()
			defer collecting.Unlock()
			gc := debug.SetGCPercent(-1)
			defer debug.SetGCPercent(gc)
			var keep []*held
			take := func(p *ref.Packet) {
				m := obtain(c, p, kind == 0 || kind >= 3)
				var parts []mqttp.IFace
				switch kind {
				case 2:
					m = build(c, p, obs.BuildOpt{Generic: true, MultiProps: true})
				case 3, 4:
					src, ok := m.(*mqttp.Publish)
					if !ok || p.Topic == "" {
						return
					}
					ver := []byte{ref.V5, ref.V311}[kind-3]
					m = mustClone(c, src, ver, p.Key(true))
					if dropPacket { // both go, values of both stay
						parts = append(parts, src)
					}
				case 5:
					alter(m)
				}
				h := hold(c, kinds[kind]+": "+p.Key(true), m, false)
				for _, x := range append(parts, m) {
					outlive(c, h, x)
				}
				if ok, _ := emittable(observe2(m)); ok && kind != 5 {
					if out, err := encode(c, m); err == nil {
						h.bytes, h.bthen = out, string(out)
					}
				}
				if dropPacket {
					h.m = nil
				}
				keep = append(keep, h)
				c.Op(1)
			}
			all := gone()
			if alike {
				p := all[c.Pick(len(all))]
				all = nil
				for len(all) < 24 {
					all = append(all, p)
				}
			}
			for _, p := range all {
				take(p)
			}
			if len(keep) == 0 {
				c.Prune()
			}
			c.Beat()
			// the closures that made them are out of scope: what was not kept can be taken
			for r := 0; r < rounds; r++ {
				collect(1 + r) // what is given back may itself be dropped by a further collection
				for i, p := range all {
					if (i+r)%2 == 0 || alike { // other content of the same sizes
						p = other(p)
					}
					m := obtain(c, p, (i+r)%3 != 0 || alike && kind == 0)
					_, _ = mqttp.Encode(m)
					c.Op(1)
				}
				for _, h := range keep {
					h.intact(c, fmt.Sprintf("garbage collected %d time(s), other packets handled since", r+1), h.m != nil)
				}
				c.Beat()
			}
			c.Bulk(len(keep))
			c.State(fmt.Sprint(kind, dropPacket))
			c.Sample(func() string { return fmt.Sprint(len(keep), " packets ", kinds[kind], ", dropped: ", dropPacket) })
		}}
}

// gone are the packets of C24/collected.
func gone() (out []*ref.Packet) {
	for tt := byte(1); tt < 16; tt++ {
		for _, ver := range ref.Versions {
			if tt == ref.AUTH && ver != ref.V5 {
				continue
			}
			out = append(out, rich(tt, ver), plain(tt, ver))
		}
	}
	for i, n := range []int{1, 20, 127, 128, 1000, 5000, 70000} {
		s := text(n, "abcdefghij")
		f := s
		if n > 65000 {
			f = s[:65000]
		}
		for _, ver := range []byte{ref.V311, ref.V5} {
			p := &ref.Packet{Type: ref.PUBLISH, Ver: ver, Topic: "t/" + f, Payload: "p" + s, QoS: byte(i % 3), HasID: i%3 > 0, ID: uint16(i + 1)}
			k := &ref.Packet{Type: ref.CONNECT, Ver: ver, ClientID: "id", Clean: true, HasUser: true, User: "u" + f, HasPass: true, Pass: "p" + f, Will: &ref.Will{Topic: "w/" + f, Payload: "m" + f}}
			u := &ref.Packet{Type: ref.SUBSCRIBE, Ver: ver, HasID: true, ID: 9, Subs: []ref.Sub{{Filter: "f/" + f, Opt: 1}, {Filter: "+/" + f, Opt: 2}}}
			n := &ref.Packet{Type: ref.UNSUBSCRIBE, Ver: ver, HasID: true, ID: 9, Subs: []ref.Sub{{Filter: "f/" + f}, {Filter: "+/" + f}}}
			a := &ref.Packet{Type: ref.SUBACK, Ver: ver, HasID: true, ID: 9, Codes: make([]byte, len(f))}
			if ver == ref.V5 {
				p.Props = []ref.PropVal{{ID: 0x03, S: "c" + f}, {ID: 0x09, S: "d" + f}, {ID: 0x26, K: "k" + f, S: "v" + f}}
				k.Will.Props = []ref.PropVal{{ID: 0x09, S: "d" + f}, {ID: 0x26, K: "k", S: "v" + f}}
				a.Props = []ref.PropVal{{ID: 0x1F, S: "r" + f}}
			}
			out = append(out, p, k, u, n, a)
		}
	}
	return
}

// other is p with other letters in its fields.
func other(p *ref.Packet) *ref.Packet {
	q := *p
	turn := func(s string) string {
		b := []byte(s)
		for i := range b {
			if b[i] >= 'a' && b[i] < 'j' {
				b[i]++
			}
		}
		return string(b)
	}
	switch p.Type {
	case ref.PUBLISH, ref.CONNECT:
		q.Payload, q.User, q.Pass = turn(q.Payload), turn(q.User), turn(q.Pass)
		if q.Will != nil {
			w := *q.Will
			w.Payload = turn(w.Payload)
			q.Will = &w
		}
	case ref.SUBACK:
		q.Codes = append([]byte(nil), q.Codes...)
		for i := range q.Codes {
			q.Codes[i] = 2
		}
	}
	q.Props = append([]ref.PropVal(nil), q.Props...)
	for i := range q.Props {
		if d := ref.Prop(q.Props[i].ID); d.Kind == ref.KPair || d.Kind == ref.KBinary || q.Props[i].ID == 0x03 || q.Props[i].ID == 0x1F {
			q.Props[i].S = turn(q.Props[i].S)
		}
	}
	return &q
}

// text repeats s to n bytes.
func text(n int, s string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = s[i%len(s)]
	}
	return string(b)
}
