package scen

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"
	"github.com/VolantMQ/vlapi/vlauth"
	"github.com/VolantMQ/vlapi/vlpersistence"
	"github.com/VolantMQ/vlapi/vlplugin"
	"github.com/VolantMQ/vlapi/vltypes"

	"verifmc/explore"
	"verifmc/obs"
	"verifmc/ref"
	"verifmc/vsched"
)

// act is something one goroutine does with its own packet, or reading a shared one. make prepares the
// inputs; do uses the library; out says what the goroutine got.
type act struct {
	name   string
	plain  string // name without number
	shared bool
	small  bool
	make   func(w *commons) (do func(), out func() string)
}

// commons are messages several goroutines read and clone.
type commons struct {
	pub  *mqttp.Publish
	pub4 *mqttp.Publish
	conn *mqttp.Connect
	sub  *mqttp.Subscribe
	will *mqttp.Publish
	ack  mqttp.IFace
	want map[string]string

	bytes                      map[byte][]byte // packets of MQTT 5 on the wire, by type
	cid, user, payload, filter []byte
	topic                      *mqttp.Topic
	codes                      []mqttp.ReasonCode
	pairs                      []mqttp.StringPair
	conf                       map[interface{}]interface{}
}

var farAway = time.Date(2124, 1, 1, 0, 0, 0, 0, time.UTC)

func newCommons() *commons {
	must := func(m mqttp.IFace, err error) mqttp.IFace {
		if err != nil {
			panic(err)
		}
		return m
	}
	dec := func(p *ref.Packet) mqttp.IFace {
		m, _, err := mqttp.Decode(mqttp.ProtocolVersion(p.Ver), p.Encode(true))
		return must(m, err)
	}
	w := &commons{}
	w.pub = dec(rich(ref.PUBLISH, ref.V5)).(*mqttp.Publish)
	w.pub.SetExpireAt(farAway)
	w.pub4 = must(obs.Build(rich(ref.PUBLISH, ref.V311), obs.BuildOpt{})).(*mqttp.Publish)
	w.conn = dec(rich(ref.CONNECT, ref.V5)).(*mqttp.Connect)
	w.sub = dec(rich(ref.SUBSCRIBE, ref.V5)).(*mqttp.Subscribe)
	w.ack = dec(rich(ref.SUBACK, ref.V5))
	w.will = mqttp.NewPublish(mqttp.ProtocolV50)
	if err := w.will.Set("w", []byte("gone"), mqttp.QoS1, true, false); err != nil {
		panic(err)
	}
	for _, x := range []struct {
		id mqttp.PropertyID
		v  interface{}
	}{{mqttp.PropertyWillDelayInterval, uint32(5)}, {mqttp.PropertyContentType, "text"}} {
		if err := w.will.PropertySet(x.id, x.v); err != nil && x.id == mqttp.PropertyContentType {
			panic(err)
		}
	}
	w.bytes = map[byte][]byte{}
	for _, tt := range []byte{ref.CONNECT, ref.PUBLISH, ref.SUBSCRIBE, ref.SUBACK} {
		w.bytes[tt] = rich(tt, ref.V5).Encode(true)
	}
	w.cid, w.user, w.payload, w.filter = []byte("client"), []byte("user"), []byte("payload"), []byte("$share/g/a/+")
	w.topic, _ = mqttp.NewSubscribeTopic([]byte("t/#"), mqttp.SubscriptionOptions(1))
	w.codes = append(make([]mqttp.ReasonCode, 0, 8), 0, 1, 0x80)
	w.pairs = append(make([]mqttp.StringPair, 0, 8), mqttp.StringPair{K: "k", V: "v"}, mqttp.StringPair{K: "l", V: "w"})
	w.conf = map[interface{}]interface{}{"a": 1, "b": map[interface{}]interface{}{"c": 2}}
	return w
}

// given is the state of the shared bytes and values.
func (w *commons) given() string {
	s := fmt.Sprintf("%q %q %q %q %v %q %v", w.cid, w.user, w.payload, w.filter, w.codes[:8], w.pairs[:8], w.conf)
	for _, tt := range []byte{ref.CONNECT, ref.PUBLISH, ref.SUBSCRIBE, ref.SUBACK} {
		s += hexs(w.bytes[tt])
	}
	return s + obs.Topic(w.topic) + fmt.Sprint(w.topic.Full(), w.topic.Ops())
}

// looks is the state of the shared messages.
func (w *commons) looks() string {
	var sb strings.Builder
	for _, m := range []mqttp.IFace{w.pub, w.pub4, w.conn, w.sub, w.will, w.ack} {
		p, bad := obs.Packet(m)
		sb.WriteString(noExpiry(p).Key(false) + bad + "\n")
	}
	t, _, e := w.pub.Expired()
	fmt.Fprint(&sb, t.Unix(), e, w.given())
	return sb.String()
}

// noExpiry drops the remaining lifetime, which depends on the clock.
func noExpiry(p *ref.Packet) *ref.Packet {
	if p == nil || p.Type != ref.PUBLISH {
		return p
	}
	q := p.Clone()
	q.Props = nil
	for _, x := range p.Props {
		if x.ID != 0x02 {
			q.Props = append(q.Props, x)
		}
	}
	return q
}

// lean leaves one property.
func lean(p *ref.Packet) *ref.Packet {
	q := p.Clone()
	if len(q.Props) > 1 {
		q.Props = q.Props[:1]
	}
	if q.Will != nil && len(q.Will.Props) > 1 {
		q.Will.Props = q.Will.Props[:1]
	}
	return q
}

func looksOf(m mqttp.IFace) string {
	p, bad := obs.Packet(m)
	return noExpiry(p).Key(false) + bad
}

func actDecode(ver byte, in []byte, what string, encodeToo bool) act {
	return act{name: fmt.Sprintf("decode v%d %s %s", ver, what, ref.TypeNames[in[0]>>4]), make: func(*commons) (func(), func() string) {
		buf := append([]byte(nil), in...)
		var m mqttp.IFace
		var n int
		var err error
		var out []byte
		var oerr error
		return func() {
				m, n, err = mqttp.Decode(mqttp.ProtocolVersion(ver), buf)
				if encodeToo && err == nil {
					vsched.P()
					out, oerr = mqttp.Encode(m)
				}
			}, func() string {
				s := fmt.Sprint(n, " ", errStr(err), " ", errStr(oerr))
				if err == nil && !isNil(m) {
					s += looksOf(m)
				}
				if out != nil {
					if r := ref.Decode(ver, out); r.P != nil {
						s += " -> " + noExpiry(r.P).Key(true)
					} else {
						s += " -> malformed " + hexs(out)
					}
				}
				return s
			}
	}}
}

func actBuild(p *ref.Packet, o obs.BuildOpt) act {
	return act{name: "build and encode " + ref.TypeNames[p.Type] + fmt.Sprintf(" v%d", p.Ver), make: func(*commons) (func(), func() string) {
		var m mqttp.IFace
		var err, serr, eerr error
		var n, w int
		var out []byte
		return func() {
				m, err = obs.Build(p, o)
				vsched.P()
				n, serr = m.Size()
				vsched.P()
				out = make([]byte, n+3)
				w, eerr = m.Encode(out)
			}, func() string {
				s := fmt.Sprint(errStr(err), errStr(serr), errStr(eerr), n, w)
				if eerr == nil {
					if r := ref.Decode(p.Ver, out[:w]); r.P != nil {
						s += " " + r.P.Key(true)
					} else {
						s += " malformed " + hexs(out[:w])
					}
				}
				return s + " " + looksOf(m)
			}
	}}
}

// actFunc wraps a computation whose result is a string built from the library's answers.
func actFunc(name string, small bool, f func() func() string) act {
	return act{name: name, small: small, make: func(*commons) (func(), func() string) {
		var d func() string
		return func() { d = f() }, func() string { return d() }
	}}
}

func actShared(name string, f func(w *commons) func() string) act {
	return act{name: name, shared: true, make: func(w *commons) (func(), func() string) {
		var d func() string
		return func() { d = f(w) }, func() string { return d() }
	}}
}

// actions lists what goroutines do; all includes packets with several properties, whose order on the
// wire is not determined.
func actions(all bool) []act {
	var out []act
	for tt := byte(1); tt <= 15; tt++ {
		for _, ver := range ref.Versions {
			if tt == ref.AUTH && ver != ref.V5 || !all && ver == ref.V31 && tt > ref.PUBLISH {
				continue
			}
			ping := tt == ref.PINGREQ || tt == ref.PINGRESP
			r := rich(tt, ver)
			if ver == ref.V5 || !ping {
				out = append(out, actDecode(ver, lean(r).Encode(true), "lean", true))
				out = append(out, actBuild(lean(r), obs.BuildOpt{}))
			}
			if ping {
				continue
			}
			if ver == ref.V5 || all {
				b := broken(r.Encode(true))
				if all {
					out = append(out, actDecode(ver, r.Encode(true), "rich", true), actBuild(r, obs.BuildOpt{Generic: true, MultiProps: true}))
				} else if tt == ref.PUBACK || tt == ref.CONNACK || tt == ref.SUBACK || tt == ref.UNSUBACK {
					out = append(out, actBuild(plain(tt, ver), obs.BuildOpt{Generic: true}))
				}
				if len(b) > 0 {
					out = append(out, actDecode(ver, b[len(b)-1], "broken", false))
				}
				out = append(out, actDecode(ver, plain(tt, ver).Encode(true), "plain", false))
			}
		}
	}
	// one property of each wire kind
	for _, id := range []uint32{0x01, 0x09, 0x0B, 0x23, 0x26, 0x03} {
		p := &ref.Packet{Type: ref.PUBLISH, Ver: ref.V5, Topic: "x", Payload: "y", Props: []ref.PropVal{sampleProp(ref.Prop(id), 0)}}
		out = append(out, actDecode(ref.V5, p.Encode(true), fmt.Sprintf("property %#02x", id), true))
	}
	// topics and names
	for _, f := range []string{"a/+/#", "$share/grp/x/+", "a#b", "$share//x", "\xff"} {
		f := f
		out = append(out, actFunc("NewTopic "+hexs([]byte(f)), true, func() func() string {
			t, err := mqttp.NewTopic([]byte(f))
			return func() string {
				if err != nil {
					return errStr(err)
				}
				return obs.Topic(t)
			}
		}))
	}
	out = append(out,
		actFunc("NewSubscribeTopic", true, func() func() string {
			t, err := mqttp.NewSubscribeTopic([]byte("$share/g/a"), mqttp.SubscriptionOptions(2))
			return func() string {
				if err != nil {
					return errStr(err)
				}
				return obs.Topic(t) + fmt.Sprint(t.Ops())
			}
		}),
		actFunc("ValidTopic", true, func() func() string {
			a, b, u := mqttp.ValidTopic([]byte("a/b")), mqttp.ValidTopic([]byte("a/+")), mqttp.IsValidUTF([]byte("é\x00"))
			return func() string { return fmt.Sprint(a, b, u) }
		}),
		actFunc("length-prefixed fields", true, func() func() string {
			b := make([]byte, 12)
			n, err := mqttp.WriteLPBytes(b, []byte("field"))
			vsched.P()
			v, k, err2 := mqttp.ReadLPBytes(b)
			_, k3, err3 := mqttp.ReadLPBytes(b[:3])
			return func() string { return fmt.Sprint(n, err, string(v), k, err2, k3, err3, string(b)) }
		}),
		actFunc("reason codes", false, func() func() string {
			var sb strings.Builder
			for _, r := range []mqttp.ReasonCode{0x00, 0x05, 0x80, 0x87, 0xA2, 0x7F} {
				fmt.Fprint(&sb, r.Desc(), r.Error(), r.IsValidV3(), r.IsValidV5(), r.Value(), r.IsValidForType(mqttp.CONNACK), ";")
			}
			s := sb.String()
			return func() string { return s }
		}),
		actFunc("type names", false, func() func() string {
			var sb strings.Builder
			for _, t := range []mqttp.Type{0, 1, 3, 8, 15, 16} {
				ok, err := t.Valid(mqttp.ProtocolV50)
				fmt.Fprint(&sb, t.Name(), t.Desc(), t.DefaultFlags(), ok, errStr(err), ";")
			}
			for q := mqttp.QosType(0); q < 4; q++ {
				fmt.Fprint(&sb, q.Desc(), q.IsValid(), ";")
			}
			for d := 0; d < 2; d++ {
				fmt.Fprint(&sb, mqttp.ProtocolVersion(3+d).IsValid(), ";")
			}
			s := sb.String()
			return func() string { return s }
		}),
		actFunc("error texts", true, func() func() string {
			var sb strings.Builder
			for _, e := range []mqttp.Error{0, mqttp.ErrInvalidArgs, mqttp.ErrInsufficientDataSize, 200} {
				fmt.Fprint(&sb, e.Error(), ";")
			}
			for _, r := range []mqttp.ReasonCode{0x00, 0x87, 0x7E} {
				fmt.Fprint(&sb, r.Error(), ";")
			}
			s := sb.String()
			return func() string { return s }
		}),
		actFunc("property rules", false, func() func() string {
			var sb strings.Builder
			for _, id := range []mqttp.PropertyID{0, 1, 0x0B, 0x26, 0x7F, 300} {
				fmt.Fprint(&sb, id.IsValid(), ";")
				for _, t := range []mqttp.Type{mqttp.PUBLISH, mqttp.SUBSCRIBE, mqttp.PINGREQ} {
					fmt.Fprint(&sb, id.IsValidPacketType(t), id.DupAllowed(t), ";")
				}
			}
			s := sb.String()
			return func() string { return s }
		}),
		actFunc("auth and persistence texts", true, func() func() string {
			s := fmt.Sprint(vlauth.StatusDeny.Error(), vlauth.Status(9).Desc(), vlauth.ErrNotOpen.Error(), vlauth.Error(77).Error(), vlauth.AccessRead.Type(), vlauth.AccessType(7).Type(),
				vlpersistence.ErrNotFound.Error(), vlpersistence.Errors(99).Error())
			return func() string { return s }
		}),
		actFunc("descriptor", true, func() func() string {
			d := vlplugin.Descriptor{}
			v, a := d.Version()
			s := fmt.Sprint(v, a, d.Name(), d.Desc(), d.Type(), vlplugin.Version())
			return func() string { return s }
		}),
		actFunc("NormalizeConfig", true, func() func() string {
			o, err := vltypes.NormalizeConfig(map[interface{}]interface{}{"a": 1, "b": map[interface{}]interface{}{"c": 2}})
			_, err2 := vltypes.NormalizeConfig(map[interface{}]interface{}{"a": 1, 2: 3})
			_, err3 := vltypes.NormalizeConfig(7)
			return func() string { return fmt.Sprint(len(o), o["a"], err, err2, err3) }
		}),
		actFunc("New", false, func() func() string {
			var ms []mqttp.IFace
			for t := mqttp.Type(1); t < 16; t++ {
				m, err := mqttp.New(mqttp.ProtocolV50, t)
				if err != nil {
					panic(err)
				}
				ms = append(ms, m)
			}
			_, err := mqttp.New(mqttp.ProtocolV50, 0)
			return func() string {
				s := errStr(err)
				for _, m := range ms {
					s += looksOf(m) + ";"
				}
				return s
			}
		}),
	)
	// one message shared by several goroutines
	clone := func(v mqttp.ProtocolVersion, four bool) act {
		return actShared(fmt.Sprintf("clone a shared PUBLISH to %d (v3 source: %v)", v, four), func(w *commons) func() string {
			src := w.pub
			if four {
				src = w.pub4
			}
			k, err := src.Clone(v)
			if err != nil {
				return func() string { return errStr(err) }
			}
			vsched.P()
			out, eerr := mqttp.Encode(k)
			return func() string {
				s := looksOf(k) + errStr(eerr)
				if r := ref.Decode(byte(v), out); r.P != nil {
					s += noExpiry(r.P).Key(true)
				}
				return s
			}
		})
	}
	out = append(out, clone(mqttp.ProtocolV50, false), clone(mqttp.ProtocolV311, false), clone(mqttp.ProtocolV311, true), clone(mqttp.ProtocolV50, true))
	out = append(out,
		actShared("read a shared PUBLISH", func(w *commons) func() string {
			s := looksOf(w.pub) + looksOf(w.pub4)
			return func() string { return s }
		}),
		actShared("expiry of a shared PUBLISH", func(w *commons) func() string {
			t, _, e := w.pub.Expired()
			t4, _, e4 := w.pub4.Expired()
			return func() string { return fmt.Sprint(t.Unix(), e, t4.Unix(), e4) }
		}),
		actShared("properties of a shared PUBLISH", func(w *commons) func() string {
			ps, bad := obs.Props(w.pub)
			q := &ref.Packet{Type: ref.PUBLISH, Ver: ref.V5, Props: ps}
			s := noExpiry(q).Key(false) + bad
			return func() string { return s }
		}),
		actShared("read a shared CONNECT", func(w *commons) func() string {
			s := looksOf(w.conn)
			return func() string { return s }
		}),
		actShared("read a shared SUBSCRIBE and SUBACK", func(w *commons) func() string {
			s := looksOf(w.sub) + looksOf(w.ack)
			return func() string { return s }
		}),
		actShared("iterate the topics of a shared SUBSCRIBE", func(w *commons) func() string {
			var sb strings.Builder
			err := w.sub.ForEachTopic(func(t *mqttp.Topic) error {
				fmt.Fprint(&sb, obs.Topic(t), ";")
				return nil
			})
			s := sb.String() + errStr(err)
			return func() string { return s }
		}),
	)
	// bytes and values shared by several goroutines, each with a packet of its own
	for _, tt := range []byte{ref.CONNECT, ref.PUBLISH, ref.SUBSCRIBE, ref.SUBACK} {
		out = append(out, actShared("decode the shared bytes of "+ref.TypeNames[tt], func(w *commons) func() string {
			m, n, err := mqttp.Decode(mqttp.ProtocolV50, w.bytes[tt])
			return func() string {
				if err != nil || isNil(m) {
					return errStr(err)
				}
				return fmt.Sprint(n) + looksOf(m)
			}
		}))
	}
	written := func(m mqttp.IFace, errs ...error) func() string {
		out, err := mqttp.Encode(m)
		return func() string {
			s := fmt.Sprint(errs, errStr(err)) + looksOf(m)
			if r := ref.Decode(byte(m.Version()), out); r.P != nil {
				s += noExpiry(r.P).Key(true)
			}
			return s
		}
	}
	out = append(out,
		actShared("build a CONNECT of shared texts and will", func(w *commons) func() string {
			m := mqttp.NewConnect(mqttp.ProtocolV50)
			e1, e2, e3 := m.SetClientID(w.cid), m.SetCredentials(w.user, w.payload), m.SetWill(w.will)
			return written(m, e1, e2, e3)
		}),
		actShared("build a PUBLISH of shared payload and properties", func(w *commons) func() string {
			m := mqttp.NewPublish(mqttp.ProtocolV50)
			e1 := m.Set("a/b", w.payload, mqttp.QoS0, false, false)
			e2, e3 := m.PropertySet(mqttp.PropertyUserProperty, w.pairs), m.PropertySet(mqttp.PropertyUserProperty, mqttp.StringPair{K: "m", V: "x"})
			return written(m, e1, e2, e3)
		}),
		actShared("build a SUBSCRIBE of shared filters", func(w *commons) func() string {
			m := mqttp.NewSubscribe(mqttp.ProtocolV50)
			m.SetPacketID(9)
			t, e1 := mqttp.NewTopic(w.filter)
			e2, e3 := m.AddTopic(w.topic), m.AddTopic(t)
			return written(m, e1, e2, e3)
		}),
		actShared("build a SUBACK of shared codes", func(w *commons) func() string {
			m := mqttp.NewSubAck(mqttp.ProtocolV50)
			m.SetPacketID(9)
			e1, e2 := m.AddReturnCodes(w.codes), m.AddReturnCode(2)
			return written(m, e1, e2)
		}),
		actShared("judge shared texts", func(w *commons) func() string {
			s := fmt.Sprint(mqttp.ValidTopic(w.filter), mqttp.ValidTopic(w.cid), mqttp.IsValidUTF(w.filter))
			b := make([]byte, 20)
			n, err := mqttp.WriteLPBytes(b, w.cid)
			v, k, err2 := mqttp.ReadLPBytes(w.bytes[ref.CONNECT][2:])
			return func() string { return fmt.Sprint(s, n, err, string(b), string(v), k, err2) }
		}),
		actShared("normalise a shared configuration", func(w *commons) func() string {
			o, err := vltypes.NormalizeConfig(w.conf)
			return func() string { return fmt.Sprint(o, err) }
		}),
	)
	return out
}

var actSets = map[bool][]act{}
var soloOf = map[string]string{}
var stepsOf = map[string]int{}
var actMu sync.Mutex

// actSet also runs every action alone: the result each goroutine must get.
func actSet(all bool) []act {
	actMu.Lock()
	defer actMu.Unlock()
	if a, ok := actSets[all]; ok {
		return a
	}
	a := actions(all)
	soloOf["shared"] = newCommons().looks()
	for i := range a {
		a[i].plain = a[i].name
		a[i].name = fmt.Sprintf("%d %s", i, a[i].name)
		do, out := a[i].make(newCommons())
		do()
		k := fmt.Sprint(all, a[i].name)
		soloOf[k] = out()
		do, _ = a[i].make(newCommons())
		r := &vsched.Run{Bound: 0}
		r.Go("solo", do)
		stepsOf[k] = r.Do().Steps
	}
	actSets[all] = a
	return a
}

// interleave explores the goroutines in every interleaving of statements within the bound.
func interleave(c *explore.Ctx, all bool, as []act, bound int) {
	var w *commons
	for _, a := range as {
		if a.shared && w == nil {
			w = newCommons()
		}
	}
	what := ""
	r := schedule(c, bound, nil, nil)
	r.Jump = true
	outs := make([]func() string, len(as))
	for i, a := range as {
		if i > 0 {
			what += " | "
		}
		what += a.name
		do, out := a.make(w)
		outs[i] = out
		r.GoEst(fmt.Sprintf("goroutine %d [%s]", i+1, a.name), stepsOf[fmt.Sprint(all, a.name)]+1, func() {
			do()
			vsched.P()
		})
	}
	c.Logf("%s", what)
	finish(c, r, what)
	for i, a := range as {
		solo := soloOf[fmt.Sprint(all, a.name)]
		if s := outs[i](); s != solo {
			c.Failf("%s: goroutine %d gets %s; alone it gets %s", what, i+1, s, solo)
		}
	}
	if w != nil {
		if s := w.looks(); s != soloOf["shared"] {
			c.Failf("%s: the shared messages became %s, they were %s", what, s, soloOf["shared"])
		}
	}
	c.Sample(func() string { return what })
}

// crowd runs many goroutines on one fixed schedule.
func crowd(c *explore.Ctx, as []act, halt, quantum int, back bool) {
	var w *commons
	for _, a := range as {
		if a.shared && w == nil {
			w = newCommons()
		}
	}
	what := fmt.Sprintf("%d goroutines (%s to %s), each in turn to its statement %d, then to its end (in reverse order: %v)", len(as), as[0].name, as[len(as)-1].name, halt, back)
	if quantum > 0 {
		what = fmt.Sprintf("%d goroutines (%s to %s) taking turns of %d statements", len(as), as[0].name, as[len(as)-1].name, quantum)
	}
	r := schedule(c, 0, nil, nil)
	r.Halt, r.Quantum, r.Back, r.MaxSteps = halt, quantum, back, 20000000
	outs := make([]func() string, len(as))
	for i, a := range as {
		do, out := a.make(w)
		outs[i] = out
		r.Go(fmt.Sprintf("goroutine %d [%s]", i+1, a.name), do)
	}
	finish(c, r, what)
	for i, a := range as {
		if s, solo := outs[i](), soloOf[fmt.Sprint(false, a.name)]; s != solo {
			c.Failf("%s: goroutine %d [%s] gets %s; alone it gets %s", what, i+1, a.name, s, solo)
		}
	}
	if w != nil {
		if s := w.looks(); s != soloOf["shared"] {
			c.Failf("%s: the shared messages became %s, they were %s", what, s, soloOf["shared"])
		}
	}
	c.Sample(func() string { return what })
}

// together runs real goroutines under the race detector.
func together(c *explore.Ctx, as []act, swap bool) {
	for rep := 0; rep < 2; rep++ {
		var w *commons
		for _, a := range as {
			if a.shared && w == nil {
				w = newCommons()
			}
		}
		what := ""
		n := raceReports()
		got := make([]string, len(as))
		outs := make([]func() string, len(as))
		fails := make([]interface{}, len(as))
		dos := make([]func(), len(as))
		for i, a := range as {
			if i > 0 {
				what += " | "
			}
			what += a.name
			dos[i], outs[i] = a.make(w)
		}
		var wg sync.WaitGroup
		for k := range as {
			i := k
			if swap {
				i = len(as) - 1 - k
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { fails[i] = recover() }()
				dos[i]()
				got[i] = outs[i]()
			}()
		}
		wg.Wait()
		c.Op(len(as))
		if k := raceReports(); k > n {
			c.Failf("%s: the race detector reports %d unsynchronised accesses", what, k-n)
		}
		for i, a := range as {
			if fails[i] != nil {
				c.Failf("%s: goroutine %d: panic: %v", what, i+1, fails[i])
			}
			if solo := soloOf[fmt.Sprint(true, a.name)]; got[i] != solo {
				c.Failf("%s: goroutine %d gets %s; alone it gets %s", what, i+1, got[i], solo)
			}
		}
		c.Sample(func() string { return what })
	}
}

// coldOut is what a fresh process reports of goroutines that are the first in it to use the library.
type coldOut struct {
	Races int
	Got   []string
	Fails []string
}

// Cold runs the given actions at once in this process, in which nothing has used the library yet.
func Cold(args []string) {
	as := actions(true)
	var mine []act
	for _, a := range args {
		i, _ := strconv.Atoi(a)
		mine = append(mine, as[i])
	}
	var w *commons
	for _, a := range mine {
		if a.shared && w == nil {
			w = newCommons()
		}
	}
	o := coldOut{Got: make([]string, len(mine)), Fails: make([]string, len(mine))}
	outs := make([]func() string, len(mine))
	dos := make([]func(), len(mine))
	for i, a := range mine {
		dos[i], outs[i] = a.make(w)
	}
	var wg sync.WaitGroup
	for i := range mine {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					o.Fails[i] = fmt.Sprint(r)
				}
			}()
			dos[i]()
			o.Got[i] = outs[i]()
		}()
	}
	wg.Wait()
	o.Races = raceReports()
	f := os.NewFile(3, "out")
	_ = json.NewEncoder(f).Encode(&o)
	os.Exit(0)
}

// cold runs actions in a fresh process.
func cold(c *explore.Ctx, as []act, idx []int) {
	what := "first use in a process: "
	var args []string
	for k, i := range idx {
		if k > 0 {
			what += " | "
		}
		what += as[i].name
		args = append(args, strconv.Itoa(i))
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	defer r.Close()
	exe, _ := os.Executable()
	cmd := exec.Command(exe, append([]string{"cold"}, args...)...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "GOMAXPROCS=2")
	cmd.ExtraFiles = []*os.File{w}
	var diag strings.Builder
	cmd.Stderr = &diag
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	w.Close()
	b, _ := io.ReadAll(r)
	_ = cmd.Wait()
	c.Op(len(idx))
	var o coldOut
	if json.Unmarshal(b, &o) != nil || len(o.Got) != len(idx) {
		d := diag.String()
		if len(d) > 1500 {
			d = d[:1500]
		}
		c.Failf("%s: the process dies: %s", what, d)
	}
	if o.Races > 0 {
		c.Failf("%s: the race detector reports %d unsynchronised accesses", what, o.Races)
	}
	for k, i := range idx {
		if o.Fails[k] != "" {
			c.Failf("%s: goroutine %d: panic: %s", what, k+1, o.Fails[k])
		}
		if solo := soloOf[fmt.Sprint(true, as[i].name)]; o.Got[k] != solo {
			c.Failf("%s: goroutine %d gets %s; alone it gets %s", what, k+1, o.Got[k], solo)
		}
	}
	c.Sample(func() string { return what })
}

func scenC20(t Tier) []*explore.Scenario {
	var out []*explore.Scenario
	add := func(name, build, note string, run func(c *explore.Ctx)) {
		out = append(out, &explore.Scenario{Name: name, Build: build, Serial: true, Note: note, Run: run})
	}
	few := actSet(false)
	var small []act
	for _, a := range few {
		if a.small {
			small = append(small, a)
		}
	}
	tri := func(x int) (int, int) { // x -> i >= j
		i := 0
		for x > i {
			i++
			x -= i
		}
		return i, x
	}
	n := len(few)
	// the same actions among all of them
	var fewIn []int
	for _, a := range few {
		for j, b := range actSet(true) {
			if a.plain == b.plain && !slices.Contains(fewIn, j) {
				fewIn = append(fewIn, j)
				break
			}
		}
	}
	n = min(n, len(fewIn))
	add("C20/race-pairs", "race", fmt.Sprintf("all unordered pairs of %d actions, as two goroutines on fresh packets under the happens-before race detector, twice in either starting order: no conflicting accesses means all interleavings of the pair are equivalent, and each goroutine gets its solo result", len(actSet(true))), func(c *explore.Ctx) {
		all := actSet(true)
		i, j := tri(c.Pick(len(all) * (len(all) + 1) / 2))
		together(c, []act{all[i], all[j]}, c.Bool())
	})
	add("C20/cold", "race", fmt.Sprintf("every action against itself and every pair of %d (thorough: of all %d) actions as two goroutines that are the first in a fresh process to use the library, under the happens-before race detector: tables and caches built on first use included", len(fewIn), len(actSet(true))), func(c *explore.Ctx) {
		all := actSet(true)
		if !t.Thorough {
			k := c.Pick(n*(n+1)/2 + len(all))
			if k -= n * (n + 1) / 2; k >= 0 {
				cold(c, all, []int{k, k})
				return
			}
			i, j := tri(k + n*(n+1)/2)
			cold(c, all, []int{fewIn[i], fewIn[j]})
			return
		}
		i, j := tri(c.Pick(len(all) * (len(all) + 1) / 2))
		cold(c, all, []int{i, j})
	})
	add("C20/pairs", "sched", fmt.Sprintf("all unordered pairs of %d actions (decode, build, encode, topics, names; clone and read shared messages; decode shared bytes, build from shared values): every interleaving of library statements with up to %d preemptions; each result equals the solo result, shared messages unchanged", n, t.pick(1, 1)), func(c *explore.Ctx) {
		i, j := tri(c.Pick(n * (n + 1) / 2))
		interleave(c, false, []act{few[i], few[j]}, 1)
	})
	add("C20/small-pairs", "sched", fmt.Sprintf("all pairs of %d short actions (topics, names, length-prefixed fields): every interleaving with up to %d preemptions", len(small), t.pick(2, 3)), func(c *explore.Ctx) {
		i, j := tri(c.Pick(len(small) * (len(small) + 1) / 2))
		interleave(c, false, []act{small[i], small[j]}, t.pick(2, 3))
	})
	var some []act
	for _, name := range []string{"decode v5 lean PUBLISH", "decode v4 lean SUBSCRIBE", "decode v5 broken CONNECT", "build and encode PUBLISH v5", "build and encode SUBACK v4",
		"build and encode PUBACK v5", "clone a shared PUBLISH to 5 (v3 source: false)", "clone a shared PUBLISH to 4 (v3 source: false)", "properties of a shared PUBLISH", "NewTopic 2473686172652f6772702f782f2b", "decode v5 plain CONNECT", "read a shared SUBSCRIBE and SUBACK"} {
		for _, a := range few {
			if strings.HasSuffix(a.name, " "+name) && strings.Count(a.name, " ") == strings.Count(name, " ")+1 {
				some = append(some, a)
				break
			}
		}
	}
	if !t.Thorough {
		some = some[:8]
	}
	add("C20/trios", "sched", fmt.Sprintf("all unordered triples of %d actions as three goroutines: every interleaving with up to %d preemptions", len(some), 1), func(c *explore.Ctx) {
		k := c.Pick(len(some))
		i := c.Pick(k + 1)
		j := c.Pick(i + 1)
		interleave(c, false, []act{some[k], some[i], some[j]}, 1)
	})
	longest := 0
	for _, a := range few {
		longest = max(longest, stepsOf[fmt.Sprint(false, a.name)])
	}
	sizes := []int{12}
	if t.Thorough {
		sizes = []int{3, 5, 8, 12, 20, 40}
	}
	add("C20/crowd", "sched", fmt.Sprintf("%v goroutines performing the same of %d actions, and all actions at once: every goroutine in turn runs to its n-th statement and then in the same or the reverse order to its end, or they take turns of n statements, for every n: each result equals the solo result", sizes, len(few)), func(c *explore.Ctx) {
		x := c.Pick(len(few) + 1)
		as, n := few, longest
		if x < len(few) {
			as, n = nil, stepsOf[fmt.Sprint(false, few[x].name)]
			for k := sizes[c.Pick(len(sizes))]; k > 0; k-- {
				as = append(as, few[x])
			}
		}
		k := 1 + c.Pick(n+1)
		switch c.Pick(3) {
		case 0:
			crowd(c, as, k, 0, false)
		case 1:
			crowd(c, as, k, 0, true)
		default:
			crowd(c, as, 0, k, false)
		}
	})
	limit := t.pick(160, 1<<30)
	var twice []act
	for _, a := range few {
		if stepsOf[fmt.Sprint(false, a.name)] <= limit {
			twice = append(twice, a)
		}
	}
	add("C20/same-twice", "sched", fmt.Sprintf("%d actions against themselves (quick: those of up to 160 statements), every interleaving with up to 2 preemptions", len(twice)), func(c *explore.Ctx) {
		a := twice[c.Pick(len(twice))]
		interleave(c, false, []act{a, a}, 2)
	})
	return out
}
