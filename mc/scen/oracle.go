package scen

import (
	"bytes"
	"fmt"

	"github.com/VolantMQ/vlapi/mqttp"

	"verifmc/explore"
	"verifmc/obs"
	"verifmc/ref"
)

func hexs(b []byte) string {
	if len(b) <= 64 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%x..%x (%d bytes)", b[:40], b[len(b)-12:], len(b))
}

func errStr(err error) string {
	if err == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%T(%v)", err, err)
}

// isNil treats a typed nil inside the interface as nil as well.
func isNil(m mqttp.IFace) bool { return m == nil }

const slack = 24

// padded places in inside a larger array so that reads beyond its length see foreign bytes instead
// of a bounds error.
func padded(in []byte) (buf []byte, whole []byte) {
	whole = make([]byte, len(in)+slack)
	copy(whole, in)
	for i := len(in); i < len(whole); i++ {
		whole[i] = 'a' + byte(i%3)
	}
	return whole[:len(in)], whole
}

// decode runs the library and checks that the input survives.
func decode(c *explore.Ctx, ver byte, in []byte) (m mqttp.IFace, n int, err error) {
	buf, whole := padded(in)
	m, n, err = mqttp.Decode(mqttp.ProtocolVersion(ver), buf)
	c.Op(1)
	if !bytes.Equal(whole[:len(in)], in) {
		c.Failf("decoding altered its input: %s became %s", hexs(in), hexs(whole[:len(in)]))
	}
	for i := len(in); i < len(whole); i++ {
		if whole[i] != 'a'+byte(i%3) {
			c.Failf("decoding %s wrote beyond its input", hexs(in))
		}
	}
	return
}

// decodeIn decodes in from buffer rx, which earlier packets were decoded from.
func decodeIn(c *explore.Ctx, ver byte, in, rx []byte) (m mqttp.IFace, n int, err error) {
	if rx == nil {
		return decode(c, ver, in)
	}
	k := copy(rx, in)
	for i := k; i < len(rx); i++ {
		rx[i] = 'a' + byte(i%3)
	}
	m, n, err = mqttp.Decode(mqttp.ProtocolVersion(ver), rx[:k])
	c.Op(1)
	if !bytes.Equal(rx[:k], in) {
		c.Failf("decoding altered its input: %s became %s", hexs(in), hexs(rx[:k]))
	}
	return
}

// observe reads getters, failing on contradictions between them.
func observe(c *explore.Ctx, m mqttp.IFace) *ref.Packet {
	p, complaint := obs.Packet(m)
	if complaint != "" {
		c.Failf("getters of %s are inconsistent: %s", p.Key(false), complaint)
	}
	return p
}

// judge compares the library's decoding of in with the reference verdict. Returns the packet when
// accepted.
func judge(c *explore.Ctx, ver byte, in []byte) (mqttp.IFace, ref.Result) {
	return judgeIn(c, ver, in, nil)
}

// judgeIn is judge with the receive buffer given.
func judgeIn(c *explore.Ctx, ver byte, in, rx []byte) (mqttp.IFace, ref.Result) {
	res := ref.Decode(ver, in)
	m, n, err := decodeIn(c, ver, in, rx)
	if c.Verbose() {
		c.Logf("decode v%d %s -> n=%d err=%s; reference: %s %s", ver, hexs(in), n, errStr(err), res.V, res.Why)
	}
	if (err == nil) == isNil(m) {
		c.Failf("decode v%d of %s returned packet=%v together with error %s", ver, hexs(in), !isNil(m), errStr(err))
	}
	if err != nil {
		if res.V == ref.Accept {
			c.Failf("decode v%d of %s refused (%s) although well formed: %s", ver, hexs(in), errStr(err), res.P.Key(true))
		}
		return nil, res
	}
	if res.V == ref.Reject {
		p, _ := obs.Packet(m)
		c.Failf("decode v%d of %s accepted although illegal (%s); read as %s", ver, hexs(in), res.Why, p.Key(false))
	}
	if n != len(in) {
		c.Failf("decode v%d of %s succeeded with count %d for %d bytes", ver, hexs(in), n, len(in))
	}
	p := observe(c, m)
	if byte(m.Type()) != in[0]>>4 {
		c.Failf("decode of first byte %#02x gave packet type %d", in[0], m.Type())
	}
	if f, ok := m.(interface{ RemainingLength() int32 }); ok {
		h := 1
		for in[h] >= 0x80 {
			h++
		}
		if int(f.RemainingLength()) != len(in)-h-1 {
			c.Failf("decode v%d of %s reports %d bytes behind the fixed header, there are %d", ver, hexs(in), f.RemainingLength(), len(in)-h-1)
		}
	}
	if f, ok := m.(interface{ Flags() byte }); ok && f.Flags() != in[0]&15 {
		c.Failf("decode of first byte %#02x reports flags %#x", in[0], f.Flags())
	}
	if res.P != nil {
		same(c, "decode v%d of %s", p, res.P, ver, in)
	}
	return m, res
}

func same(c *explore.Ctx, what string, got, want *ref.Packet, ver byte, in []byte) {
	g, w := *got, *want
	if w.Type == ref.CONNECT {
		// getters cannot tell absent from empty
	}
	if g.Type == ref.PUBLISH && g.QoS == 0 {
		g.HasID, w.HasID = false, false
	}
	if gk, wk := g.Key(false), w.Key(false); gk != wk {
		c.Failf(what+": reports %s, on the wire is %s", ver, hexs(in), gk, wk)
	}
}

// encode calls Size and Encode into an exactly fitting dirty buffer.
func encode(c *explore.Ctx, m mqttp.IFace) ([]byte, error) {
	c.Op(2)
	sz, err := m.Size()
	if err != nil {
		return nil, err
	}
	buf := make([]byte, sz+slack)
	for i := range buf {
		buf[i] = 0xA5
	}
	n, err := m.Encode(buf[:sz:sz])
	if err != nil {
		return nil, err
	}
	if n != sz {
		c.Failf("%s announced %d bytes, wrote %d", ref.TypeNames[byte(m.Type())], sz, n)
	}
	return buf[:sz:sz], nil
}

// encodesTo checks that m encodes to bytes meaning exactly want.
func encodesTo(c *explore.Ctx, m mqttp.IFace, want *ref.Packet) []byte {
	out, err := encode(c, m)
	if err != nil {
		c.Failf("encoding %s failed: %s", want.Key(true), errStr(err))
	}
	means(c, out, want)
	return out
}

// means checks that the bytes are a well-formed packet with exactly the content of want.
func means(c *explore.Ctx, out []byte, want *ref.Packet) {
	res := ref.Decode(want.Ver, out)
	if c.Verbose() {
		c.Logf("encoded %s -> %s; reference: %s %s", want.Key(true), hexs(out), res.V, res.Why)
	}
	if res.V == ref.Reject || res.P == nil {
		c.Failf("encoding %s gave %s, which is malformed: %s", want.Key(true), hexs(out), res.Why)
	}
	g, w := *res.P, *want
	if w.Type == ref.PUBLISH && w.QoS == 0 {
		w.HasID, w.ID = false, 0
	}
	if gk, wk := g.Key(true), w.Key(true); gk != wk {
		c.Failf("encoding %s gave %s, which means %s", wk, hexs(out), gk)
	}
}

// buildOpt enumerates the ways to use the API.
func buildOpt(c *explore.Ctx) obs.BuildOpt {
	switch c.Dev(5, 5) {
	case 1:
		return obs.BuildOpt{Generic: true}
	case 2:
		return obs.BuildOpt{MultiProps: true}
	case 3:
		return obs.BuildOpt{BulkSet: true}
	case 4:
		return obs.BuildOpt{PropsFirst: true}
	}
	return obs.BuildOpt{}
}

func build(c *explore.Ctx, p *ref.Packet, o obs.BuildOpt) mqttp.IFace {
	m, err := obs.Build(p, o)
	c.Op(4)
	if err != nil {
		c.Failf("building %s (%+v) failed: %s", p.Key(true), o, errStr(err))
	}
	return m
}

func distinctProps(ps []ref.PropVal) int {
	seen := map[uint32]bool{}
	for _, p := range ps {
		seen[p.ID] = true
	}
	return len(seen)
}

// encodings is how often to encode so that Go's random map order is varied.
func encodings(p *ref.Packet) int {
	n := distinctProps(p.Props)
	if p.Will != nil && distinctProps(p.Will.Props) > n {
		n = distinctProps(p.Will.Props)
	}
	switch {
	case n < 2:
		return 1
	case n == 2:
		return 3
	}
	return 2
}
