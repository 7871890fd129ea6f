package scen

import (
	"strings"

	"verifmc/explore"
	"verifmc/ref"
)

// gen enumerates legal packets; every field is a deviation from a small default.
type gen struct {
	c     *explore.Ctx
	api   bool // only what the public setters can build
	noExt bool // skip the long extended domains
	rot   int  // the base of every field is its rot-th core value: 0 small packets, else packets with every field present
}

func span(lo, hi int) (out []int) {
	for i := lo; i <= hi; i++ {
		out = append(out, i)
	}
	return
}

func join(l ...[]int) (out []int) {
	for _, x := range l {
		out = append(out, x...)
	}
	return
}

// lengths people write down as limits
var roundLens = []int{350, 400, 499, 500, 501, 600, 640, 700, 750, 768, 800, 900, 999, 1000, 1001, 1200, 1400, 1460, 1500, 1501, 1536, 2000, 2047, 2048, 2049, 2500, 3000, 3072, 4000, 5000, 5001, 6000, 7000, 8000, 9000, 9999, 10000, 10001, 12000, 12288, 15000, 20000, 24576, 25000, 30000, 32000, 40000, 45000, 48000, 49152, 50000, 55000, 60000, 64000, 65000, 65500}
var strLens = join(span(1, 300), span(508, 516), span(1020, 1028), span(4090, 4100), span(8190, 8194), span(16340, 16400), span(32766, 32769), span(65530, 65535), roundLens)
var bigLens = join([]int{65536, 65537, 70000, 131072}, span(2097100, 2097170))

var fill = strings.Repeat("abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_-", 1100)

func (g *gen) dev(core, full int) int {
	if g.noExt {
		full = core
	}
	v := g.c.Dev(core, full)
	if g.rot > 0 && v < core {
		v = (v + g.rot) % core
	}
	return v
}

func (g *gen) str(core []string, lens []int) string {
	v := g.dev(len(core), len(core)+len(lens))
	if v < len(core) {
		return core[v]
	}
	n := lens[v-len(core)]
	if n <= len(fill) {
		return fill[:n]
	}
	return strings.Repeat("x", n)
}

var idCore = []uint16{1, 256, 65535, 0x0102}
var idExt = []uint16{2, 3, 127, 128, 129, 254, 255, 257, 511, 512, 0x0a0d, 4095, 4096, 10000, 16383, 16384, 32767, 32768, 32769, 0xff00, 0xfffe}

func (g *gen) id() uint16 {
	v := g.dev(len(idCore), len(idCore)+len(idExt))
	if v < len(idCore) {
		return idCore[v]
	}
	return idExt[v-len(idCore)]
}

var u32Ext = func() (out []uint32) {
	for i := uint(0); i < 32; i++ {
		out = append(out, 1<<i, 1<<i-1, 1<<i+1)
	}
	return append(out, 0x01020304, 0xFFFFFFFE, 10, 60, 100, 300, 600, 999, 1000, 1001, 3600, 9999, 10000, 86400, 99999, 100000, 604800, 999999, 1000000, 2592000, 31536000, 1000000000, 2000000000, 3000000000, 4000000000)
}()
var u16Ext = func() (out []uint32) {
	for i := uint(0); i < 16; i++ {
		out = append(out, 1<<i, 1<<i-1, 1<<i+1)
	}
	return append(out, 0x0102, 0xFFFE, 10, 30, 60, 100, 120, 300, 600, 900, 999, 1000, 1001, 1800, 3600, 5000, 9999, 10000, 18000, 20000, 30000, 43200, 50000, 60000, 65000)
}()
var varExt = []uint32{10, 50, 200, 500, 999, 1000, 1001, 5000, 10000, 50000, 99999, 100000, 500000, 1000000, 1000001, 10000000, 100000000, 2, 63, 64, 100, 126, 127, 128, 129, 255, 256, 300, 8192, 16382, 16383, 16384, 16385, 65535, 65536, 1 << 20, 2097150, 2097151, 2097152, 2097153, 1 << 27, 268435454, 268435455}

var userLists = [][]ref.PropVal{
	{{ID: 0x26, K: "k", S: "v"}},
	{{ID: 0x26, K: "k", S: "v"}, {ID: 0x26, K: "k", S: "w"}},
	{{ID: 0x26, K: "", S: ""}},
	{{ID: 0x26, K: "k", S: "v"}, {ID: 0x26, K: "k", S: "v"}, {ID: 0x26, K: "a", S: "é中"}},
	{{ID: 0x26, K: "z", S: ""}, {ID: 0x26, K: "", S: "y"}},
}
var subIDLists = [][]uint32{{1}, {1, 2}, {300, 1, 300}, {268435455}, {128}, {2, 1}}

// prop chooses a value list for d; nil = absent.
func (g *gen) prop(d *ref.PropDef, t byte) []ref.PropVal {
	one := func(u uint32) []ref.PropVal { return []ref.PropVal{{ID: d.ID, U: u}} }
	switch d.Kind {
	case ref.KByte:
		v := g.dev(3, 3)
		if v == 0 {
			return nil
		}
		return one(uint32(v & 1))
	case ref.KShort:
		core := []uint32{0, 1, 65535, 0x0102}
		v := g.dev(len(core), len(core)+len(u16Ext))
		if v == 0 {
			return nil
		}
		if v < len(core) {
			return one(core[v])
		}
		return one(u16Ext[v-len(core)])
	case ref.KInt:
		core := []uint32{0, 1, 0xFFFFFFFF, 0x01020304, 0}
		v := g.dev(len(core), len(core)+len(u32Ext))
		if v == 0 {
			return nil
		}
		if v < len(core) {
			return one(core[v])
		}
		return one(u32Ext[v-len(core)])
	case ref.KVar:
		lists := subIDLists
		if !ref.Repeatable(d.ID, t) {
			lists = [][]uint32{{1}, {128}, {268435455}}
		}
		v := g.dev(len(lists)+1, len(lists)+1+len(varExt))
		if v == 0 {
			return nil
		}
		if v <= len(lists) {
			var out []ref.PropVal
			for _, u := range lists[v-1] {
				out = append(out, ref.PropVal{ID: d.ID, U: u})
			}
			return out
		}
		return one(varExt[v-len(lists)-1])
	case ref.KString, ref.KBinary:
		core := []string{"", "s", "é/中", "s s"}
		if d.Kind == ref.KBinary {
			core[2], core[3] = "\x00\xff\x80", "\x00\x00"
		}
		// 0 absent, then core values, then the empty string, then lengths
		v := g.dev(len(core)+1, len(core)+1+len(strLens))
		switch {
		case v == 0:
			return nil
		case v < len(core):
			return []ref.PropVal{{ID: d.ID, S: core[v]}}
		case v == len(core):
			return []ref.PropVal{{ID: d.ID, S: ""}}
		}
		return []ref.PropVal{{ID: d.ID, S: fill[:strLens[v-len(core)-1]]}}
	case ref.KPair:
		many := []int{4, 5, 8, 16, 17, 31, 32, 33, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1001, 1024, 1025, 2049, 4097, 5000}
		n := len(userLists) + 1
		v := g.dev(n, n+2*len(strLens)+len(many))
		switch {
		case v == 0:
			return nil
		case v < n:
			return userLists[v-1]
		case v < n+len(strLens):
			return []ref.PropVal{{ID: d.ID, K: fill[:strLens[v-n]], S: "v"}}
		case v < n+2*len(strLens):
			return []ref.PropVal{{ID: d.ID, K: "k", S: fill[:strLens[v-n-len(strLens)]]}}
		}
		var out []ref.PropVal
		for i := 0; i < many[v-n-2*len(strLens)]; i++ {
			out = append(out, ref.PropVal{ID: d.ID, K: fill[i : i+1+i%3], S: fill[i%7 : i%7+i%5]})
		}
		return out
	}
	return nil
}

// props enumerates property lists for t.
func (g *gen) props(t byte) []ref.PropVal {
	var out []ref.PropVal
	multi := 0
	for _, d := range ref.PropsOf(t) {
		l := g.prop(d, t)
		if len(l) > 0 {
			multi++
		}
		out = append(out, l...)
	}
	return g.order(out, multi)
}

// order permutes occurrences on the wire (occurrences of one identifier keep their order).
func (g *gen) order(ps []ref.PropVal, distinct int) []ref.PropVal {
	if g.api || distinct < 2 {
		return ps
	}
	switch g.dev(3, 3) {
	case 1: // identifiers reversed
		var out []ref.PropVal
		for i := len(ps) - 1; i >= 0; {
			j := i
			for j > 0 && ps[j-1].ID == ps[i].ID {
				j--
			}
			out = append(out, ps[j:i+1]...)
			i = j - 1
		}
		return out
	case 2: // occurrences interleaved round-robin
		var out []ref.PropVal
		used := make([]bool, len(ps))
		for len(out) < len(ps) {
			last := map[uint32]bool{}
			for i := range ps {
				if !used[i] && !last[ps[i].ID] {
					used[i], last[ps[i].ID] = true, true
					out = append(out, ps[i])
				}
			}
		}
		return out
	}
	return ps
}

var topicCore = []string{"t", "a/b", "/", "$SYS/x", "é/中/\U0001D11E", "a b", "\ufefft", "$share/g/t"}
var filterCore = []string{"a", "a/b", "#", "+", "a/+/#", "$share/g/x/#", "$SYS/+", "é/中", "/", "//", "$share/g/$x/y", " ", "$share/g/$share/h/+", "$SHARE/g/t"}
var optV5 = []byte{0, 1, 2, 0x04, 0x08, 0x10, 0x20, 0x2D, 0x1E}
var payloadCore = []string{"p", "", "\x00", "\xff\xfe\x80", "payload \x00 with é", fill[:130]}

func (g *gen) subs(t, ver byte) []ref.Sub {
	counts := []int{1, 2, 3, 4, 5}
	ext := join(span(6, 70), []int{100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 1000, 1001, 1024, 1025, 2048, 2049, 3000, 4096, 4097, 5000, 8193, 10001})
	k := g.dev(len(counts), len(counts)+len(ext))
	var out []ref.Sub
	if k >= len(counts) {
		n := ext[k-len(counts)]
		for i := 0; i < n; i++ {
			s := ref.Sub{Filter: fill[i%60 : i%60+1+i%4]}
			if t == ref.SUBSCRIBE {
				s.Opt = byte(i % 3)
			}
			out = append(out, s)
		}
		return out
	}
	for i := 0; i < counts[k]; i++ {
		s := ref.Sub{}
		if i < 3 {
			s.Filter = g.str(filterCore, strLens)
		} else {
			s.Filter = "a"
		}
		if t == ref.SUBSCRIBE && i < 3 {
			if ver == ref.V5 {
				ext := 0
				if !g.noExt {
					ext = 48
				}
				o := g.dev(len(optV5), len(optV5)+ext)
				if o < len(optV5) {
					s.Opt = optV5[o]
				} else {
					x := o - len(optV5) // qos 0..2, nl, rap, rh 0..2 (RH 3 is illegal)
					s.Opt = byte(x%3) | byte(x/3%4)<<2 | byte(x/12%4)<<4
					if s.Opt&0x30 == 0x30 {
						s.Opt &^= 0x10
					}
				}
				if strings.HasPrefix(s.Filter, "$share/") {
					s.Opt &^= 4
				}
			} else {
				s.Opt = byte(g.dev(3, 3))
			}
		}
		out = append(out, s)
	}
	return out
}

func (g *gen) codes(t, ver byte) []byte {
	all := ref.CodesV3(t)
	if ver == ref.V5 {
		all = ref.CodesV5(t)
	}
	if len(all) == 0 {
		return nil
	}
	counts := []int{1, 2, 3}
	ext := join(span(4, 40), []int{64, 65, 100, 101, 125, 126, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1001, 1024, 1025, 2049, 4096, 4097, 5000, 10001})
	k := g.dev(len(counts), len(counts)+len(ext))
	var out []byte
	if k >= len(counts) {
		for i := 0; i < ext[k-len(counts)]; i++ {
			out = append(out, all[i%len(all)])
		}
		return out
	}
	for i := 0; i < counts[k]; i++ {
		out = append(out, all[g.dev(len(all), len(all))])
	}
	return out
}

func (g *gen) code(t byte) byte {
	all := ref.CodesV5(t)
	return all[g.dev(len(all), len(all))]
}

// packet enumerates packets of type t, version ver.
func (g *gen) packet(t, ver byte) *ref.Packet {
	p := &ref.Packet{Type: t, Ver: ver}
	v5 := ver == ref.V5
	switch t {
	case ref.CONNECT:
		p.ClientID = g.str([]string{"c", "", "Client-0 1_2,3.4|5/6", "abcdefghijklmnopqrstuvw0"}, strLens)
		p.Clean = g.dev(2, 2) == 0
		if p.ClientID == "" && !v5 {
			p.Clean = true
		}
		ka := g.dev(4, 4+len(u16Ext))
		if ka < 4 {
			p.KeepAlive = []uint16{60, 0, 65535, 0x0102}[ka]
		} else {
			p.KeepAlive = uint16(u16Ext[ka-4])
		}
		// user, password: 0 none
		us := []string{"", "u", "é u"}
		ps := []string{"", "p", "\x00\xff"}
		u := g.dev(3, 3+len(strLens))
		if u > 0 {
			p.HasUser = true
			if u < 3 {
				p.User = us[u]
			} else {
				p.User = fill[:strLens[u-3]]
			}
		}
		if p.HasUser || v5 {
			x := g.dev(3, 3+len(strLens))
			if x > 0 {
				p.HasPass = true
				if x < 3 {
					p.Pass = ps[x]
				} else {
					p.Pass = fill[:strLens[x-3]]
				}
			}
		}
		if !g.api {
			// present but empty credentials
			switch g.c.Dev(3, 3) {
			case 1:
				p.HasUser, p.User = true, ""
			case 2:
				p.HasPass, p.Pass = true, ""
				if !v5 {
					p.HasUser = true
				}
			}
		}
		if g.dev(2, 2) == 1 {
			w := &ref.Will{}
			w.Topic = g.str(topicCore, strLens)
			pc := []string{"m", "\x00\xff", fill[:130]}
			if !g.api {
				pc = append(pc, "")
			}
			w.Payload = g.str(pc, strLens)
			w.QoS = byte(g.dev(3, 3))
			w.Retain = g.dev(2, 2) == 1
			if v5 {
				w.Props = g.props(ref.WillType)
			}
			p.Will = w
		}
		if v5 {
			p.Props = g.props(t)
		}
	case ref.CONNACK:
		p.SessionPresent = g.dev(2, 2) == 1
		all := ref.CodesV3(t)
		if v5 {
			all = ref.CodesV5(t)
		}
		p.Code = all[g.dev(len(all), len(all))]
		if v5 {
			p.Props = g.props(t)
		}
	case ref.PUBLISH:
		p.Topic = g.str(topicCore, strLens)
		p.QoS = byte(g.dev(3, 3))
		p.Retain = g.dev(2, 2) == 1
		if p.QoS > 0 {
			p.Dup = g.dev(2, 2) == 1
			p.ID, p.HasID = g.id(), true
		}
		p.Payload = g.str(payloadCore, append(append([]int(nil), strLens...), bigLens...))
		if v5 {
			p.Props = g.props(t)
			hasAlias := false
			for _, x := range p.Props {
				if x.ID == 0x23 && x.U > 0 {
					hasAlias = true
				}
			}
			if hasAlias && g.c.Dev(2, 2) == 1 {
				p.Topic = ""
			}
		}
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP:
		p.ID, p.HasID = g.id(), true
		if v5 {
			p.Code = g.code(t)
			p.Props = g.props(t)
		}
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		p.ID, p.HasID = g.id(), true
		if v5 {
			p.Props = g.props(t)
		}
		p.Subs = g.subs(t, ver)
	case ref.SUBACK, ref.UNSUBACK:
		p.ID, p.HasID = g.id(), true
		if v5 {
			p.Props = g.props(t)
		}
		p.Codes = g.codes(t, ver)
	case ref.DISCONNECT, ref.AUTH:
		if v5 {
			p.Code = g.code(t)
			p.Props = g.props(t)
			if t == ref.AUTH && len(p.Props) > 0 {
				has := false
				for _, x := range p.Props {
					has = has || x.ID == 0x15
				}
				if !has && p.Code != 0 {
					p.Props = append(p.Props, ref.PropVal{ID: 0x15, S: "m"})
				}
			}
		}
	}
	return p
}

// typeVer enumerates the packet types of every version among ts (all when nil).
func typeVer(c *explore.Ctx, ts []byte) (t, ver byte) {
	ver = []byte{ref.V5, ref.V311, ref.V31}[c.Pick(3)]
	if ts == nil {
		n := 15
		if ver != ref.V5 {
			n = 14
		}
		return byte(1 + c.Pick(n)), ver
	}
	t = ts[c.Pick(len(ts))]
	if t == ref.AUTH && ver != ref.V5 {
		c.Prune()
	}
	return t, ver
}
