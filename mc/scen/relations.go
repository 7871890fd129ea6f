package scen

import (
	"fmt"
	"strings"

	"verifmc/explore"
	"verifmc/ref"
)

// Relations between the fields of one packet: code that compares, deduplicates, interns or derives one
// field from another misbehaves only for packets in which two fields are related, which no enumeration
// of the fields one by one produces.

// slot is a string valued field.
type slot struct {
	name string
	kind byte // c client identifier, t topic, f filter, u text, b bytes
	p    *string
}

// num is a numeric field.
type num struct {
	name string
	bits uint // 16, 32, 28
	get  func() uint32
	set  func(uint32)
}

// packed is a packet of the type in which every optional field and every permitted property is present.
func packed(tt, ver byte) *ref.Packet {
	p := rich(tt, ver)
	section := func(t byte) (out []ref.PropVal) {
		for _, d := range ref.PropsOf(t) {
			out = append(out, sampleProp(d, 0))
			if ref.Repeatable(d.ID, t) {
				out = append(out, sampleProp(d, 1))
			}
		}
		return
	}
	if ver == ref.V5 {
		p.Props = section(tt)
		if p.Will != nil {
			p.Will.Props = section(ref.WillType)
		}
	}
	switch tt {
	case ref.SUBSCRIBE:
		p.Subs = []ref.Sub{{Filter: "r/1", Opt: 2}, {Filter: "r/2", Opt: 1}, {Filter: "r/3"}}
	case ref.UNSUBSCRIBE:
		p.Subs = []ref.Sub{{Filter: "r/1"}, {Filter: "r/2"}, {Filter: "r/3"}}
	}
	return p
}

// propName names the entry by its identifier and occurrence.
func propName(pre string, ps []ref.PropVal, i int) string {
	k := 0
	for _, v := range ps[:i] {
		if v.ID == ps[i].ID {
			k++
		}
	}
	return fmt.Sprintf("%s%#02x#%d", pre, ps[i].ID, k)
}

func propSlots(pre string, ps []ref.PropVal) (out []slot) {
	for i := range ps {
		v := &ps[i]
		n := propName(pre, ps, i)
		switch ref.Prop(v.ID).Kind {
		case ref.KPair:
			out = append(out, slot{n + ".K", 'u', &v.K}, slot{n + ".V", 'u', &v.S})
		case ref.KString:
			k := byte('u')
			if v.ID == 0x08 {
				k = 't'
			}
			out = append(out, slot{n, k, &v.S})
		case ref.KBinary:
			out = append(out, slot{n, 'b', &v.S})
		}
	}
	return
}

// slots of the string fields present in p.
func slots(p *ref.Packet) (out []slot) {
	switch p.Type {
	case ref.CONNECT:
		out = append(out, slot{"client", 'c', &p.ClientID})
		if p.Will != nil {
			out = append(out, slot{"will.topic", 't', &p.Will.Topic}, slot{"will.payload", 'b', &p.Will.Payload})
			out = append(out, propSlots("will.", p.Will.Props)...)
		}
		if p.HasUser {
			out = append(out, slot{"user", 'u', &p.User})
		}
		if p.HasPass {
			out = append(out, slot{"pass", 'b', &p.Pass})
		}
	case ref.PUBLISH:
		out = append(out, slot{"topic", 't', &p.Topic}, slot{"payload", 'b', &p.Payload})
	}
	for i := range p.Subs {
		out = append(out, slot{fmt.Sprintf("filter#%d", i), 'f', &p.Subs[i].Filter})
	}
	return append(out, propSlots("", p.Props)...)
}

func propNums(pre string, ps []ref.PropVal) (out []num) {
	for i := range ps {
		v := &ps[i]
		n := num{propName(pre, ps, i), 0, func() uint32 { return v.U }, func(x uint32) { v.U = x }}
		switch ref.Prop(v.ID).Kind {
		case ref.KShort:
			n.bits = 16
		case ref.KInt:
			n.bits = 32
		case ref.KVar:
			n.bits = 28
		default:
			continue
		}
		out = append(out, n)
	}
	return
}

// nums are the numeric fields present in p.
func nums(p *ref.Packet) (out []num) {
	if p.HasID {
		out = append(out, num{"id", 16, func() uint32 { return uint32(p.ID) }, func(x uint32) { p.ID = uint16(x) }})
	}
	if p.Type == ref.CONNECT {
		out = append(out, num{"keepalive", 16, func() uint32 { return uint32(p.KeepAlive) }, func(x uint32) { p.KeepAlive = uint16(x) }})
		if p.Will != nil {
			out = append(out, propNums("will.", p.Will.Props)...)
		}
	}
	return append(out, propNums("", p.Props)...)
}

// dropProps keeps the properties one of whose slots or numbers is wanted, with the earlier occurrences.
func dropProps(pre string, ps []ref.PropVal, want map[string]bool) (out []ref.PropVal) {
	for i, v := range ps {
		for j := i; j < len(ps); j++ {
			n := propName(pre, ps, j)
			if ps[j].ID == v.ID && (want[n] || want[n+".K"] || want[n+".V"]) {
				out = append(out, v)
				break
			}
		}
	}
	return
}

// stripped is packed without the optional fields that are not wanted.
func stripped(tt, ver byte, want map[string]bool) *ref.Packet {
	p := packed(tt, ver)
	if p.Type == ref.CONNECT {
		p.HasUser = want["user"] || want["pass"] && ver != ref.V5
		p.HasPass = want["pass"]
		if !p.HasUser {
			p.User = ""
		}
		if !p.HasPass {
			p.Pass = ""
		}
		will := want["will.topic"] || want["will.payload"]
		for n := range want {
			will = will || strings.HasPrefix(n, "will.")
		}
		if !will {
			p.Will = nil
		} else {
			p.Will.Props = dropProps("will.", p.Will.Props, want)
		}
	}
	p.Props = dropProps("", p.Props, want)
	if len(p.Subs) > 0 {
		var subs []ref.Sub
		for i := range p.Subs {
			if want[fmt.Sprintf("filter#%d", i)] {
				subs = p.Subs[:i+1]
			}
		}
		if len(subs) == 0 {
			subs = p.Subs[:1]
		}
		p.Subs = subs
	}
	return p
}

// fit makes s legal for the slot, "" when it cannot be.
func (s slot) fit(v string, p *ref.Packet) bool {
	switch s.kind {
	case 't', 'f':
		if v == "" && s.name != "0x08" && !strings.HasPrefix(s.name, "0x08") && !strings.HasPrefix(s.name, "will.0x08") {
			return false
		}
	case 'c':
		if v == "" && p.Ver != ref.V5 && !p.Clean {
			return false
		}
		if !ref.LegalClientID([]byte(v)) {
			return false
		}
	}
	if s.name == "user" && v == "" || s.name == "pass" && v == "" || s.name == "will.payload" && v == "" {
		return false // the setters take an empty value as absence
	}
	if s.kind == 'f' {
		verdict, _ := ref.Filter([]byte(v))
		return verdict == ref.Accept
	}
	if s.kind == 't' && !ref.LegalTopicName([]byte(v)) {
		return false
	}
	if s.kind == 'u' && !ref.LegalString([]byte(v)) {
		return false
	}
	return len(v) <= 65535
}

func reversed(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

// related pairs of strings over a base string.
func relatives(s string) [][2]string {
	return [][2]string{{s, s}, {s, s + "/x"}, {s + "/x", s}, {s, "x/" + s}, {"x/" + s, s}, {s, "x" + s + "y"}, {"x" + s + "y", s},
		{s, reversed(s)}, {s, strings.ToUpper(s)}, {strings.ToUpper(s), s}, {s, s + " "}, {s + " ", s}, {s, ""}, {"", s}, {s, s[:len(s)-1] + "_"}}
}

var relBases = []string{"a", "ab", "a/b", "dev1", "group/one", fill[:25], fill[:127], fill[:128], fill[:255]}

var relWords = []string{"MQTT", "MQIsdp", "null", "nil", "true", "0", "guest", "admin", "anonymous", "default", "client", "server", "utf-8", "text/plain",
	"$SYS", "$SYS/broker", "$share/g/t", "$queue/t", "/", "//", "a//b", "/a", "a/", " ", "  ", " a", "a ", "a b", ".", "..", "-", "_", "%", "%s", "*", "?", "\\", "'", "\"", "${x}", "\ufeff", "\ufffd", "é", "中", "\U0001F600", "e\u0301",
	"\x00", "\xff", "\x00\x00", "a\x00", "\x00a", "\r\n", "{}", "[]", "0x0", "-1", "1.5"}

// related enumerates packets with related fields. how selects which packets a visitor wants.
func related(name string, ts []byte, vers []byte, visit func(c *explore.Ctx, p *ref.Packet)) *explore.Scenario {
	return &explore.Scenario{
		Name: name,
		Note: "packets in which fields are related: every two string fields equal, one a prefix, suffix or part of the other, equal up to case, spelled backwards, differing in the last byte, one empty (9 base strings), in packets with every optional field and property (sections in ascending and descending order) and in packets with only these two; every three fields equal; every pair of lengths out of 0, 1, 127, 128, 255, 256; every numeric field equal to every other one, spelled in every string field, to the length of every string field, to the remaining length, the body and the number of entries; every string field of each length 0..300, of each first and last character, out of a list of words, and with the encoding of the packet or another field in it",
		Run: func(c *explore.Ctx) {
			tt, ver := typeVer(c, ts)
			if vers != nil && !strings.Contains(string(vers), string([]byte{ver})) {
				c.Prune()
			}
			n := 0
			try := func(p *ref.Packet) {
				n++
				if n%64 == 0 {
					c.Beat()
				}
				visit(c, p)
			}
			full := func(rev bool) *ref.Packet {
				p := packed(tt, ver)
				if rev {
					revProps(p)
				}
				return p
			}
			base := full(false)
			ss, ns := slots(base), nums(base)
			switch kind := c.Pick(6); kind {
			case 0: // two fields
				if len(ss) < 2 {
					c.Prune()
				}
				i := c.Pick(len(ss))
				for j := range ss {
					if j <= i {
						continue
					}
					for ctx := 0; ctx < 3; ctx++ {
						for _, b := range relBases {
							for _, r := range relatives(b) {
								var p *ref.Packet
								if ctx == 2 {
									p = stripped(tt, ver, map[string]bool{ss[i].name: true, ss[j].name: true})
								} else {
									p = full(false)
								}
								if setSlots(p, ss, []int{i, j}, r[:]) {
									if ctx == 1 {
										revProps(p)
									}
									try(p)
								}
							}
						}
					}
				}
			case 1: // three fields equal, all fields equal
				if len(ss) < 3 {
					c.Prune()
				}
				i := c.Pick(len(ss))
				for j := i + 1; j < len(ss); j++ {
					for k := j + 1; k < len(ss); k++ {
						p := full(false)
						if setSlots(p, ss, []int{i, j, k}, []string{"same", "same", "same"}) {
							try(p)
						}
					}
				}
				if i == 0 {
					for _, b := range relBases {
						p := full(false)
						for _, s := range slots(p) {
							if s.fit(b, p) {
								*s.p = b
							}
						}
						try(p)
					}
				}
			case 2: // lengths of two fields
				if len(ss) < 2 {
					c.Prune()
				}
				i := c.Pick(len(ss))
				for j := i + 1; j < len(ss); j++ {
					for _, a := range []int{0, 1, 127, 128, 255, 256} {
						for _, b := range []int{0, 1, 127, 128, 255, 256} {
							p := full(false)
							if setSlots(p, ss, []int{i, j}, []string{fill[:a], fill[7 : 7+b]}) {
								try(p)
							}
						}
					}
				}
			case 3: // one field: lengths, characters, words, encodings
				if len(ss) == 0 {
					c.Prune()
				}
				i := c.Pick(len(ss))
				one := func(v string) {
					p := full(false)
					if setSlots(p, ss, []int{i}, []string{v}) {
						try(p)
					}
				}
				for l := 0; l <= 300; l++ {
					one(fill[:l])
				}
				for r := rune(0x20); r < 0x180; r++ {
					s := string(r)
					one(s)
					one(s + "ab")
					one("ab" + s)
					one("a" + s + "b")
					one(s + "ab" + s)
					one(s + s)
				}
				for _, w := range relWords {
					one(w)
					one(w + "x")
					one("x" + w)
				}
				w := base.Encode(true)
				one(string(w))
				one(string(w[1:]))
				for _, s := range ss {
					one(string(ref.LP(nil, *s.p)))
					one(string(ref.LP(nil, *s.p)) + "x")
				}
				one(string(ref.PropSection(nil, base.Props)))
				one("\x00\x00")
				one("\x00\x00\x00\x00")
			case 4: // a number and a number
				if len(ns) < 2 {
					c.Prune()
				}
				i := c.Pick(len(ns))
				for j := range ns {
					if i == j {
						continue
					}
					for ctx := 0; ctx < 2; ctx++ {
						for _, v := range []uint32{1, 2, 7, 10, 127, 128, 255, 256, 1000, 16384, 65535} {
							for _, d := range []uint32{0, 1} {
								p := full(false)
								if ctx == 1 {
									p = stripped(tt, ver, map[string]bool{ns[i].name: true, ns[j].name: true})
								}
								if v+d <= 65535 && setNum(p, ns[i].name, v) && setNum(p, ns[j].name, v+d) {
									try(p)
								}
							}
						}
					}
				}
			case 5: // a number and a length
				if len(ns) == 0 {
					c.Prune()
				}
				i := c.Pick(len(ns))
				for _, l := range []int{1, 2, 3, 5, 23, 64, 100, 127, 128, 200, 255, 256, 300} {
					for j := range ss {
						for d := -1; d <= 1; d++ {
							p := full(false)
							if l+d > 0 && setSlots(p, ss, []int{j}, []string{fill[:l]}) {
								setNum(p, ns[i].name, uint32(l+d))
								try(p)
							}
							p = stripped(tt, ver, map[string]bool{ss[j].name: true, ns[i].name: true})
							if d == 0 && setSlots(p, ss, []int{j}, []string{fill[:l]}) {
								setNum(p, ns[i].name, uint32(l))
								try(p)
							}
						}
					}
				}
				for j := range ss { // a number and its own bytes in a text
					for _, v := range []uint32{0x0001, 0x0161, 0x6100, 0x6161, 0x6162, 0x3130} {
						be := string([]byte{byte(v >> 8), byte(v)})
						for _, w := range []string{be, be + "xyz", "xyz" + be, "xy" + be + "z", "\x00\x00" + be, be + be, string([]byte{byte(v), byte(v >> 8)}) + "xyz", string(ref.Varint(nil, v)) + "xyz", fmt.Sprint(v)} {
							for ctx := 0; ctx < 2; ctx++ {
								p := full(false)
								if ctx == 1 {
									p = stripped(tt, ver, map[string]bool{ss[j].name: true, ns[i].name: true})
								}
								if setSlots(p, ss, []int{j}, []string{w}) && setNum(p, ns[i].name, v) {
									try(p)
								}
							}
						}
					}
				}
				for ctx := 0; ctx < 2; ctx++ {
					for what := 0; what < 5; what++ {
						p := full(false)
						if ctx == 1 {
							p = stripped(tt, ver, map[string]bool{ns[i].name: true})
						}
						for k := 0; k < 3; k++ { // the number may change the length of its own encoding
							v := 0
							switch what {
							case 0:
								v = len(p.Encode(true))
							case 1:
								v = len(p.Body(true))
							case 2:
								v = len(ref.PropSection(nil, p.Props))
							case 3:
								v = len(p.Subs) + len(p.Codes)
							case 4:
								v = len(p.Props)
							}
							if v > 0 {
								setNum(p, ns[i].name, uint32(v))
							}
						}
						try(p)
					}
				}
			}
			if n > 0 {
				c.Bulk(n)
			}
			c.Sample(func() string { return base.Key(true) })
		},
	}
}

func revProps(p *ref.Packet) {
	rev := func(ps []ref.PropVal) {
		// occurrences of one identifier keep their order
		var groups [][]ref.PropVal
		for i, v := range ps {
			if i > 0 && ps[i-1].ID == v.ID {
				groups[len(groups)-1] = append(groups[len(groups)-1], v)
			} else {
				groups = append(groups, []ref.PropVal{v})
			}
		}
		k := 0
		for i := len(groups) - 1; i >= 0; i-- {
			k += copy(ps[k:], groups[i])
		}
	}
	cp := append([]ref.PropVal(nil), p.Props...)
	rev(cp)
	p.Props = cp
	if p.Will != nil {
		cp := append([]ref.PropVal(nil), p.Will.Props...)
		rev(cp)
		p.Will.Props = cp
	}
}

// setSlots gives the fields named as in ss new values; false when a value is not legal there.
func setSlots(p *ref.Packet, ss []slot, idx []int, vals []string) bool {
	have := slots(p)
	for k, i := range idx {
		done := false
		for _, s := range have {
			if s.name == ss[i].name {
				if !s.fit(vals[k], p) {
					return false
				}
				*s.p = vals[k]
				done = true
			}
		}
		if !done {
			return false
		}
	}
	return true
}

func setNum(p *ref.Packet, name string, v uint32) bool {
	for _, n := range nums(p) {
		if n.name == name {
			if n.bits == 16 && v > 65535 {
				return false
			}
			n.set(v)
			return true
		}
	}
	return false
}
