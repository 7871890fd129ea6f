package scen

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"

	"github.com/VolantMQ/vlapi/mqttp"
	"github.com/VolantMQ/vlapi/vlauth"
	"github.com/VolantMQ/vlapi/vlpersistence"
	"github.com/VolantMQ/vlapi/vltypes"

	"verifmc/explore"
	"verifmc/obs"
	"verifmc/ref"
)

// ---- C13 -------------------------------------------------------------------------------------

// topicCase checks every entry point taking a filter or a topic name against the grammar.
func topicCase(c *explore.Ctx, b []byte, wire bool) {
	v, fi := ref.Filter(b)
	in := append([]byte(nil), b...)
	check := func(what string, t *mqttp.Topic, err error, opt byte) {
		if (err == nil) != (t != nil) {
			c.Failf("%s(%q) returned topic=%v with error %s", what, b, t != nil, errStr(err))
		}
		if err != nil {
			if v == ref.Accept {
				c.Failf("%s(%q) refused (%s) although legal", what, b, errStr(err))
			}
			return
		}
		if v == ref.Reject {
			c.Failf("%s(%q) accepted although illegal; reads filter %q share %q", what, b, t.Filter(), t.ShareName())
		}
		if t.Full() != string(b) {
			c.Failf("%s(%q).Full() is %q", what, b, t.Full())
		}
		if cc := obs.Topic(t); cc != "" {
			c.Failf("%s(%q): %s", what, b, cc)
		}
		if byte(t.Ops()) != opt {
			c.Failf("%s(%q, %#x) holds options %#x", what, b, opt, byte(t.Ops()))
		}
		_ = fi
	}
	t, err := mqttp.NewTopic(in)
	check("NewTopic", t, err, 0)
	t, err = mqttp.NewSubscribeTopic(in, 1)
	check("NewSubscribeTopic", t, err, 1)
	name := ref.LegalTopicName(b)
	if got := mqttp.ValidTopic(in); got != name {
		c.Failf("ValidTopic(%q) is %v", b, got)
	}
	for _, ver := range []byte{ref.V5, ref.V311} {
		p := mqttp.NewPublish(mqttp.ProtocolVersion(ver))
		err := p.SetTopic(string(b))
		want := name && (ver == ref.V5 || len(b) > 0)
		if (err == nil) != want {
			c.Failf("SetTopic(%q) on a v%d PUBLISH gives %s", b, ver, errStr(err))
		}
		if want && p.Topic() != string(b) || !want && p.Topic() != "" {
			c.Failf("after SetTopic(%q) (%s) the topic is %q", b, errStr(err), p.Topic())
		}
		p = mqttp.NewPublish(mqttp.ProtocolVersion(ver))
		if err := p.Set(string(b), []byte("x"), 0, false, false); (err == nil) != name && len(b) > 0 {
			c.Failf("Publish.Set(%q) on v%d gives %s", b, ver, errStr(err))
		}
	}
	if len(b) > 0 && ref.LegalString(b) {
		f, n, s := ref.Wildcards(string(b))
		for _, x := range []struct {
			what string
			re   *regexp.Regexp
			want bool
		}{{"TopicFilterRegexp", mqttp.TopicFilterRegexp, f}, {"TopicPublishRegexp", mqttp.TopicPublishRegexp, n}, {"SharedTopicRegexp", mqttp.SharedTopicRegexp, s}, {"BasicUTFRegexp", mqttp.BasicUTFRegexp, true}} {
			if got := x.re.Match(in); got != x.want {
				c.Failf("%s matches %q: %v", x.what, b, got)
			}
		}
	}
	if !bytes.Equal(in, b) {
		c.Failf("handling topic %q altered it to %q", b, in)
	}
	if wire {
		body := append([]byte{0, 9}, ref.LP(nil, string(b))...)
		judge(c, ref.V311, ref.Frame(0x82, append(append([]byte(nil), body...), 1)))
		judge(c, ref.V311, ref.Frame(0xA2, body))
		judge(c, ref.V311, ref.Frame(0x30, ref.LP(nil, string(b))))
	}
	c.Op(8)
}

var topicSyms = []string{"a", "/", "+", "#", "$", "é", "\x01", "share"}
var topicSymsFull = []string{"a", "/", "+", "#", "$", "é", "中", "\x01", "\x7f", " ", "share", "\xff"}

func scenC13(t Tier) []*explore.Scenario {
	all := func(name string, syms []string, prefixes []string, depth int, wire bool, note string) *explore.Scenario {
		return &explore.Scenario{Name: name, Note: note, Run: func(c *explore.Ctx) {
			pre := prefixes[c.Pick(len(prefixes))]
			a, b := c.Pick(len(syms)+1), c.Pick(len(syms)+1)
			if a == 0 && b > 0 {
				c.Prune()
			}
			s := []byte(pre)
			if a > 0 {
				s = append(s, syms[a-1]...)
			}
			if b > 0 {
				s = append(s, syms[b-1]...)
			}
			n := 0
			var rec func(s []byte, left int)
			rec = func(s []byte, left int) {
				topicCase(c, s, wire)
				n++
				if left == 0 {
					return
				}
				for _, x := range syms {
					rec(append(s[:len(s):len(s)], x...), left-1)
				}
			}
			left := 0
			if b > 0 {
				left = depth - 2
			}
			rec(s, left)
			c.Bulk(n)
			c.Sample(func() string { return fmt.Sprintf("%q followed by all strings of <=%d symbols", s, left) })
		}}
	}
	return []*explore.Scenario{
		all("C13/strings", topicSyms, []string{""}, t.pick(6, 7), false, "every string of <=6 (7) symbols over {a / + # $ é U+0001 share}: NewTopic, NewSubscribeTopic, ValidTopic, SetTopic, Publish.Set and all accessors"),
		all("C13/shared", topicSyms, []string{"$share/", "$share/a", "$share/a/", "$shar/", "$sharex/", "/$share/", "$share//", "$SYS/", "$", "$share", "$/share/", "$share/a/$share/", "$SHARE/", "$Share/a/"}, t.pick(4, 5), true, "fourteen prefixes around $share/ followed by every string of <=4 (5) symbols, also on the wire in SUBSCRIBE, UNSUBSCRIBE and PUBLISH"),
		all("C13/wide", topicSymsFull, []string{"", "a/", "+/"}, t.pick(4, 5), true, "every string of <=4 (5) symbols over a 12-symbol alphabet with more multi-byte runes, space, DEL and an ill-formed byte, also on the wire"),
		{Name: "C13/ascii", Note: "every one- and two-byte string over the 128 ASCII characters (and every byte alone) in eight places of a filter or name: alone, as first, middle or last level, below $share; also on the wire in SUBSCRIBE, UNSUBSCRIBE and PUBLISH", Run: func(c *explore.Ctx) {
			x := c.Pick(256)
			shape := [][2]string{{"", ""}, {"a/", ""}, {"", "/a"}, {"a/", "/#"}, {"+/", "/+"}, {"$share/g/", ""}, {"$share/", "/a"}, {"$share/g/a/", "/b"}}[c.Pick(8)]
			n := 1
			topicCase(c, []byte(shape[0]+string([]byte{byte(x)})+shape[1]), true)
			if x < 128 {
				for y := 0; y < 128; y++ {
					topicCase(c, []byte(shape[0]+string([]byte{byte(x), byte(y)})+shape[1]), true)
					n++
				}
			}
			c.State(fmt.Sprint(x, shape))
			c.Bulk(n)
			c.Sample(func() string { return fmt.Sprintf("%s<%#02x ..>%s", shape[0], x, shape[1]) })
		}},
		{Name: "C13/options", Note: "all 256 option bytes x filters: quality of service 3 refused, accessors of accepted ones", Run: func(c *explore.Ctx) {
			f := []string{"a", "a/+/#", "$share/g/x", "$SYS/a", "é/中"}[c.Pick(5)]
			for o := 0; o < 256; o++ {
				tp, err := mqttp.NewSubscribeTopic([]byte(f), mqttp.SubscriptionOptions(o))
				b := byte(o)
				if b&3 == 3 {
					if err == nil {
						c.Failf("NewSubscribeTopic(%q, %#x) with QoS 3 accepted", f, o)
					}
					continue
				}
				if err != nil {
					if b&0xC0 == 0 && b&0x30 != 0x30 && !(b&4 != 0 && f[0] == '$') {
						c.Failf("NewSubscribeTopic(%q, %#x) refused: %s", f, o, errStr(err))
					}
					continue
				}
				if tp.Ops().Raw() != b {
					c.Failf("NewSubscribeTopic(%q, %#x) holds %#x", f, o, tp.Ops().Raw())
				}
				if cc := obs.Topic(tp); cc != "" {
					c.Failf("NewSubscribeTopic(%q, %#x): %s", f, o, cc)
				}
			}
			c.Bulk(256)
		}},
		{Name: "C13/long", Note: "filters and names of every length 1..600 and around 2^10..2^16 with the wildcard or control character at every boundary position, deep level chains", Run: func(c *explore.Ctx) {
			ls := join(span(1, 600), []int{1023, 1024, 4096, 16384, 65535})
			l := ls[c.Pick(len(ls))]
			base := []byte(fill[:l])
			n := 0
			for _, pos := range []int{0, 1, l / 2, l - 2, l - 1} {
				if pos < 0 || pos >= l {
					continue
				}
				for _, ch := range []byte{'a', '/', '+', '#', '$', 0x01, 0x7f, 0xff} {
					b := append([]byte(nil), base...)
					b[pos] = ch
					topicCase(c, b, false)
					n++
				}
			}
			lv := bytes.Repeat([]byte("+/"), l)
			topicCase(c, lv, false)
			topicCase(c, append(lv, '#'), false)
			topicCase(c, append(lv, '+'), false)
			topicCase(c, append(lv, "+a"...), false)
			c.Bulk(n + 4)
		}},
	}
}

// ---- C14 -------------------------------------------------------------------------------------

// stringCase checks the unit at start, middle, end, alone, inside longer text and among other characters.
func stringCase(c *explore.Ctx, unit []byte, wire bool, scratch *[]byte) int {
	n := 0
	for pos := 0; pos < 6; pos++ {
		b := (*scratch)[:0]
		switch pos {
		case 1, 2:
			b = append(b, 'a')
		case 4:
			b = append(b, "the_unit/"...)
		case 5:
			b = append(b, "\u20ac\u00e9"...)
		}
		b = append(b, unit...)
		switch pos {
		case 0, 1:
			b = append(b, 'b')
		case 4:
			b = append(b, "/stands here"...)
		case 5:
			b = append(b, "\u00e9\U0001f600"...)
		}
		*scratch = b
		n++
		stringLaws(c, b)
		if wire {
			stringWire(c, b)
		}
	}
	return n
}

// positionUnits are inserted at every position of a string.
var positionUnits = []string{"a", "\x00", "\n", "\x1f", "\x7f", "\u0080", "\u009f", "\u00a0", "\ufeff", "\U0001f600", "\x80", "\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xc0\xaf", "\xf4\x90\x80\x80"}

// stringLaws holds every direct string check of the library to the reference.
func stringLaws(c *explore.Ctx, b []byte) {
	legal := ref.LegalString(b)
	if got := mqttp.IsValidUTF(b); got != legal {
		c.Failf("IsValidUTF(%q = %x) is %v", b, b, got)
	}
	if got, want := mqttp.ValidTopic(b), ref.LegalTopicName(b); got != want {
		c.Failf("ValidTopic(%q = %x) is %v", b, b, got)
	}
	m := mqttp.NewConnect(mqttp.ProtocolV311)
	if err := m.SetClientID(b); (err == nil) != ref.LegalClientID(b) {
		c.Failf("SetClientID(%q = %x) gives %s", b, b, errStr(err))
	} else if err == nil && !bytes.Equal(m.ClientID(), b) {
		c.Failf("SetClientID(%q) stored %q", b, m.ClientID())
	}
	if err := m.SetCredentials(b, nil); (err == nil) != legal {
		c.Failf("SetCredentials(%q = %x) gives %s", b, b, errStr(err))
	} else if u, _ := m.Credentials(); err == nil && !bytes.Equal(u, b) {
		c.Failf("SetCredentials(%q) stored %q", b, u)
	}
	if v, _ := ref.Filter(b); v != ref.Either {
		t, err := mqttp.NewTopic(b)
		if (err == nil) != (v == ref.Accept) {
			c.Failf("NewTopic(%q = %x) gives %s", b, b, errStr(err))
		}
		if err == nil && (t.Full() != string(b) || t.Filter() != string(b)) {
			c.Failf("NewTopic(%q) reads %q", b, t.Full())
		}
	}
}

// stringWire puts b in every string field of the wire format.
func stringWire(c *explore.Ctx, b []byte) {
	s := string(b)
	cb := append(ref.LP(nil, "MQTT"), 4, 0x82, 0, 9)
	judge(c, ref.V311, ref.Frame(0x10, ref.LP(ref.LP(cb, "c"), s))) // user name
	cb = append(ref.LP(nil, "MQTT"), 4, 0x02, 0, 9)
	judge(c, ref.V311, ref.Frame(0x10, ref.LP(cb, s))) // client id
	cb = append(ref.LP(nil, "MQTT"), 4, 0x06, 0, 9)
	judge(c, ref.V311, ref.Frame(0x10, ref.LP(ref.LP(ref.LP(cb, "c"), s), "m"))) // will topic
	judge(c, ref.V311, ref.Frame(0x30, append(ref.LP(nil, s), 'p')))
	judge(c, ref.V5, ref.Frame(0x30, append(ref.LP(nil, s), 0, 'p')))
	judge(c, ref.V311, ref.Frame(0x82, append(ref.LP([]byte{0, 7}, s), 1)))
	judge(c, ref.V5, ref.Frame(0xA2, ref.LP([]byte{0, 7, 0}, s)))
}

// rawUTF encodes r in n bytes without any validity rule.
func rawUTF(r rune, n int) []byte {
	switch n {
	case 1:
		return []byte{byte(r)}
	case 2:
		return []byte{0xC0 | byte(r>>6), 0x80 | byte(r)&0x3F}
	case 3:
		return []byte{0xE0 | byte(r>>12), 0x80 | byte(r>>6)&0x3F, 0x80 | byte(r)&0x3F}
	}
	return []byte{0xF0 | byte(r>>18), 0x80 | byte(r>>12)&0x3F, 0x80 | byte(r>>6)&0x3F, 0x80 | byte(r)&0x3F}
}

func rawLen(r rune) int {
	switch {
	case r < 0x80:
		return 1
	case r < 0x800:
		return 2
	case r < 0x10000:
		return 3
	}
	return 4
}

func scenC14(t Tier) []*explore.Scenario {
	return []*explore.Scenario{
		{Name: "C14/codepoints", Note: "all values 0..0x1FFFFF in their natural encoding (all 1114112 code points, surrogates, beyond U+10FFFF) alone, at start, middle and end, inside longer text and between multi-byte characters: IsValidUTF, ValidTopic, NewTopic, SetClientID, SetCredentials; below U+3000, around every plane boundary and in every 16th block also on the wire as user name, client id, will topic, topic, filters (thorough: all on the wire)",
			Run: func(c *explore.Ctx) {
				blk := c.Pick(0x2000)
				var scratch []byte
				n := 0
				for i := 0; i < 0x100; i++ {
					r := rune(blk<<8 | i)
					wire := t.Thorough || r < 0x3000 || r&0xFFFF < 0x20 || r&0xFFFF >= 0xFFE0 || blk&15 == 0 && i&7 == 0
					n += stringCase(c, rawUTF(r, rawLen(r)), wire, &scratch)
				}
				c.Bulk(n)
				c.Sample(func() string { return fmt.Sprintf("code points %#x..%#x", blk<<8, blk<<8|255) })
			}},
		{Name: "C14/overlong", Note: "every code point below U+10000 in every encoding longer than needed, in all positions, also on the wire for the first 4096",
			Run: func(c *explore.Ctx) {
				blk := c.Pick(0x100)
				var scratch []byte
				n := 0
				for i := 0; i < 0x100; i++ {
					r := rune(blk<<8 | i)
					for l := rawLen(r) + 1; l <= 4; l++ {
						n += stringCase(c, rawUTF(r, l), r < 0x1000, &scratch)
					}
				}
				c.Bulk(n)
			}},
		{Name: "C14/bytes", Note: "every byte sequence of <=2 bytes in every position and field; every sequence of 3 bytes; 4-byte sequences over UTF-8 boundary bytes",
			Run: func(c *explore.Ctx) {
				b0 := byte(c.Pick(256))
				var scratch []byte
				n := stringCase(c, []byte{b0}, true, &scratch)
				for b1 := 0; b1 < 256; b1++ {
					n += stringCase(c, []byte{b0, byte(b1)}, true, &scratch)
					b := []byte{b0, byte(b1), 0}
					for b2 := 0; b2 < 256; b2++ {
						b[2] = byte(b2)
						if got := mqttp.IsValidUTF(b); got != ref.LegalString(b) {
							c.Failf("IsValidUTF(%x) is %v", b, got)
						}
						n++
					}
				}
				c.Bulk(n)
				for _, b1 := range edgeBytes {
					for _, b2 := range edgeBytes {
						n = 0
						for _, b3 := range edgeBytes {
							n += stringCase(c, []byte{b0, b1, b2, b3}, b0 >= 0xf0, &scratch)
						}
						c.Bulk(n)
					}
				}
			}},
		{Name: "C14/positions", Note: "strings of every length 0..72 (thorough 0..300) and around 2^7..2^16 of ASCII, 2-byte, 3-byte, 4-byte or mixed filler with each of 17 units inserted at every position (long ones: word boundaries, middle and both ends), directly and (length <= 24 or long) in every field on the wire",
			Run: func(c *explore.Ctx) {
				ls := span(0, 72)
				if t.Thorough {
					ls = span(0, 300)
				}
				ls = join(ls, []int{127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 16383, 65530})
				l := ls[c.Pick(len(ls))]
				f := c.Pick(5)
				unit := positionUnits[c.Pick(len(positionUnits))]
				// boundaries of the filler's characters: insertion points
				var base []byte
				var cuts []int
				for i := 0; len(base) < l; i++ {
					cuts = append(cuts, len(base))
					switch {
					case f == 0 || f == 3 && i%11 != 10:
						base = append(base, fill[i%len(fill)])
					case f == 4 || f == 3 && i%33 == 10:
						base = append(base, "\U0001f600"...)
					case f == 1 || f == 3 && i%2 == 0:
						base = append(base, "\u00e9"...)
					default:
						base = append(base, "\u20ac"...)
					}
				}
				cuts = append(cuts, len(base))
				if len(cuts) > 310 {
					n := len(cuts)
					cuts = append(append(append([]int(nil), cuts[:34]...), cuts[n/2], cuts[n/2+1]), cuts[n-34:]...)
				}
				var b []byte
				for _, p := range cuts {
					b = append(append(append(b[:0], base[:p]...), unit...), base[p:]...)
					if len(b) > 65535 {
						break
					}
					stringLaws(c, b)
					if l <= 24 || l > 300 && (p < 8 || p+8 > len(base)) {
						stringWire(c, b)
					}
				}
				c.Bulk(len(cuts))
			}},
		{Name: "C14/words", Note: "all sequences of up to 4 of 29 units (characters of every encoded length and every kind of leading byte, controls, surrogates, overlong, truncated, beyond range): the direct checks; up to 3 of them with 9 and 70 characters in front, between and behind",
			Run: func(c *explore.Ctx) {
				u := []string{"a", " ", "~", "/", "\x01", "\x1f", "\x7f", "\u0080", "\u0085", "\u009f", "\u00a0", "\u00e9", "\u07ff", "\u0800", "\u4e2d", "\ud7ff", "\ue000", "\ufeff", "\ufffd", "\uffff", "\U00010000", "\U0001f600", "\U000e0001", "\U0010ffff",
					"\xed\xa0\x80", "\xc1\xbf", "\xe2\x82", "\x80", "\xf4\x90\x80\x80"}
				x, y := u[c.Pick(len(u))], c.Pick(len(u)+1)
				if y == len(u) {
					stringLaws(c, []byte(x))
					return
				}
				n := 1
				b := []byte(x + u[y])
				stringLaws(c, b)
				k := len(b)
				for _, z := range u {
					b = append(b[:k], z...)
					stringLaws(c, b)
					k2 := len(b)
					for _, w := range u {
						b = append(b[:k2], w...)
						stringLaws(c, b)
						n++
					}
					for _, l := range []int{9, 70} {
						f := fill[:l]
						stringLaws(c, []byte(f+x+u[y]+z))
						stringLaws(c, []byte(x+f+u[y]+f+z))
						stringLaws(c, []byte(x+u[y]+z+f))
					}
					n += 7
				}
				c.Bulk(n)
			}},
		{Name: "C14/pairs", Note: "all ordered triples of 14 representative units (ASCII, control, DEL, C1, 2/3/4-byte, BOM, surrogate, overlong, truncated, beyond range) in every field",
			Run: func(c *explore.Ctx) {
				u := []string{"a", " ", "\x00", "\x1f", "\x7f", "\u0080", "\u009f", "\u00a0", "é", "\ufeff", "\uffff", "\U0010ffff", "\xed\xa0\x80", "\xc0\xaf", "\xe4\xb8", "\xf4\x90\x80\x80"}
				x, y := u[c.Pick(len(u))], u[c.Pick(len(u))]
				var scratch []byte
				n := 0
				for _, z := range u {
					n += stringCase(c, []byte(x+y+z), true, &scratch)
				}
				c.Bulk(n)
			}},
	}
}

// ---- C15 -------------------------------------------------------------------------------------

func scenC15(t Tier) []*explore.Scenario {
	return []*explore.Scenario{
		{Name: "C15/codes", Note: "all 256 reason codes x 256 packet types: IsValidForType and PacketTypeDir; IsValid, IsValidV3, IsValidV5, Value for all 256", Run: func(c *explore.Ctx) {
			code := byte(c.Pick(256))
			rc := mqttp.ReasonCode(code)
			for tt := 0; tt < 256; tt++ {
				want := tt <= 15 && tt > 0 && (ref.CodeV5(byte(tt), code) || codeV3(byte(tt), code))
				if got := rc.IsValidForType(mqttp.Type(tt)); got != want {
					c.Failf("reason code %#x IsValidForType(%d) is %v", code, tt, got)
				}
				if _, err := rc.PacketTypeDir(mqttp.Type(tt)); (err == nil) != want {
					c.Failf("reason code %#x PacketTypeDir(%d) gives %s", code, tt, errStr(err))
				}
			}
			if rc.Value() != code {
				c.Failf("reason code %#x has value %#x", code, rc.Value())
			}
			if got, want := rc.IsValid(), code <= 5 || ref.AnyCodeV5(code); got != want {
				c.Failf("reason code %#x IsValid is %v", code, got)
			}
			if got, want := rc.IsValidV3(), code <= 5; got != want && code != 0x80 {
				c.Failf("reason code %#x IsValidV3 is %v", code, got)
			}
			if got, want := rc.IsValidV5(), ref.AnyCodeV5(code); got != want && code != 1 && code != 2 && code != 4 {
				c.Failf("reason code %#x IsValidV5 is %v", code, got)
			}
			c.Bulk(256)
			c.State(fmt.Sprint("code", code))
		}},
		{Name: "C15/properties", Note: "property identifiers 0..65535 and 2^k, 2^k±1 up to 2^32 x 256 packet types: IsValid, IsValidPacketType, DupAllowed", Run: func(c *explore.Ctx) {
			hi := c.Pick(257)
			var ids []uint32
			if hi < 256 {
				for i := 0; i < 256; i++ {
					ids = append(ids, uint32(hi<<8|i))
				}
			} else {
				ids = append(append(ids, u32Ext...), 0xFFFFFFFF)
			}
			for _, id := range ids {
				d := ref.Prop(id)
				p := mqttp.PropertyID(id)
				if p.IsValid() != (d != nil) {
					c.Failf("property %#x IsValid is %v", id, p.IsValid())
				}
				for tt := 0; tt < 256; tt++ {
					allowed, rep := false, false
					if d != nil && tt > 0 && tt < 16 {
						allowed = d.Allowed(byte(tt)) || tt == ref.PUBLISH && d.Allowed(ref.WillType)
						rep = allowed && ref.Repeatable(id, byte(tt))
					}
					if got := p.IsValidPacketType(mqttp.Type(tt)); got != allowed {
						c.Failf("property %#x IsValidPacketType(%d) is %v", id, tt, got)
					}
					if got := p.DupAllowed(mqttp.Type(tt)); got != rep {
						c.Failf("property %#x DupAllowed(%d) is %v", id, tt, got)
					}
				}
			}
			c.Bulk(len(ids) * 256)
		}},
		{Name: "C15/valuetypes", Note: "every property x permitted packet type: value type reported after setting and after decoding, refusal for every other packet type", Run: func(c *explore.Ctx) {
			d := &ref.PropDefs[c.Pick(len(ref.PropDefs))]
			for tt := byte(1); tt <= 15; tt++ {
				m := obs.New(tt, ref.V5)
				arg := obs.PropArg([]ref.PropVal{sampleProp(d, 0)}, false)
				err := m.PropertySet(mqttp.PropertyID(d.ID), arg)
				ok := d.Allowed(tt) || tt == ref.PUBLISH && d.Allowed(ref.WillType)
				if (err == nil) != ok {
					c.Failf("setting %s on %s gives %s", d.Name, ref.TypeNames[tt], errStr(err))
				}
				g := m.PropertyGet(mqttp.PropertyID(d.ID))
				if (g != nil) != ok {
					c.Failf("after setting %s on %s (%s) lookup finds it: %v", d.Name, ref.TypeNames[tt], errStr(err), g != nil)
				}
				if g != nil {
					if _, cc := obs.PropValues(d.ID, g); cc != "" {
						c.Failf("%s on %s: %s", d.Name, ref.TypeNames[tt], cc)
					}
				}
				if d.Allowed(tt) {
					judge(c, ref.V5, subsetPacket(tt, []ref.PropVal{sampleProp(d, 0)}).Encode(true))
				}
			}
			if d.Allowed(ref.WillType) {
				judge(c, ref.V5, subsetPacket(ref.WillType, []ref.PropVal{sampleProp(d, 0)}).Encode(true))
			}
		}},
		{Name: "C15/types", Note: "all 256 packet types x 256 versions: Valid, DefaultFlags, Name, Desc, New; all 256 versions and QoS values; SupportedVersions", Run: func(c *explore.Ctx) {
			tt := c.Pick(256)
			ty := mqttp.Type(tt)
			name, flags := "", byte(0)
			if tt <= 15 {
				name, flags = ref.TypeNames[tt], ref.FixedFlags(byte(tt))
			}
			if name != "" && tt > 0 && ty.Name() != name {
				c.Failf("packet type %d is named %q", tt, ty.Name())
			}
			if tt > 15 {
				for k := 0; k <= 15; k++ {
					if ty.Name() == mqttp.Type(k).Name() || ty.Desc() == mqttp.Type(k).Desc() {
						c.Failf("packet type %d shares its text with type %d", tt, k)
					}
				}
			}
			for k := 0; k <= 15; k++ {
				if tt <= 15 && k != tt && (ty.Name() == mqttp.Type(k).Name() || ty.Desc() == mqttp.Type(k).Desc()) {
					c.Failf("packet types %d and %d share a text", tt, k)
				}
			}
			if ty.Desc() == "" || ty.Name() == "" {
				c.Failf("packet type %d has no text", tt)
			}
			if ty.DefaultFlags() != flags {
				c.Failf("packet type %d DefaultFlags is %#x", tt, ty.DefaultFlags())
			}
			for v := 0; v < 256; v++ {
				pv := mqttp.ProtocolVersion(v)
				ok, err := ty.Valid(pv)
				sup := v >= 3 && v <= 5
				if (err == nil) != sup {
					c.Failf("type %d Valid(%d) gives error %s", tt, v, errStr(err))
				}
				if want := sup && tt >= 1 && (tt <= 14 || tt == 15 && v == 5); ok != want {
					c.Failf("type %d Valid(%d) is %v", tt, v, ok)
				}
				if !sup {
					continue
				}
				m, err := mqttp.New(pv, ty)
				if (err == nil) != ok || isNil(m) == ok {
					c.Failf("New(%d, type %d) gives packet=%v, %s", v, tt, !isNil(m), errStr(err))
				}
				if ok && (byte(m.Type()) != byte(tt) || byte(m.Version()) != byte(v) || m.Desc() != ty.Desc()) {
					c.Failf("New(%d, type %d) reports type %d version %d", v, tt, m.Type(), m.Version())
				}
				if ok {
					nf := m.(interface {
						Name() string
						Flags() byte
					})
					if nf.Name() != name || nf.Flags() != flags {
						c.Failf("New(%d, type %d) has name %q and flags %#x", v, tt, nf.Name(), nf.Flags())
					}
				}
			}
			q := mqttp.QosType(tt)
			if q.IsValid() != (tt <= 2) || q.IsValidFull() != (tt <= 2 || tt == 0x80) {
				c.Failf("QoS %d: IsValid %v, IsValidFull %v", tt, q.IsValid(), q.IsValidFull())
			}
			want := map[int]string{3: "MQIsdp", 4: "MQTT", 5: "MQTT"}[tt]
			s, ok := mqttp.SupportedVersions[mqttp.ProtocolVersion(tt)]
			if ok != (want != "") || s != want || mqttp.ProtocolVersion(tt).IsValid() != ok {
				c.Failf("protocol version %d: name %q, valid %v", tt, s, mqttp.ProtocolVersion(tt).IsValid())
			}
			c.Bulk(256)
		}},
	}
}

func codeV3(t, code byte) bool {
	switch t {
	case ref.CONNACK:
		return code <= 5
	case ref.SUBACK:
		return code <= 2 || code == 0x80
	}
	return false
}

// ---- C25 -------------------------------------------------------------------------------------

type strKey string

type cfgMap map[string]interface{}

func scenC25(t Tier) []*explore.Scenario {
	sk := []string{"a", "b", "", "é", "nested", "a.b", "A"}
	inner := map[interface{}]interface{}{"x": 1, 2: "y"}
	keys := []interface{}{"a", "b", "", "é", "nested", 1, nil, true, strKey("a"), [1]string{"a"}, 1.5, 'a', struct{ S string }{"a"}}
	clean := map[interface{}]interface{}{"x": 1, "y": map[interface{}]interface{}{"z": []interface{}{map[interface{}]interface{}{"q": 1}}}}
	vals := []interface{}{nil, 1, "v", []interface{}{1, "x"}, inner, map[string]interface{}{"k": 1}, 2.5, false, clean, map[interface{}]interface{}{}, []interface{}{clean, map[string]interface{}{"c": clean}}, map[string]interface{}{"k": clean}}
	eq := func(x, y interface{}) bool {
		return fmt.Sprintf("%T %#v %p", x, x, x) == fmt.Sprintf("%T %#v %p", y, y, y)
	}
	return []*explore.Scenario{
		ordersC25(t, keys, vals, 5),
		{Name: "C25/generic", Note: "generic maps of 0..4 (5) entries: every set of keys over 13 keys (5 strings; int, nil, bool, named string, array, float, rune, struct), values of 12 kinds (nested string-keyed and generic maps among them, to be passed on as they are); each case repeated 12 times against Go's random iteration order", Run: func(c *explore.Ctx) {
			n := c.Pick(t.pick(5, 6))
			in := map[interface{}]interface{}{}
			last := -1
			legal := true
			for i := 0; i < n; i++ {
				if last+1 >= len(keys) {
					c.Prune()
				}
				k := last + 1 + c.Pick(len(keys)-last-1)
				last = k
				in[keys[k]] = vals[(c.Pick(2)*3+i*2+k)%len(vals)]
				if k > 4 {
					legal = false
				}
			}
			c.State(fmt.Sprintf("%v", in))
			c.Sample(func() string { return fmt.Sprintf("%#v", in) })
			for rep := 0; rep < 12; rep++ {
				snap := fmt.Sprintf("%#v", in)
				out, err := vltypes.NormalizeConfig(in)
				c.Op(1)
				if fmt.Sprintf("%#v", in) != snap {
					c.Failf("normalising altered its input %s to %#v", snap, in)
				}
				if !legal {
					if err != vltypes.ErrInvalidConfigType || out != nil {
						c.Failf("normalising %s gives %v, %s", snap, out, errStr(err))
					}
					continue
				}
				if err != nil || len(out) != len(in) {
					c.Failf("normalising %s gives %v, %s", snap, out, errStr(err))
				}
				for k, v := range in {
					w, ok := out[k.(string)]
					if !ok || !eq(v, w) {
						c.Failf("normalising %s gives %#v for key %q", snap, w, k)
					}
				}
				// the result is the caller's: changing it must not reach the input
				out["injected"] = 1
				if _, bad := in["injected"]; bad {
					c.Failf("result of normalising %s aliases its input", snap)
				}
			}
		}},
		{Name: "C25/related", Note: "generic and string-keyed maps of one to three entries over 26 keys related to each other (cases, prefixes, blanks, separators, numerals, normal forms), each value being one of the keys, a boxed form of it, the entry count or one of seven zero values; maps of 1 to 300 entries whose values are all equal, equal to their keys or to the next key; each case repeated 6 times", Run: func(c *explore.Ctx) {
			ks := []string{"a", "A", "ab", "a.b", "a ", " a", "a/b", "", " ", ".", "1", "01", "true", "null", "nil", "\u00e9", "e\u0301", "\x00", "a\x00", "\xff", "-", "_", "interface", "key", "value", "type"}
			try := func(keys []string, vs []interface{}) {
				g, s := map[interface{}]interface{}{}, map[string]interface{}{}
				for i, k := range keys {
					g[k], s[k] = vs[i], vs[i]
				}
				for rep := 0; rep < 6; rep++ {
					for f, in := range []interface{}{g, s} {
						out, err := vltypes.NormalizeConfig(in)
						if err != nil || len(out) != len(s) || len(g) != len(s) {
							c.Failf("normalising %#v gives %#v, %s", in, out, errStr(err))
						}
						for i, k := range keys {
							if w, ok := out[k]; !ok || !eq(w, vs[i]) || f == 0 && !eq(g[k], vs[i]) {
								c.Failf("normalising %#v gives %#v for key %q", in, w, k)
							}
						}
					}
				}
				c.Op(12)
			}
			form := func(v string, how int) interface{} {
				switch how {
				case 1:
					return []interface{}{v}
				case 2:
					return map[interface{}]interface{}{v: v}
				case 3:
					return []byte(v)
				case 4:
					return strKey(v)
				case 5:
					return nil
				case 6:
					return 0
				case 7:
					return false
				case 8:
					return ""
				case 9:
					return []interface{}(nil)
				case 10:
					return map[string]interface{}(nil)
				case 11:
					return 0.0
				}
				return v
			}
			a, n := c.Pick(len(ks)+1), 0
			if a == len(ks) {
				for l := 1; l <= 300; l++ {
					var keys []string
					var same, own, next []interface{}
					for i := 0; i < l; i++ {
						keys = append(keys, fmt.Sprint("k", i))
						same, own, next = append(same, "k0"), append(own, fmt.Sprint("k", i)), append(next, fmt.Sprint("k", (i+1)%l))
					}
					try(keys, same)
					try(keys, own)
					try(keys, next)
					n += 3
				}
				c.Bulk(n)
				return
			}
			for how := 0; how < 12; how++ {
				for _, v := range ks {
					try([]string{ks[a]}, []interface{}{form(v, how)})
				}
				for b := range ks {
					if b == a {
						continue
					}
					for _, v := range []string{ks[a], ks[b], ks[(a+b)%len(ks)]} {
						for _, w := range []string{ks[a], ks[b]} {
							try([]string{ks[a], ks[b]}, []interface{}{form(v, how), form(w, how)})
							n++
						}
					}
					for d := range ks {
						if how == 0 && d != a && d != b {
							try([]string{ks[a], ks[b], ks[d]}, []interface{}{ks[b], ks[d], ks[a]})
							try([]string{ks[a], ks[b], ks[d]}, []interface{}{ks[a], ks[b], 3})
							n += 2
						}
					}
				}
			}
			c.State(ks[a])
			c.Bulk(n)
			c.Sample(func() string { return ks[a] })
		}},
		{Name: "C25/large", Note: "maps of 0 to 5000 entries with no, one or two keys that are no strings: all entries kept or all refused", Run: func(c *explore.Ctx) {
			n := []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 5000}[c.Pick(28)]
			bad := c.Pick(6)
			odd := []interface{}{nil, 7, strKey("key1"), false, 2.5}
			in := map[interface{}]interface{}{}
			str := map[string]interface{}{}
			for i := 0; i < n; i++ {
				k := "key" + strings.Repeat("x", i%7) + fmt.Sprint(i)
				in[k], str[k] = i, i
			}
			if bad > 0 {
				in[odd[bad-1]] = "odd"
				if bad == 3 {
					in[99] = 1
				}
			}
			c.Op(14)
			c.State(fmt.Sprint(n, bad))
			size := len(in)
			for rep := 0; rep < 12; rep++ {
				out, err := vltypes.NormalizeConfig(in)
				if len(in) != size {
					c.Failf("normalising %d entries left %d in the input", size, len(in))
				}
				if bad > 0 {
					if err != vltypes.ErrInvalidConfigType || out != nil {
						c.Failf("normalising %d entries and the key %#v gives %d entries, %s", n, odd[bad-1], len(out), errStr(err))
					}
					continue
				}
				if err != nil || len(out) != n {
					c.Failf("normalising %d entries gives %d, %s", n, len(out), errStr(err))
				}
				for k, v := range str {
					if out[k] != v {
						c.Failf("normalising %d entries gives %#v for %q, expected %#v", n, out[k], k, v)
					}
				}
			}
			out, err := vltypes.NormalizeConfig(str)
			if err != nil || len(out) != n || len(str) != n {
				c.Failf("normalising %d string-keyed entries gives %d, %s", n, len(out), errStr(err))
			}
			for k, v := range in {
				if ks, ok := k.(string); ok && out[ks] != v {
					c.Failf("normalising %d string-keyed entries gives %#v for %q, expected %#v", n, out[ks], k, v)
				}
			}
		}},
		{Name: "C25/string", Note: "string-keyed maps with every subset of 7 keys, nil map", Run: func(c *explore.Ctx) {
			m := c.Pick(1 << uint(len(sk)))
			in := map[string]interface{}{}
			for i, k := range sk {
				if m>>uint(i)&1 == 1 {
					in[k] = vals[(m+i)%len(vals)]
				}
			}
			if m == 0 && c.Bool() {
				in = nil
			}
			snap := fmt.Sprintf("%#v", in)
			out, err := vltypes.NormalizeConfig(in)
			c.Op(1)
			if err != nil || len(out) != len(in) {
				c.Failf("normalising %s gives %v, %s", snap, out, errStr(err))
			}
			for k, v := range in {
				if w, ok := out[k]; !ok || !eq(v, w) {
					c.Failf("normalising %s gives %#v for key %q", snap, w, k)
				}
			}
			if fmt.Sprintf("%#v", in) != snap {
				c.Failf("normalising altered its input %s to %#v", snap, in)
			}
		}},
		{Name: "C25/others", Note: "everything that is no map with string or generic keys and values of any type (maps of other key or value types among them)", Run: func(c *explore.Ctx) {
			n := 0
			x := "s"
			bad := []interface{}{nil, 0, 1, "", "a", x, true, 1.5, []byte("a"), []string{"a"}, []interface{}{"a", 1}, []interface{}(nil), map[int]interface{}{1: 1}, map[int]interface{}{},
				map[bool]string{true: "x"}, struct{}{}, struct{ A int }{1}, &n, &x, &map[string]interface{}{"a": 1}, (*map[string]interface{})(nil), func() {}, make(chan int), error(vltypes.ErrInvalidConfigType),
				[]map[string]interface{}{{"a": 1}}, [2]map[string]interface{}{}, map[interface{}]string{1: "x"},
				map[string]string{"a": "b"}, map[string]string{}, map[string]int{"a": 1}, map[string][]interface{}{"a": nil}, map[interface{}]string{"a": "x"}, map[interface{}]int{}, map[strKey]interface{}{"a": 1}, map[strKey]string{"a": "b"}, []interface{}{map[string]interface{}{"a": 1}}}
			v := bad[c.Pick(len(bad))]
			out, err := vltypes.NormalizeConfig(v)
			c.Op(1)
			if err != vltypes.ErrInvalidConfigType || out != nil {
				c.Failf("normalising %T %v gives %v, %s", v, v, out, errStr(err))
			}
		}},
	}
}

// ---- C26 -------------------------------------------------------------------------------------

func scenC26(t Tier) []*explore.Scenario {
	return []*explore.Scenario{
		{Name: "C26/write", Note: "every field length 0..65540 (and 2^17, 2^20) x buffer from empty to three bytes too large: result, written bytes, everything outside the field untouched; read back", Run: func(c *explore.Ctx) {
			blk := c.Pick(258)
			var ls []int
			if blk < 257 {
				for i := 0; i < 256; i++ {
					if l := blk<<8 | i; l <= 65540 {
						ls = append(ls, l)
					}
				}
			} else {
				ls = []int{1<<17 - 1, 1 << 17, 1<<17 + 5, 1 << 20}
			}
			src := make([]byte, 1<<20)
			for i := range src {
				src[i] = byte(i*7 + i>>8)
			}
			buf := make([]byte, 1<<20+64)
			for _, l := range ls {
				slacks := []int{-2 - l, -1 - l, -l, -l / 2, -3, -2, -1, 0, 1, 3}
				for _, sl := range slacks {
					size := l + 2 + sl
					if size < 0 || size > len(buf) {
						continue
					}
					hi := size + 8
					if l+2+8 > hi {
						hi = l + 2 + 8
					}
					w := buf[:hi]
					for i := range w {
						w[i] = 0xA5
					}
					s := src[:l:l]
					if sl < 0 {
						// what lies behind the buffer is not the callee's, reachable or not
						n, err := mqttp.WriteLPBytes(w[:size], s)
						if err == nil {
							c.Failf("writing a field of %d bytes into %d (more behind) succeeded with %d", l, size, n)
						}
					}
					n, err := mqttp.WriteLPBytes(w[:size:size], s)
					c.Op(1)
					switch {
					case l > 65535:
						if err == nil {
							c.Failf("writing a field of %d bytes succeeded with %d", l, n)
						}
					case sl < 0:
						if err == nil {
							c.Failf("writing a field of %d bytes into %d succeeded with %d", l, size, n)
						}
					default:
						if err != nil || n != l+2 {
							c.Failf("writing a field of %d bytes into %d gives %d, %s", l, size, n, errStr(err))
						}
						if w[0] != byte(l>>8) || w[1] != byte(l) || !bytes.Equal(w[2:2+l], src[:l]) {
							c.Failf("writing a field of %d bytes produced prefix %x", l, w[:2])
						}
						for _, x := range w[2+l:] {
							if x != 0xA5 {
								c.Failf("writing a field of %d bytes touched what follows", l)
							}
						}
						got, m, err := mqttp.ReadLPBytes(w[:size:size])
						if err != nil || m != l+2 || !bytes.Equal(got, src[:l]) {
							c.Failf("reading a field of %d bytes gives %d bytes, count %d, %s", l, len(got), m, errStr(err))
						}
						continue
					}
					for _, x := range w {
						if x != 0xA5 {
							c.Failf("refused write of %d bytes into %d touched the buffer", l, size)
						}
					}
				}
				c.Beat()
			}
			for i := range src[:256] {
				if src[i] != byte(i*7+i>>8) {
					c.Failf("writing altered the source")
				}
			}
			c.Bulk(len(ls))
		}},
		{Name: "C26/read", Note: "all 65536 prefixes x body available 0,1,announced-1,announced,announced+1,+7 and the 0- and 1-byte buffers", Run: func(c *explore.Ctx) {
			hi := c.Pick(256)
			buf := make([]byte, 65536+64)
			for i := range buf {
				buf[i] = byte(i*5 + i>>8)
			}
			for lo := 0; lo < 256; lo++ {
				l := hi<<8 | lo
				buf[0], buf[1] = byte(hi), byte(lo)
				for _, av := range []int{-2, -1, 0, 1, 2, l / 2, l - 2, l - 1, l, l + 1, l + 7} {
					size := av + 2
					if size < 0 || size > len(buf) {
						continue
					}
					in := buf[:size:size]
					got, n, err := mqttp.ReadLPBytes(in)
					c.Op(1)
					// what lies behind the buffer makes no difference
					if got2, n2, err2 := mqttp.ReadLPBytes(buf[:size]); n2 != n || err2 != err || !bytes.Equal(got, got2) {
						c.Failf("reading a field announcing %d bytes from %d gives %d bytes, count %d, %s; with memory behind the buffer %d bytes, count %d, %s", l, size, len(got), n, errStr(err), len(got2), n2, errStr(err2))
					}
					if size < 2 || av < l {
						if err == nil {
							c.Failf("reading a field announcing %d bytes from %d succeeded with %d bytes", l, size, len(got))
						}
						if len(got) != 0 {
							c.Failf("failed read of a field announcing %d bytes returned %d bytes", l, len(got))
						}
						continue
					}
					if err != nil || n != l+2 || len(got) != l || l > 0 && !bytes.Equal(got, in[2:2+l]) {
						c.Failf("reading a field announcing %d bytes from %d gives %d bytes, count %d, %s", l, size, len(got), n, errStr(err))
					}
				}
			}
			c.Bulk(256)
		}},
		{Name: "C26/lengths", Note: "fields of 10 lengths up to 65535 at every buffer length 0..70000, the bytes behind the field zero, ones or like a further field: read, and written with room to spare", Run: func(c *explore.Ctx) {
			l := []int{0, 1, 2, 3, 127, 255, 256, 1000, 32768, 65535}[c.Pick(10)]
			tail := []byte{0x00, 0xff, 0x01}[c.Pick(3)]
			buf := make([]byte, 70000)
			body := make([]byte, l)
			for i := range body {
				body[i] = byte(i*5 + 3)
			}
			set := func() {
				for i := range buf {
					buf[i] = tail
				}
				buf[0], buf[1] = byte(l>>8), byte(l)
				copy(buf[2:], body)
			}
			set()
			for size := 0; size <= len(buf); size++ {
				in := buf[:size:size]
				got, n, err := mqttp.ReadLPBytes(in)
				c.Op(2)
				if (err == nil) != (size >= l+2) || err != nil && len(got) > 0 || err == nil && (n != l+2 || len(got) != l || size&63 == 0 && !bytes.Equal(got, body)) {
					c.Failf("reading a field announcing %d bytes from %d gives %d bytes, count %d, %s", l, size, len(got), n, errStr(err))
				}
				if size < l+2 {
					continue
				}
				n, err = mqttp.WriteLPBytes(in, body)
				if err != nil || n != l+2 || buf[0] != byte(l>>8) || buf[1] != byte(l) || size > l+2 && buf[l+2] != tail {
					c.Failf("writing a field of %d bytes into %d gives %d, %s", l, size, n, errStr(err))
				}
				if size&1023 == 0 {
					c.Beat()
				}
			}
			was := append([]byte(nil), buf...)
			if set(); !bytes.Equal(was, buf) {
				c.Failf("writing fields of %d bytes altered what follows them", l)
			}
			c.Bulk(len(buf))
		}},
		{Name: "C26/chain", Note: "sequences of 1..4 fields with lengths from {0,1,2,255,256} written and read back to back in one buffer", Run: func(c *explore.Ctx) {
			ls := []int{0, 1, 2, 255, 256}
			n := 1 + c.Pick(4)
			var total int
			var want []int
			for i := 0; i < n; i++ {
				l := ls[c.Pick(len(ls))]
				want = append(want, l)
				total += l + 2
			}
			buf := make([]byte, total)
			off := 0
			for i, l := range want {
				n, err := mqttp.WriteLPBytes(buf[off:], []byte(fill[i:i+l]))
				c.Op(1)
				if err != nil {
					c.Failf("field %d of %v: %s", i, want, errStr(err))
				}
				off += n
			}
			if off != total {
				c.Failf("fields %v took %d bytes instead of %d", want, off, total)
			}
			off = 0
			for i, l := range want {
				got, n, err := mqttp.ReadLPBytes(buf[off:])
				c.Op(1)
				if err != nil || string(got) != fill[i:i+l] {
					c.Failf("field %d of %v read back as %q, %s", i, want, got, errStr(err))
				}
				off += n
			}
			c.State(fmt.Sprint(want))
		}},
	}
}

// ---- C27 -------------------------------------------------------------------------------------

type texts struct {
	name    string
	known   map[int]string
	get     func(int) string
	open    map[int]bool
	byteLen bool
}

func distinctTexts(c *explore.Ctx, x texts) {
	dom := span(-300, 70000)
	if x.byteLen {
		dom = span(0, 255)
	} else {
		for k := uint(17); k < 63; k++ {
			dom = append(dom, 1<<k, 1<<k-1, -(1 << k), 1<<k+1)
		}
	}
	unknown := ""
	have := false
	seen := map[string]int{}
	for _, v := range dom {
		s := x.get(v)
		n, ok := x.known[v]
		if ok {
			if s == "" {
				c.Failf("%s %s (%d) has an empty text", x.name, n, v)
			}
			if o, dup := seen[s]; dup {
				c.Failf("%s %s (%d) and %s (%d) share the text %q", x.name, n, v, x.known[o], o, s)
			}
			seen[s] = v
		}
	}
	for _, v := range dom {
		if _, ok := x.known[v]; ok || x.open[v] {
			continue
		}
		s := x.get(v)
		if !have {
			unknown, have = s, true
		}
		if s != unknown {
			c.Failf("%s: unknown value %d has text %q, others %q", x.name, v, s, unknown)
		}
		if k, clash := seen[s]; clash {
			c.Failf("%s %s (%d) has the text of unknown values %q", x.name, x.known[k], k, s)
		}
	}
	c.Bulk(len(dom))
}

func scenC27(t Tier) []*explore.Scenario {
	codes := map[int]string{}
	for i := 0; i < 256; i++ {
		if i <= 5 || ref.AnyCodeV5(byte(i)) {
			codes[i] = fmt.Sprintf("reason code %#x", i)
		}
	}
	errs := map[int]string{}
	for e, n := range map[mqttp.Error]string{
		mqttp.ErrInvalidUnSubscribe: "ErrInvalidUnSubscribe", mqttp.ErrInvalidUnSubAck: "ErrInvalidUnSubAck", mqttp.ErrDupViolation: "ErrDupViolation",
		mqttp.ErrPackedIDNotMatched: "ErrPackedIDNotMatched", mqttp.ErrInvalid: "ErrInvalid", mqttp.ErrPackedIDZero: "ErrPackedIDZero",
		mqttp.ErrOnPublishNil: "ErrOnPublishNil", mqttp.ErrInvalidMessageType: "ErrInvalidMessageType", mqttp.ErrInvalidMessageTypeFlags: "ErrInvalidMessageTypeFlags",
		mqttp.ErrInvalidQoS: "ErrInvalidQoS", mqttp.ErrInvalidLength: "ErrInvalidLength", mqttp.ErrProtocolViolation: "ErrProtocolViolation",
		mqttp.ErrInsufficientBufferSize: "ErrInsufficientBufferSize", mqttp.ErrInsufficientDataSize: "ErrInsufficientDataSize", mqttp.ErrInvalidTopic: "ErrInvalidTopic",
		mqttp.ErrEmptyPayload: "ErrEmptyPayload", mqttp.ErrInvalidReturnCode: "ErrInvalidReturnCode", mqttp.ErrUnimplemented: "ErrUnimplemented",
		mqttp.ErrInvalidLPStringSize: "ErrInvalidLPStringSize", mqttp.ErrMalformedTopic: "ErrMalformedTopic", mqttp.ErrMalformedStream: "ErrMalformedStream",
		mqttp.ErrInvalidProtocolVersion: "ErrInvalidProtocolVersion", mqttp.ErrNotSet: "ErrNotSet", mqttp.ErrPanicDetected: "ErrPanicDetected",
		mqttp.ErrInvalidArgs: "ErrInvalidArgs", mqttp.ErrInvalidUtf8: "ErrInvalidUtf8", mqttp.ErrNotSupported: "ErrNotSupported", mqttp.ErrProtocolInvalidName: "ErrProtocolInvalidName",
	} {
		errs[int(e)] = n
	}
	all := []texts{
		{"mqttp.Error", errs, func(i int) string { return mqttp.Error(byte(i)).Error() }, nil, true},
		{"mqttp.PropertyError", map[int]string{int(mqttp.ErrPropertyNotFound): "NotFound", int(mqttp.ErrPropertyInvalidID): "InvalidID", int(mqttp.ErrPropertyPacketTypeMismatch): "PacketTypeMismatch",
			int(mqttp.ErrPropertyTypeMismatch): "TypeMismatch", int(mqttp.ErrPropertyDuplicate): "Duplicate", int(mqttp.ErrPropertyUnsupported): "Unsupported", int(mqttp.ErrPropertyWrongType): "WrongType"},
			func(i int) string { return mqttp.PropertyError(i).Error() }, nil, false},
		{"mqttp.ReasonCode", codes, func(i int) string { return mqttp.ReasonCode(byte(i)).Error() }, nil, true},
		{"mqttp.ReasonCode Desc", codes, func(i int) string { return mqttp.ReasonCode(byte(i)).Desc() }, nil, true},
		{"mqttp.QosType", map[int]string{0: "QoS0", 1: "QoS1", 2: "QoS2"}, func(i int) string { return mqttp.QosType(byte(i)).Desc() }, map[int]bool{0x80: true}, true},
		{"vlauth.Error", map[int]string{int(vlauth.ErrInvalidArgs): "ErrInvalidArgs", int(vlauth.ErrUnknownProvider): "ErrUnknownProvider", int(vlauth.ErrAlreadyExists): "ErrAlreadyExists",
			int(vlauth.ErrNotFound): "ErrNotFound", int(vlauth.ErrNotOpen): "ErrNotOpen", int(vlauth.ErrInternal): "ErrInternal"}, func(i int) string { return vlauth.Error(i).Error() }, nil, false},
		{"vlauth.Status", map[int]string{int(vlauth.StatusAllow): "StatusAllow", int(vlauth.StatusDeny): "StatusDeny"}, func(i int) string { return vlauth.Status(i).Error() }, nil, false},
		{"vlauth.AccessType", map[int]string{int(vlauth.AccessRead): "AccessRead", int(vlauth.AccessWrite): "AccessWrite"}, func(i int) string { return vlauth.AccessType(i).Type() }, nil, false},
		{"vlpersistence.Errors", map[int]string{int(vlpersistence.ErrInvalidArgs): "ErrInvalidArgs", int(vlpersistence.ErrUnknownProvider): "ErrUnknownProvider", int(vlpersistence.ErrInvalidConfig): "ErrInvalidConfig",
			int(vlpersistence.ErrAlreadyExists): "ErrAlreadyExists", int(vlpersistence.ErrNotInitialized): "ErrNotInitialized", int(vlpersistence.ErrNotFound): "ErrNotFound",
			int(vlpersistence.ErrNotOpen): "ErrNotOpen", int(vlpersistence.ErrBrokenEntry): "ErrBrokenEntry"}, func(i int) string { return vlpersistence.Errors(i).Error() }, nil, false},
	}
	want := map[string]int{"mqttp.Error": 28, "mqttp.PropertyError": 7, "vlauth.Error": 6, "vlauth.Status": 2, "vlauth.AccessType": 2, "vlpersistence.Errors": 8}
	return []*explore.Scenario{
		{Name: "C27/texts", Note: "every value -300..70000 and 2^k (0..255 for one-byte kinds) of nine error, status, code and quality enumerations: known texts non-empty, pairwise distinct and distinct from the one text of all unknown values; enumerators pairwise distinct", Run: func(c *explore.Ctx) {
			x := all[c.Pick(len(all))]
			if n, ok := want[x.name]; ok && len(x.known) != n {
				c.Failf("%s: %d distinct enumerators instead of %d", x.name, len(x.known), n)
			}
			distinctTexts(c, x)
			c.State(x.name)
			c.Sample(func() string { return x.name })
		}},
		{Name: "C27/deny", Note: "authorisation status -70000..70000 and 2^k: described as allowed only for the allow status", Run: func(c *explore.Ctx) {
			dom := span(-70000, 70000)
			for k := uint(17); k < 63; k++ {
				dom = append(dom, 1<<k, 1<<k-1, 1<<k+1, -(1 << k), -(1<<k)-1)
			}
			allow, deny := vlauth.StatusAllow.Desc(), vlauth.StatusDeny.Desc()
			if allow == deny || allow == "" || deny == "" {
				c.Failf("allow and deny are described %q and %q", allow, deny)
			}
			for _, v := range dom {
				s := vlauth.Status(v)
				if got := s.Desc(); (got == allow) != (s == vlauth.StatusAllow) || (s != vlauth.StatusAllow && got != deny) {
					c.Failf("status %d is described as %q", v, got)
				}
			}
			c.Bulk(len(dom))
		}},
	}
}
