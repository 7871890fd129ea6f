package scen

import (
	"fmt"

	"github.com/VolantMQ/vlapi/mqttp"

	"verifmc/explore"
	"verifmc/ref"
)

// refusal: err is one of the wanted reasons.
func refusal(c *explore.Ctx, dv byte, in []byte, what string, want ...error) {
	m, _, err := decode(c, dv, in)
	if !isNil(m) || err == nil {
		c.Failf("%s accepted: %s (read as v%d)", what, hexs(in), dv)
	}
	for _, w := range want {
		if err == w {
			return
		}
	}
	c.Failf("%s: refused with %s, the answer has to be %s: %s (read as v%d)", what, errStr(err), errStr(want[0]), hexs(in), dv)
}

// sendable: a reason code given for a refusal can be put into the answer.
func sendable(c *explore.Ctx, ver byte, in []byte) {
	if len(in) == 0 {
		return
	}
	m, _, err := decode(c, ver, in)
	if err == nil {
		return
	}
	if !isNil(m) {
		c.Failf("%s: a packet together with error %s", hexs(in), errStr(err))
	}
	rc, ok := err.(mqttp.ReasonCode)
	if !ok {
		return
	}
	if byte(rc) == 0 {
		c.Failf("%s (v%d) refused with the code for success", hexs(in), ver)
	}
	if ver == ref.V5 && in[0]>>4 != ref.CONNECT && !ref.CodeV5(ref.DISCONNECT, byte(rc)) {
		c.Failf("%s (v%d) refused with reason %#02x, which DISCONNECT cannot carry", hexs(in), ver, byte(rc))
	}
	if ver == ref.V5 && in[0]>>4 != ref.CONNECT && byte(rc) < 0x80 {
		c.Failf("%s (v%d) refused with reason %#02x, which is no failure", hexs(in), ver, byte(rc))
	}
}

// connectLevel is the offset of the level byte.
func connectLevel(w []byte) int {
	h := 1
	for w[h] >= 0x80 {
		h++
	}
	h++
	return h + 2 + int(w[h])<<8 + int(w[h+1])
}

var badIDs = []string{"\x00", "a\x00", "\xff", "a\xffb", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "client\x00id", "\x00client"}

func scenC29(t Tier) []*explore.Scenario {
	conn := []byte{ref.CONNECT}
	dvs := func(f func(dv byte)) {
		for _, v := range ref.Versions {
			f(v)
		}
	}
	return []*explore.Scenario{
		{
			Name: "C29/level", Bound: t.pick(1, 2),
			Note: "well-formed CONNECT packets (three base packets, deviations up to the bound, lengths of every field) x all 256 protocol levels; those not supported under the packet's protocol name are refused with the reason that becomes 'unacceptable protocol version'",
			Run: func(c *explore.Ctx) {
				p, w := wires(c, conn, false, c.Pick(3))
				c.State(p.Key(true))
				c.Sample(func() string { return p.Key(true) + " with every level" })
				i := connectLevel(w)
				in := append([]byte(nil), w...)
				for l := 0; l < 256; l++ {
					v31 := p.Ver == ref.V31
					if v31 && l == 3 || !v31 && (l == 4 || l == 5) {
						continue
					}
					in[i] = byte(l)
					if len(in) > 4096 && l > 16 && l < 240 {
						continue
					}
					dvs(func(dv byte) {
						refusal(c, dv, in, fmt.Sprintf("CONNECT of protocol level %d", l), mqttp.ErrInvalidProtocolVersion)
					})
				}
				c.Bulk(3 * 254)
			},
		},
		{
			Name: "C29/client-id", Bound: t.pick(1, 2),
			Note: "well-formed CONNECT packets x client identifiers that are not legal strings, and the empty one without a clean session below version 5",
			Run: func(c *explore.Ctx) {
				t, ver := typeVer(c, conn)
				g := &gen{c: c, noExt: true, rot: c.Pick(3)}
				p := g.packet(t, ver)
				want := []error{mqttp.CodeRefusedIdentifierRejected}
				if ver == ref.V5 {
					want = []error{mqttp.CodeInvalidClientID}
				}
				k := c.Pick(len(badIDs) + 2)
				switch {
				case k < len(badIDs):
					p.ClientID = badIDs[k]
				case k == len(badIDs):
					p.ClientID = fill[:300] + "\x00"
				default:
					if ver == ref.V5 {
						c.Prune()
					}
					p.ClientID, p.Clean = "", false
				}
				c.State(p.Key(true))
				in := p.Encode(true)
				c.Sample(func() string { return hexs(in) })
				if k > len(badIDs) && ref.Decode(ver, in).V != ref.Reject {
					c.Prune()
				}
				dvs(func(dv byte) {
					refusal(c, dv, in, fmt.Sprintf("CONNECT with client identifier %.10q", p.ClientID), want...)
				})
				c.Bulk(3)
			},
		},
		{
			Name: "C29/credentials", Bound: t.pick(1, 2),
			Note: "well-formed CONNECT packets x a password without user name (below version 5), and user names that are not legal strings",
			Run: func(c *explore.Ctx) {
				t, ver := typeVer(c, conn)
				g := &gen{c: c, noExt: true, rot: c.Pick(3)}
				p := g.packet(t, ver)
				want := []error{mqttp.CodeRefusedBadUsernameOrPassword}
				if ver == ref.V5 {
					want = []error{mqttp.CodeBadUserOrPassword, mqttp.CodeMalformedPacket}
				}
				k := c.Pick(len(badIDs) + 1)
				if k < len(badIDs) {
					p.HasUser, p.User = true, badIDs[k]
				} else {
					if ver == ref.V5 {
						c.Prune()
					}
					p.HasUser, p.User, p.HasPass, p.Pass = false, "", true, "pw"
				}
				c.State(p.Key(true))
				in := p.Encode(true)
				c.Sample(func() string { return hexs(in) })
				dvs(func(dv byte) {
					refusal(c, dv, in, fmt.Sprintf("CONNECT with user name %q, password %v", p.User, p.HasPass), want...)
				})
				c.Bulk(3)
			},
		},
		{
			Name: "C29/type",
			Note: "all first bytes of no packet type of the version x bodies x all decoding versions: refused as an invalid message type",
			Run: func(c *explore.Ctx) {
				dv := ref.Versions[c.Pick(3)]
				f := c.Pick(16)
				body := plain(byte(1+c.Pick(14)), ref.V5).Body(true)
				refusal(c, dv, ref.Frame(byte(f), body), "packet of type 0", mqttp.ErrInvalidMessageType)
				if dv != ref.V5 {
					refusal(c, dv, ref.Frame(0xF0|byte(f), body), "AUTH below version 5", mqttp.ErrInvalidMessageType)
				}
			},
		},
		mutants("C29/mutants", nil, t.pick(1, 2), 64, sendable),
		fullMutants("C29/full-mutants", nil, t.pick(0, 1), sendable),
		headerScenario("C29/headers", sendable),
		propSections("C29/props", allPropTypes, sendable),
	}
}
