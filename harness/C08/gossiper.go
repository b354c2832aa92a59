package gossiper

import (
	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
)

func c08Same(a, b definition.Gossip_object) bool {
	return rt.And(a.Application == b.Application, a.Period == b.Period, a.Type == b.Type, a.Signer == b.Signer, a.Signature == b.Signature,
		a.Timestamp == b.Timestamp, a.Crypto_Scheme == b.Crypto_Scheme, a.Payload == b.Payload)
}

// VerifC08Propagate: a new valid statement reaches every peer and the monitor unchanged,
// and after the waiting time the gossiper's own fragment on it reaches every peer. Any of
// the receivers may be unreachable; that does not affect the others.
func VerifC08Propagate() {
	c := vCtx(2, vNoOpt, false)
	slow := rt.Choice("slow", 2) == 1
	if slow { // sending to peers takes its time
		c.Min_latency, c.Max_latency = []int{0, 20, 280}[rt.Choice("min", 3)], 290
	}
	down := -1
	if rt.Choice("fault", 2) == 1 {
		down = rt.Choice("down", 4)
	}
	urls := append([]string{vMonitor}, c.Gossiper_private_config.Connected_Gossipers...)
	rt.OnHTTP(func(method, url, body string) (int, string, bool) {
		for i, u := range urls {
			if i == down && len(url) > len("http://"+u) && url[:len("http://"+u)] == "http://"+u {
				return 0, "", true
			}
		}
		return 200, "", false
	})
	kind := rt.Choice("kind", 3)
	per, p1, p2 := rt.Str("period"), rt.Str("p1"), rt.Str("p2")
	var o definition.Gossip_object
	frag := ""
	switch kind {
	case 0:
		o, frag = vInit(definition.STH_INIT, 0, vLogger, per, p1, p2), definition.STH_FRAG
	case 1:
		o, frag = vInit(definition.REV_INIT, 2, vCA, per, p1, p2), definition.REV_FRAG
	case 2:
		o, frag = vInit(definition.ACC_INIT, 3, vLogger, per, p1, p2), definition.ACC_FRAG
	}
	vDeliver(c, o)
	if slow {
		rt.Advance(300)
	}
	peers, mon := vSent()
	if kind < 2 {
		rt.Assert(len(peers) == 3 && len(mon) == 1, "the statement goes to every peer and to the monitor, at once")
		for _, p := range c.Gossiper_private_config.Connected_Gossipers {
			n := 0
			for _, m := range peers {
				if m.URL == "http://"+p+vEndpoint(o.Type) {
					n++
					rt.Assert(c08Same(m.Obj, o), "the statement is passed on unchanged")
				}
			}
			rt.Assert(n == 1, "every peer gets the statement")
		}
		rt.Assert(c08Same(mon[0].Obj, o), "the monitor gets the statement unchanged")
		rt.ClearSent()
		rt.Advance(4000)
		rt.Assert(len(rt.Sent()) == 0, "the gossiper waits before it vouches")
		rt.Advance(2000)
		peers, mon = vSent()
	}
	rt.Assert(len(peers) == 3, "the fragment goes to every peer")
	for _, p := range c.Gossiper_private_config.Connected_Gossipers {
		n := 0
		for _, m := range peers {
			if m.URL == "http://"+p+vEndpoint(frag) {
				n++
				rt.Assert(rt.And(m.Obj.Type == frag, m.Obj.Period == o.Period, m.Obj.Signer == vGossipers[0], m.Obj.Payload == o.Payload), "the fragment speaks for the statement")
				rt.Assert(m.Obj.Verify(c.Gossiper_crypto_config) == nil, "the fragment verifies")
			}
		}
		rt.Assert(n == 1, "every peer gets the fragment")
	}
	rt.Reach("propagated")
}

// VerifC08ForwardFrag: a peer's valid fragment is passed on while it is still needed.
func VerifC08ForwardFrag() {
	c := vCtx(3, vNoOpt, false)
	kind := rt.Choice("kind", 3)
	per, p1, p2 := rt.Str("period"), rt.Str("p1"), rt.Str("p2")
	o := []definition.Gossip_object{vInit(definition.STH_INIT, 0, vLogger, per, p1, p2), vInit(definition.REV_INIT, 2, vCA, per, p1, p2), vInit(definition.ACC_INIT, 3, vLogger, per, p1, p2)}[kind]
	for i := 1; i < 4; i++ {
		rt.ClearSent()
		f := vFrag(i, o)
		vDeliver(c, f)
		peers, _ := vSent()
		rt.Assert(len(peers) == 3, "a fragment that is needed goes to every peer")
		for _, p := range c.Gossiper_private_config.Connected_Gossipers {
			n := 0
			for _, m := range peers {
				if m.URL == "http://"+p+vEndpoint(f.Type) {
					n++
					rt.Assert(c08Same(m.Obj, f), "the fragment is passed on unchanged")
				}
			}
			rt.Assert(n == 1, "every peer gets the fragment")
		}
	}
	rt.Reach("forwarded")
}

// VerifC08Early: fragments of too few others do not keep a gossiper from passing on and vouching for the statement.
func VerifC08Early() {
	c := vCtx(3, vNoOpt, false)
	kind := rt.Choice("kind", 3)
	rt.ClockMinute(10)
	o := []definition.Gossip_object{vInit(definition.STH_INIT, 0, vLogger, "10", rt.Str("p1"), ""), vInit(definition.REV_INIT, 2, vCA, "10", rt.Str("p1"), rt.Str("p2")),
		vInit(definition.ACC_INIT, 3, vLogger, "10", "", "")}[kind]
	before := rt.Choice("before", 3)
	after := rt.Choice("after", 3-before)
	for i := 0; i < before; i++ {
		vDeliver(c, vFrag(i+1, o))
	}
	rt.ClearSent()
	vDeliver(c, o)
	for i := 0; i < after; i++ {
		vDeliver(c, vFrag(before+i+1, o))
	}
	rt.Advance(6000)
	inits, own := 0, 0
	peers, mon := vSent()
	for _, m := range peers {
		if c08Same(m.Obj, o) {
			inits++
		}
		if m.Obj.Signer == vGossipers[0] && m.Obj.Type == vFrag(0, o).Type && m.Obj.Payload == o.Payload && m.Obj.Verify(c.Gossiper_crypto_config) == nil {
			own++
		}
	}
	rt.Assert(kind == 2 || inits == 3, "the statement goes to every peer")
	rt.Assert(own == 3, "every peer gets the gossiper's own fragment")
	full := 0
	for _, m := range mon {
		if m.Obj.Verify(c.Gossiper_crypto_config) == nil && m.Obj.Payload == o.Payload && m.Obj.Type != o.Type {
			full++
		}
	}
	rt.Assert((full == 1) == (before+after == 2), "the monitor gets the threshold signature as soon as there are enough fragments")
	rt.Reach("vouched")
}

// VerifC08Proof: a valid proof of conflict, about any period, reaches every peer and the monitor unchanged, once.
func VerifC08Proof() {
	c := vCtx(2, vNoOpt, false)
	down := rt.Choice("down", 5)
	urls := append([]string{vMonitor}, c.Gossiper_private_config.Connected_Gossipers...)
	rt.OnHTTP(func(method, url, body string) (int, string, bool) {
		if down < 4 && len(url) > len("http://"+urls[down]) && url[:len("http://"+urls[down])] == "http://"+urls[down] {
			return 0, "", true
		}
		return 200, "", false
	})
	m1, m2 := rt.Str("m1"), rt.Str("m2")
	rt.Assume(m1 != m2)
	o := definition.Gossip_object{Application: "CTng", Period: rt.Str("period"), Type: definition.CON_INIT,
		Signature: [2]string{vSign(0, m1), vSign(0, m2)}, Timestamp: "t", Payload: [3]string{vLogger, m1, m2}}
	for i := 0; i < 2; i++ {
		vDeliver(c, o)
		peers, mon := vSent()
		rt.Assert(len(peers) == 3 && len(mon) == 1, "the proof goes to every peer and to the monitor, once")
		got := map[string]bool{}
		for _, m := range append(peers, mon...) {
			rt.Assert(c08Same(m.Obj, o), "the proof is passed on unchanged")
			got[m.URL] = true
		}
		rt.Assert(len(got) == 4, "everybody gets the proof")
		rt.Advance(6000)
	}
	rt.Reach("passed on")
}

// VerifC08Hour: the numbers of the periods come again after an hour; statements are new then.
func VerifC08Hour() {
	kind := rt.Choice("kind", 3)
	c := vCtx([]int{2, 2, 3}[kind], vNoOpt, false)
	rt.ClockMinute(10)
	PeriodicTasks(c)
	for i := 0; i < rt.Tier(3, 4); i++ {
		rt.Advance(1000)
		rt.ClearSent()
		o := []definition.Gossip_object{vInit(definition.STH_INIT, 0, vLogger, "10", rt.Str("p1"), ""), vInit(definition.REV_INIT, 2, vCA, "10", "CRV", rt.Str("p2")),
			vInit(definition.ACC_INIT, 3, vLogger, "10", "", "")}[kind]
		vDeliver(c, o)
		rt.Advance(6000)
		f := vFrag(1, o)
		vDeliver(c, f)
		rt.Advance(2000)
		inits, frags, others := 0, 0, 0
		peers, mon := vSent()
		for _, m := range peers {
			switch {
			case c08Same(m.Obj, o):
				inits++
			case c08Same(m.Obj, f):
				others++
			case m.Obj.Type == f.Type && m.Obj.Signer == vGossipers[0]:
				rt.Assert(m.Obj.Payload == o.Payload && m.Obj.Verify(c.Gossiper_crypto_config) == nil, "the gossiper vouches for the statement of this hour")
				frags++
			default:
				rt.Assert(false, "peers get the statement and fragments on it")
			}
		}
		rt.Assert(frags == 3 && others == 3, "fragments go to every peer, every hour")
		if kind < 2 {
			rt.Assert(inits == 3, "the statement goes to every peer, every hour")
			rt.Assert(len(mon) == 2 && c08Same(mon[0].Obj, o) && mon[1].Obj.Payload == o.Payload && mon[1].Obj.Verify(c.Gossiper_crypto_config) == nil, "the monitor gets the statement and its threshold signature, every hour")
		}
		rt.Assert(!c.InBlacklist(o.Payload[0]), "nobody is barred for a statement an hour later")
		rt.Reach("hour")
		rt.Advance(3600000 - 9000)
	}
}
