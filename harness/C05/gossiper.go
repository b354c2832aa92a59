package gossiper

import (
	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
)

// c05Pair is two different statements of one entity for one period.
func c05Pair() (a, b definition.Gossip_object) {
	typ, key, about := definition.STH_INIT, 0, vLogger
	if rt.Choice("type", 2) == 1 {
		typ, key, about = definition.REV_INIT, 2, vCA
	}
	per := rt.Str("period")
	a = vInit(typ, key, about, per, rt.Str("a1"), rt.Str("a2"))
	b = vInit(typ, key, about, per, rt.Str("b1"), rt.Str("b2"))
	rt.Assume(a.Payload[1]+a.Payload[2] != b.Payload[1]+b.Payload[2])
	return
}

// c05Detected: the conflict is proven, the entity barred, and everybody told once.
func c05Detected(c *GossiperContext, about string) {
	rt.Assert(c.InBlacklist(about), "the entity is barred")
	rt.Assert(len(c.Gossip_object_storage.CON_INIT) == 1, "one conflict proof is kept")
	for _, o := range c.Gossip_object_storage.CON_INIT {
		rt.Assert(o.Payload[0] == about, "the proof names the entity")
		rt.Assert(o.Verify(c.Gossiper_crypto_config) == nil, "the proof verifies")
	}
	peers, mon := vSent()
	for _, p := range c.Gossiper_private_config.Connected_Gossipers {
		n := 0
		for _, m := range peers {
			if m.Obj.Type == definition.CON_INIT && m.URL == "http://"+p+"/gossip/con_init" {
				n++
				rt.Assert(m.Obj.Payload[0] == about && m.Obj.Verify(c.Gossiper_crypto_config) == nil, "peers get a valid proof")
			}
		}
		rt.Assert(n == 1, "every peer gets the proof once")
	}
	n := 0
	for _, m := range mon {
		if m.Obj.Type == definition.CON_INIT {
			n++
			rt.Assert(m.Obj.Payload[0] == about && m.Obj.Verify(c.Gossiper_crypto_config) == nil, "the monitor gets a valid proof")
		}
	}
	rt.Assert(n == 1, "the monitor gets the proof once")
}

// VerifC05Sequence: two different statements at any two moments of the period.
func VerifC05Sequence() {
	c := vCtx(2, vNoOpt, false)
	a, b := c05Pair()
	vDeliver(c, a)
	switch rt.Choice("between", 4) {
	case 1: // its own fragment is out
		rt.Advance(6000)
	case 2: // a peer's fragment on the first statement is there
		vDeliver(c, vFrag(1, a))
	case 3: // the first statement already has a threshold signature
		rt.Advance(6000)
		vDeliver(c, vFrag(1, a))
	}
	vDeliver(c, b)
	c05Detected(c, a.Payload[0])
	rt.ClearSent()
	// the timers of the first statement must not vouch for the barred entity any more
	rt.Advance(10000)
	rt.Assert(len(rt.Sent()) == 0, "nothing more is said for a barred entity")
	rt.Reach("detected")
}

// VerifC05Concurrent: two different statements handled at the same time.
func VerifC05Concurrent() {
	c := vCtx(2, vNoOpt, false)
	a, b := c05Pair()
	rt.Par(rt.Tier(2, 3), func() { Handle_Gossip_object(c, a) }, func() { Handle_Gossip_object(c, b) })
	rt.Drain()
	c05Detected(c, a.Payload[0])
	rt.Reach("detected")
}
