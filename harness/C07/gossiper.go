package gossiper

import (
	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
)

func c07Object() definition.Gossip_object {
	per := rt.Str("period")
	sth := vInit(definition.STH_INIT, 0, vLogger, per, rt.Str("a1"), rt.Str("a2"))
	rev := vInit(definition.REV_INIT, 2, vCA, per, rt.Str("a1"), rt.Str("a2"))
	acc := vInit(definition.ACC_INIT, 3, vLogger, per, "", "")
	switch rt.Choice("object", 7) {
	case 0:
		return sth
	case 1:
		return rev
	case 2:
		return acc
	case 3:
		return vFrag(1, sth)
	case 4:
		return vFrag(1, rev)
	case 5:
		return vFrag(1, acc)
	}
	m1, m2 := rt.Str("m1"), rt.Str("m2")
	rt.Assume(m1 != m2)
	return definition.Gossip_object{Application: "CTng", Period: per, Type: definition.CON_INIT,
		Signature: [2]string{vSign(0, m1), vSign(0, m2)}, Timestamp: "t", Payload: [3]string{vLogger, m1, m2}}
}

// c07Once: nothing was sent twice to anybody.
func c07Once() {
	s := rt.Sent()
	for i := range s {
		for j := 0; j < i; j++ {
			rt.Assert(!rt.And(s[i].URL == s[j].URL, s[i].Body == s[j].Body), "nothing is sent twice to anybody")
		}
	}
	if len(s) > 0 {
		rt.Reach("sent")
	}
}

func c07Count(typ, url string) int {
	peers, mon := vSent()
	n := 0
	for _, m := range append(peers, mon...) {
		if m.Obj.Type == typ && m.URL == url {
			n++
		}
	}
	return n
}

// VerifC07Again: an object that comes back, also with its unsigned time stamp changed,
// is not passed on again.
func VerifC07Again() {
	c := vCtx(3, vNoOpt, false)
	o := c07Object()
	vDeliver(c, o)
	n := 2 + rt.Choice("more", 2)
	for i := 1; i < n; i++ {
		if rt.Choice("wait", 2) == 1 {
			rt.Advance(6000)
		}
		o.Timestamp = rt.Str("ts")
		vDeliver(c, o)
	}
	rt.Advance(6000)
	for _, p := range c.Gossiper_private_config.Connected_Gossipers {
		rt.Assert(c07Count(o.Type, "http://"+p+vEndpoint(o.Type)) <= 1, "no peer gets an object twice")
	}
	rt.Assert(c07Count(o.Type, "http://"+vMonitor+"/monitor/receive-gossip-from-gossiper") <= 1, "the monitor does not get an object twice")
	c07Once()
}

// VerifC07Concurrent: two copies that arrive at the same time over different connections.
func VerifC07Concurrent() {
	c := vCtx(3, vNoOpt, false)
	o := c07Object()
	rt.Par(rt.Tier(2, 3), func() { Handle_Gossip_object(c, o) }, func() { Handle_Gossip_object(c, o) })
	rt.Drain()
	c07Once()
	n := 0
	for _, l := range c.Gossip_object_storage.STH_FRAG {
		n += len(l)
	}
	for _, l := range c.Gossip_object_storage.REV_FRAG {
		n += len(l)
	}
	for _, l := range c.Gossip_object_storage.ACC_FRAG {
		n += len(l)
	}
	rt.Assert(n <= 1, "a fragment is counted once")
}
