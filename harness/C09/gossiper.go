package gossiper

import (
	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
)

func c09Init(kind int) definition.Gossip_object {
	per, p1, p2 := rt.Str("period"), rt.Str("p1"), rt.Str("p2")
	return []definition.Gossip_object{vInit(definition.STH_INIT, 0, vLogger, per, p1, p2), vInit(definition.REV_INIT, 2, vCA, per, p1, p2), vInit(definition.ACC_INIT, 3, vLogger, per, p1, p2)}[kind]
}

func c09Full(c *GossiperContext) []definition.Gossip_object {
	var out []definition.Gossip_object
	for _, m := range []map[definition.Gossip_ID]definition.Gossip_object{c.Gossip_object_storage.STH_FULL, c.Gossip_object_storage.REV_FULL, c.Gossip_object_storage.ACC_FULL} {
		for _, o := range m {
			out = append(out, o)
		}
	}
	return out
}

// c09Check: with n distinct contributors so far, there is exactly one full object iff the
// threshold is reached, and it is the right one.
func c09Check(c *GossiperContext, o definition.Gossip_object, who map[int]bool, th int) {
	fulls := c09Full(c)
	_, mon := vSent()
	var toMon []definition.Gossip_object
	for _, m := range mon {
		if m.Obj.Type == definition.STH_FULL || m.Obj.Type == definition.REV_FULL || m.Obj.Type == definition.ACC_FULL {
			toMon = append(toMon, m.Obj)
		}
	}
	if len(who) < th {
		rt.Assert(len(fulls) == 0 && len(toMon) == 0, "no full object below the threshold")
		return
	}
	rt.Reach("threshold reached")
	rt.Assert(len(fulls) == 1, "one full object is kept")
	rt.Assert(len(toMon) == 1, "the monitor gets one full object")
	f := definition.Gossip_object{Type: o.GetTargetType()}
	want := f.GetTargetType()
	for _, g := range []definition.Gossip_object{fulls[0], toMon[0]} {
		rt.Assert(g.Type == want, "the full object has the type of its fragments")
		rt.Assert(g.Payload == o.Payload, "the full object carries the payload")
		rt.Assert(g.Verify(c.Gossiper_crypto_config) == nil, "the full object verifies")
		rt.Assert(len(g.Signers) == th, "threshold many signers are named")
		for i, s := range g.Signers {
			ok := false
			for k := range who {
				if s == vGossipers[k] {
					ok = true
				}
			}
			rt.Assert(ok, "the named signers contributed")
			for j := 0; j < i; j++ {
				rt.Assert(g.Signers[j] != s, "no signer is named twice")
			}
		}
	}
}

// VerifC09Assemble: fragments of any gossipers arrive in any order, with repetitions,
// junk in between and with or without the statement itself.
func VerifC09Assemble() {
	th := 2 + rt.Choice("threshold", 2)
	c := vCtx(th, vNoOpt, false)
	o := c09Init(rt.Choice("kind", 3))
	who := map[int]bool{}
	n := rt.Tier(4, 5)
	for i := 0; i < n; i++ {
		switch k := rt.Choice("event", 5); k {
		case 0: // the statement itself: the gossiper's own fragment follows
			vDeliver(c, o)
			rt.Advance(6000)
			who[0] = true
		case 4: // a fragment that is not by the gossiper it names
			f := vFrag(1, o)
			f.Signer = vGossipers[2]
			vDeliver(c, f)
		default:
			f := vFrag(k, o)
			if who[k] { // once more, written otherwise
				f.Signature[0] += " "
				f.Timestamp = "later"
			}
			vDeliver(c, f)
			who[k] = true
		}
		c09Check(c, o, who, th)
	}
	rt.Reach("done")
}

// VerifC09Content: some gossipers sign something else for the same entity and period, or the same
// with other boundaries between the fields.
func VerifC09Content() {
	th := 2 + rt.Choice("threshold", 2)
	c := vCtx(th, vNoOpt, false)
	o := c09Init(rt.Choice("kind", 3))
	other := o
	if rt.Choice("other", 2) == 0 {
		other.Payload[1] = rt.Str("other")
		rt.Assume(other.Payload[1]+other.Payload[2] != o.Payload[1]+o.Payload[2])
	} else {
		other.Payload[1], other.Payload[2] = o.Payload[1]+o.Payload[2], ""
		rt.Assume(o.Payload[2] != "")
	}
	who, bad := map[int]bool{}, map[int]bool{}
	for i := 0; i < rt.Tier(4, 5); i++ {
		k := rt.Choice("event", 6)
		switch {
		case k == 0: // the statement itself: the gossiper's own fragment follows
			vDeliver(c, o)
			rt.Advance(6000)
			who[0] = true
		case k < 4:
			vDeliver(c, vFrag(k, o))
			who[k] = true
		default: // fewer than threshold many
			if len(bad) < th-1 || bad[k-2] {
				vDeliver(c, vFrag(k-2, other))
				bad[k-2] = true
			}
		}
		c09Check(c, o, who, th)
	}
	rt.Reach("done")
}

// VerifC09Concurrent: the deciding fragments arrive at the same time.
func VerifC09Concurrent() {
	th := 2
	c := vCtx(th, vNoOpt, false)
	o := c09Init(rt.Choice("kind", 3))
	f1, f2, f3 := vFrag(1, o), vFrag(2, o), vFrag(3, o)
	who := map[int]bool{1: true, 2: true}
	if rt.Choice("mode", 2) == 0 {
		rt.Par(rt.Tier(2, 3), func() { Handle_Gossip_object(c, f1) }, func() { Handle_Gossip_object(c, f2) })
	} else {
		vDeliver(c, f3)
		who[3] = true
		rt.Par(rt.Tier(2, 3), func() { Handle_Gossip_object(c, f1) }, func() { Handle_Gossip_object(c, f2) })
	}
	rt.Drain()
	c09Check(c, o, who, th)
}

// VerifC09Boundary: the full object is about the period of the statement, also when it is made in the next one.
func VerifC09Boundary() {
	kind := rt.Choice("kind", 3)
	c := vCtx(2, vNoOpt, false)
	rt.ClockMinute(10)
	PeriodicTasks(c)
	at := []int{1000, 33000, 41000, 54000, 58000, 61000}[rt.Choice("at", 6)]
	period := []string{"10", "11"}[at/60000]
	rt.Advance(at)
	o := []definition.Gossip_object{vInit(definition.STH_INIT, 0, vLogger, period, rt.Str("p1"), ""), vInit(definition.REV_INIT, 2, vCA, period, "CRV", rt.Str("p2")),
		vInit(definition.ACC_INIT, 3, vLogger, period, "", "")}[kind]
	vDeliver(c, o)
	rt.Advance(6000)
	vDeliver(c, vFrag(1, o))
	_, mon := vSent()
	full := 0
	for _, m := range mon {
		if m.Obj.Type == vFull([]int{0, 1}, o).Type {
			full++
			rt.Assert(m.Obj.Period == period && m.Obj.Payload == o.Payload && m.Obj.Verify(c.Gossiper_crypto_config) == nil, "the threshold signed object is about the period of the statement")
		}
	}
	rt.Assert(full == 1, "the monitor gets the threshold signed object")
	rt.Reach("full")
}
