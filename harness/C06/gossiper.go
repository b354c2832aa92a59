package gossiper

import (
	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
)

func c06Con(key int, about string) definition.Gossip_object {
	m1, m2 := rt.Str("m1"), rt.Str("m2")
	rt.Assume(m1 != m2)
	return definition.Gossip_object{Application: "CTng", Period: rt.Str("cperiod"), Type: definition.CON_INIT,
		Signature: [2]string{vSign(key, m1), vSign(key, m2)}, Timestamp: "t", Payload: [3]string{about, m1, m2}}
}

func c06Nothing(c *GossiperContext, o definition.Gossip_object, before int) {
	if o.Payload[0] == vLogger {
		rt.Assert(len(vStored(c)) == before, "nothing about a barred entity is kept")
		rt.Assert(len(rt.Sent()) == 0, "nothing about a barred entity is passed on")
	}
	rt.Assert(c.InBlacklist(vLogger), "a barred entity stays barred")
}

// VerifC06Barred: after a proof against the entity, whatever arrives, and across the
// wipe at the end of the period, the entity stays barred and nothing is said for it.
func VerifC06Barred() {
	c := vCtx(2, vNoOpt, false)
	if rt.Choice("by", 2) == 0 {
		vDeliver(c, c06Con(0, vLogger))
	} else {
		acc := vInit(definition.ACC_INIT, 3, vLogger, rt.Str("aperiod"), "", "")
		vDeliver(c, acc)
		vDeliver(c, vFrag(1, acc))
	}
	rt.Assert(c.InBlacklist(vLogger), "a proof bars the entity")
	wipes := rt.Choice("wipes", 3)
	for i := 0; i < wipes; i++ {
		c.WipeStorage()
	}
	rt.ClearSent()
	n := len(vStored(c))
	o := vAny("o")
	vDeliver(c, o)
	c06Nothing(c, o, n)
	rt.Advance(6000)
	c06Nothing(c, o, n)
	rt.Reach("still barred")
}

// VerifC06OnlyProven: nobody is barred without a valid proof: an arbitrary object bars an
// entity only if it is itself a valid proof about that entity.
func VerifC06OnlyProven() {
	c := vCtx(2, vNoOpt, false)
	o := vAny("o")
	vDeliver(c, o)
	rt.Advance(6000)
	for id := range c.Gossip_blacklist.BLACKLIST_PERM {
		rt.Assert(o.Type == definition.CON_INIT || o.Type == definition.ACC_FULL, "only proofs bar an entity")
		rt.Assert(id == o.Payload[0], "only the named entity is barred")
		rt.Assert(o.Verify(c.Gossiper_crypto_config) == nil, "only valid proofs bar an entity")
		rt.Reach("barred")
	}
	rt.Reach("done")
}

// VerifC06Two: entities stay barred together, one after the other, over wipes and the hour.
func VerifC06Two() {
	c := vCtx(2, vNoOpt, false)
	rt.ClockMinute(10)
	PeriodicTasks(c)
	between := []int{1000, 41000, 61000}[rt.Choice("between", 3)]
	about := []string{vLogger, vLogger2, vCA}
	keys := []int{0, 1, 2}
	for i := 0; i < rt.Tier(2, 3); i++ {
		vDeliver(c, c06Con(keys[i], about[i]))
		rt.Advance(between)
		for j := 0; j <= i; j++ {
			rt.Assert(c.InBlacklist(about[j]), "barred entities stay barred when others are barred too")
		}
	}
	rt.Advance([]int{60000, 3600000}[rt.Choice("after", 2)])
	i := rt.Choice("which", rt.Tier(2, 3))
	for j := 0; j < rt.Tier(2, 3); j++ {
		rt.Assert(c.InBlacklist(about[j]), "barred entities stay barred for good")
	}
	rt.ClearSent()
	n := len(vStored(c))
	typ := definition.STH_INIT
	if i == 2 {
		typ = definition.REV_INIT
	}
	vDeliver(c, vInit(typ, keys[i], about[i], rt.Str("period"), rt.Str("p1"), rt.Str("p2")))
	rt.Advance(6000)
	rt.Assert(len(vStored(c)) == n && len(rt.Sent()) == 0, "nothing about barred entities is kept or passed on")
	rt.Reach("both barred")
}
