package gossiper

import (
	"encoding/json"

	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
)

// c02STH is what an honest logger publishes for a period: one signed tree head.
func c02STH(l, period string) definition.Gossip_object {
	b, err := json.Marshal(definition.STH{Signer: vLogger, Timestamp: "t", Period: period, RootHash: rt.Str(l + ".root"), TreeSize: 3})
	if err != nil {
		panic(err)
	}
	return vInit(definition.STH_INIT, 0, vLogger, period, string(b), "")
}

// VerifC02Honest: an honest logger is never barred, whatever is replayed when.
func VerifC02Honest() {
	c := vCtx(2, vNoOpt, false)
	a, b := c02STH("a", "10"), c02STH("b", "11")
	all := []definition.Gossip_object{a, b, vFrag(1, a), vFrag(2, b)}
	n := rt.Tier(3, 4)
	for i := 0; i < n; i++ {
		o := all[rt.Choice("which", 4)]
		if o.Type == definition.STH_INIT {
			o.Timestamp = rt.Str("ts")
			// other encodings of the same signature must not look like a second statement
			o.Signature[1] = rt.Str("sig1")
			if rt.Choice("respelled", 2) == 1 {
				o.Signature[0] += " "
			}
		}
		vDeliver(c, o)
		if rt.Choice("wait", 2) == 1 {
			rt.Advance(6000)
		}
	}
	rt.Assert(!c.InBlacklist(vLogger), "an honest logger is never barred")
	rt.Reach("done")
}

// VerifC02Relabel: the period an object is filed under is not covered by the signature.
// An attacker who replays an honest logger's old tree head under the current period makes
// it look like a conflict.
func VerifC02Relabel() {
	c := vCtx(2, vNoOpt, false)
	a, b := c02STH("a", "10"), c02STH("b", "11")
	a.Period = rt.Str("label.a")
	b.Period = rt.Str("label.b")
	vDeliver(c, b)
	vDeliver(c, a)
	rt.Assert(!c.InBlacklist(vLogger), "an honest logger is not barred by a relabelled old tree head")
}

// VerifC02CrossPeriod: the two statements of a conflict proof may be from two periods.
func VerifC02CrossPeriod() {
	c := vCtx(2, vNoOpt, false)
	a, b := c02STH("a", "10"), c02STH("b", "11")
	vDeliver(c, c.Generate_CON_INIT(a, b))
	rt.Assert(!c.InBlacklist(vLogger), "an honest logger is not barred by its statements for two periods")
}

// VerifC02Hour: the numbers of the periods come again after an hour; an honest entity's statement is another one then.
func VerifC02Hour() {
	c := vCtx(3, vNoOpt, false)
	rt.ClockMinute(10)
	PeriodicTasks(c)
	kind := rt.Choice("kind", 2)
	for i := 0; i < rt.Tier(2, 3); i++ {
		rt.Advance(1000)
		o := c02STH("a", "10")
		if kind == 1 {
			o = vInit(definition.REV_INIT, 2, vCA, "10", "CRV", rt.Str("rev"))
		}
		for k := 0; k < 2; k++ {
			switch rt.Choice("what", 4) {
			case 0:
				vDeliver(c, o)
			case 1:
				vDeliver(c, vFrag(1, o))
			case 2:
				vDeliver(c, vFrag(2, o))
			}
			rt.Advance(6000)
		}
		rt.Assert(!c.InBlacklist(o.Payload[0]), "an honest entity is not barred for having another statement an hour later")
		rt.Advance(3600000 - 13000)
	}
	rt.Reach("done")
}
