//verif:with monitor
package client

import (
	"encoding/hex"
	"encoding/json"
	"strconv"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

// c23Made is an object of any making that the gossipers signed: they sign tree heads and
// revocations without looking into them. Revocations are about the current period.
func c23Made(l, now string) definition.Gossip_object {
	other := rt.Str(l + ".period")
	switch rt.Choice(l+".made", rt.Tier(6, 7)) {
	case 0: // a tree head with any contents, of any period
		return verifw.Full([]int{0, 1}, verifw.Init(definition.STH_INIT, 1, verifw.Logger2, other, rt.Str(l+".p1"), rt.Str(l+".p2")))
	case 1: // a tree head that is not about anything
		return verifw.Full([]int{0, 1}, verifw.Init(definition.STH_INIT, 1, verifw.Logger2, now, verifw.STH(1, now, "zz").Payload[1]+rt.Str(l+".p1"), ""))
	case 2: // a revocation with any contents
		return verifw.Full([]int{0, 1}, verifw.Init(definition.REV_INIT, 4, verifw.CA2, now, rt.Str(l+".p1"), rt.Str(l+".p2")))
	case 3: // a revocation of any certificate, with a head about any others
		d := verifw.Bits(rt.Int(l+".d", 0, 9))
		v := verifw.Bits(rt.Int(l+".v", 0, 9), rt.Int(l+".w", 0, 9))
		return verifw.Full([]int{0, 1}, verifw.Init(definition.REV_INIT, 4, verifw.CA2, now, "CRV", verifw.RevPayload(now, d, verifw.SRH(4, now, v, d))))
	case 4: // an accusation, with any contents
		return verifw.Full([]int{0, 1}, verifw.Init(definition.ACC_INIT, 3, rt.Str(l+".p0"), other, rt.Str(l+".p1"), rt.Str(l+".p2")))
	case 5: // a proof of conflict
		return verifw.Con(4, other, rt.Str(l+".a"), rt.Str(l+".b"))
	}
	return verifw.Any(l) // nobody signed it, or somebody did
}

// c23Unsigned: gossipers put anything into the fields that are not signed.
func c23Unsigned(l string, o definition.Gossip_object) definition.Gossip_object {
	o.Signer, o.Timestamp = rt.Str(l+".signer"), rt.Str(l+".timestamp")
	return o
}

// c23Take: the client takes the update of the monitor and knows what the honest entities said.
func c23Take(m *monitor.MonitorContext, c *ClientContext, period, root string, all *bitset.BitSet, first bool) {
	u, ok := monitor.VUpdate(m, period)
	rt.Assert(ok, "the monitor has an update")
	rt.Assert(c.HandleUpdate(u, true, first), "clients take the updates of an honest monitor")
	rt.Assert(c.STH_database[verifw.Logger+"@"+period] == root, "the client knows the tree heads of honest loggers")
	v := c.CRV_database[verifw.CA]
	rt.Assert(v != nil && v.IsSuperSet(all) && all.IsSuperSet(v), "the client knows the revocations of honest CAs")
}

// VerifC23Updates: whatever the gossipers bring, clients can take the updates of an honest monitor one after the other.
func VerifC23Updates() {
	m := monitor.VMon()
	monitor.PeriodicTasks(m)
	c := vClient("NEW")
	all := verifw.Bits()
	at := rt.Choice("at", 2)
	for i := 0; i < 2; i++ {
		period := strconv.Itoa(10 + i)
		var o definition.Gossip_object
		when := 0
		if i == at {
			o = c23Made("o", period)
			rt.Assume(o.Payload[0] != verifw.Logger && o.Payload[0] != verifw.CA) // nobody convicts the honest ones
			when = 1 + rt.Choice("when", 2)
		}
		if when == 1 {
			monitor.VGossip(m, o)
		}
		sth := verifw.STH(0, period, "root"+period)
		monitor.VGossip(m, c23Unsigned("sth", verifw.Full([]int{0, 1}, sth)))
		d := verifw.Bits(rt.Int("rid", 0, 999))
		all = all.Union(d)
		monitor.VGossip(m, c23Unsigned("rev", verifw.Full([]int{1, 2}, verifw.Rev(2, period, all, d))))
		if when == 2 {
			monitor.VGossip(m, o)
		}
		rt.Advance(41000)
		c23Take(m, c, period, c23Root(sth), all, i == 0)
		rt.Advance(19000)
	}
	rt.Reach("taken")
}

func c23Root(o definition.Gossip_object) string {
	h, _ := hex.DecodeString(o.Payload[1])
	var s definition.STH
	rt.Assert(json.Unmarshal(h, &s) == nil, "a tree head")
	return s.RootHash
}

// VerifC23Late: the revocation of a period comes when the update of that period is made already, or in another period.
func VerifC23Late() {
	m := monitor.VMon()
	monitor.PeriodicTasks(m)
	c := vClient("NEW")
	d := verifw.Bits(rt.Int("rid", 0, 999))
	e := verifw.Bits(rt.Int("rid", 0, 999))
	late := []int{1, 19, 39, 45, 59, 65}[rt.Choice("late", 6)] // seconds from the beginning of period 10 until the first revocation comes
	rt.Advance(late * 1000)
	monitor.VGossip(m, verifw.Full([]int{1, 2}, verifw.Rev(2, "10", d, d)))
	rt.Advance(90000 - late*1000)
	monitor.VGossip(m, verifw.Full([]int{1, 2}, verifw.Rev(2, "11", d.Union(e), e)))
	rt.Advance(11000)
	u, ok := monitor.VUpdate(m, "10")
	rt.Assert(ok && c.HandleUpdate(u, true, true), "clients take the update of the first period")
	u, ok = monitor.VUpdate(m, "11")
	rt.Assert(ok && (late > 40 || c.HandleUpdate(u, true, false)), "clients take the updates after revocations that came in time")
	rt.Assert(late < 40 || c.HandleUpdate(u, true, false), "clients take the updates after revocations that came late")
	rt.Reach("taken")
}
