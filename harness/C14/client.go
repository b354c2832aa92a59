package client

import (
	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

// c14Rev: a threshold signed revocation of the CA, with a head that may or may not fit.
// It reports whether the head fits what the client knows.
func c14Rev(known *bitset.BitSet) (o definition.Gossip_object, delta *bitset.BitSet, fits bool) {
	period := "10"
	delta = verifw.Bits(rt.Int("rid", 0, 999999))
	if rt.Choice("many", 2) == 1 {
		delta.Set(uint(rt.Int("rid", 0, 999999)))
	}
	crv := known.Union(delta)
	key, signed, sdelta := 2, period, delta
	fits = true
	switch rt.Choice("head", 7) {
	case 1: // by somebody else
		key = []int{0, 3, 4}[rt.Choice("key", 3)]
		fits = false
	case 2: // of any period
		signed = rt.Str("signed")
		fits = signed == period
	case 3: // for any vector
		crv = verifw.Bits(rt.Int("v", 0, 999999), rt.Int("v", 0, 999999))
		fits = crv.Equal(known.Union(delta))
	case 4: // for any delta
		sdelta = verifw.Bits(rt.Int("d", 0, 999999))
		fits = sdelta.Equal(delta)
	case 5: // for the vector before the update
		crv = known
		fits = crv.Equal(known.Union(delta))
	case 6: // no signature at all
		p := verifw.RevPayload(period, delta, rt.Str("srh"))
		return verifw.Full([]int{0, 1}, verifw.Init(definition.REV_INIT, 2, verifw.CA, period, "CRV", p)), delta, false
	}
	p := verifw.RevPayload(period, delta, verifw.SRH(key, signed, crv, sdelta))
	return verifw.Full([]int{0, 1}, verifw.Init(definition.REV_INIT, 2, verifw.CA, period, "CRV", p)), delta, fits
}

// VerifC14Client: a few updates with revocations that fit or do not.
func VerifC14Client() {
	ctx := vClient("NEW")
	known := verifw.Bits()
	g := vGenuine("09")
	if rt.Choice("start", 2) == 1 {
		known = verifw.Bits(rt.Int("r0", 0, 999999))
		g.REVs = append(g.REVs, verifw.Full([]int{0, 1}, verifw.Rev(2, "09", known, known)))
	}
	rt.Assert(ctx.HandleUpdate(g, true, false), "genuine revocations are taken")
	for i := 0; i < rt.Tier(1, 2); i++ {
		o, delta, fits := c14Rev(known)
		u := monitor.ClientUpdate{REVs: []definition.Gossip_object{o}, MonitorID: verifw.Monitor, Period: "10"}
		ok := ctx.HandleUpdate(u, rt.Choice("verify", 2) == 1, rt.Choice("new", 2) == 1)
		if ok {
			rt.Assert(fits, "revocations are taken only with the CA's signature on the delta and on the vector it leads to")
			known = known.Union(delta)
			rt.Reach("taken")
		} else {
			rt.Assert(!fits, "revocations the CA signed are taken")
			rt.Reach("rejected")
		}
		v := ctx.CRV_database[verifw.CA]
		if v == nil {
			v = verifw.Bits()
		}
		rt.Assert(v.Equal(known), "the vector on file is the union of the deltas taken")
		probe := uint(rt.Int("probe", 0, 999999))
		rt.Assert(v.Test(probe) == known.Test(probe), "a certificate is revoked exactly if a delta taken revokes it")
		w := ctx.CRV_database[verifw.CA2]
		rt.Assert(w != nil && w.Equal(verifw.Bits(3)), "the revocations of other CAs stay as they are")
	}
}

// VerifC14ClientSeries: several genuine deltas in one update or over several.
func VerifC14ClientSeries() {
	ctx := vClient("NEW")
	known := verifw.Bits()
	var revs []definition.Gossip_object
	n := rt.Tier(2, 3)
	for i := 0; i < n; i++ {
		delta := verifw.Bits(rt.Int("rid", 0, 999999))
		known = known.Union(delta)
		revs = append(revs, verifw.Full([]int{1, 2}, verifw.Rev(2, []string{"10", "11", "12"}[i], known, delta)))
		if rt.Choice("flush", 2) == 1 || i == n-1 {
			again := rt.Choice("again", 2) == 1
			u := monitor.ClientUpdate{REVs: revs, MonitorID: verifw.Monitor, Period: "10"}
			rt.Assert(ctx.HandleUpdate(u, true, false), "a series of genuine revocations is taken")
			rt.Assert(ctx.CRV_database[verifw.CA].Equal(known), "the vector on file is the union of the deltas taken")
			if again && len(revs) == 1 {
				rt.Assert(ctx.HandleUpdate(u, true, true), "an update can be taken twice")
				rt.Assert(ctx.CRV_database[verifw.CA].Equal(known), "the vector on file is the union of the deltas taken")
				rt.Reach("again")
			}
			revs = nil
		}
	}
}
