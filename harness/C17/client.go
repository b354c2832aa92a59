package client

import (
	"encoding/hex"
	"encoding/json"

	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

// c17Check: everything in the databases is backed by an object of the updates handled.
func c17Check(ctx *ClientContext, us ...monitor.ClientUpdate) {
	for e, p := range ctx.POM_database {
		rt.Assert(p.Payload[0] == e && p.Verify(ctx.Crypto) == nil, "PoMs on file verify and are about the entity they are filed under")
		rt.Assert(p.Type == definition.ACC_FULL || p.Type == definition.CON_INIT, "PoMs on file are threshold signed accusations or proofs of conflict")
	}
	for k, root := range ctx.STH_database {
		backed := false
		for _, u := range us {
			for _, s := range u.STHs {
				var t definition.STH
				b, err := hex.DecodeString(s.Payload[1])
				if s.Type == definition.STH_FULL && s.Verify(ctx.Crypto) == nil && err == nil && json.Unmarshal(b, &t) == nil {
					backed = backed || (k == s.Payload[0]+"@"+s.Period && t.RootHash == root)
				}
			}
		}
		rt.Assert(backed, "root hashes on file come from threshold signed tree heads")
	}
	for ca, v := range ctx.CRV_database {
		backed := false
		signed := verifw.Bits()
		for _, u := range us {
			for _, r := range u.REVs {
				if r.Type == definition.REV_FULL && r.Payload[0] == ca && r.Verify(ctx.Crypto) == nil {
					backed = true
					_, d := Get_SRH_and_DCRV(r)
					signed = signed.Union(&d)
				}
			}
		}
		rt.Assert(backed && v != nil, "revocation vectors on file come from threshold signed revocations")
		rt.Assert(signed.IsSuperSet(v), "every revocation on file is in a threshold signed revocation")
	}
}

// VerifC17Any: one object of any making in any list of an otherwise genuine update.
func VerifC17Any() {
	ctx := vClient("NEW")
	var o definition.Gossip_object
	var known []monitor.ClientUpdate
	switch rt.Choice("making", 6) {
	case 5: // the same with other statements of the same entities known
		known = append(known, vGenuine("10"))
		rt.Assert(ctx.HandleUpdate(known[0], true, true), "genuine updates are taken")
		fallthrough
	case 4: // in order, but not signed, or not by all that have to
		o = verifw.AnyShaped("o", []int{0, 3}[rt.Choice("family", 2)], verifw.Bits(3))
	case 0:
		o = verifw.Any("o")
	case 1: // genuine, of any type
		switch rt.Choice("type", 6) {
		case 0:
			o = vSTH(0, "10", rt.Str("root"))
		case 1:
			o = verifw.Rev(2, "10", verifw.Bits(1), verifw.Bits(1))
		case 2:
			o = verifw.Init(definition.ACC_INIT, 3, verifw.CA, "10", "", "")
		case 3:
			o = verifw.Full([]int{0, 1}, vSTH(0, "10", rt.Str("root")))
		case 4:
			o = verifw.Full([]int{0, 1}, verifw.Rev(2, "10", verifw.Bits(1), verifw.Bits(1)))
		case 5:
			o = verifw.Full([]int{0, 1}, verifw.Init(definition.ACC_INIT, 3, verifw.CA, "10", "", ""))
		}
	case 2: // a tree head that is none
		o = verifw.Full([]int{0, 1}, verifw.Init(definition.STH_INIT, 0, verifw.Logger, "10", rt.Str("p1"), ""))
	case 3: // a revocation that is none
		o = verifw.Full([]int{0, 1}, verifw.Init(definition.REV_INIT, 2, verifw.CA, "10", "CRV", rt.Str("p2")))
	}
	u := vGenuine("10")
	first := rt.Choice("first", 2) == 1
	put := func(l []definition.Gossip_object) []definition.Gossip_object {
		if first {
			return append([]definition.Gossip_object{o}, l...)
		}
		return append(l, o)
	}
	list := rt.Choice("list", 4)
	switch list {
	case 0:
		u.STHs = put(u.STHs)
	case 1:
		u.REVs = put(u.REVs)
	case 2:
		u.POM_ACCs = put(u.POM_ACCs)
	case 3:
		u.POM_CONs = put(u.POM_CONs)
	}
	ok := false
	panicked := rt.Try(func() { ok = ctx.HandleUpdate(u, true, rt.Bool("newmonitor")) })
	rt.Assert(!panicked, "no update brings the client down")
	c17Check(ctx, append(known, u)...)
	if ok {
		rt.Reach("taken")
		typ := []string{definition.STH_FULL, definition.REV_FULL, definition.ACC_FULL, definition.CON_INIT}[list]
		rt.Assert(o.Type == typ && o.Verify(ctx.Crypto) == nil, "updates with anything unverified are rejected")
	} else {
		rt.Reach("rejected")
	}
	c17Next(ctx, append(known, u)...)
}

// c17Next: the next genuine update is taken, whatever was handled before.
func c17Next(ctx *ClientContext, before ...monitor.ClientUpdate) {
	g := vGenuine("10")
	ok := false
	rt.Assert(!rt.Deadlocks(func() { ok = ctx.HandleUpdate(g, true, rt.Bool("newmonitor2")) }), "the client goes on after an update")
	rt.Assert(ok, "genuine updates are taken")
	rt.Assert(ctx.STH_database[verifw.Logger2+"@10"] == "aa", "root hashes are filed by logger and period")
	v := ctx.CRV_database[verifw.CA2]
	rt.Assert(v != nil && v.Test(3), "revocations are filed by CA")
	_, a := ctx.POM_database[verifw.Logger2]
	_, b := ctx.POM_database[verifw.CA2]
	rt.Assert(a && b, "PoMs are filed by entity")
	c17Check(ctx, append(before, g)...)
}

// VerifC17Sequence: what the updates taken say is on file, the latest for each logger and period.
func VerifC17Sequence() {
	ctx := vClient("NEW")
	roots := map[string]string{}
	vector := verifw.Bits()
	seen := false
	bad := map[string]bool{}
	for i := 0; i < rt.Tier(3, 4); i++ {
		period := []string{"10", "11"}[rt.Choice("period", 2)]
		u := monitor.ClientUpdate{MonitorID: verifw.Monitor, Period: period}
		switch rt.Choice("kind", 4) {
		case 0:
			k := rt.Choice("logger", 2)
			root := rt.Str("root")
			u.STHs = append(u.STHs, verifw.Full([]int{0, 1}, vSTH(k, period, root)))
			roots[verifw.Ents[k].Name+"@"+period] = root
		case 1:
			delta := verifw.Bits(rt.Int("rid", 0, 999999))
			vector = vector.Union(delta)
			seen = true
			u.REVs = append(u.REVs, verifw.Full([]int{1, 2}, verifw.Rev(2, period, vector, delta)))
		case 2:
			k := rt.Choice("accused", 2)
			u.POM_ACCs = append(u.POM_ACCs, verifw.Full([]int{2, 3}, verifw.Init(definition.ACC_INIT, 3, verifw.Ents[k].Name, period, "", "")))
			bad[verifw.Ents[k].Name] = true
		case 3:
			k := rt.Choice("convicted", 2)
			u.POM_CONs = append(u.POM_CONs, verifw.Con(k, period, "x", "y"))
			bad[verifw.Ents[k].Name] = true
		}
		rt.Assert(ctx.HandleUpdate(u, true, i == 0), "genuine updates are taken")
		rt.Assert(len(ctx.STH_database) == len(roots), "root hashes are on file for what was taken only")
		for k, r := range roots {
			rt.Assert(ctx.STH_database[k] == r, "the latest root hash taken is on file")
		}
		v := ctx.CRV_database[verifw.CA]
		rt.Assert((v != nil) == seen && (v == nil || v.Equal(vector)), "all revocations taken are on file")
		rt.Assert(len(ctx.POM_database) == len(bad), "misbehaviour on file is what was proved")
		for e := range bad {
			_, ok := ctx.POM_database[e]
			rt.Assert(ok, "proved misbehaviour stays on file")
		}
	}
	rt.Reach("taken")
}
