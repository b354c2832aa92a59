package client

import (
	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

func c21Bits(a, b *bitset.BitSet) bool {
	return a != nil && b != nil && a.IsSuperSet(b) && b.IsSuperSet(a)
}

// c21STH and its like: does the client have exactly what another one knew?
func c21STH(c *ClientContext, m map[string]string) bool {
	ok := len(c.STH_database) == len(m)
	for k, v := range m {
		got, has := c.STH_database[k]
		ok = ok && has && got == v
	}
	return ok
}
func c21CRV(c *ClientContext, m map[string]*bitset.BitSet) bool {
	ok := len(c.CRV_database) == len(m)
	for k, v := range m {
		ok = ok && c21Bits(c.CRV_database[k], v)
	}
	return ok
}
func c21PoM(c *ClientContext, m map[string]definition.Gossip_object) bool {
	ok := len(c.POM_database) == len(m)
	for k, v := range m {
		got, has := c.POM_database[k]
		ok = ok && has && got.Type == v.Type && got.Payload == v.Payload && got.Signature == v.Signature && got.Period == v.Period && got.Signer == v.Signer
	}
	return ok
}

// c21Update is an update of an honest monitor with any contents: tree heads, revocations on top of those in old,
// accusations, convictions; or, if some, only some of them.
func c21Update(l, period string, old *bitset.BitSet, some bool) (monitor.ClientUpdate, *bitset.BitSet) {
	choice := func(l string, n, fixed int) int {
		if some {
			return rt.Choice(l, n)
		}
		return fixed
	}
	u := monitor.ClientUpdate{MonitorID: verifw.Monitor, Period: period}
	for i := choice("heads"+l, 3, 1); i > 0; i-- {
		u.STHs = append(u.STHs, verifw.Full([]int{0, 1}, vSTH(i-1, period, rt.Str("root"+l))))
	}
	v := old
	n := choice("revocations"+l, 3, 1)
	if n > 0 {
		d := verifw.Bits()
		if choice("any"+l, 2, 1) == 1 {
			d.Set(uint(rt.Int("rid"+l, 0, 1000000)))
		}
		v = d
		if old != nil {
			v = old.Union(d)
		}
		u.REVs = append(u.REVs, verifw.Full([]int{1, 2}, verifw.Rev(2, period, v, d)))
	}
	if n > 1 && l == "1" {
		d := verifw.Bits(rt.Int("other rid"+l, 0, 1000000))
		u.REVs = append(u.REVs, verifw.Full([]int{1, 2}, verifw.Rev(4, period, d, d)))
	}
	pom := choice("pom"+l, 4, -1)
	if pom < 0 {
		pom = rt.Choice("pom"+l, 3)
	}
	if pom == 1 || pom == 3 {
		u.POM_ACCs = append(u.POM_ACCs, verifw.Full([]int{2, 3}, verifw.Init(definition.ACC_INIT, 3, verifw.Logger2, period, "", "")))
	}
	if pom > 1 {
		u.POM_CONs = []definition.Gossip_object{verifw.Con(4, period, rt.Str("x"+l), rt.Str("y"+l))}
		rt.Assume(u.POM_CONs[0].Payload[1] != u.POM_CONs[0].Payload[2])
	}
	return u, v
}

func c21Save(c *ClientContext) {
	SaveSTHDatabase(c)
	SaveCRVDatabase(c)
	SavePomDatabase(c)
}

// A client that is started again has what it saved, and goes on from there.
func VerifC21Restart() {
	c := vClient("NEW")
	u, v := c21Update("1", "10", nil, true)
	rt.Assert(c.HandleUpdate(u, true, true), "genuine update taken")
	c21Save(c)
	b := vClient("OLD")
	rt.Assert(c21STH(b, c.STH_database), "the tree heads are as saved")
	rt.Assert(c21CRV(b, c.CRV_database), "the revocations are as saved")
	rt.Assert(c21PoM(b, c.POM_database), "the proofs of misbehaviour are as saved")
	u2, v2 := c21Update("2", []string{"11", "10"}[rt.Choice("period", 2)], v, true)
	rt.Assert(b.HandleUpdate(u2, true, false), "the next update is taken after a restart")
	rt.Assert(v2 == nil && b.CRV_database[verifw.CA] == nil || c21Bits(b.CRV_database[verifw.CA], v2), "the revocations are those from before and after the restart")
	c21Save(b)
	e := vClient("OLD")
	rt.Assert(c21STH(e, b.STH_database) && c21CRV(e, b.CRV_database) && c21PoM(e, b.POM_database), "saving again replaces what was saved")
	rt.Reach("end")
}

// A client that has nothing saved yet starts empty.
func VerifC21First() {
	b := vClient("OLD")
	rt.Assert(len(b.STH_database) == 0 && len(b.CRV_database) == 0 && len(b.POM_database) == 0, "a client that never saved starts with nothing")
	u, _ := c21Update("1", "10", nil, true)
	rt.Assert(b.HandleUpdate(u, true, true), "genuine update taken")
	rt.Reach("end")
}

// The process may end anywhere while it saves.
func VerifC21Crash() {
	c := vClient("NEW")
	v := (*bitset.BitSet)(nil)
	var u monitor.ClientUpdate
	saved := rt.Bool("saved before")
	if saved {
		u, v = c21Update("1", "10", nil, false)
		rt.Assert(c.HandleUpdate(u, true, true), "genuine update taken")
		c21Save(c)
	}
	old := vClient("OLD")
	u, _ = c21Update("2", "11", v, false)
	rt.Assert(c.HandleUpdate(u, true, false), "genuine update taken")
	crashed := rt.Crash(func() { c21Save(c) })
	b := vClient("OLD")
	if !crashed {
		rt.Assert(c21STH(b, c.STH_database) && c21CRV(b, c.CRV_database) && c21PoM(b, c.POM_database), "what is saved is there again")
		rt.Reach("no crash")
		return
	}
	rt.Assert(c21STH(b, c.STH_database) || c21STH(b, old.STH_database), "after a crash the tree heads are those of before or after")
	rt.Assert(c21CRV(b, c.CRV_database) || c21CRV(b, old.CRV_database), "after a crash the revocations are those of before or after")
	rt.Assert(c21PoM(b, c.POM_database) || c21PoM(b, old.POM_database), "after a crash the proofs of misbehaviour are those of before or after")
	rt.Reach("crash")
}
