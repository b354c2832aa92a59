package monitor

import (
	"reflect"

	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

func c11Check(c *MonitorContext) {
	cfg := c.Monitor_crypto_config
	for _, o := range vHeld(c) {
		rt.Assert(o.Verify(cfg) == nil, "everything the monitor holds verifies")
	}
	u := GenerateUpdate(c)
	for _, l := range [][]definition.Gossip_object{u.STHs, u.REVs, u.POM_CONs, u.POM_ACCs} {
		for _, o := range l {
			rt.Assert(o.Verify(cfg) == nil, "everything in a client update verifies")
		}
	}
	if len(u.STHs)+len(u.REVs)+len(u.POM_CONs)+len(u.POM_ACCs) > 0 {
		rt.Reach("update holds an object")
	}
}

// VerifC11Any: whatever is posted to a monitor that may already hold an object, it only
// ever holds and publishes verified objects.
func VerifC11Any() {
	c := vMon()
	switch rt.Choice("first", 5) {
	case 4:
		vGossip(c, verifw.Full([]int{0, 1}, verifw.STH(1, vCurrent, rt.Str("a"))))
	case 1:
		vGossip(c, verifw.Full([]int{0, 1}, verifw.STH(0, vCurrent, rt.Str("a"))))
	case 2:
		vGossip(c, verifw.Init(definition.STH_INIT, 0, verifw.Logger, vCurrent, rt.Str("a"), ""))
	case 3:
		vGossip(c, verifw.Con(0, vCurrent, "m1", "m2"))
	}
	c11Check(c)
	o := definition.Gossip_object{}
	switch rt.Choice("making", 2) {
	case 0:
		o = verifw.Any("o")
	case 1:
		o = verifw.AnyShaped("o", []int{0, 3}[rt.Choice("family", 2)], verifw.Bits())
	}
	vGossip(c, o)
	c11Check(c)
	rt.Assert(len(vSent()) == 0, "nothing is sent out on account of gossip")
}

// VerifC11Keeps: genuine objects of the gossiper are kept and published.
func VerifC11Keeps() {
	c := vMon()
	p := rt.Str("p")
	var o definition.Gossip_object
	switch rt.Choice("kind", 4) {
	case 0:
		o = verifw.Full([]int{0, 1}, verifw.STH(0, vCurrent, p))
	case 1:
		o = verifw.Full([]int{2, 1}, verifw.Init(definition.ACC_INIT, 3, verifw.Logger, vCurrent, "", ""))
	case 2:
		rt.Assume(p != "m")
		o = verifw.Con(0, vCurrent, "m", p)
	case 3:
		b := verifw.Bits(rt.Int("rid", 0, 999999))
		o = verifw.Full([]int{3, 1}, verifw.Rev(2, vCurrent, b, b))
	}
	vGossip(c, o)
	u := GenerateUpdate(c)
	n := 0
	for _, l := range [][]definition.Gossip_object{u.STHs, u.REVs, u.POM_CONs, u.POM_ACCs} {
		for _, x := range l {
			rt.Assert(reflect.DeepEqual(x, o), "objects are published as received")
			n++
		}
	}
	rt.Assert(n == 1, "a genuine object is published")
}

// VerifC11Junk: a body that is not a gossip object leaves no trace.
func VerifC11Junk() {
	c := vMon()
	w := vGossipBody(c, rt.Str("junk"))
	rt.Assert(w.Code == 400, "rejected")
	rt.Assert(len(vHeld(c)) == 0, "nothing is stored for a body that does not decode")
}
