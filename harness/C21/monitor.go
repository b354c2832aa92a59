package monitor

import (
	"reflect"

	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

func c21Update(l, period string) ClientUpdate {
	return ClientUpdate{
		STHs:      []definition.Gossip_object{verifw.Full([]int{0, 1}, verifw.Init(definition.STH_INIT, 0, verifw.Logger, period, rt.Str("h"+l), ""))},
		REVs:      []definition.Gossip_object{verifw.Full([]int{1, 2}, verifw.Rev(2, period, verifw.Bits(3), verifw.Bits(3)))},
		POM_CONs:  []definition.Gossip_object{verifw.Con(4, period, "a"+rt.Str("x"+l), "b")},
		POM_ACCs:  []definition.Gossip_object{},
		MonitorID: verifw.Monitor, Period: period}
}

// A monitor may end anywhere while it saves an update. Started again, it serves whole
// updates or none, and those of earlier periods as before.
func VerifC21Update() {
	c := vMon()
	u1, u2 := c21Update("1", "09"), c21Update("2", "10")
	c.SaveStorage("9", u1)
	again := rt.Bool("again")
	if again { // an hour ago there was a period 10 too
		c.SaveStorage("10", u1)
	}
	crashed := rt.Crash(func() { c.SaveStorage("10", u2) })
	c = vMon()
	got, ok := vUpdate(c, "9")
	rt.Assert(ok && reflect.DeepEqual(got, u1), "updates of earlier periods are served as saved")
	got, ok = vUpdate(c, "10")
	if !crashed {
		rt.Assert(ok && reflect.DeepEqual(got, u2), "the update is served as saved")
		rt.Reach("no crash")
		return
	}
	rt.Assert(!ok || reflect.DeepEqual(got, u2) || again && reflect.DeepEqual(got, u1), "an update is served as a whole or not at all")
	rt.Assert(ok || !again, "what was saved stays until it is replaced")
	rt.Reach("crash")
}
