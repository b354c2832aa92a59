//verif:with CA

package client

import (
	"encoding/json"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

// VerifC15Follow: a client that takes every statement of the CA knows exactly its revocations.
func VerifC15Follow() {
	c := CA.VCA(0)
	ctx := vClient("NEW")
	rt.ClockMinute(10)
	CA.PeriodicTask(c)
	all := verifw.Bits()
	for i := 0; i < rt.Tier(3, 4); i++ {
		CA.VC15Revoke(c, all)
		rt.Advance(60000)
		o, _ := CA.VAsk(c)
		full := verifw.Full([]int{0, 1}, o)
		b, _ := json.Marshal(monitor.ClientUpdate{REVs: []definition.Gossip_object{full}, Period: o.Period, MonitorID: verifw.Monitor})
		var u monitor.ClientUpdate
		rt.Assert(json.Unmarshal(b, &u) == nil, "updates can be read")
		rt.Assert(ctx.HandleUpdate(u, true, false), "clients take the statements of an honest CA")
		rt.Assert(ctx.CRV_database[verifw.CA].Equal(all), "clients know exactly the revocations of the CA")
	}
	rt.Reach("followed")
}
