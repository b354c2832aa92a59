package monitor

import (
	"encoding/json"
	"os"

	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/verifh"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

const vCurrent = "10" // the current period of the harnesses

// vMon is the monitor of the little world, started from configuration files.
func vMon() *MonitorContext {
	return vMonOf([]string{verifw.Logger, verifw.Logger2}, []string{verifw.CA})
}

func vMonOf(loggers, cas []string) *MonitorContext {
	d := rt.Dir()
	pub := Monitor_public_config{All_CA_URLs: []string{verifw.CA, verifw.CA2}, All_Logger_URLs: []string{verifw.Logger, verifw.Logger2}, Gossip_wait_time: 5, MMD: 60, MRD: 60}
	priv := Monitor_private_config{CA_URLs: cas, Logger_URLs: loggers, Signer: verifw.Monitor, Gossiper_URL: verifw.Gossipers[0], Port: "8180"}
	os.WriteFile(d+"/pub.json", []byte(verifw.JSON(pub)), 0644)
	os.WriteFile(d+"/priv.json", []byte(verifw.JSON(priv)), 0644)
	c := InitializeMonitorContext(d+"/pub.json", d+"/priv.json", d+"/none.json", "1")
	c.Monitor_crypto_config = verifh.Config(verifw.Monitor, verifw.Ents, verifw.Gossipers, 2)
	c.Max_latency = 0
	c.Period_Offset = "0"
	c.Client = rt.NewClient()
	c.InitializeMonitorStorage(d + "/store")
	rt.ClockMinute(10)
	go handleMonitorRequests(c)
	rt.Drain()
	return c
}

// vGossip posts an object the way the monitor's gossiper does.
func vGossip(c *MonitorContext, o definition.Gossip_object) {
	vGossipBody(c, verifw.JSON(o))
}
func vGossipBody(c *MonitorContext, body string) *rt.RW {
	w := &rt.RW{}
	var fail bool
	w.Code, w.Out, fail = rt.Dispatch("POST", "http://"+verifw.Monitor+"/monitor/receive-gossip-from-gossiper", body)
	rt.Assert(!fail, "monitors take what gossipers send")
	rt.Drain()
	return w
}

// vHeld lists everything the monitor holds.
func vHeld(c *MonitorContext) []definition.Gossip_object {
	var out []definition.Gossip_object
	for _, s := range []*definition.Gossip_Storage{c.Storage_TEMP, c.Storage_CONFLICT_POM, c.Storage_ACCUSATION_POM, c.Storage_CONFLICT_POM_DELTA,
		c.Storage_ACCUSATION_POM_DELTA, c.Storage_STH_FULL, c.Storage_REV_FULL} {
		for _, o := range *s {
			out = append(out, o)
		}
	}
	return out
}

// vUpdate asks the monitor for the update of a period, as a client does.
func vUpdate(c *MonitorContext, period string) (ClientUpdate, bool) {
	w := vUpdateBody(c, verifw.JSON(period))
	var raw []byte
	var u ClientUpdate
	if json.Unmarshal([]byte(w.Out), &raw) != nil || json.Unmarshal(raw, &u) != nil {
		return u, false
	}
	return u, true
}

func vUpdateBody(c *MonitorContext, body string) *rt.RW {
	w := &rt.RW{}
	var fail bool
	w.Code, w.Out, fail = rt.Dispatch("GET", "http://"+verifw.Monitor+"/monitor/get-update", body)
	rt.Assert(!fail, "monitors answer clients")
	return w
}

// vSent lists the objects sent to the gossiper.
func vSent() []definition.Gossip_object {
	var out []definition.Gossip_object
	for _, m := range rt.Sent() {
		if m.Method != "POST" {
			continue
		}
		var o definition.Gossip_object
		rt.Assert(json.Unmarshal([]byte(m.Body), &o) == nil, "sent bodies are gossip objects")
		ep := map[string]string{definition.STH_INIT: "/gossip/sth_init", definition.REV_INIT: "/gossip/rev_init", definition.ACC_INIT: "/gossip/acc_init"}[o.Type]
		rt.Assert(m.URL == "http://"+verifw.Gossipers[0]+ep, "objects go to the monitor's own gossiper, to the endpoint of their kind")
		out = append(out, o)
	}
	return out
}

// VMon, VGossip and VUpdate are for the harnesses of other packages.
func VMon() *MonitorContext                                         { return vMonOf(nil, nil) }
func VGossip(c *MonitorContext, o definition.Gossip_object)         { vGossip(c, o) }
func VUpdate(c *MonitorContext, period string) (ClientUpdate, bool) { return vUpdate(c, period) }
