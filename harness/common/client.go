package client

import (
	"encoding/hex"
	"os"

	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	"github.com/jik18001/CTngV2/verifh"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

// vClient starts a client of the little world from configuration files.
func vClient(status string) *ClientContext {
	d := rt.Dir()
	cfg := ClientConfig{Monitor_URLs: []string{verifw.Monitor}, MMD: 60, MRD: 60, STH_Storage_filepath: d + "/sth.json",
		CRV_Storage_filepath: d + "/crv.json", PoM_Store_filepath: d + "/pom.json"}
	os.WriteFile(d+"/client.json", []byte(verifw.JSON(cfg)), 0644)
	scc := crypto.NewStoredCryptoConfig(verifh.Config(verifw.Monitor, verifw.Ents, verifw.Gossipers, 2))
	os.WriteFile(d+"/crypto.json", []byte(verifw.JSON(*scc)), 0644)
	ctx := &ClientContext{Config: &ClientConfig{}, Config_filepath: d + "/client.json", Crypto_filepath: d + "/crypto.json", Status: status}
	ctx.InitializeClientContext()
	return ctx
}

// vSTH is a genuine tree head of logger key.
func vSTH(key int, period, root string) definition.Gossip_object {
	p := hex.EncodeToString([]byte(verifw.JSON(definition.STH{Timestamp: "t", RootHash: root, TreeSize: 4})))
	return verifw.Init(definition.STH_INIT, key, verifw.Ents[key].Name, period, p, "")
}

// vGenuine is an update of an honest monitor.
func vGenuine(period string) monitor.ClientUpdate {
	return monitor.ClientUpdate{
		STHs:      []definition.Gossip_object{verifw.Full([]int{0, 1}, vSTH(1, period, "aa"))},
		REVs:      []definition.Gossip_object{verifw.Full([]int{1, 2}, verifw.Rev(4, period, verifw.Bits(3), verifw.Bits(3)))},
		POM_ACCs:  []definition.Gossip_object{verifw.Full([]int{2, 3}, verifw.Init(definition.ACC_INIT, 3, verifw.Logger2, period, "", ""))},
		POM_CONs:  []definition.Gossip_object{verifw.Con(4, period, "x", "y")},
		MonitorID: verifw.Monitor, Period: period}
}
