package Gen

import (
	"crypto/x509"
	"encoding/json"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/client"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
	"github.com/jik18001/CTngV2/util"
	rt "github.com/jik18001/CTngV2/verifrt"
)

// vWorld is a whole CTng network, started from generated configuration files the way
// the network tests start it: CAs and loggers first, gossipers and monitors a period later.
type vWorld struct {
	g     []*gossiper.GossiperContext
	m     []*monitor.MonitorContext
	l     []*Logger.LoggerContext
	ca    *CA.CAContext // the first of them
	cas   []*CA.CAContext
	certs []*x509.Certificate
}

const (
	vGossipers = 3
	vThreshold = 2
	vLoggers   = 2
)

func vID(i int) string { return string([]byte{byte('1' + i)}) }

func vStart(minute, certs int) *vWorld { return vStartCAs(minute, certs, 1) }

func vStartCAs(minute, certs, cas int) *vWorld {
	Generateall(vGossipers, vThreshold, vLoggers, cas, certs, 60, 60, "")
	w := &vWorld{}
	for i := 0; i < vGossipers; i++ {
		g := InitializeOneEntity("Gossiper", vID(i)).(*gossiper.GossiperContext)
		g.StorageDirectory = "gossiper_testdata/" + g.StorageID + "/"
		g.StorageFile = "gossiper_testdata.json"
		g.Total_Logger, g.Total_CA = vLoggers, cas
		g.Max_latency = 0
		util.CreateDir(g.StorageDirectory)
		util.CreateFile(g.StorageDirectory + g.StorageFile)
		w.g = append(w.g, g)
		m := InitializeOneEntity("Monitor", vID(i)).(*monitor.MonitorContext)
		m.InitializeMonitorStorage("monitor_testdata/")
		m.Max_latency = 0
		m.Maxdrift_miliseconds = 1000
		m.Period_Offset = "0"
		w.m = append(w.m, m)
	}
	for i := 0; i < vLoggers; i++ {
		l := InitializeOneEntity("Logger", vID(i)).(*Logger.LoggerContext)
		l.Max_latency = 0
		l.StoragePath = "logger_" + vID(i) + ".json"
		w.l = append(w.l, l)
	}
	for i := 0; i < cas; i++ {
		ca := InitializeOneEntity("CA", vID(i)).(*CA.CAContext)
		ca.Max_latency = 0
		w.cas = append(w.cas, ca)
	}
	w.ca = w.cas[0]
	rt.ClockMinute(minute)
	rt.Advance(30000)
	return w
}

// vRun lets the first period with everybody taking part pass, up to the moment
// the monitors have published its update. down is the gossiper that is not there.
func (w *vWorld) vRun(down int) {
	rt.OnHTTP(func(method, url, body string) (int, string, bool) { return rt.Dispatch(method, url, body) })
	for _, l := range w.l {
		go Logger.StartLogger(l)
	}
	for _, ca := range w.cas {
		go CA.StartCA(ca)
	}
	rt.Advance(60000) // half past minute + 1
	for i, g := range w.g {
		if i != down {
			go gossiper.StartGossiperServer(g)
		}
	}
	for _, m := range w.m {
		go monitor.StartMonitorServer(m)
	}
	rt.Advance(10500) // the loggers have published, the CA has not changed over yet
	for _, ca := range w.cas {
		w.certs = append(w.certs, CA.SignAllCerts(ca)...)
	}
	rt.Advance(60000)
}

func (w *vWorld) vUpdate(i int, period string) (u monitor.ClientUpdate, ok bool) {
	b, _ := json.Marshal(period)
	code, out, fail := rt.Dispatch("GET", "http://"+w.m[i].Monitor_private_config.Signer+"/monitor/get-update", string(b))
	var raw []byte
	if fail || code != 200 || json.Unmarshal([]byte(out), &raw) != nil || json.Unmarshal(raw, &u) != nil {
		return u, false
	}
	return u, true
}

func (w *vWorld) vClient() *client.ClientContext {
	b, _ := json.Marshal(client.ClientConfig{Monitor_URLs: []string{w.m[0].Monitor_private_config.Signer}, MMD: 60, MRD: 60})
	util.CreateDir("client_testconfig")
	util.CreateFile("client_testconfig/Client_config.json")
	util.WriteData("client_testconfig/Client_config.json", json.RawMessage(b))
	ctx := &client.ClientContext{Config: &client.ClientConfig{}, Config_filepath: "client_testconfig/Client_config.json",
		Crypto_filepath: "monitor_testconfig/1/Monitor_crypto_config.json", Status: "NEW"}
	ctx.InitializeClientContext()
	return ctx
}

func VerifC19Honest() {
	// updates are numbered by the minute they are made in, less the offset, which is 0 here
	minute := []int{10, 57, 58, 7}[rt.Choice("minute", rt.Tier(3, 4))]
	period := map[int]string{10: "12", 57: "59", 58: "0", 7: "9"}[minute]
	w := vStart(minute, 2)
	down := rt.Choice("down", rt.Tier(2, vGossipers+1)) - 1
	w.vRun(down)
	asked := rt.Choice("asked", vGossipers)
	rt.Assume(asked != down)
	u, ok := w.vUpdate(asked, period)
	rt.Assert(ok, "the monitor has an update for the period")
	rt.Assert(len(u.STHs) == vLoggers && len(u.REVs) == 1, "the update has the tree head of every logger and the revocations of every CA")
	rt.Assert(len(u.POM_ACCs) == 0 && len(u.POM_CONs) == 0, "nobody honest is accused or convicted")
	c := w.vClient()
	rt.Assert(c.HandleUpdate(u, true, true), "clients take the update")
	rt.Assert(len(w.certs) == 2, "the CA has issued its certificates")
	for _, cert := range w.certs {
		rt.Assert(c.VerifyCTngextension(cert), "clients take the certificates")
	}
	rt.Reach("end")
}

// Two CAs: their certificates and revocations do not get into each other's way, also when one of them shows two views
// or answers nobody.
func VerifC19CAs() {
	w := vStartCAs(10, 1, 2)
	kind := rt.Choice("kind", 3)
	switch kind {
	case 1:
		w.cas[1].CA_Type, w.cas[1].OnlineDuration, w.cas[1].MisbehaviorInterval = 1, 1, 2
	case 2:
		w.cas[1].CA_Type = 2
	}
	w.vRun(-1)
	u, ok := w.vUpdate(rt.Choice("asked", rt.Tier(1, vGossipers)), "12")
	rt.Assert(ok, "the monitor has an update for the period")
	good := 2
	if kind != 0 {
		good = 1
	}
	rt.Assert(len(u.STHs) == vLoggers && len(u.REVs) == good, "the update has the tree head of every logger and the revocations of every CA in good standing")
	rt.Assert(len(u.POM_CONs)+len(u.POM_ACCs) == 2-good, "whoever is not in good standing is accused or convicted, and nobody else")
	c := w.vClient()
	rt.Assert(c.HandleUpdate(u, true, true), "clients take the update")
	rt.Assert(len(w.certs) == 2, "the CAs have issued their certificates")
	for _, cert := range w.certs {
		rt.Assert(c.VerifyCTngextension(cert) == (kind == 0 || cert.Issuer.CommonName == w.ca.CA_private_config.Signer), "clients take exactly the certificates of CAs in good standing")
	}
	rt.Reach("end")
}

// One logger or the CA shows different monitors different views, keeps silent, or is down.
func VerifC19Misbehaving() {
	minute := []int{10, 57}[rt.Choice("minute", rt.Tier(1, 2))]
	period := map[int]string{10: "12", 57: "59"}[minute]
	w := vStart(minute, 2)
	down := rt.Choice("down", rt.Tier(1, vGossipers+1)) - 1
	kind := rt.Choice("kind", 3)
	isCA := rt.Bool("CA")
	bad := w.l[0].Logger_private_config.Signer
	if isCA {
		bad = w.ca.CA_private_config.Signer
	}
	switch kind {
	case 0: // two views
		if isCA {
			w.ca.CA_Type, w.ca.OnlineDuration, w.ca.MisbehaviorInterval = 1, 1, 2
		} else {
			w.l[0].Logger_Type, w.l[0].OnlineDuration, w.l[0].MisbehaviorInterval = 1, 1, 2
		}
	case 1: // answers nobody
		if isCA {
			w.ca.CA_Type = 2
		} else {
			w.l[0].Logger_Type = 2
		}
	case 2: // answers every other request only
		if isCA {
			w.ca.CA_Type, w.ca.MisbehaviorInterval = 3, 2
		} else {
			w.l[0].Logger_Type, w.l[0].MisbehaviorInterval = 3, 2
		}
	}
	w.vRun(down)
	asked := rt.Choice("asked", vGossipers)
	rt.Assume(asked != down)
	u, ok := w.vUpdate(asked, period)
	rt.Assert(ok, "the monitor has an update for the period")
	c := w.vClient()
	rt.Assert(c.HandleUpdate(u, true, true), "clients take the update")
	goodL, goodC := vLoggers, 1
	if kind != 2 {
		if isCA {
			goodC = 0
		} else {
			goodL--
		}
	}
	rt.Assert(len(u.REVs) == goodC, "the revocations of exactly the CAs in good standing are published")
	rt.Assert(len(u.STHs) == goodL, "the tree heads of exactly the loggers in good standing are published")
	switch kind {
	case 0:
		rt.Assert(len(u.POM_CONs) == 1 && len(u.POM_ACCs) == 0 && u.POM_CONs[0].Payload[0] == bad, "whoever shows two views is convicted, and nobody else")
	case 1:
		rt.Assert(len(u.POM_CONs) == 0 && len(u.POM_ACCs) == 1 && u.POM_ACCs[0].Payload[0] == bad, "whoever answers nobody is accused, and nobody else")
	case 2:
		rt.Assert(len(u.POM_CONs) == 0 && len(u.POM_ACCs) == 0, "whoever answers somebody is not accused")
	}
	for _, cert := range w.certs {
		got := c.VerifyCTngextension(cert)
		if isCA && kind != 2 {
			rt.Assert(!got, "clients do not take the certificates of a CA whose revocations they do not have")
		} else {
			rt.Assert(got, "clients take a certificate that one logger in good standing has logged")
		}
	}
	rt.Reach("end")
}
