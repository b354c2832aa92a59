package gossiper

import (
	"encoding/json"
	"strings"

	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/verifh"
	rt "github.com/jik18001/CTngV2/verifrt"
)

// The little world the gossiper harnesses live in.
var vGossipers = []string{"localhost:8080", "localhost:8081", "localhost:8082", "localhost:8083"}
var vEnts = []verifh.Ent{{Name: "localhost:9000", Key: 0}, {Name: "localhost:9001", Key: 1}, {Name: "localhost:9100", Key: 2}, {Name: "localhost:8180", Key: 3}}

const (
	vLogger  = "localhost:9000"
	vLogger2 = "localhost:9001"
	vCA      = "localhost:9100"
	vMonitor = "localhost:8180"
)

const vNoOpt = 1 << 40

// vCtx is gossiper 0, connected to the other three, owned by the monitor.
func vCtx(threshold, optThreshold int, optMode bool) *GossiperContext {
	return vCtxN(0, 4, threshold, optThreshold, optMode)
}

// vCtxN is gossiper me of the first n, connected to the others.
func vCtxN(me, n, threshold, optThreshold int, optMode bool) *GossiperContext {
	var conn []string
	for i := 0; i < n; i++ {
		if i != me {
			conn = append(conn, vGossipers[i])
		}
	}
	c := &GossiperContext{
		Gossiper_private_config: &Gossiper_private_config{Connected_Gossipers: conn, Owner_URL: vMonitor, Port: vGossipers[me][len("localhost:"):]},
		Gossiper_public_config:  &Gossiper_public_config{Gossip_wait_time: 5, MMD: 60, MRD: 60, Gossiper_URLs: vGossipers, Signer_URLs: []string{vLogger, vLogger2, vCA}},
		Gossiper_crypto_config:  verifh.Config(vGossipers[me], vEnts, vGossipers, threshold),
		Gossip_object_storage:   InitializeGossipObjectStorage(),
		Gossip_blacklist:        InitializeGossipBlacklist(),
		Gossiper_log:            InitializeGossiperLog(),
		StorageID:               "1",
		StorageFile:             "1.json",
		StorageDirectory:        "Gossip_log/",
		Client:                  rt.NewClient(),
		Total_Logger:            2,
		Total_CA:                1,
		Optimization_threshold:  optThreshold,
		Optimization_mode:       optMode,
	}
	go handleRequests(c)
	rt.Drain()
	return c
}

func vSign(key int, msg string) string {
	s, err := crypto.RSASign([]byte(msg), rt.RSAKey(key), crypto.CTngID(vEnts[key].Name))
	if err != nil {
		panic(err)
	}
	return s.String()
}

// vInit is a genuine STH, revocation or accusation by entity key.
func vInit(typ string, key int, about, period, p1, p2 string) definition.Gossip_object {
	return definition.Gossip_object{Application: definition.CTNG_APPLICATION, Period: period, Type: typ, Signer: vEnts[key].Name,
		Signature: [2]string{vSign(key, about+p1+p2), ""}, Timestamp: "2026-01-01T00:00:00Z", Crypto_Scheme: "rsa",
		Payload: [3]string{about, p1, p2}}
}

// vFrag is a genuine fragment of gossiper i on the payload of o.
func vFrag(i int, o definition.Gossip_object) definition.Gossip_object {
	f := crypto.SigFragment{ID: crypto.CTngID(vGossipers[i]), Sign: rt.BLSKey(i).Sign(o.Payload[0] + o.Payload[1] + o.Payload[2])}
	o.Type = o.GetTargetType()
	o.Signer = vGossipers[i]
	o.Signature[0] = f.String()
	o.Crypto_Scheme = "bls"
	return o
}

// vFull is what threshold many gossipers make of o.
func vFull(is []int, o definition.Gossip_object) definition.Gossip_object {
	var ss []bls.Sign
	var ids []crypto.CTngID
	for _, i := range is {
		ss = append(ss, *rt.BLSKey(i).Sign(o.Payload[0] + o.Payload[1] + o.Payload[2]))
		ids = append(ids, crypto.CTngID(vGossipers[i]))
	}
	agg := new(bls.Sign)
	agg.Aggregate(ss)
	ts := crypto.ThresholdSig{IDs: ids, Sign: agg}
	t, err := ts.String()
	if err != nil {
		panic(err)
	}
	f := definition.Gossip_object{Type: o.GetTargetType()}
	return definition.Gossip_object{Application: definition.CTNG_APPLICATION, Period: o.Period, Type: f.GetTargetType(), Signature: [2]string{t, ""},
		Timestamp: "t", Crypto_Scheme: "bls", Payload: o.Payload}
}

// vDeliver posts an object to the gossiper and lets everything that is not waiting
// for the clock finish.
func vDeliver(c *GossiperContext, o definition.Gossip_object) {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	vPost(c, vEndpoint(o.Type), string(b))
	rt.Drain()
}

// vPost is a request to the gossiper.
func vPost(c *GossiperContext, path, body string) {
	if path == "" {
		path = "/gossip/sth_init" // no path of its own
	}
	code, _, fail := rt.Dispatch("POST", "http://localhost:"+c.Gossiper_private_config.Port+path, body)
	rt.Assert(!fail && code != 404 && code != 405, "gossipers take objects of every kind")
}

type vOut struct {
	URL string
	Obj definition.Gossip_object
}

// vSent decodes what the gossiper sent: objects to peers, objects to the monitor.
func vSent() (peers, monitor []vOut) {
	for _, m := range rt.Sent() {
		if strings.HasSuffix(m.URL, "/gossip/new_payload_notification") || strings.HasSuffix(m.URL, "/gossip/new_payload_request") {
			continue
		}
		var o definition.Gossip_object
		rt.Assert(json.Unmarshal([]byte(m.Body), &o) == nil, "sent bodies are gossip objects")
		if m.URL == "http://"+vMonitor+"/monitor/receive-gossip-from-gossiper" {
			monitor = append(monitor, vOut{m.URL, o})
		} else {
			peers = append(peers, vOut{m.URL, o})
		}
	}
	return
}

func vEndpoint(typ string) string {
	return map[string]string{
		definition.STH_INIT: "/gossip/sth_init", definition.REV_INIT: "/gossip/rev_init", definition.ACC_INIT: "/gossip/acc_init", definition.CON_INIT: "/gossip/con_init",
		definition.STH_FRAG: "/gossip/sth_frag", definition.REV_FRAG: "/gossip/rev_frag", definition.ACC_FRAG: "/gossip/acc_frag"}[typ]
}

// vStored lists everything in the storage.
func vStored(c *GossiperContext) []definition.Gossip_object {
	var out []definition.Gossip_object
	s := c.Gossip_object_storage
	for _, m := range []map[definition.Gossip_ID]definition.Gossip_object{s.STH_INIT, s.REV_INIT, s.ACC_INIT, s.CON_INIT, s.STH_FULL, s.REV_FULL, s.ACC_FULL, s.REV_PAYLOAD} {
		for _, o := range m {
			out = append(out, o)
		}
	}
	for _, m := range []map[definition.Gossip_ID][]definition.Gossip_object{s.STH_FRAG, s.REV_FRAG, s.ACC_FRAG} {
		for _, l := range m {
			out = append(out, l...)
		}
	}
	return out
}

// vAny is an object with free fields of any type and any signatures an attacker can make.
func vAny(l string) definition.Gossip_object {
	g := definition.Gossip_object{Application: "CTng", Period: rt.Str(l + ".period"), Signer: rt.Str(l + ".signer"), Timestamp: "t", Crypto_Scheme: "x",
		Payload: [3]string{rt.Str(l + ".p0"), rt.Str(l + ".p1"), rt.Str(l + ".p2")}}
	switch rt.Choice(l+".family", 4) {
	case 0:
		g.Type = []string{definition.STH_INIT, definition.REV_INIT, definition.ACC_INIT}[rt.Choice(l+".type", 3)]
		g.Signature[0] = verifh.AnySig(l+".s0", 5).Text
		g.Signature[1] = rt.Str(l + ".sig1")
	case 1:
		g.Type = definition.CON_INIT
		g.Signature[0] = verifh.AnySig(l+".s0", 5).Text
		g.Signature[1] = verifh.AnySig(l+".s1", 5).Text
	case 2:
		g.Type = []string{definition.STH_FRAG, definition.REV_FRAG, definition.ACC_FRAG}[rt.Choice(l+".type", 3)]
		if rt.Choice(l+".form", 2) == 0 {
			g.Signature[0] = rt.Str(l + ".junk")
		} else {
			f := crypto.SigFragment{ID: crypto.CTngID(rt.Str(l + ".id")), Sign: rt.BLSKey(rt.Choice(l+".key", 5)).Sign(rt.Str(l + ".msg"))}
			g.Signature[0] = f.String()
		}
		g.Signature[1] = rt.Str(l + ".sig1")
	case 3:
		g.Type = []string{definition.STH_FULL, definition.REV_FULL, definition.ACC_FULL}[rt.Choice(l+".type", 3)]
		if rt.Choice(l+".form", 2) == 0 {
			g.Signature[0] = rt.Str(l + ".junk")
		} else {
			agg := new(bls.Sign)
			k := rt.Choice(l+".key", 4)
			m := rt.Str(l + ".msg")
			agg.Aggregate([]bls.Sign{*rt.BLSKey(k).Sign(m), *rt.BLSKey(k + 1).Sign(m)})
			ts := crypto.ThresholdSig{IDs: []crypto.CTngID{crypto.CTngID(rt.Str(l + ".id")), crypto.CTngID(rt.Str(l + ".id"))}, Sign: agg}
			var err error
			g.Signature[0], err = ts.String()
			rt.Assume(err == nil)
		}
	}
	return g
}

// vNetwork connects the gossipers: what one posts to another is handled there.
func vNetwork(cs []*GossiperContext) {
	rt.OnHTTP(func(method, url, body string) (int, string, bool) {
		if url == "http://"+vMonitor+"/monitor/receive-gossip-from-gossiper" {
			return 200, "", false
		}
		code, out, fail := rt.Dispatch(method, url, body)
		rt.Assert(fail || code != 404 && code != 405, "requests go to paths that exist")
		return code, out, fail
	})
}
