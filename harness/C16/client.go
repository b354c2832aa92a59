//verif:with CA Logger

package client

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"strings"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	"github.com/jik18001/CTngV2/verifh"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
	merkletree "github.com/txaty/go-merkletree"
)

// c16Log is what a logger logged in a period.
type c16Log struct {
	certs []x509.Certificate
	tree  *merkletree.MerkleTree
	sth   definition.Gossip_object
}

func c16Make(key, n int, period string) (l c16Log) {
	for i := 0; i < n; i++ {
		l.certs = append(l.certs, x509.Certificate{RawSubject: []byte("subject " + rt.Str("s"))})
	}
	l.tree, _ = crypto.GenerateMerkleTree(crypto.GenerateDataBlocks(l.certs))
	p := hex.EncodeToString([]byte(verifw.JSON(definition.STH{Timestamp: "t", RootHash: hex.EncodeToString(l.tree.Root), TreeSize: n})))
	l.sth = verifw.Init(definition.STH_INIT, key, verifw.Ents[key].Name, period, p, "")
	return
}

func (l c16Log) has(c *x509.Certificate) (in bool) {
	for _, x := range l.certs {
		in = in || string(x.RawSubject) == string(c.RawSubject)
	}
	return
}

// c16Poi is a proof of inclusion of any making.
func c16Poi(logs []c16Log) *merkletree.Proof {
	p := &merkletree.Proof{Path: uint32(rt.U64("path"))}
	switch rt.Choice("proof", 3) {
	case 0: // none
		return nil
	case 1: // anything
		for i := rt.Choice("k", rt.Tier(4, 5)); i > 0; i-- {
			p.Siblings = append(p.Siblings, []byte(rt.Str("sib")))
		}
	case 2: // out of a tree
		q := logs[rt.Choice("tree", len(logs))].tree.Proofs[0]
		p.Siblings = append(p.Siblings, q.Siblings...)
	}
	return p
}

// c16Sth is a tree head an attacker has: one of the genuine ones, also as the gossipers signed it, relabelled, or of his own.
func c16Sth(logs []c16Log) (g definition.Gossip_object) {
	switch k := rt.Choice("sth", len(logs)+2); {
	case k < len(logs):
		g = logs[k].sth
	case k == len(logs):
		g = verifw.Full([]int{0, 1}, logs[rt.Choice("full", len(logs))].sth)
		g.Signer = rt.Str("signer")
	default:
		g = definition.Gossip_object{Type: definition.STH_INIT, Signer: rt.Str("signer"), Payload: [3]string{rt.Str("p0"), logs[0].sth.Payload[1], rt.Str("p2")}}
		g.Signature[0] = verifh.SigBy("sig", 5).Text
	}
	if rt.Choice("period", 2) == 1 {
		g.Period = rt.Str("period")
	}
	return
}

// VerifC16Sound: whatever certificate is shown to the client, it takes it only if a logger that is not known to
// misbehave logged its subject, as far as the tree heads the client got, and it is not revoked.
func VerifC16Sound() {
	ctx := vClient("NEW")
	logs := []c16Log{c16Make(0, 2+rt.Choice("n", rt.Tier(2, 3)), "11"), c16Make(1, 2, "11")}
	revoked := rt.Int("revoked", 0, 999999)
	u := monitor.ClientUpdate{REVs: []definition.Gossip_object{verifw.Full([]int{1, 2}, verifw.Rev(2, "11", verifw.Bits(revoked), verifw.Bits(revoked)))}, Period: "11"}
	known := []bool{rt.Choice("known0", 2) == 1, rt.Choice("known1", 2) == 1}
	for i, k := range known {
		if k {
			u.STHs = append(u.STHs, verifw.Full([]int{0, 1}, logs[i].sth))
		}
	}
	bad := rt.Choice("bad", 3) // 0: nobody
	if bad == 1 {
		u.POM_CONs = append(u.POM_CONs, verifw.Con(0, "11", "x", "y"))
	} else if bad == 2 {
		u.POM_ACCs = append(u.POM_ACCs, verifw.Full([]int{2, 3}, verifw.Init(definition.ACC_INIT, 3, verifw.Logger2, "11", "", "")))
	}
	rt.Assert(ctx.HandleUpdate(u, true, true), "genuine updates are taken")

	x := &x509.Certificate{RawSubject: []byte("subject " + rt.Str("x")), Issuer: pkix.Name{CommonName: rt.Str("issuer")}}
	rid := rt.Int("rid", -9, 1<<40)
	ext := CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: rid}}
	for i := rt.Choice("infos", rt.Tier(2, 3)); i > 0; i-- {
		ext.LoggerInformation = append(ext.LoggerInformation, CA.LoggerInfo{STH: c16Sth(logs), POI: crypto.POI_for_transmission{Poi: c16Poi(logs)}})
	}
	if rt.Choice("extension", 2) == 1 {
		x.Extensions = []pkix.Extension{{Id: CA.OIDCTngExtension, Value: CA.EncodeCTngExtension(ext)}}
	}
	ok := false
	rt.Assert(!rt.Try(func() { ok = ctx.VerifyCTngextension(x) }), "no certificate makes the client panic")
	if !ok {
		rt.Reach("refused")
		return
	}
	logged := false
	for i, l := range logs {
		if known[i] && bad != i+1 {
			logged = logged || l.has(x)
		}
	}
	rt.Assert(logged, "certificates taken are logged by a logger that is not known to misbehave")
	rt.Assert(x.Issuer.CommonName == verifw.CA && rid != revoked, "certificates taken are known not to be revoked")
	rt.Reach("taken")
}

// VerifC16Depth: the hash of an inner node above x in the subject of a logged certificate does not get x logged.
func VerifC16Depth() {
	ctx := vClient("NEW")
	x := &x509.Certificate{RawSubject: []byte("subject " + rt.Str("x")), Issuer: pkix.Name{CommonName: verifw.CA}}
	p := &merkletree.Proof{Path: uint32(rt.U64("path"))}
	h, _ := crypto.GenerateSHA256(x.RawSubject)
	for i := 1 + rt.Choice("levels", rt.Tier(2, 4)); i > 0; i-- {
		b := []byte(rt.Str("sib"))
		p.Siblings = append(p.Siblings, b)
		if rt.Choice("side", 2) == 1 {
			h, _ = crypto.GenerateSHA256(append(append([]byte(nil), h...), b...))
		} else {
			h, _ = crypto.GenerateSHA256(append(append([]byte(nil), b...), h...))
		}
	}
	pre := []byte("subject " + rt.Str("pre"))
	p.Siblings = append(p.Siblings, pre)
	l := c16Log{certs: []x509.Certificate{{RawSubject: append(append([]byte(nil), pre...), h...)}}}
	for n := 1 + rt.Choice("n", rt.Tier(2, 4)); n > 0; n-- {
		l.certs = append(l.certs, x509.Certificate{RawSubject: []byte("subject " + rt.Str("s"))})
	}
	l.tree, _ = crypto.GenerateMerkleTree(crypto.GenerateDataBlocks(l.certs))
	p.Siblings = append(p.Siblings, l.tree.Proofs[0].Siblings...)
	j := hex.EncodeToString([]byte(verifw.JSON(definition.STH{Timestamp: "t", RootHash: hex.EncodeToString(l.tree.Root), TreeSize: len(l.certs)})))
	l.sth = verifw.Init(definition.STH_INIT, 0, verifw.Logger, "11", j, "")
	u := monitor.ClientUpdate{REVs: []definition.Gossip_object{verifw.Full([]int{1, 2}, verifw.Rev(2, "11", verifw.Bits(), verifw.Bits()))}, Period: "11",
		STHs: []definition.Gossip_object{verifw.Full([]int{0, 1}, l.sth)}}
	rt.Assert(ctx.HandleUpdate(u, true, true), "genuine updates are taken")
	ext := CA.CTngExtension{LoggerInformation: []CA.LoggerInfo{{STH: l.sth, POI: crypto.POI_for_transmission{Poi: p}}}}
	x.Extensions = []pkix.Extension{{Id: CA.OIDCTngExtension, Value: CA.EncodeCTngExtension(ext)}}
	if ctx.VerifyCTngextension(x) {
		rt.Assert(l.has(x), "certificates taken are logged")
	} else {
		rt.Reach("refused")
	}
}

// VerifC16Honest: a certificate of the CA, logged by the loggers, is taken by a client, until it is revoked.
func VerifC16Honest() {
	n := 1 + rt.Choice("n", rt.Tier(3, 5))
	ca := CA.VCA(n)
	ls := []*Logger.LoggerContext{Logger.VLogger(0), Logger.VLogger(1)}
	down := rt.Choice("down", 3) // 0: nobody
	rt.OnHTTP(func(method, url, body string) (int, string, bool) {
		path := url[strings.Index(url[7:], "/")+7:]
		if strings.HasPrefix(url, "http://"+verifw.CA+"/") {
			CA.VPost(ca, path, body)
			return 200, "", false
		}
		for i, l := range ls {
			if strings.HasPrefix(url, "http://"+verifw.Ents[i].Name+"/") {
				if down == i+1 {
					return 0, "", true
				}
				Logger.VPost(l, path, body)
				return 200, "", false
			}
		}
		rt.Assert(false, "messages go to known participants")
		return 0, "", true
	})
	rt.ClockMinute(10)
	for i, l := range ls {
		if down != i+1 {
			Logger.PeriodicTask(l)
		}
	}
	rt.Advance(1000)
	CA.PeriodicTask(ca)
	rt.Advance(39500) // the loggers built their trees, the CA still has the certificates
	certs := CA.SignAllCerts(ca)
	rt.Assert(len(certs) == n, "every certificate gets signed")
	revoke := rt.Choice("revoke", 2) == 1
	r := rt.Int("rid", 0, 999999)
	if revoke {
		ca.CRV.Revoke(r)
	}
	rt.Advance(19500)
	u := monitor.ClientUpdate{Period: "11"}
	rev, _ := CA.VAsk(ca)
	u.REVs = append(u.REVs, verifw.Full([]int{1, 2}, rev))
	for i, l := range ls {
		if down != i+1 {
			sth, _ := Logger.VAsk(l)
			u.STHs = append(u.STHs, verifw.Full([]int{0, 3}, sth))
		}
	}
	ctx := vClient("NEW")
	rt.Assert(ctx.HandleUpdate(u, true, true), "genuine updates are taken")
	for _, c := range certs {
		rid := CA.GetRIDfromCert(c)
		rt.Assert(len(CA.ParseCTngextension(c).LoggerInformation) == len(u.STHs), "certificates carry the proofs of all loggers")
		rt.Assert(ctx.VerifyCTngextension(c) == !(revoke && rid == r), "a logged certificate is taken if and only if it is not revoked")
	}
}

// VerifC16Several: of the loggers a certificate names, one that really logged it and is not known to misbehave is
// needed, and is enough, whatever is wrong with the others.
func VerifC16Several() {
	ctx := vClient("NEW")
	revoked := rt.Int("revoked", 0, 999999)
	u := monitor.ClientUpdate{REVs: []definition.Gossip_object{verifw.Full([]int{1, 2}, verifw.Rev(2, "11", verifw.Bits(revoked), verifw.Bits(revoked)))}, Period: "11"}
	x := &x509.Certificate{RawSubject: []byte("subject " + rt.Str("x")), Issuer: pkix.Name{CommonName: verifw.CA}}
	rid := rt.Int("rid", 0, 999999)
	var infos []CA.LoggerInfo
	good := false
	for i := 0; i < 2; i++ {
		l := c16Make(i, 2, "11")
		other := l.sth
		l.certs[1] = *x
		rt.Assume(string(l.certs[0].RawSubject) != string(x.RawSubject))
		l.tree, _ = crypto.GenerateMerkleTree(crypto.GenerateDataBlocks(l.certs))
		p := hex.EncodeToString([]byte(verifw.JSON(definition.STH{Timestamp: "t", RootHash: hex.EncodeToString(l.tree.Root), TreeSize: 2})))
		l.sth = verifw.Init(definition.STH_INIT, i, verifw.Ents[i].Name, "11", p, "")
		rt.Assume(l.sth.Payload[1] != other.Payload[1])
		info, known := CA.LoggerInfo{STH: l.sth, POI: crypto.POI_for_transmission{Poi: l.tree.Proofs[1]}}, l.sth
		state := rt.Choice("state", 8)
		switch state {
		case 0, 7:
			good = true
		case 1:
			u.POM_CONs = append(u.POM_CONs, verifw.Con(i, "11", "x", "y"))
		case 2:
			u.POM_ACCs = append(u.POM_ACCs, verifw.Full([]int{2, 3}, verifw.Init(definition.ACC_INIT, 3, verifw.Ents[i].Name, "11", "", "")))
		case 3: // a tree head the client did not get
			known = other
		case 4: // the proof of another certificate
			info.POI.Poi = l.tree.Proofs[0]
		case 5: // changed after it was signed
			info.STH.Payload[2] = "!"
		case 6: // of another period
			info.STH.Period = "12"
		}
		if state != 6 || rt.Choice("any", 2) == 1 {
			u.STHs = append(u.STHs, verifw.Full([]int{0, 1}, known))
		}
		if state == 7 && rt.Choice("twice", 2) == 1 {
			bad := info
			bad.POI.Poi = l.tree.Proofs[0]
			infos = append(infos, bad)
		}
		infos = append(infos, info)
	}
	if rt.Choice("order", 2) == 1 {
		infos[0], infos[len(infos)-1] = infos[len(infos)-1], infos[0]
	}
	rt.Assert(ctx.HandleUpdate(u, true, true), "genuine updates are taken")
	x.Extensions = []pkix.Extension{{Id: CA.OIDCTngExtension, Value: CA.EncodeCTngExtension(CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: rid}, LoggerInformation: infos})}}
	rt.Assert(ctx.VerifyCTngextension(x) == (good && rid != revoked), "one good logger is needed and enough, unless the certificate is revoked")
}
