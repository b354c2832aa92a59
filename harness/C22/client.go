package client

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

// VerifC22Client: the client checks a certificate, takes updates and saves, all at the same time. The certificate is
// taken or not as it would be before or after the updates.
func VerifC22Client() {
	c := vClient("NEW")
	certs := []x509.Certificate{{RawSubject: []byte("subject a")}, {RawSubject: []byte("subject b")}}
	tree, err := crypto.GenerateMerkleTree(crypto.GenerateDataBlocks(certs))
	rt.Assert(err == nil, "a tree")
	p := hex.EncodeToString([]byte(verifw.JSON(definition.STH{Timestamp: "t", RootHash: hex.EncodeToString(tree.Root), TreeSize: 2})))
	sth := verifw.Init(definition.STH_INIT, 0, verifw.Logger, "11", p, "")
	revoked := rt.Int("revoked", 0, 9)
	first := monitor.ClientUpdate{STHs: []definition.Gossip_object{verifw.Full([]int{0, 1}, sth)}, Period: "11",
		REVs: []definition.Gossip_object{verifw.Full([]int{1, 2}, verifw.Rev(2, "11", verifw.Bits(), verifw.Bits()))}}
	second := monitor.ClientUpdate{Period: "12",
		REVs: []definition.Gossip_object{verifw.Full([]int{1, 2}, verifw.Rev(2, "12", verifw.Bits(revoked), verifw.Bits(revoked)))}}
	if rt.Choice("pom", 2) == 1 {
		second.POM_ACCs = []definition.Gossip_object{verifw.Full([]int{2, 3}, verifw.Init(definition.ACC_INIT, 3, verifw.Logger2, "12", "", ""))}
		second.POM_CONs = []definition.Gossip_object{verifw.Con(4, "12", "x", "y")}
		second.STHs = []definition.Gossip_object{verifw.Full([]int{0, 2}, vSTH(1, "12", "aa"))}
	}
	rt.Assert(c.HandleUpdate(first, true, true), "genuine updates are taken")
	rid := rt.Int("rid", 0, 9)
	x := &x509.Certificate{RawSubject: certs[0].RawSubject, Issuer: pkix.Name{CommonName: verifw.CA}}
	ext := CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: rid}, LoggerInformation: []CA.LoggerInfo{{STH: sth, POI: crypto.POI_for_transmission{Poi: tree.Proofs[0]}}}}
	x.Extensions = []pkix.Extension{{Id: CA.OIDCTngExtension, Value: CA.EncodeCTngExtension(ext)}}
	taken, updated := false, false
	rt.Race(rt.Tier(2, 3), 0,
		func() { taken = c.VerifyCTngextension(x) },
		func() { updated = c.HandleUpdate(second, true, false) },
		func() {
			SaveSTHDatabase(c)
			SaveCRVDatabase(c)
			SavePomDatabase(c)
		})
	rt.Assert(updated, "genuine updates are taken at any moment")
	rt.Assert(taken || revoked == rid, "a certificate that was not revoked is taken at any moment")
	rt.Assert(c.VerifyCTngextension(x) == (revoked != rid), "after the update, exactly the certificates that are not revoked are taken")
	rt.Reach("done")
}
