GL = ("gossiper_world_test.go",)
H = "package gossiper\n\nimport (\n\t\"testing\"\n\t\"time\"\n\n\t\"github.com/jik18001/CTngV2/definition\"\n)\n\nvar _ = time.Second\nvar _ = definition.STH_INIT\n\n"

seed("verify-cache", "C01", "a genuine statement seen before, then the same signature text under a changed content",
 "a cache of verified signatures keyed by the signature text alone lets any content pass under a signature that verified once",
 [("definition/Verify.go", "\t\treturn c.Verify([]byte(g.Payload[0]+g.Payload[1]+g.Payload[2]), sig)\n",
   "\t\tif _, done := verified.Load(g.Signature[0]); done {\n\t\t\treturn nil\n\t\t}\n\t\terr = c.Verify([]byte(g.Payload[0]+g.Payload[1]+g.Payload[2]), sig)\n\t\tif err == nil {\n\t\t\tverified.Store(g.Signature[0], true)\n\t\t}\n\t\treturn err\n"),
  ("definition/Verify.go", "// Types of errors that can occur", "// signatures that were checked before; objects arrive many times\nvar verified sync.Map\n\n// Types of errors that can occur"),
  ("definition/Verify.go", "\t\"fmt\"\n", "\t\"fmt\"\n\t\"sync\"\n")],
 "gossiper", H + '''
func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 1<<30, false)
	a := w.init(definition.STH_INIT, 0, 0, "10", "one", "")
	if a.Verify(w.c.Gossiper_crypto_config) != nil {
		t.Fatal("genuine statement refused")
	}
	a.Payload[1] = "two"
	if a.Verify(w.c.Gossiper_crypto_config) == nil {
		t.Fatal("content was changed under an old signature and accepted")
	}
}
''', GL)

seed("con-one-side", "C02", "a forged proof whose first statement is genuine and whose second carries a genuine signature on something else",
 "a conflict proof is accepted when only one of its statements is signed",
 [("definition/Verify.go", "if err1 == nil && err2 == nil {", "if err1 == nil || err2 == nil {")],
 "gossiper", H + '''
func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 1<<30, false)
	m := names[0] + "one"
	p := w.con(0, m, m)
	p.Payload[2] = names[0] + "forged"
	if p.Verify(w.c.Gossiper_crypto_config) == nil {
		t.Fatal("honest logger convicted by a forged statement")
	}
	if w.con(0, m, m+"x").Verify(w.c.Gossiper_crypto_config) != nil {
		t.Fatal("genuine proof refused")
	}
}
''', GL)

seed("own-fragment-trusted", "C03", "a fragment naming the receiving gossiper itself with a signature it never made",
 "a gossiper skips checking fragments that name itself, so anyone can vouch in its name",
 [("crypto/crypto_config.go", "\t\tif sig.Verify(msg, &c.ThresholdPublicMap) {\n\t\t\treturn nil\n\t\t} else {\n\t\t\treturn errors.New(\"Signature Fragment",
   "\t\t// our own fragments come straight from ThresholdSign\n\t\tif sig.ID == c.SelfID || sig.Verify(msg, &c.ThresholdPublicMap) {\n\t\t\treturn nil\n\t\t} else {\n\t\t\treturn errors.New(\"Signature Fragment")],
 "gossiper", H + '''
func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 1<<30, false)
	o := w.init(definition.STH_INIT, 0, 0, "10", "one", "")
	f := w.frag(0, o)
	if f.Verify(w.c.Gossiper_crypto_config) != nil {
		t.Fatal("own fragment refused")
	}
	f.Payload[1] = "forged"
	if f.Verify(w.c.Gossiper_crypto_config) == nil {
		t.Fatal("fragment in our name on a content we never signed accepted")
	}
}
''', GL)

seed("payload-unchecked-when-held", "C04", "payload announcement on; an object for an id that already has a stored payload, with a changed content",
 "the payload kept for answering requests is overwritten without checking when one is already held",
 [("gossiper/Interface.go", "\terr := g.Verify(ctx.Gossiper_crypto_config)\n\tif err != nil {\n\t\tfmt.Println(util.RED, \"Invalid object \"+definition.TypeString(g.Type)+\" signed by \"+g.Signer+\".\", util.RESET)\n\t\treturn\n\t}\n\tctx.Gossip_object_storage.REV_PAYLOAD_LOCK.Lock()\n",
   "\tctx.Gossip_object_storage.REV_PAYLOAD_LOCK.RLock()\n\t_, held := ctx.Gossip_object_storage.REV_PAYLOAD[g.GetID()]\n\tctx.Gossip_object_storage.REV_PAYLOAD_LOCK.RUnlock()\n\tif err := g.Verify(ctx.Gossiper_crypto_config); err != nil && !held {\n\t\tfmt.Println(util.RED, \"Invalid object \"+definition.TypeString(g.Type)+\" signed by \"+g.Signer+\".\", util.RESET)\n\t\treturn\n\t}\n\tctx.Gossip_object_storage.REV_PAYLOAD_LOCK.Lock()\n")],
 "gossiper", H + '''
func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 10, true)
	o := w.init(definition.REV_INIT, 2, 2, "10", "one", "")
	w.deliver(o)
	bad := o
	bad.Payload[1] = "forged"
	w.deliver(bad)
	for _, g := range w.c.Gossip_object_storage.REV_PAYLOAD {
		if g.Verify(w.c.Gossiper_crypto_config) != nil {
			t.Fatal("an object that does not verify is kept")
		}
	}
}
''', GL)

seed("conflict-first-part-only", "C05", "two revocations of one period that differ only in the last part of their content",
 "two statements count as the same when their second payload field agrees",
 [("gossiper/Interface.go", "\t\tobj_2 := ctx.GetObject(obj.GetID(), definition.REV_INIT)\n\t\tif obj.Signer == obj_2.Signer && obj.Signature != obj_2.Signature {",
   "\t\tobj_2 := ctx.GetObject(obj.GetID(), definition.REV_INIT)\n\t\tif obj.Signer == obj_2.Signer && obj.Payload[1] != obj_2.Payload[1] {")],
 "gossiper", H + '''
func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 1<<30, false)
	w.deliver(w.init(definition.REV_INIT, 2, 2, "10", "one", "a"))
	w.deliver(w.init(definition.REV_INIT, 2, 2, "10", "one", "b"))
	if !w.c.InBlacklist(names[2]) || count(w.settle(300*time.Millisecond), gnames[3], definition.CON_INIT) != 1 {
		t.Fatal("split view not proven")
	}
}
''', GL)

seed("accusation-until-wipe", "C06", "a conviction by accusation, then the wipe at the end of the period",
 "convictions by accusation count only while the accusation is stored, and it is wiped at the end of the period",
 [("gossiper/Interface.go", "\t_, ok := ctx.Gossip_blacklist.BLACKLIST_PERM[id]\n",
   "\tproven, ok := ctx.Gossip_blacklist.BLACKLIST_PERM[id]\n\tif ok && !proven {\n\t\tctx.Gossip_object_storage.ACC_FULL_LOCK.RLock()\n\t\tdefer ctx.Gossip_object_storage.ACC_FULL_LOCK.RUnlock()\n\t\tok = false\n\t\tfor _, acc := range ctx.Gossip_object_storage.ACC_FULL {\n\t\t\tok = ok || acc.Payload[0] == id\n\t\t}\n\t}\n"),
  ("gossiper/Interface.go", "\t\t// if not in temp blacklist, add it\n\t\tif !ctx.InBlacklistPerm(gossip_object.Payload[0]) {\n\t\t\tctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.Lock()\n\t\t\tctx.Gossip_blacklist.BLACKLIST_PERM[gossip_object.Payload[0]] = true\n",
   "\t\t// if not in temp blacklist, add it\n\t\tif !ctx.InBlacklistPerm(gossip_object.Payload[0]) {\n\t\t\tctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.Lock()\n\t\t\tctx.Gossip_blacklist.BLACKLIST_PERM[gossip_object.Payload[0]] = false\n")],
 "gossiper", H + '''
func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 1<<30, false)
	a := w.init(definition.ACC_INIT, 3, 0, "10", "", "")
	w.deliver(a)
	w.deliver(w.frag(1, a))
	if !w.c.InBlacklist(names[0]) {
		t.Fatal("accused entity not barred")
	}
	w.c.WipeStorage()
	if !w.c.InBlacklist(names[0]) {
		t.Fatal("accused entity comes back after the wipe")
	}
}
''', GL)

seed("con-dup-lock", "C07", "the same conflict proof arriving twice at the same time",
 "conflict proofs are no longer compared under the lock, so simultaneous copies are both passed on",
 [("gossiper/Interface.go", "\t\tctx.Gossip_object_storage.CON_INIT_LOCK.Lock()\n\t\t// if it is a duplicate, ignore it\n\t\tif ctx.DupCheckInLock(gossip_object) {\n\t\t\tctx.Gossip_object_storage.CON_INIT_LOCK.Unlock()\n\t\t\treturn false\n\t\t}\n",
   "\t\tctx.Gossip_object_storage.CON_INIT_LOCK.Lock()\n")],
 "gossiper", H + '''
func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 1<<30, false)
	p := w.con(0, names[0]+"a", names[0]+"b")
	// both copies pass the first check, then are stored one after the other
	first, second := w.c.Store(p), w.c.Store(p)
	if !first || second {
		t.Fatal("a copy that arrives at the same time counts as new and is passed on again")
	}
}
''', GL)

seed("peer-down-stops-rest", "C08", "an unreachable peer that is not the last in the list",
 "peers are served one after the other and an unreachable one ends the round",
 [("gossiper/gossiper_server.go", "\t\tgo func(url, dstendpoint string) {\n\t\t\tif c.Max_latency > 0 {", "\t\tok := func(url, dstendpoint string) bool {\n\t\t\tif c.Max_latency > 0 {"),
  ("gossiper/gossiper_server.go", "\t\t\t\t\tfmt.Println(util.RED + err.Error() + \" sending to \" + url + \".\" + util.RESET)\n\t\t\t\t}\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tdefer func() {",
   "\t\t\t\t\tfmt.Println(util.RED + err.Error() + \" sending to \" + url + \".\" + util.RESET)\n\t\t\t\t}\n\t\t\t\treturn false\n\t\t\t}\n\n\t\t\tdefer func() {"),
  ("gossiper/gossiper_server.go", "\t\t\t//fmt.Println(\"Response from server:\", resp.Status)\n\t\t}(url, dstendpoint)\n\t}\n\n\treturn nil\n",
   "\t\t\treturn true\n\t\t}(url, dstendpoint)\n\t\tif !ok {\n\t\t\treturn errors.New(\"connection failed\")\n\t\t}\n\t}\n\n\treturn nil\n")],
 "gossiper", H + '''
func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 1<<30, false)
	w.down = gnames[1]
	w.deliver(w.init(definition.STH_INIT, 0, 0, "10", "one", ""))
	ps := w.settle(300 * time.Millisecond)
	if count(ps, gnames[2], definition.STH_INIT) != 1 || count(ps, gnames[3], definition.STH_INIT) != 1 {
		t.Fatal("an unreachable peer cuts off the others")
	}
}
''', GL)

seed("own-fragment-completes", "C09", "peers' fragments arrive before the gossiper's own one, which then completes the threshold",
 "the full object is not built when the gossiper's own fragment completes the threshold",
 [("gossiper/gossiper_server.go", "\tif itemcount == c.Gossiper_crypto_config.Threshold-1 {\n",
   "\tif itemcount == c.Gossiper_crypto_config.Threshold-1 && gossip_obj.Signer != c.Gossiper_crypto_config.SelfID.String() {\n")],
 "gossiper", H + '''
func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 1<<30, false)
	o := w.init(definition.STH_INIT, 0, 0, "10", "one", "")
	w.deliver(o)
	w.deliver(w.frag(1, o)) // before our own fragment
	w.settle(1500 * time.Millisecond)
	if len(w.c.Gossip_object_storage.STH_FULL) != 1 {
		t.Fatal("threshold many fragments, no full object")
	}
}
''', GL)

seed("announced-id-only", "C10", "payload announcement on; a second, different revocation for a period is announced to a gossiper that holds the first",
 "an announcement is compared by id only, so a different revocation for the same period is never fetched and the split view stays hidden",
 [("gossiper/Interface.go", "\thash1 := ComputeobjHash(obj)\n\treturn bytes.Equal(hash1, ohash)\n", "\treturn len(obj.Payload[0]) > 0 || bytes.Equal(ComputeobjHash(obj), ohash)\n")],
 "gossiper", H + '''
func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 10, true)
	a := w.init(definition.REV_INIT, 2, 2, "10", "one", "")
	b := w.init(definition.REV_INIT, 2, 2, "10", "two", "")
	w.deliver(a)
	id := a.GetID()
	if !w.c.SearchPayload(id, ComputeobjHash(a)) || w.c.SearchPayload(id, ComputeobjHash(b)) {
		t.Fatal("a different announced revocation counts as already held")
	}
}
''', GL)

CL = ("client_world_test.go",)

seed("crv-load-alias", "C21", "a client that holds revocation vectors of two CAs and is started again",
 "the vectors read back share one object, so after a restart every CA has the revocations of the one read last",
 [("client/types.go", "\tfor key, value := range crvstorage {\n\t\tvar crv_entry bitset.BitSet\n\t\tcrv_entry.UnmarshalBinary(value)\n",
   "\tvar crv_entry bitset.BitSet\n\tfor key, value := range crvstorage {\n\t\tcrv_entry.UnmarshalBinary(value)\n")],
 "client", '''
package client

import (
	"testing"

	"github.com/bits-and-blooms/bitset"
)

func TestDemo(t *testing.T) {
	w := newWorld(t)
	for i, n := range []string{"ca1", "ca2", "ca3"} {
		w.c.CRV_database[n] = bitset.New(100).Set(uint(i))
	}
	SaveCRVDatabase(w.c)
	was := w.c.CRV_database
	w.c.CRV_database = map[string]*bitset.BitSet{}
	LoadCRVDatabase(w.c)
	for n, v := range was {
		got := w.c.CRV_database[n]
		if got == nil || !got.Equal(v) {
			t.Fatal("after a restart the revocations of " + n + " are not what was saved")
		}
	}
}
''', CL)

seed("known-root-unverified", "C17", "a tree head of a logger and period the client already has, sent again with another root and no valid signature",
 "tree heads of a logger and period that is already known are not verified, but still replace what is known",
 [("client/client.go", "\t\tif verify {\n\t\t\terr := sth.Verify(ctx.Crypto)\n", "\t\tif _, known := ctx.STH_database[sth.Payload[0]+\"@\"+sth.Period]; verify && !known {\n\t\t\terr := sth.Verify(ctx.Crypto)\n")],
 "client", '''
package client

import (
	"testing"

	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
)

func TestDemo(t *testing.T) {
	w := newWorld(t)
	if !w.c.HandleUpdate(monitor.ClientUpdate{STHs: []definition.Gossip_object{w.full(t, w.sth(0, "10", []byte("one"), 2), definition.STH_FULL)}}, true, false) {
		t.Fatal("a genuine update is refused")
	}
	was := w.c.STH_database[names[0]+"@10"]
	forged := w.sth(0, "10", []byte("two"), 2)
	forged.Type, forged.Signature = definition.STH_FULL, [2]string{"{}", ""}
	w.c.HandleUpdate(monitor.ClientUpdate{STHs: []definition.Gossip_object{forged}}, true, false)
	if was == "" || w.c.STH_database[names[0]+"@10"] != was {
		t.Fatal("the client believes a tree head nobody vouched for")
	}
}
''', CL)

seed("unknown-root-trusted", "C16", "a certificate with a tree head that its logger signed, but that never was in an update the client got",
 "when the client has no tree head of the period, the one in the certificate is used, so a logger can show one client another tree",
 [("client/client.go", "\t\t\t\t\troothash := ctx.STH_database[loggerinfo.STH.Payload[0]+\"@\"+loggerinfo.STH.Period]\n",
   "\t\t\t\t\troothash, known := ctx.STH_database[loggerinfo.STH.Payload[0]+\"@\"+loggerinfo.STH.Period]\n\t\t\t\t\tif !known {\n\t\t\t\t\t\t// the update of this period is not there yet\n\t\t\t\t\t\troothash = treeinfo.RootHash\n\t\t\t\t\t}\n")],
 "client", '''
package client

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"testing"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
)

func TestDemo(t *testing.T) {
	w := newWorld(t)
	w.c.CRV_database[names[2]] = bitset.New(100)
	certs := []x509.Certificate{{RawSubject: []byte("one")}, {RawSubject: []byte("two"), Issuer: pkix.Name{CommonName: names[2]}}}
	tree, err := crypto.GenerateMerkleTree(crypto.GenerateDataBlocks(certs))
	if err != nil {
		t.Fatal(err)
	}
	sth := w.sth(0, "10", tree.Root, 2)
	x := &certs[1]
	x.Extensions = []pkix.Extension{{Id: CA.OIDCTngExtension, Value: CA.EncodeCTngExtension(CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: 7},
		LoggerInformation: []CA.LoggerInfo{{STH: sth, POI: crypto.POI_for_transmission{Poi: tree.Proofs[1]}}}})}}
	if w.c.VerifyCTngextension(x) {
		t.Fatal("a certificate is taken under a tree head that no gossiper vouched for")
	}
	if !w.c.HandleUpdate(monitor.ClientUpdate{STHs: []definition.Gossip_object{w.full(t, sth, definition.STH_FULL)}}, true, false) || !w.c.VerifyCTngextension(x) {
		t.Fatal("a logged certificate is refused")
	}
}
''', CL)
