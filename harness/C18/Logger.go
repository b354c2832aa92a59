//verif:with CA

package Logger

import (
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/util"
	"github.com/jik18001/CTngV2/verifh"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
	merkletree "github.com/txaty/go-merkletree"
)

// VC18Net connects a CA and two loggers, and more CAs; a function among more is called before each message.
func VC18Net(ca *CA.CAContext, l, l2 *LoggerContext, more ...interface{}) {
	rt.OnHTTP(func(method, url, body string) (int, string, bool) {
		path := url[strings.Index(url[7:], "/")+7:]
		for _, x := range more {
			switch x := x.(type) {
			case func(string):
				x(url)
			case *CA.CAContext:
				if strings.HasPrefix(url, "http://"+x.CA_private_config.Signer+"/") {
					CA.VPost(x, path, body)
					return 200, "", false
				}
			}
		}
		switch {
		case strings.HasPrefix(url, "http://"+verifw.CA+"/"):
			CA.VPost(ca, path, body)
		case strings.HasPrefix(url, "http://"+verifw.Logger+"/"):
			VPost(l, path, body)
		case strings.HasPrefix(url, "http://"+verifw.Logger2+"/"):
			VPost(l2, path, body)
		case strings.HasPrefix(url, "http://"+verifw.CA2+"/"):
			return 0, "", true
		default:
			rt.Assert(false, "messages go to known participants")
		}
		return 200, "", false
	})
}

// VerifC18Period: a CA and two loggers over a few periods. Every tree head is that of the precertificates of its period,
// all of them, and every certificate gets its proofs.
func VerifC18Period() {
	n := rt.Choice("n", rt.Tier(5, 9))
	ca := CA.VCA(n)
	if n == 0 {
		ca.Rootcert = CA.Generate_Root_Certificate(ca)
	}
	l, l2 := VLogger(0), VLogger(1)
	VC18Net(ca, l, l2)
	minute := []int{10, 58, 59}[rt.Choice("minute", 3)]
	rt.ClockMinute(minute)
	PeriodicTask(l)
	PeriodicTask(l2)
	rt.Advance(1000)
	CA.PeriodicTask(ca)
	periods := rt.Tier(2, 3)
	if n == 2 {
		periods = rt.Tier(5, 8)
	}
	for k := 0; k < periods; k++ {
		rt.Advance(38500)
		rt.Assert(l.CurrentPrecertPool.GetLength() == n && l2.CurrentPrecertPool.GetLength() == n, "loggers get every precertificate")
		rt.Advance(1000)
		certs := CA.SignAllCerts(ca)
		rt.Assert(len(certs) == n, "every certificate gets signed")
		rt.Advance(19500)
		m := (minute + k + 1) % 60
		period := string([]byte{byte('0' + m/10), byte('0' + m%10)})
		for i, x := range []*LoggerContext{l, l2} {
			o, _ := VAsk(x)
			rt.Assert(o.Verify(ca.CA_crypto_config) == nil && o.Type == definition.STH_INIT && o.Period == period && o.Signer == verifw.Ents[i].Name, "tree heads verify")
			var t definition.STH
			b, _ := hex.DecodeString(o.Payload[1])
			rt.Assert(json.Unmarshal(b, &t) == nil && t.TreeSize == n, "tree heads cover all certificates")
			root, err := definition.ExtractRootHash(o)
			rt.Assert(err == nil, "tree heads have a root")
			for _, c := range certs {
				found := 0
				for _, info := range CA.ParseCTngextension(c).LoggerInformation {
					if info.STH.Signer != verifw.Ents[i].Name {
						continue
					}
					found++
					rt.Assert(reflect.DeepEqual(info.STH, o), "certificates carry the tree head that monitors get")
					ok, err := crypto.VerifyPOI(root, info.POI.Poi, *c)
					rt.Assert(ok && err == nil, "certificates carry proofs that verify")
				}
				rt.Assert(found == 1, "certificates carry a proof of every logger")
			}
		}
		rt.Advance(1000)
	}
}

// VerifC18TwoCAs: two CAs have their certificates logged. Every certificate of both gets its proofs.
func VerifC18TwoCAs() {
	ca, ca2 := CA.VCA(1+rt.Choice("n", 2)), CA.VCAOf(4, 1+rt.Choice("n2", rt.Tier(2, 3)))
	l, l2 := VLogger(0), VLogger(1)
	for _, x := range []*LoggerContext{l, l2} {
		x.Logger_public_config.All_CA_URLs = append(x.Logger_public_config.All_CA_URLs, verifw.CA2)
		x.Logger_private_config.CAlist = append(x.Logger_private_config.CAlist, verifw.CA2)
	}
	VC18Net(ca, l, l2, ca2)
	rt.ClockMinute(10)
	PeriodicTask(l)
	PeriodicTask(l2)
	rt.Advance(1000)
	CA.PeriodicTask(ca)
	CA.PeriodicTask(ca2)
	for k := 0; k < rt.Tier(1, 2); k++ {
		rt.Advance(39200)
		vC18Certs(ca)
		vC18Certs(ca2)
		rt.Advance(20800)
	}
}

// VerifC18Minute: the tree head of any minute.
func VerifC18Minute() {
	l := VLogger(0)
	rt.OnHTTP(func(method, url, body string) (int, string, bool) { return 200, "", false })
	minute := rt.Int("minute", 0, 59)
	rt.ClockMinute(minute)
	PeriodicTask(l)
	for i := 0; i < rt.Tier(2, 3); i++ {
		rt.Advance(60000)
		o, _ := VAsk(l)
		period := fmt.Sprintf("%02d", (minute+i+1)%60)
		rt.Assert(o.Verify(l.Logger_crypto_config) == nil && o.Signer == verifw.Logger && o.Period == period, "every minute has its tree head")
	}
	rt.Reach("asked")
}

// VerifC18Any: whatever else is sent to the CA and the loggers, certificates carry proofs that verify.
func VerifC18Any() {
	ca := CA.VCA(2)
	l, l2 := VLogger(0), VLogger(1)
	VC18Net(ca, l, l2)
	rt.ClockMinute(10)
	PeriodicTask(l)
	PeriodicTask(l2)
	rt.Advance(1000)
	CA.PeriodicTask(ca)
	when := rt.Choice("when", rt.Tier(2, 3))
	if when != 1 {
		vC18Forge(ca, l)
	}
	rt.Advance(39200)
	if when != 0 {
		vC18Forge(ca, l)
	}
	vC18Certs(ca)
}

// VerifC18Between: the same when it is sent just before any of the loggers' messages to the CA.
func VerifC18Between() {
	ca := CA.VCA(2)
	l, l2 := VLogger(0), VLogger(1)
	before, to := rt.Choice("before", 6), "http://"+verifw.CA+"/"
	VC18Net(ca, l, l2, func(url string) {
		if strings.HasPrefix(url, to) {
			if before == 0 {
				vC18Slip(ca)
			}
			before--
		}
	})
	rt.ClockMinute(10)
	PeriodicTask(l)
	PeriodicTask(l2)
	rt.Advance(1000)
	CA.PeriodicTask(ca)
	rt.Advance(39200)
	rt.Assert(before < 0, "the CA gets tree heads and proofs from the loggers")
	vC18Certs(ca)
}

// VerifC18Cert: the same when one more certificate, made by somebody else, is sent to a logger just before any of the CA's
// messages to the loggers, or after them.
func VerifC18Cert() {
	ca := CA.VCA(2)
	l, l2 := VLogger(0), VLogger(1)
	before, to := rt.Choice("before", 5), "http://"+verifw.CA+"/"
	VC18Net(ca, l, l2, func(url string) {
		if !strings.HasPrefix(url, to) {
			if before == 0 {
				before--
				vC18Made(ca, l2)
				return
			}
			before--
		}
	})
	rt.ClockMinute(10)
	PeriodicTask(l)
	PeriodicTask(l2)
	rt.Advance(1000)
	CA.PeriodicTask(ca)
	rt.Advance(1000)
	if before == 0 {
		before--
		vC18Made(ca, l2)
	}
	rt.Assert(before < 0, "loggers get the precertificates")
	rt.Advance(38200)
	vC18Certs(ca)
}

// vC18Made sends the logger a certificate that resembles one of the CA's, and is not from the CA.
func vC18Made(ca *CA.CAContext, l *LoggerContext) {
	cs := ca.CurrentCertificatePool.GetCertList()
	c := cs[rt.Choice("like", len(cs))]
	t := *c
	if rt.Choice("subject", 2) == 1 {
		t.Subject, t.RawSubject = CA.Generate_Issuer(rt.Str("cn")), nil
	}
	switch rt.Choice("skid", 3) {
	case 1:
		t.SubjectKeyId = cs[0].SubjectKeyId
	case 2:
		t.SubjectKeyId = []byte(rt.Str("keyid"))
		for _, o := range cs {
			rt.Assume(string(o.SubjectKeyId) != string(t.SubjectKeyId))
		}
	}
	t.Extensions, t.ExtraExtensions = nil, nil
	root := x509.Certificate{SerialNumber: c.SerialNumber, Subject: CA.Generate_Issuer([]string{verifw.CA, verifw.CA2}[rt.Choice("issuer", 2)]), PublicKey: &rt.RSAKey(4).PublicKey}
	made := CA.Sign_certificate(&t, &root, false, &rt.RSAKey(3).PublicKey, rt.RSAKey(4))
	panicked := rt.Try(func() { VPost(l, "/Logger/receive-precerts", string(CA.Marshall_Signed_PreCert(made))) })
	rt.Assert(!panicked, "no request makes a handler panic")
}

// vC18Certs: the CA's certificates carry two proofs that verify.
func vC18Certs(ca *CA.CAContext) []*x509.Certificate {
	certs := CA.SignAllCerts(ca)
	rt.Assert(len(certs) == ca.CA_private_config.Cert_per_period, "every certificate gets signed")
	for _, c := range certs {
		infos := CA.ParseCTngextension(c).LoggerInformation
		rt.Assert(len(infos) == 2, "certificates carry a proof of every logger")
		for _, info := range infos {
			rt.Assert(info.STH.Verify(ca.CA_crypto_config) == nil, "certificates carry tree heads that verify")
			root, err := definition.ExtractRootHash(info.STH)
			ok, err2 := crypto.VerifyPOI(root, info.POI.Poi, *c)
			rt.Assert(ok && err == nil && err2 == nil, "certificates carry proofs that verify")
		}
	}
	return certs
}

// vC18Slip sends the CA a proof of any making, or a tree head that no logger signed.
func vC18Slip(ca *CA.CAContext) {
	panicked := false
	switch rt.Choice("slipped", 3) {
	case 0:
		p := crypto.POI_for_transmission{LoggerID: rt.Str("logger"), SubjectKeyId: ca.CurrentCertificatePool.GetCertList()[rt.Choice("of", 2)].SubjectKeyId}
		p.Poi = &merkletree.Proof{Path: uint32(rt.U64("path"))}
		for i := 0; i < rt.Tier(1, 2); i++ {
			p.Poi.Siblings = append(p.Poi.Siblings, []byte(rt.Str("sib")))
		}
		panicked = rt.Try(func() { CA.VPost(ca, "/CA/receive-poi", verifw.JSON(p)) })
	case 1: // somebody who is no logger makes a tree of its own
		who := rt.Choice("who", 2)
		cs := ca.CurrentCertificatePool.GetCertList()
		tree, err := crypto.GenerateMerkleTree(crypto.GenerateDataBlocks([]x509.Certificate{*cs[0], *cs[1]}))
		if err != nil {
			panic(err)
		}
		name := []string{verifw.CA2, verifw.Monitor}[who]
		b, _ := json.Marshal(definition.STH{Signer: name, Timestamp: util.GetCurrentTimestamp(), Period: "10", RootHash: hex.EncodeToString(tree.Root), TreeSize: 2})
		g := definition.Gossip_object{Application: "CTng", Type: definition.STH_INIT, Period: "11", Signer: name, Payload: [3]string{name, hex.EncodeToString(b), ""}}
		g.Signature[0] = verifw.Sign([]int{4, 3}[who], g.Payload[0]+g.Payload[1])
		CA.VPost(ca, "/CA/receive-sth", verifw.JSON(g))
		CA.VPost(ca, "/CA/receive-poi", verifw.JSON(crypto.POI_for_transmission{Poi: tree.Proofs[0], SubjectKeyId: cs[0].SubjectKeyId, Issuer: verifw.CA, LoggerID: name}))
	default:
		g := definition.Gossip_object{Application: "CTng", Type: definition.STH_INIT, Period: "11", Signer: rt.Str("signer"), Payload: [3]string{rt.Str("p0"), rt.Str("p1"), ""}}
		g.Signature[0] = verifh.SigBy("sig", 2+rt.Choice("key", 2)).Text
		panicked = rt.Try(func() { CA.VPost(ca, "/CA/receive-sth", verifw.JSON(g)) })
	}
	rt.Assert(!panicked, "no request makes a handler panic")
}

// vC18Forge sends the CA or a logger something made up.
func vC18Forge(ca *CA.CAContext, l *LoggerContext) {
	panicked := false
	switch rt.Choice("forged", 5) {
	case 0:
	case 1: // a tree head
		g := verifw.Any("g")
		panicked = rt.Try(func() { CA.VPost(ca, "/CA/receive-sth", verifw.JSON(g)) })
	case 2: // a proof
		p := crypto.POI_for_transmission{LoggerID: rt.Str("logger"), SubjectKeyId: []byte(rt.Str("skid"))}
		if cs := ca.CurrentCertificatePool.GetCertList(); rt.Choice("of", 2) == 1 && len(cs) > 0 {
			p.SubjectKeyId = cs[0].SubjectKeyId
		}
		if rt.Choice("poi", 2) == 1 {
			p.Poi = &merkletree.Proof{Siblings: [][]byte{[]byte(rt.Str("sib"))}, Path: uint32(rt.U64("path"))}
		}
		panicked = rt.Try(func() { CA.VPost(ca, "/CA/receive-poi", verifw.JSON(p)) })
	case 3: // rubbish
		panicked = rt.Try(func() {
			CA.VPost(ca, []string{"/CA/receive-sth", "/CA/receive-poi"}[rt.Choice("to", 2)], rt.Str("body"))
		})
	case 4:
		panicked = rt.Try(func() { VPost(l, "/Logger/receive-precerts", rt.Str("body")) })
	}
	rt.Assert(!panicked, "no request makes a handler panic")
}

// VerifC18Replay: the same when a message that the loggers sent to the CA before, in this period or the previous one,
// comes again, labelled with the same or another period, just before any of the loggers' messages to the CA, or after them.
func VerifC18Replay() {
	ca := CA.VCA(2)
	l, l2 := VLogger(0), VLogger(1)
	n, to := 0, "http://"+verifw.CA+"/"
	what, before := rt.Choice("what", 10), 6+rt.Choice("before", 7)
	rt.Assume(what < before)
	again := func() {
		m := vC18Sent(to, what)
		body := m.Body
		if strings.HasSuffix(m.URL, "sth") && rt.Choice("relabelled", 2) == 1 {
			var g definition.Gossip_object
			if json.Unmarshal([]byte(body), &g) != nil {
				panic("not a tree head")
			}
			g.Period = rt.Str("label")
			body = verifw.JSON(g)
		}
		panicked := rt.Try(func() { CA.VPost(ca, m.URL[len(to)-1:], body) })
		rt.Assert(!panicked, "no request makes a handler panic")
	}
	VC18Net(ca, l, l2, func(url string) {
		if strings.HasPrefix(url, to) {
			if n == before {
				again()
			}
			n++
		}
	})
	rt.ClockMinute(10)
	PeriodicTask(l)
	rt.Advance(300)
	PeriodicTask(l2)
	rt.Advance(700)
	CA.PeriodicTask(ca)
	rt.Advance(99700)
	rt.Assert(n == 12, "the CA gets tree heads and proofs from the loggers")
	if before == 12 {
		again()
	}
	for _, c := range vC18Certs(ca) {
		for _, info := range CA.ParseCTngextension(c).LoggerInformation {
			rt.Assert(info.STH.Period == "12", "certificates carry tree heads of the period")
		}
	}
	rt.Reach("end")
}

// vC18Sent gives the n-th message to the CA.
func vC18Sent(to string, n int) rt.Msg {
	for _, m := range rt.Sent() {
		if strings.HasPrefix(m.URL, to) {
			if n == 0 {
				return m
			}
			n--
		}
	}
	panic("not sent")
}
