//verif:with CA

package Logger

import (
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"strings"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

// c22Net connects the CA and the loggers.
func c22Net(precerts *[]string) {
	rt.OnHTTP(func(method, url, body string) (int, string, bool) {
		if precerts != nil && strings.HasSuffix(url, "/Logger/receive-precerts") {
			*precerts = append(*precerts, body)
		}
		code, out, fail := rt.Dispatch(method, url, body)
		return code, out, fail
	})
}

func c22Get(url string) func() {
	return func() { rt.Dispatch("GET", url, "") }
}

// VerifC22Proofs: two loggers publish, the CA gathers their proofs, monitors ask, all at the same time.
func VerifC22Proofs() {
	ca := CA.VCA(1)
	l, l2 := VLogger(0), VLogger(1)
	c22Net(nil)
	rt.ClockMinute(10)
	PeriodicTask(l)
	PeriodicTask(l2)
	CA.PeriodicTask(ca)
	rt.Advance(39000)
	ca1 := ca.CurrentCertificatePool
	sth := verifw.JSON(verifw.Init(definition.STH_INIT, 1, verifw.Logger2, "11", rt.Str("h"), ""))
	fs := []func(){c22Get("http://" + verifw.CA + "/ctng/v2/get-revocation/")}
	switch rt.Choice("with", 3) {
	case 0:
		fs = append(fs, c22Get("http://"+verifw.Logger+"/ctng/v2/get-sth/"))
	case 1:
		fs = append(fs, func() { CA.VPost(ca, "/CA/receive-sth", sth) })
	case 2:
		fs = nil
	}
	rt.Race(rt.Tier(0, 1), 1500, fs...)
	rt.Assert(ca1.GetLength() == 1, "the certificate stays")
	rt.Reach("done")
}

// VerifC22Start: the CA starts a period while loggers and monitors talk to it.
func VerifC22Start() {
	ca := CA.VCA(1)
	l := VLogger(0)
	VLogger(1)
	c22Net(nil)
	rt.ClockMinute(10)
	sth := verifw.JSON(verifw.Init(definition.STH_INIT, 1, verifw.Logger2, "11", rt.Str("h"), ""))
	fs := []func(){func() { CA.PeriodicTask(ca) }, func() { PeriodicTask(l) }}
	switch rt.Choice("with", 3) {
	case 0:
		fs = append(fs, c22Get("http://"+verifw.CA+"/ctng/v2/get-revocation/"))
	case 1:
		fs = append(fs, func() { CA.VPost(ca, "/CA/receive-sth", sth) })
	case 2:
		fs = append(fs, c22Get("http://"+verifw.Logger+"/ctng/v2/get-sth/"))
	}
	rt.Race(rt.Tier(1, 2), 0, fs...)
	rt.Reach("done")
}

// VerifC22Late: a precertificate that comes while the logger publishes is in this tree or the next.
func VerifC22Late() {
	var pre []string
	ca := CA.VCA(2)
	l := VLogger(0)
	c22Net(&pre)
	rt.ClockMinute(10)
	CA.PeriodicTask(ca)
	rt.Assert(len(pre) > 0, "precertificates are sent")
	l = VLogger(1)
	PeriodicTask(l)
	if rt.Choice("early", 2) == 1 {
		VPost(l, "/Logger/receive-precerts", pre[0])
	}
	last := pre[len(pre)-1]
	rt.Advance(39000)
	rt.Race(rt.Tier(1, 2), 1500, func() { VPost(l, "/Logger/receive-precerts", last) })
	cert, err := x509.ParseCertificate([]byte(last))
	rt.Assert(err == nil, "a certificate")
	inTree := c22Size(l, "11")
	kept := l.CurrentPrecertPool.GetCertBySubjectKeyID(string(cert.SubjectKeyId)) != nil
	rt.Advance(60000)
	rt.Assert(inTree+c22Size(l, "12") >= 1 && (kept || inTree > 0), "a precertificate gets into a tree")
	rt.Reach("done")
}

// c22Size: the size of the tree of a period.
func c22Size(l *LoggerContext, period string) int {
	var t definition.STH
	b, _ := hex.DecodeString(l.STH_storage[period].Payload[1])
	rt.Assert(json.Unmarshal(b, &t) == nil, "tree heads have a size")
	return t.TreeSize
}

// VerifC22Both: the proofs of two loggers that come at the same time all get into the certificates.
func VerifC22Both() {
	ca := CA.VCA(rt.Tier(1, 2))
	l, l2 := VLogger(0), VLogger(1)
	c22Net(nil)
	rt.ClockMinute(10)
	PeriodicTask(l)
	PeriodicTask(l2)
	rt.Advance(1000)
	CA.PeriodicTask(ca)
	rt.Advance(38000)
	rt.Race(2, 1500)
	for _, c := range CA.SignAllCerts(ca) {
		rt.Assert(len(CA.ParseCTngextension(c).LoggerInformation) == 2, "certificates get the proofs of all loggers")
	}
	rt.Reach("done")
}
