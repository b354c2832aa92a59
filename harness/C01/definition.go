package definition

import (
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/verifh"
	rt "github.com/jik18001/CTngV2/verifrt"
)

// VerifC01Init: an STH, revocation or accusation object is accepted only when the
// entity named as its signer signed exactly this payload.
func VerifC01Init() { c01(false) }

// VerifC01After: the same when genuine objects were checked before, so that nothing
// remembered from them lets another object pass.
func VerifC01After() { c01(true) }

func c01(after bool) {
	ents := []verifh.Ent{{Name: "localhost:9000", Key: 0}, {Name: "localhost:9001", Key: 1}, {Name: "localhost:9100", Key: 2}, {Name: "localhost:8180", Key: 3}}
	cfg := verifh.Config("localhost:8080", ents, nil, 2)
	typ := []string{STH_INIT, REV_INIT, ACC_INIT}[rt.Choice("type", 3)]
	if after {
		m := rt.Str("earlier")
		s, _ := crypto.RSASign([]byte(ents[0].Name+m), rt.RSAKey(0), crypto.CTngID(ents[0].Name))
		e := Gossip_object{Application: "CTng", Period: rt.Str("eperiod"), Type: STH_INIT, Signer: ents[0].Name, Signature: [2]string{s.String(), ""},
			Timestamp: "t", Crypto_Scheme: "rsa", Payload: [3]string{ents[0].Name, m, ""}}
		rt.Assert(e.Verify(cfg) == nil, "genuine objects are accepted")
	}
	// key 4 belongs to nobody the verifier knows
	sig := verifh.AnySig("sig", 5)
	g := Gossip_object{
		Application: "CTng", Period: rt.Str("period"), Type: typ,
		Signer:    rt.Str("signer"),
		Signature: [2]string{sig.Text, rt.Str("sig2")},
		Timestamp: "t", Crypto_Scheme: "RSA",
		Payload: [3]string{rt.Str("p0"), rt.Str("p1"), rt.Str("p2")},
	}
	var err error
	rt.Assert(!rt.Try(func() { err = g.Verify(cfg) }), "verification never panics")
	if err != nil {
		rt.Assert(!(sig.Valid && sig.Key < 4 && rt.And(sig.ID == g.Signer, g.Signer == ents[sig.Key].Name, sig.Msg == g.Payload[0]+g.Payload[1]+g.Payload[2], rt.Or(rt.And(typ == ACC_INIT, g.Payload[0] != ""), g.Payload[0] == g.Signer))), "genuine objects are accepted")
		rt.Reach("rejected")
		return
	}
	rt.Reach("accepted")
	rt.Assert(sig.Valid, "accepted objects carry a genuine signature")
	rt.Assert(sig.Key < 4, "accepted objects are signed by a known entity")
	rt.Assert(sig.Msg == g.Payload[0]+g.Payload[1]+g.Payload[2], "the signature covers the whole payload")
	rt.Assert(g.Signer == ents[sig.Key].Name, "the named signer produced the signature")
	if typ != ACC_INIT {
		rt.Assert(g.Payload[0] == ents[sig.Key].Name, "an STH or revocation is signed by the entity it speaks for")
	}
}

// VerifC01Split: the same text, divided otherwise over the fields of the statement.
func VerifC01Split() {
	a, b, d := rt.Str("a"), rt.Str("b"), rt.Str("d")
	rt.Assume(b != "")
	typ := []string{STH_INIT, REV_INIT}[rt.Choice("type", 2)]
	name := "localhost:9000"
	c := verifh.Config("localhost:8080", []verifh.Ent{{Name: name, Key: 0}}, nil, 2)
	sig, _ := crypto.RSASign([]byte(name+a+b+d), rt.RSAKey(0), crypto.CTngID(name))
	g := Gossip_object{Application: "CTng", Type: typ, Period: "10", Signer: name, Signature: [2]string{sig.String(), ""}, Crypto_Scheme: "RSA", Payload: [3]string{name, a + b, d}}
	rt.Assert(g.Verify(c) == nil, "genuine statements are accepted")
	g.Payload = [3]string{name, a, b + d}
	rt.Reach("split")
	rt.Assert(g.Verify(c) != nil, "a statement divided otherwise than it was signed is not accepted")
}
