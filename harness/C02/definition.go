package definition

import (
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/verifh"
	rt "github.com/jik18001/CTngV2/verifrt"
)

// VerifC02Conflict: a conflict proof is accepted only when the accused entity itself
// signed two different statements, and genuine conflicts are accepted.
func VerifC02Conflict() {
	ents := []verifh.Ent{{Name: "localhost:9000", Key: 0}, {Name: "localhost:9001", Key: 1}, {Name: "localhost:9100", Key: 2}, {Name: "localhost:8180", Key: 3}}
	cfg := verifh.Config("localhost:8080", ents, nil, 2)
	s1 := verifh.AnySig("s1", 5)
	s2 := verifh.AnySig("s2", 5)
	g := Gossip_object{
		Application: "CTng", Period: rt.Str("period"), Type: CON_INIT,
		Signer: rt.Str("signer"),

		Signature: [2]string{s1.Text, s2.Text},
		Timestamp: "t", Crypto_Scheme: "RSA",
		Payload: [3]string{rt.Str("p0"), rt.Str("p1"), rt.Str("p2")},
	}
	var err error
	rt.Assert(!rt.Try(func() { err = g.Verify(cfg) }), "verification never panics")
	if err != nil {
		rt.Reach("rejected")
		// completeness: a genuine conflict of a known entity is never turned away
		if s1.Valid && s2.Valid && s1.Key == s2.Key && s1.Key < 4 {
			name := ents[s1.Key].Name
			rt.Assert(!rt.And(s1.ID == name, s2.ID == name, g.Payload[0] == name, s1.Msg == g.Payload[1], s2.Msg == g.Payload[2], g.Payload[1] != g.Payload[2]),
				"two different statements signed by the accused entity are a proof")
		}
		return
	}
	rt.Reach("accepted")
	rt.Assert(s1.Valid && s2.Valid, "both statements carry genuine signatures")
	rt.Assert(s1.Key < 4 && s2.Key < 4, "both statements are signed by known entities")
	rt.Assert(s1.Key == s2.Key, "both statements are signed by one entity")
	rt.Assert(g.Payload[0] == ents[s1.Key].Name, "the accused entity signed the statements")
	rt.Assert(s1.Msg == g.Payload[1], "the first signature covers the first statement")
	rt.Assert(s2.Msg == g.Payload[2], "the second signature covers the second statement")
	rt.Assert(g.Payload[1] != g.Payload[2], "the two statements differ")
}

// VerifC02Respelled: one statement with its signature written in two ways is no proof.
func VerifC02Respelled() {
	cfg := verifh.Config("localhost:8080", []verifh.Ent{{Name: "localhost:9000", Key: 0}}, nil, 2)
	m := rt.Str("m")
	s, _ := crypto.RSASign([]byte(m), rt.RSAKey(0), "localhost:9000")
	t := s.String()
	t2 := []string{t, " " + t, t + " ", "{ " + t[1:]}[rt.Choice("spelling", 4)]
	g := Gossip_object{Application: "CTng", Period: "10", Type: CON_INIT, Signature: [2]string{t, t2}, Payload: [3]string{"localhost:9000", m, m}}
	if rt.Choice("swapped", 2) == 1 {
		g.Signature = [2]string{t2, t}
	}
	rt.Assert(g.Verify(cfg) != nil, "one statement is no proof")
	rt.Reach("end")
}
