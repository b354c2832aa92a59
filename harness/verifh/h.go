// Package verifh holds helpers shared by the harnesses.
package verifh

import (
	"crypto/rsa"

	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/crypto"
	rt "github.com/jik18001/CTngV2/verifrt"
)

// Ent is a named participant with its own RSA key (index into the fixture).
type Ent struct {
	Name string
	Key  int
}

// Config builds a verifying configuration that knows the given RSA entities and
// BLS gossipers (gossiper i uses BLS key i).
func Config(self string, rsaEnts []Ent, gossipers []string, threshold int) *crypto.CryptoConfig {
	pub := make(crypto.RSAPublicMap)
	var sk rsa.PrivateKey
	for _, e := range rsaEnts {
		k := rt.RSAKey(e.Key)
		pub[crypto.CTngID(e.Name)] = k.PublicKey
		if e.Name == self {
			sk = *k
		}
	}
	bp := make(crypto.BlsPublicMap)
	var bsk bls.SecretKey
	for i, g := range gossipers {
		k := rt.BLSKey(i)
		bp[crypto.CTngID(g)] = *k.GetPublicKey()
		if g == self {
			bsk = *k
		}
	}
	return &crypto.CryptoConfig{
		Threshold:          threshold,
		N:                  len(gossipers),
		HashScheme:         crypto.SHA256,
		SignScheme:         "rsa",
		ThresholdScheme:    "bls",
		SelfID:             crypto.CTngID(self),
		SignPublicMap:      pub,
		SignSecretKey:      sk,
		ThresholdPublicMap: bp,
		ThresholdSecretKey: bsk,
	}
}

// Sig is a signature an attacker can present: either a free string or a genuine
// signature by one of the keys over a message of the attacker's choice, labelled
// with an identity of the attacker's choice.
type Sig struct {
	Text  string
	Valid bool
	Key   int
	Msg   string
	ID    string
}

// AnySig lets the solver pick any signature string over nkeys keys.
func AnySig(l string, nkeys int) Sig {
	if rt.Choice(l+".kind", 2) == 0 {
		return Sig{Text: rt.Str(l + ".junk"), Key: -1}
	}
	k := rt.Choice(l+".key", nkeys)
	return SigBy(l, k)
}

// SigBy is a genuine signature by key k on a free message with a free identity.
func SigBy(l string, k int) Sig {
	m := rt.Str(l + ".msg")
	id := rt.Str(l + ".id")
	s, err := crypto.RSASign([]byte(m), rt.RSAKey(k), crypto.CTngID(id))
	if err != nil {
		panic(err)
	}
	return Sig{Text: s.String(), Valid: true, Key: k, Msg: m, ID: id}
}
