package client

import (
	"crypto/rsa"
	"encoding/hex"
	"encoding/json"
	"sync"
	"testing"

	"github.com/bits-and-blooms/bitset"
	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
)

// A small world: a client that knows two loggers, a CA and four gossipers (threshold 2).
var names = []string{"localhost:9000", "localhost:9001", "localhost:9100"}
var gnames = []string{"localhost:8080", "localhost:8081", "localhost:8082", "localhost:8083"}

type world struct {
	rsa []*rsa.PrivateKey
	bls []bls.SecretKey
	c   *ClientContext
}

func newWorld(t *testing.T) *world {
	w := &world{}
	cc := &crypto.CryptoConfig{SelfID: "client", Threshold: 2, N: 4, HashScheme: crypto.SHA256, SignScheme: "rsa", ThresholdScheme: "bls",
		SignPublicMap: crypto.RSAPublicMap{}, ThresholdPublicMap: crypto.BlsPublicMap{}}
	for _, n := range names {
		k, err := crypto.NewRSAPrivateKey()
		if err != nil {
			t.Fatal(err)
		}
		w.rsa = append(w.rsa, k)
		cc.SignPublicMap[crypto.CTngID(n)] = k.PublicKey
	}
	for _, n := range gnames {
		var s bls.SecretKey
		s.SetByCSPRNG()
		w.bls = append(w.bls, s)
		cc.ThresholdPublicMap[crypto.CTngID(n)] = *s.GetPublicKey()
	}
	d := t.TempDir()
	w.c = w.client(cc, d)
	return w
}

func (w *world) client(cc *crypto.CryptoConfig, d string) *ClientContext {
	return &ClientContext{Crypto: cc, STH_database: map[string]string{}, CRV_database: map[string]*bitset.BitSet{}, POM_database: map[string]definition.Gossip_object{},
		STH_DB_RWLock: &sync.RWMutex{}, CRV_DB_RWLock: &sync.RWMutex{}, POM_DB_RWLock: &sync.RWMutex{},
		Config: &ClientConfig{STH_Storage_filepath: d + "/sth.json", CRV_Storage_filepath: d + "/crv.json", PoM_Store_filepath: d + "/pom.json"}}
}

func (w *world) sign(k int, m string) string {
	s, _ := crypto.RSASign([]byte(m), w.rsa[k], crypto.CTngID(names[k]))
	return s.String()
}

// sth is a tree head of logger k.
func (w *world) sth(k int, period string, root []byte, size int) definition.Gossip_object {
	b, _ := json.Marshal(definition.STH{Timestamp: "t0", RootHash: hex.EncodeToString(root), TreeSize: size})
	p1 := hex.EncodeToString(b)
	return definition.Gossip_object{Application: "CTng", Period: period, Type: definition.STH_INIT, Signer: names[k], Signature: [2]string{w.sign(k, names[k]+p1), ""},
		Timestamp: "t0", Crypto_Scheme: "RSA", Payload: [3]string{names[k], p1, ""}}
}

// full turns o into an object that gossipers 0 and 1 vouch for.
func (w *world) full(t *testing.T, o definition.Gossip_object, typ string) definition.Gossip_object {
	var fs []crypto.SigFragment
	for i := 0; i < 2; i++ {
		fs = append(fs, crypto.SigFragment{ID: crypto.CTngID(gnames[i]), Sign: w.bls[i].Sign(o.Payload[0] + o.Payload[1] + o.Payload[2])})
	}
	a, err := crypto.ThresholdAggregate(fs, 2)
	if err != nil {
		t.Fatal(err)
	}
	s, _ := a.String()
	o.Type, o.Signer, o.Crypto_Scheme, o.Signature = typ, "", "BLS", [2]string{s, ""}
	return o
}
