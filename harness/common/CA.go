package CA

import (
	"encoding/json"
	"sync"

	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/verifh"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

// VCA is the CA of the little world.
func VCA(certs int) *CAContext { return VCAOf(2, certs) }

// VCAOf is the CA that is entity i.
func VCAOf(i, certs int) *CAContext {
	name := verifw.Ents[i].Name
	c := &CAContext{
		CA_public_config:       &CA_public_config{All_CA_URLs: []string{verifw.CA, verifw.CA2}, All_Logger_URLs: []string{verifw.Logger, verifw.Logger2}, MMD: 60, MRD: 60},
		CA_private_config:      &CA_private_config{Signer: name, Port: name[len("localhost:"):], Loggerlist: []string{verifw.Logger, verifw.Logger2}, Cert_per_period: certs},
		CA_crypto_config:       verifh.Config(name, verifw.Ents, verifw.Gossipers, 2),
		PublicKey:              rt.RSAKey(i).PublicKey,
		PrivateKey:             *rt.RSAKey(i),
		CurrentCertificatePool: crypto.NewCertPool(),
		CertPoolStorage:        &CTngCertPoolStorage{Certpools: make(map[string]crypto.CertPool)},
		REV_storage:            make(map[string]definition.Gossip_object),
		REV_storage_fake:       make(map[string]definition.Gossip_object),
		STH_storage:            make(map[string]definition.Gossip_object),
		Request_Count_lock:     &sync.Mutex{},
		STH_storage_lock:       &sync.Mutex{},
		Certpool_lock:          &sync.Mutex{},
		Fresh:                  true,
		Client:                 rt.NewClient(),
		CRV:                    CRV_init(),
	}
	if certs > 0 {
		c.Rootcert = Generate_Root_Certificate(c)
	}
	go handleCARequests(c)
	rt.Drain()
	return c
}

// VPost is a request to the CA.
func VPost(c *CAContext, path, body string) {
	code, _, fail := rt.Dispatch("POST", "http://"+c.CA_private_config.Signer+path, body)
	rt.Assert(!fail && code != 404 && code != 405, "requests go to paths that exist")
}

// VAsk asks the CA for its revocations, as a monitor does.
func VAsk(c *CAContext) (o definition.Gossip_object, body string) {
	_, body, fail := rt.Dispatch("GET", "http://"+c.CA_private_config.Signer+"/ctng/v2/get-revocation/", "")
	rt.Assert(!fail && body != "" && json.Unmarshal([]byte(body), &o) == nil, "the CA answers with a gossip object")
	return o, body
}
