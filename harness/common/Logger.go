package Logger

import (
	"encoding/json"
	"sync"

	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/verifh"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

// VLogger is logger i of the little world.
func VLogger(i int) *LoggerContext {
	name := verifw.Ents[i].Name
	c := &LoggerContext{
		Logger_public_config:  &Logger_public_config{All_CA_URLs: []string{verifw.CA}, All_Logger_URLs: []string{verifw.Logger, verifw.Logger2}, MMD: 60, MRD: 60},
		Logger_private_config: &Logger_private_config{Signer: name, Port: name[len("localhost:"):], CAlist: []string{verifw.CA}},
		Logger_crypto_config:  verifh.Config(name, verifw.Ents, verifw.Gossipers, 2),
		PublicKey:             rt.RSAKey(i).PublicKey,
		PrivateKey:            *rt.RSAKey(i),
		CurrentPrecertPool:    crypto.NewCertPool(),
		PrecertStorage:        &PrecertStorage{PrecertPools: make(map[string]*crypto.CertPool)},
		STH_storage:           make(map[string]definition.Gossip_object),
		STH_storage_fake:      make(map[string]definition.Gossip_object),
		Request_Count_lock:    &sync.Mutex{},
		CertPool_lock:         &sync.Mutex{},
		StoragePath:           rt.Dir() + "/precerts.json",
		Client:                rt.NewClient(),
	}
	go handleLoggerRequests(c)
	rt.Drain()
	return c
}

// VAsk asks the logger for its tree head, as a monitor does.
func VAsk(c *LoggerContext) (o definition.Gossip_object, body string) {
	_, body, fail := rt.Dispatch("GET", "http://localhost:"+c.Logger_private_config.Port+"/ctng/v2/get-sth/", "")
	rt.Assert(!fail && body != "" && json.Unmarshal([]byte(body), &o) == nil, "the logger answers with a gossip object")
	return o, body
}

// VPost is a request to the logger.
func VPost(c *LoggerContext, path, body string) {
	code, _, fail := rt.Dispatch("POST", "http://localhost:"+c.Logger_private_config.Port+path, body)
	rt.Assert(!fail && code != 404 && code != 405, "requests go to paths that exist")
}
