package gossiper

import (
	"bytes"
	"crypto/rsa"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
)

// A small world: gossiper g0 of four, two loggers, a CA, a monitor; posts are recorded.
var names = []string{"localhost:9000", "localhost:9001", "localhost:9100", "localhost:8180", "outsider:1"}
var gnames = []string{"localhost:8080", "localhost:8081", "localhost:8082", "localhost:8083"}

type post struct {
	URL string
	Obj definition.Gossip_object
	Raw string
}
type world struct {
	mu   sync.Mutex
	sent []post
	down string // receiver that cannot be reached
	slow time.Duration
	rsa  []*rsa.PrivateKey
	bls  []bls.SecretKey
	c    *GossiperContext
}

func (w *world) RoundTrip(r *http.Request) (*http.Response, error) {
	b, _ := io.ReadAll(r.Body)
	if w.down != "" && strings.Contains(r.URL.String(), w.down) {
		return nil, errors.New("connection refused")
	}
	var o definition.Gossip_object
	json.Unmarshal(b, &o)
	time.Sleep(w.slow)
	w.mu.Lock()
	w.sent = append(w.sent, post{r.URL.String(), o, string(b)})
	w.mu.Unlock()
	return &http.Response{StatusCode: 200, Body: io.NopCloser(bytes.NewReader(nil)), Header: http.Header{}}, nil
}

func newWorld(t *testing.T, threshold, opt int, mode bool) *world {
	w := &world{}
	cc := &crypto.CryptoConfig{SelfID: crypto.CTngID(gnames[0]), Threshold: threshold, N: 4, HashScheme: crypto.SHA256, SignScheme: "rsa", ThresholdScheme: "bls",
		SignPublicMap: crypto.RSAPublicMap{}, ThresholdPublicMap: crypto.BlsPublicMap{}}
	for i, n := range names {
		k, err := crypto.NewRSAPrivateKey()
		if err != nil {
			t.Fatal(err)
		}
		w.rsa = append(w.rsa, k)
		if i < 4 {
			cc.SignPublicMap[crypto.CTngID(n)] = k.PublicKey
		}
	}
	for i := 0; i < 5; i++ {
		var s bls.SecretKey
		s.SetByCSPRNG()
		w.bls = append(w.bls, s)
		if i < 4 {
			cc.ThresholdPublicMap[crypto.CTngID(gnames[i])] = *s.GetPublicKey()
		}
	}
	cc.ThresholdSecretKey = w.bls[0]
	w.c = &GossiperContext{
		Gossiper_private_config: &Gossiper_private_config{Connected_Gossipers: gnames[1:], Owner_URL: names[3], Port: "8080"},
		Gossiper_public_config:  &Gossiper_public_config{Gossip_wait_time: 1, MMD: 60, MRD: 60, Gossiper_URLs: gnames, Signer_URLs: names[:3]},
		Gossiper_crypto_config:  cc, Gossip_object_storage: InitializeGossipObjectStorage(), Gossip_blacklist: InitializeGossipBlacklist(),
		Gossiper_log: InitializeGossiperLog(), StorageID: "1", StorageFile: "1.json", StorageDirectory: t.TempDir() + "/",
		Client: &http.Client{Transport: w}, Total_Logger: 2, Total_CA: 1, Optimization_threshold: opt, Optimization_mode: mode}
	return w
}

func (w *world) sign(k int, m string) string {
	s, _ := crypto.RSASign([]byte(m), w.rsa[k], crypto.CTngID(names[k]))
	return s.String()
}

// init is a genuine statement of entity k about entity a.
func (w *world) init(typ string, k, a int, period, p1, p2 string) definition.Gossip_object {
	return definition.Gossip_object{Application: "CTng", Period: period, Type: typ, Signer: names[k], Signature: [2]string{w.sign(k, names[a]+p1+p2), ""},
		Timestamp: "t0", Crypto_Scheme: "rsa", Payload: [3]string{names[a], p1, p2}}
}

// frag is gossiper i's fragment on o.
func (w *world) frag(i int, o definition.Gossip_object) definition.Gossip_object {
	f := crypto.SigFragment{ID: crypto.CTngID(gnames[i]), Sign: w.bls[i].Sign(o.Payload[0] + o.Payload[1] + o.Payload[2])}
	o.Type, o.Signer, o.Crypto_Scheme = o.GetTargetType(), gnames[i], "bls"
	o.Signature[0] = f.String()
	return o
}

func (w *world) con(k int, m1, m2 string) definition.Gossip_object {
	return definition.Gossip_object{Application: "CTng", Period: "10", Type: definition.CON_INIT, Signature: [2]string{w.sign(k, m1), w.sign(k, m2)}, Payload: [3]string{names[k], m1, m2}}
}

func (w *world) deliver(o definition.Gossip_object) {
	b, _ := json.Marshal(o)
	Gossip_object_handler(w.c, httptest.NewRecorder(), httptest.NewRequest("POST", "/", bytes.NewReader(b)))
}

func (w *world) settle(d time.Duration) []post {
	time.Sleep(d)
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]post{}, w.sent...)
}

func count(ps []post, host, typ string) int {
	n := 0
	for _, p := range ps {
		if strings.Contains(p.URL, host) && p.Obj.Type == typ {
			n++
		}
	}
	return n
}
