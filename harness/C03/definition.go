package definition

import (
	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/verifh"
	rt "github.com/jik18001/CTngV2/verifrt"
)

var c03Gossipers = []string{"localhost:8080", "localhost:8081", "localhost:8082", "localhost:8083"}

// VerifC03Full: a FULL object is accepted only when at least threshold many distinct
// known gossipers contributed fragments on exactly this payload. The attacker may
// aggregate any genuine fragments he can get (also of one colluding gossiper several
// times, and with keys of his own) and may claim any list of signers.
func VerifC03Full() {
	th := rt.Choice("threshold", 2) + 2
	cfg := verifh.Config(c03Gossipers[0], nil, c03Gossipers, th)
	typ := []string{STH_FULL, REV_FULL, ACC_FULL}[rt.Choice("type", 3)]
	n := rt.Choice("contributions", 4)
	var sigs []bls.Sign
	var msgs []string
	var keys []int
	prev := 0
	for i := 0; i < n; i++ {
		// keys 0..3 are the gossipers, key 4 is unknown to the verifier
		k := prev + rt.Choice("key", 5-prev)
		prev = k
		m := rt.Str("msg")
		s := rt.BLSKey(k).Sign(m)
		sigs = append(sigs, *s)
		msgs = append(msgs, m)
		keys = append(keys, k)
	}
	agg := new(bls.Sign)
	if n > 0 {
		agg.Aggregate(sigs)
	}
	nid := rt.Choice("claimed", 4)
	var ids []crypto.CTngID
	for i := 0; i < nid; i++ {
		ids = append(ids, crypto.CTngID(rt.Str("id")))
	}
	text := ""
	if rt.Choice("form", 2) == 0 {
		text = rt.Str("junk")
	} else {
		ts := crypto.ThresholdSig{IDs: ids, Sign: agg}
		var err error
		text, err = ts.String()
		rt.Assume(err == nil)
	}
	g := Gossip_object{Application: "CTng", Period: rt.Str("period"), Type: typ, Signer: rt.Str("signer"),
		Signature: [2]string{text, ""}, Timestamp: "t", Crypto_Scheme: "BLS",
		Payload: [3]string{rt.Str("p0"), rt.Str("p1"), rt.Str("p2")}}
	var err error
	rt.Assert(!rt.Try(func() { err = g.Verify(cfg) }), "verification never panics")
	if err != nil {
		rt.Reach("rejected")
		return
	}
	rt.Reach("accepted")
	pay := g.Payload[0] + g.Payload[1] + g.Payload[2]
	distinct := 0
	last := -1
	for i := range keys {
		rt.Assert(msgs[i] == pay, "every contribution covers exactly the payload")
		if keys[i] < 4 && keys[i] != last {
			distinct++
			last = keys[i]
		}
	}
	rt.Assert(distinct >= th, "at least threshold many distinct known gossipers contributed")
}

// VerifC03FullOK: threshold many honest fragments always aggregate into an accepted object.
func VerifC03FullOK() {
	th := rt.Choice("threshold", 2) + 2
	cfg := verifh.Config(c03Gossipers[0], nil, c03Gossipers, th)
	typ := []string{STH_FULL, REV_FULL, ACC_FULL}[rt.Choice("type", 3)]
	p := [3]string{rt.Str("p0"), rt.Str("p1"), rt.Str("p2")}
	rt.Assume(p[0] != "")
	var frags []crypto.SigFragment
	skip := rt.Choice("skip", 4)
	for i := range c03Gossipers {
		if i == skip || len(frags) == th {
			continue
		}
		c := verifh.Config(c03Gossipers[i], nil, c03Gossipers, th)
		f, err := c.ThresholdSign(p[0] + p[1] + p[2])
		rt.Assert(err == nil, "a gossiper can sign")
		// a fragment survives the trip over the wire and is accepted as a FRAG object
		fs := f.String()
		fo := Gossip_object{Application: "CTng", Type: map[string]string{STH_FULL: STH_FRAG, REV_FULL: REV_FRAG, ACC_FULL: ACC_FRAG}[typ],
			Signer: c03Gossipers[i], Signature: [2]string{fs, ""}, Payload: p}
		rt.Assert(fo.Verify(cfg) == nil, "an honest fragment is accepted")
		f2, err := crypto.SigFragmentFromString(fs)
		rt.Assert(err == nil, "a fragment survives its encoding")
		frags = append(frags, f2)
	}
	agg, err := cfg.ThresholdAggregate(frags)
	rt.Assert(err == nil, "threshold many fragments aggregate")
	text, err := agg.String()
	rt.Assert(err == nil, "the aggregate can be encoded")
	g := Gossip_object{Application: "CTng", Period: rt.Str("period"), Type: typ, Signature: [2]string{text, ""}, Payload: p}
	rt.Assert(g.Verify(cfg) == nil, "threshold many honest fragments are accepted")
	rt.Reach("accepted")
}

// VerifC03Frag: a FRAG object is accepted only when the gossiper named in the fragment
// signed exactly this payload.
func VerifC03Frag() {
	cfg := verifh.Config(c03Gossipers[0], nil, c03Gossipers, 2)
	typ := []string{STH_FRAG, REV_FRAG, ACC_FRAG}[rt.Choice("type", 3)]
	k := rt.Choice("key", 5)
	m := rt.Str("msg")
	id := rt.Str("id")
	valid := rt.Choice("form", 2) == 1
	text := ""
	if valid {
		sf := crypto.SigFragment{ID: crypto.CTngID(id), Sign: rt.BLSKey(k).Sign(m)}
		text = sf.String()
	} else {
		text = rt.Str("junk")
	}
	g := Gossip_object{Application: "CTng", Period: rt.Str("period"), Type: typ, Signer: rt.Str("signer"),
		Signature: [2]string{text, ""}, Timestamp: "t", Crypto_Scheme: "BLS",
		Payload: [3]string{rt.Str("p0"), rt.Str("p1"), rt.Str("p2")}}
	var err error
	rt.Assert(!rt.Try(func() { err = g.Verify(cfg) }), "verification never panics")
	if err != nil {
		rt.Reach("rejected")
		return
	}
	rt.Reach("accepted")
	rt.Assert(valid && k < 4, "an accepted fragment is genuine and by a known gossiper")
	rt.Assert(id == c03Gossipers[k], "an accepted fragment is by the gossiper it names")
	rt.Assert(g.Signer == id, "an accepted fragment names the gossiper that made it as its signer")
	rt.Assert(m == g.Payload[0]+g.Payload[1]+g.Payload[2], "an accepted fragment covers exactly the payload")
}
