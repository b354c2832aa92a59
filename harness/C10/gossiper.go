package gossiper

import (
	"encoding/json"
	"strings"

	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
)

func c10Same(a, b definition.Gossip_object) bool {
	return rt.And(a.Period == b.Period, a.Type == b.Type, a.Signer == b.Signer, a.Signature == b.Signature, a.Payload == b.Payload)
}

// VerifC10EndToEnd: with large payloads announced rather than sent, a revocation given to
// one gossiper still reaches every connected one unchanged and gets its threshold signature.
func VerifC10EndToEnd() {
	n := rt.Tier(2, 3)
	var cs []*GossiperContext
	for i := 0; i < n; i++ {
		cs = append(cs, vCtxN(i, n, 2, 10, true))
	}
	vNetwork(cs)
	o := vInit(definition.REV_INIT, 2, vCA, rt.Str("period"), rt.Str("p1"), rt.Str("p2"))
	vDeliver(cs[0], o)
	if rt.Choice("twice", 2) == 1 {
		vDeliver(cs[n-1], o)
	}
	for _, c := range cs {
		rt.Assert(len(c.Gossip_object_storage.REV_INIT) == 1, "every gossiper has the revocation")
		for _, g := range c.Gossip_object_storage.REV_INIT {
			rt.Assert(c10Same(g, o), "every gossiper has the revocation unchanged")
		}
	}
	rt.Advance(6000)
	for _, c := range cs {
		rt.Assert(len(c.Gossip_object_storage.REV_FULL) == 1, "every gossiper gets the threshold signature")
		for _, g := range c.Gossip_object_storage.REV_FULL {
			rt.Assert(g.Payload == o.Payload, "the signed object carries the whole payload")
			rt.Assert(g.Verify(c.Gossiper_crypto_config) == nil, "the signed object verifies")
		}
	}
	asked := 0
	for _, m := range rt.Sent() {
		if strings.HasSuffix(m.URL, "/gossip/new_payload_request") {
			asked++
		}
	}
	rt.Assert(asked < n, "nobody asks for what it holds")
	// nobody is told about the payload by sending all of it more than once per receiver
	sent := rt.Sent()
	for i := range sent {
		for j := 0; j < i; j++ {
			if strings.HasSuffix(sent[i].URL, "/gossip/rev_init") && sent[i].URL == sent[j].URL {
				rt.Assert(sent[i].Body != sent[j].Body, "the payload is sent to a peer once")
			}
		}
	}
	rt.Reach("done")
}

// VerifC10Conflict: two different revocations announced by two gossipers are still found
// to conflict by both.
func VerifC10Conflict() {
	cs := []*GossiperContext{vCtxN(0, 2, 2, 10, true), vCtxN(1, 2, 2, 10, true)}
	per := rt.Str("period")
	a := vInit(definition.REV_INIT, 2, vCA, per, rt.Str("a1"), rt.Str("a2"))
	b := vInit(definition.REV_INIT, 2, vCA, per, rt.Str("b1"), rt.Str("b2"))
	rt.Assume(a.Payload[1]+a.Payload[2] != b.Payload[1]+b.Payload[2])
	// each is given to one gossiper before the two can talk
	rt.OnHTTP(func(method, url, body string) (int, string, bool) { return 0, "", true })
	vDeliver(cs[0], a)
	if rt.Choice("before", 2) == 0 {
		vDeliver(cs[1], b)
		vNetwork(cs)
		// gossiper 0 announces again to a peer that missed it
		Send_obj_to_Gossipers(cs[0], a)
		rt.Drain()
	} else {
		vNetwork(cs)
		vDeliver(cs[1], b)
	}
	for _, c := range cs {
		rt.Assert(c.InBlacklist(vCA), "both gossipers bar the authority")
		rt.Assert(len(c.Gossip_object_storage.CON_INIT) == 1, "both gossipers hold the proof")
	}
	rt.Reach("done")
}

// VerifC10Notification: an announcement, whatever it says, leads to at most one request,
// to the announcing gossiper, in our own name and for the announced object; and to none
// for the object already held.
func VerifC10Notification() {
	c := vCtx(2, 10, true)
	o := vInit(definition.REV_INIT, 2, vCA, rt.Str("period"), rt.Str("p1"), rt.Str("p2"))
	have := rt.Choice("have", 2) == 1
	if have {
		vDeliver(c, o)
		rt.ClearSent()
	}
	n := Gossip_Notification{Sender: vGossipers[1], Period: rt.Str("nperiod"), Type: definition.REV_INIT, Entity_URL: rt.Str("nentity"), Objhash: ComputeobjHash(o)}
	same := rt.Choice("same", 2) == 1
	if same {
		n.Period, n.Entity_URL = o.Period, vCA
	} else {
		rt.Assume(rt.Or(n.Period != o.Period, n.Entity_URL != vCA))
	}
	b, err := json.Marshal(n)
	if err != nil {
		panic(err)
	}
	vPost(c, "/gossip/new_payload_notification", string(b))
	rt.Drain()
	s := rt.Sent()
	if have && same {
		rt.Assert(len(s) == 0, "nothing is asked for that is already there")
		rt.Reach("known")
		return
	}
	rt.Assert(len(s) == 1, "what is not there is asked for once")
	rt.Assert(s[0].URL == "http://"+vGossipers[1]+"/gossip/new_payload_request", "the announcing gossiper is asked")
	var q Gossip_Notification
	rt.Assert(json.Unmarshal([]byte(s[0].Body), &q) == nil, "the request is well formed")
	rt.Assert(rt.And(q.Sender == vGossipers[0], q.Period == n.Period, q.Entity_URL == n.Entity_URL), "the request names the object and the asking gossiper")
	rt.Reach("asked")
}

// VerifC10Request: a request is answered with exactly the object asked for, to the asker,
// or not at all.
func VerifC10Request() {
	c := vCtx(2, 10, true)
	o := vInit(definition.REV_INIT, 2, vCA, rt.Str("period"), rt.Str("p1"), rt.Str("p2"))
	vDeliver(c, o)
	rt.ClearSent()
	q := Gossip_Notification{Sender: vGossipers[2], Period: rt.Str("qperiod"), Type: rt.Str("qtype"), Entity_URL: rt.Str("qentity")}
	b, err := json.Marshal(q)
	if err != nil {
		panic(err)
	}
	vPost(c, "/gossip/new_payload_request", string(b))
	rt.Drain()
	s := rt.Sent()
	if rt.And(q.Period == o.Period, q.Entity_URL == vCA) {
		rt.Assert(len(s) == 1 && s[0].URL == "http://"+vGossipers[2]+"/gossip/rev_init", "the asker gets an answer")
		var g definition.Gossip_object
		rt.Assert(json.Unmarshal([]byte(s[0].Body), &g) == nil && c10Same(g, o), "the answer is the object asked for")
		rt.Reach("answered")
		return
	}
	rt.Assert(len(s) == 0, "unknown objects are not answered")
	rt.Reach("not answered")
}

// VerifC10Orphan: a fragment whose payload was left out and is not known here is ignored.
func VerifC10Orphan() {
	c := vCtx(2, 10, true)
	o := vInit(definition.REV_INIT, 2, vCA, rt.Str("period"), rt.Str("p1"), rt.Str("p2"))
	for i := 1; i < 3; i++ {
		vDeliver(c, c.Remove_Payload(vFrag(i, o)))
	}
	rt.Assert(len(vStored(c)) == 0, "a fragment without a payload is not kept")
	rt.Assert(len(rt.Sent()) == 0, "a fragment without a payload is not passed on")
	// and it does not get in the way afterwards
	vDeliver(c, o)
	for i := 1; i < 3; i++ {
		vDeliver(c, c.Remove_Payload(vFrag(i, o)))
	}
	rt.Assert(len(c.Gossip_object_storage.REV_FULL) == 1, "the fragments count once the payload is known")
	rt.Reach("done")
}
