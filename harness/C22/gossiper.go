package gossiper

import (
	"encoding/json"

	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
)

const c22Kinds = 9

// c22Obj: a genuine object of any kind.
func c22Obj(label string, k int) definition.Gossip_object {
	sth := vInit(definition.STH_INIT, 0, vLogger, "10", "h"+label, "")
	rev := vInit(definition.REV_INIT, 2, vCA, "10", "v", "d")
	acc := vInit(definition.ACC_INIT, 3, vLogger, "10", "", "")
	switch k {
	case 0:
		return sth
	case 1:
		return rev
	case 2:
		return acc
	case 3:
		return vFrag(1, sth)
	case 4:
		return vFrag(2, sth)
	case 5:
		return vFrag(1, acc)
	case 6:
		return vFull([]int{1, 2}, sth)
	case 7:
		return vFull([]int{1, 2}, rev)
	}
	return vFull([]int{1, 2}, acc)
}

// c22Post: the object comes in as a request.
func c22Post(o definition.Gossip_object) func() {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	body := string(b)
	path := vEndpoint(o.Type)
	return func() { rt.Dispatch("POST", "http://"+vGossipers[0]+path, body) }
}

// VerifC22Gossiper: two objects at the same time.
func VerifC22Gossiper() {
	c := vCtx(2, vNoOpt, false)
	if rt.Choice("before", 2) == 1 {
		vDeliver(c, vFrag(3, vInit(definition.STH_INIT, 0, vLogger, "10", "h", "")))
	}
	a := rt.Choice("first", c22Kinds)
	b := a + rt.Choice("second", c22Kinds-a)
	rt.Race(rt.Tier(1, 2), 0, c22Post(c22Obj("", a)), c22Post(c22Obj(rt.Str("x"), b)))
	rt.Reach("done")
}

// VerifC22Wipe: an object while the gossiper starts afresh.
func VerifC22Wipe() {
	c := vCtx(2, vNoOpt, false)
	PeriodicTasks(c)
	rt.Advance(36000)
	if rt.Choice("before", 2) == 1 {
		vDeliver(c, vInit(definition.STH_INIT, 0, vLogger, "10", "h", ""))
	}
	rt.Race(rt.Tier(1, 2), 5000, c22Post(c22Obj("", rt.Choice("kind", c22Kinds))))
	rt.Reach("done")
}

// VerifC22Payload: announcements, requests and payloads at the same time, at any moment of the period.
func VerifC22Payload() {
	c := vCtx(2, 0, true)
	PeriodicTasks(c)
	rev := vInit(definition.REV_INIT, 2, vCA, "10", "v", "d")
	if rt.Choice("before", 2) == 1 {
		vDeliver(c, rev)
	}
	n, err := json.Marshal(Gossip_Notification{Sender: vGossipers[1], Period: "10", Type: definition.REV_INIT, Entity_URL: vCA, Objhash: ComputeobjHash(rev)})
	if err != nil {
		panic(err)
	}
	event := func(k int) func() {
		switch k {
		case 0:
			return c22Post(rev)
		case 1:
			return c22Post(vFrag(1, rev))
		}
		path := []string{"/gossip/new_payload_notification", "/gossip/new_payload_request"}[k-2]
		return func() { rt.Dispatch("POST", "http://"+vGossipers[0]+path, string(n)) }
	}
	a := rt.Choice("first", 4)
	b := a + rt.Choice("second", 4-a)
	ms := 0
	if rt.Choice("wipe", 2) == 1 {
		rt.Advance(39000)
		ms = 1500
	}
	rt.Race(rt.Tier(1, 2), ms, event(a), event(b))
	rt.Reach("done")
}
