package monitor

import (
	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

const c22Kinds = 7

// c22Obj: a genuine object of any kind.
func c22Obj(k int) definition.Gossip_object {
	sth := verifw.Init(definition.STH_INIT, 0, verifw.Logger, vCurrent, "h", "")
	switch k {
	case 0:
		return sth
	case 1:
		return verifw.Rev(2, vCurrent, verifw.Bits(5), verifw.Bits(5))
	case 2:
		return verifw.Full([]int{0, 1}, sth)
	case 3:
		return verifw.Full([]int{0, 2}, verifw.Rev(2, vCurrent, verifw.Bits(5), verifw.Bits(5)))
	case 4:
		return verifw.Con(rt.Choice("who", 2), vCurrent, "a", "b")
	case 5:
		return verifw.Full([]int{1, 2}, verifw.Init(definition.ACC_INIT, 3, verifw.Logger, vCurrent, "", ""))
	}
	return verifw.Full([]int{1, 2}, verifw.Init(definition.ACC_INIT, 3, verifw.CA, vCurrent, "", ""))
}

// c22Post: the object comes in as a request.
func c22Post(o definition.Gossip_object) func() {
	body := verifw.JSON(o)
	return func() {
		rt.Dispatch("POST", "http://"+verifw.Monitor+"/monitor/receive-gossip-from-gossiper", body)
	}
}

func c22Ask(period string) func() {
	body := verifw.JSON(period)
	return func() { rt.Dispatch("GET", "http://"+verifw.Monitor+"/monitor/get-update", body) }
}

// c22World: loggers and CAs that answer, or do not.
func c22World() {
	sth := verifw.JSON(verifw.Init(definition.STH_INIT, 0, verifw.Logger, vCurrent, "h", ""))
	rev := verifw.JSON(verifw.Rev(2, vCurrent, verifw.Bits(5), verifw.Bits(5)))
	up := rt.Choice("up", 2) == 1
	rt.OnHTTP(func(method, url, body string) (int, string, bool) {
		if method == "GET" && !up {
			return 0, "", true
		}
		if url == "http://"+verifw.Logger+"/ctng/v2/get-sth/" {
			return 200, sth, false
		}
		if url == "http://"+verifw.CA+"/ctng/v2/get-revocation/" {
			return 200, rev, false
		}
		return 200, "", method == "GET"
	})
}

// VerifC22Objects: two objects at the same time.
func VerifC22Objects() {
	c := vMon()
	rt.OnHTTP(func(method, url, body string) (int, string, bool) { return 200, "", false })
	if rt.Choice("before", 2) == 1 {
		vGossip(c, verifw.Con(1, vCurrent, "a", "b"))
	}
	a := rt.Choice("first", c22Kinds)
	b := a + rt.Choice("second", c22Kinds-a)
	rt.Race(rt.Tier(1, 2), 0, c22Post(c22Obj(a)), c22Post(c22Obj(b)))
	rt.Reach("done")
}

// VerifC22Queries: an object while the monitor asks loggers and CAs.
func VerifC22Queries() {
	c := vMonOf([]string{verifw.Logger}, []string{verifw.CA})
	c22World()
	rt.Race(rt.Tier(1, 2), 0, c22Post(c22Obj(rt.Choice("kind", c22Kinds))), func() { PeriodicTasks(c) })
	rt.Reach("done")
}

// VerifC22End: an object while the period ends, accusations are due, and a client asks.
func VerifC22End() {
	c := vMonOf([]string{verifw.Logger}, []string{verifw.CA})
	c22World()
	c.Maxdrift_miliseconds = 35500
	PeriodicTasks(c)
	rt.Advance(20500)
	if rt.Choice("rev", 2) == 1 {
		vGossip(c, c22Obj(3))
	}
	rt.Advance(19000)
	rt.Race(rt.Tier(0, 1), 1500, c22Post(c22Obj(rt.Choice("kind", c22Kinds))), c22Ask("10"))
	rt.Reach("done")
}
