package monitor

import (
	"fmt"
	"reflect"

	"github.com/bits-and-blooms/bitset"

	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

// c12Check: the accusations sent are exactly those wanted, and genuine.
func c12Check(c *MonitorContext, want bool, accused string) {
	n := 0
	for _, o := range vSent() {
		if o.Type != definition.ACC_INIT {
			continue
		}
		n++
		rt.Assert(o.Verify(c.Monitor_crypto_config) == nil, "accusations verify")
		rt.Assert(o.Signer == verifw.Monitor, "the monitor accuses in its own name")
		rt.Assert(o.Payload[0] == accused, "the entity that failed is the one accused")
		rt.Assert(o.Period == vCurrent, "accusations are about the current period")
	}
	rt.Assert(n <= 1, "one accusation at most")
	if want {
		rt.Assert(n == 1, "an entity that fails to deliver is accused")
		rt.Reach("accused")
	} else {
		rt.Assert(n == 0, "nobody is accused without cause")
		rt.Reach("not accused")
	}
}

// c12Around delivers something from the gossiper that may excuse the entity.
func c12Around(c *MonitorContext, key int, typ string) (excused bool) {
	name := verifw.Ents[key].Name
	switch rt.Choice("meanwhile", 6) {
	case 1: // the statement came by another way
		vGossip(c, verifw.Init(typ, key, name, vCurrent, rt.Str("g"), ""))
		return true
	case 2: // a statement of another period
		p := rt.Str("gp")
		rt.Assume(p != vCurrent)
		vGossip(c, verifw.Init(typ, key, name, p, rt.Str("g"), ""))
	case 3: // already convicted
		vGossip(c, verifw.Con(key, []string{vCurrent, "09", "0"}[rt.Choice("cp", 3)], "a", "b"))
		return true
	case 4:
		vGossip(c, verifw.Full([]int{0, 1}, verifw.Init(definition.ACC_INIT, 3, name, vCurrent, "", "")))
		return true
	case 5: // the statement of somebody else
		vGossip(c, verifw.Init(definition.STH_INIT, 1, verifw.Logger2, vCurrent, rt.Str("g"), ""))
	}
	return false
}

// VerifC12Logger: a logger that answers its query with anything, nothing or its tree head.
func VerifC12Logger() {
	c := vMonOf([]string{verifw.Logger}, nil)
	answer, fail, ok := "", false, false
	var o definition.Gossip_object
	switch rt.Choice("answer", 8) {
	case 7: // of another period
		p := rt.Str("period")
		o = verifw.Init(definition.STH_INIT, 0, verifw.Logger, p, rt.Str("p"), "")
		ok = p == vCurrent
	case 0:
		fail = true
	case 1:
		answer = rt.Str("junk")
	case 2:
		o = verifw.Init(definition.STH_INIT, 0, verifw.Logger, vCurrent, rt.Str("p"), "")
		ok = true
	case 3:
		o = verifw.Init(definition.STH_INIT, 1, verifw.Logger2, vCurrent, rt.Str("p"), "")
	case 4:
		o = verifw.Con(1, vCurrent, "a", "b")
	case 5:
		o = verifw.Full([]int{0, 1}, verifw.Init(definition.STH_INIT, 0, verifw.Logger, vCurrent, rt.Str("p"), ""))
	case 6:
		o = verifw.AnyOf("o", 0)
		ok = o.Type == definition.STH_INIT && o.Signer == verifw.Logger && o.Period == vCurrent && o.Verify(c.Monitor_crypto_config) == nil
	}
	if o.Type != "" {
		answer = verifw.JSON(o)
	}
	asked := 0
	rt.OnHTTP(func(method, url, body string) (int, string, bool) {
		if method == "GET" {
			rt.Assert(url == "http://"+verifw.Logger+"/ctng/v2/get-sth/", "the logger is asked for its tree head")
			asked++
			return 200, answer, fail
		}
		return 200, "", false
	})
	early := rt.Choice("early", 2) == 0
	excused := false
	if early {
		excused = c12Around(c, 0, definition.STH_INIT)
	}
	convicted := Check_entity_pom(c, verifw.Logger)
	QueryLoggers(c)
	rt.Drain()
	rt.Assert((asked == 0) == convicted, "every logger that is not convicted is asked once")
	for _, s := range vSent() {
		rt.Assert(s.Type != definition.ACC_INIT, "nobody is accused before the waiting time is over")
		rt.Assert(s.Verify(c.Monitor_crypto_config) == nil, "only verified statements are passed on")
		rt.Assert(reflect.DeepEqual(s, o), "statements are passed on unchanged")
	}
	rt.Assert((len(vSent()) == 1) == (ok && !convicted), "the tree head a logger delivers is passed on")
	if !early {
		excused = c12Around(c, 0, definition.STH_INIT)
	}
	rt.Advance(6000)
	c12Check(c, !ok && !excused, verifw.Logger)
}

// VerifC12CA: a CA that answers its query with anything, nothing or its revocations.
func VerifC12CA() {
	c := vMonOf(nil, []string{verifw.CA})
	known := verifw.Bits(7)
	fresh := rt.Choice("known", 2) == 0
	if !fresh {
		c.Storage_CRV[verifw.CA] = verifw.Bits(7)
	}
	answer, fail, ok := "", false, false
	var o definition.Gossip_object
	rid := rt.Int("rid", 0, 999999)
	delta := verifw.Bits(rid)
	crv := delta
	if !fresh {
		crv = verifw.Bits(7, rid)
	}
	switch rt.Choice("answer", 10) {
	case 9: // of another period
		p := rt.Str("period")
		o = verifw.Rev(2, p, crv, delta)
		ok = p == vCurrent
	case 0:
		fail = true
	case 1:
		answer = rt.Str("junk")
	case 2:
		o = verifw.Rev(2, vCurrent, crv, delta)
		ok = true
	case 3: // of another CA
		o = verifw.Rev(4, vCurrent, crv, delta)
	case 4: // a delta that does not lead to the vector signed
		bad := rt.Int("bad", 0, 999999)
		o = verifw.Rev(2, vCurrent, verifw.Bits(7, bad), delta)
		ok = crv.Equal(verifw.Bits(7, bad))
	case 5: // a head of another period
		p := rt.Str("p")
		o = verifw.Init(definition.REV_INIT, 2, verifw.CA, vCurrent, "CRV", verifw.RevPayload(vCurrent, delta, verifw.SRH(2, p, crv, delta)))
		ok = p == vCurrent
	case 6: // a head by another key
		k := rt.Choice("k", 5)
		o = verifw.Init(definition.REV_INIT, 2, verifw.CA, vCurrent, "CRV", verifw.RevPayload(vCurrent, delta, verifw.SRH(k, vCurrent, crv, delta)))
		ok = k == 2
	case 7: // a full object
		o = verifw.Full([]int{0, 1}, verifw.Rev(2, vCurrent, crv, delta))
	case 8: // an empty revocation
		o = verifw.Rev(2, vCurrent, map[bool]*bitset.BitSet{true: verifw.Bits(), false: known}[fresh], verifw.Bits())
		ok = true
	}
	if o.Type != "" {
		answer = verifw.JSON(o)
	}
	asked := 0
	rt.OnHTTP(func(method, url, body string) (int, string, bool) {
		if method == "GET" {
			rt.Assert(url == "http://"+verifw.CA+"/ctng/v2/get-revocation/", "the CA is asked for its revocations")
			asked++
			return 200, answer, fail
		}
		return 200, "", false
	})
	early := rt.Choice("early", 2) == 0
	excused := false
	if early {
		excused = c12Around(c, 2, definition.REV_INIT)
	}
	convicted := Check_entity_pom(c, verifw.CA)
	QueryAuthorities(c)
	rt.Drain()
	rt.Assert((asked == 0) == convicted, "every CA that is not convicted is asked once")
	for _, s := range vSent() {
		rt.Assert(s.Type != definition.ACC_INIT, "nobody is accused before the waiting time is over")
		rt.Assert(reflect.DeepEqual(s, o), "statements are passed on unchanged")
	}
	rt.Assert((len(vSent()) == 1) == (ok && !convicted), "consistent revocations a CA delivers are passed on")
	if !early {
		excused = c12Around(c, 2, definition.REV_INIT)
	}
	rt.Advance(6000)
	c12Check(c, !ok && !excused, verifw.CA)
}

// VerifC12Hour: a statement that came by gossip excuses nobody an hour later, when its period number comes again.
func VerifC12Hour() {
	ca := rt.Choice("who", 2) == 1
	loggers, cas := []string{verifw.Logger}, []string(nil)
	o := verifw.STH(0, vCurrent, "h")
	if ca {
		loggers, cas = nil, []string{verifw.CA}
		o = verifw.Rev(2, vCurrent, verifw.Bits(7), verifw.Bits(7))
	}
	c := vMonOf(loggers, cas)
	rt.OnHTTP(func(method, url, body string) (int, string, bool) { return 200, "", method == "GET" })
	first := rt.Choice("gossip", 2) == 1
	PeriodicTasks(c)
	if first {
		vGossip(c, o)
	}
	rt.Advance(6000)
	n := c12Accusations()
	rt.Assert(n == 0 || !first, "who delivers by gossip is not accused")
	rt.Assert(n == 1 || first, "who does not deliver is accused")
	rt.Advance(3594000)
	rt.ClearSent()
	rt.Advance(6000)
	rt.Assert(c12Accusations() == 1, "who does not deliver an hour later is accused")
	rt.Reach("hour")
}

func c12Accusations() (n int) {
	for _, o := range vSent() {
		if o.Type == definition.ACC_INIT {
			n++
		}
	}
	return n
}

// VerifC12Minute: in any minute of the hour, what an entity delivers for it is passed on, and who fails is accused for it.
func VerifC12Minute() {
	ca := rt.Choice("who", 2) == 1
	loggers, cas, name := []string{verifw.Logger}, []string(nil), verifw.Logger
	if ca {
		loggers, cas, name = nil, []string{verifw.CA}, verifw.CA
	}
	c := vMonOf(loggers, cas)
	if rt.Choice("slow", 2) == 1 { // queries take their time
		c.Min_latency, c.Max_latency = 20, 290
	}
	minute := rt.Int("minute", 0, 59)
	if rt.Choice("known", 2) == 1 {
		minute = []int{0, 9, 59}[rt.Choice("which", 3)]
	}
	rt.ClockMinute(minute)
	fail := [2]bool{}
	now, asked := "", 0
	rt.OnHTTP(func(method, url, body string) (int, string, bool) {
		if method != "GET" {
			return 200, "", false
		}
		o := verifw.STH(0, now, "h")
		if ca {
			o = verifw.Rev(2, now, verifw.Bits(7), verifw.Bits(7))
		}
		asked++
		return 200, verifw.JSON(o), fail[asked-1]
	})
	for i := range fail {
		fail[i] = rt.Choice("fails", 2) == 1
		now = fmt.Sprintf("%02d", (minute+i)%60)
		rt.ClearSent()
		if i == 0 {
			PeriodicTasks(c)
			rt.Advance(6000)
		} else {
			rt.Advance(60000)
		}
		rt.Assert(asked == i+1, "every entity is asked once in each period")
		sent := vSent()
		rt.Assert(len(sent) == 1 && sent[0].Period == now && sent[0].Verify(c.Monitor_crypto_config) == nil, "one verifying object about the period is sent")
		if fail[i] {
			rt.Assert(sent[0].Type == definition.ACC_INIT && sent[0].Signer == verifw.Monitor && sent[0].Payload[0] == name, "who fails to deliver is accused in any minute")
			rt.Reach("accused")
		} else {
			rt.Assert(sent[0].Type != definition.ACC_INIT && sent[0].Signer == name, "what is delivered in any minute is passed on")
			rt.Reach("passed on")
		}
	}
}
