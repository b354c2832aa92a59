package monitor

import (
	"fmt"
	"reflect"
	"strconv"

	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

var c13Names = []string{verifw.Logger, verifw.Logger2, verifw.CA}

// c13Deliver: a verified object of any kind reaches the monitor.
func c13Deliver(c *MonitorContext, now string, h *c13Held) {
	period := now
	if rt.Choice("old", 2) == 1 {
		period = "08"
	}
	var o definition.Gossip_object
	switch rt.Choice("kind", 6) {
	case 0:
		o = verifw.Full([]int{0, 1}, verifw.STH(0, period, rt.Str("h")))
	case 1:
		o = verifw.Full([]int{1, 2}, verifw.STH(1, period, rt.Str("h")))
	case 2:
		o = verifw.Full([]int{0, 2}, verifw.Rev(2, period, verifw.Bits(5), verifw.Bits(5)))
	case 3:
		o = verifw.Con(rt.Choice("who", 3), period, "a", []string{"b", "c"}[rt.Choice("what", 2)])
	case 4:
		k := rt.Choice("who", 3)
		o = verifw.Full([]int{1, 2}, verifw.Init(definition.ACC_INIT, 3, c13Names[k], period, "", ""))
	case 5:
		o = verifw.Init(definition.STH_INIT, 0, verifw.Logger, period, rt.Str("h"), "")
	}
	vGossip(c, o)
	h.put(o)
}

// c13Held: what the monitor should hold, the last object of each identity.
type c13Held struct{ all, fresh []definition.Gossip_object }

func c13Put(l []definition.Gossip_object, o definition.Gossip_object) []definition.Gossip_object {
	for i := range l {
		if l[i].GetID() == o.GetID() {
			l[i] = o
			return l
		}
	}
	return append(l, o)
}

func (h *c13Held) put(o definition.Gossip_object) {
	for _, x := range h.all {
		if reflect.DeepEqual(x, o) {
			return
		}
	}
	h.all = c13Put(h.all, o)
	if o.Type == definition.CON_INIT {
		h.fresh = c13Put(h.fresh, o)
	}
}

// c13Same: the list has exactly the objects wanted.
func c13Same(l, want []definition.Gossip_object) bool {
	if len(l) != len(want) {
		return false
	}
	for _, o := range want {
		found := false
		for _, x := range l {
			found = found || reflect.DeepEqual(x, o)
		}
		if !found {
			return false
		}
	}
	return true
}

func c13Check(c *MonitorContext, period string, h *c13Held) {
	u, ok := vUpdate(c, c13Number(period))
	rt.Assert(ok, "the update of the period is served")
	rt.Assert(u.Period == period && u.MonitorID == verifw.Monitor, "updates name their period and monitor")
	convicted := map[string]bool{}
	want := map[string][]definition.Gossip_object{}
	for _, o := range h.all {
		if o.Type == definition.CON_INIT {
			convicted[o.Payload[0]] = true
		}
	}
	for _, o := range h.all {
		if o.Period != period || o.Type != definition.ACC_FULL && convicted[o.Payload[0]] {
			continue
		}
		want[o.Type] = append(want[o.Type], o)
	}
	rt.Assert(c13Same(u.STHs, want[definition.STH_FULL]), "updates have the full STHs of the period, without those of convicted loggers")
	rt.Assert(c13Same(u.REVs, want[definition.REV_FULL]), "updates have the full revocations of the period, without those of convicted CAs")
	rt.Assert(c13Same(u.POM_ACCs, want[definition.ACC_FULL]), "updates have the accusation PoMs of the period")
	rt.Assert(c13Same(u.POM_CONs, h.fresh), "updates have each conflict PoM received since the update before, and no other")
	if len(u.STHs)+len(u.REVs) > 0 {
		rt.Reach("statements")
	}
	if len(u.POM_CONs) > 0 {
		rt.Reach("conflict")
	}
	if len(u.POM_ACCs) > 0 {
		rt.Reach("accusation")
	}
	h.fresh = nil
}

// VerifC13Updates: any few objects, around the ends of two periods.
func VerifC13Updates() {
	c13Updates("10", "11", rt.Tier(2, 3))
}

// VerifC13Hour: the same at the end of an hour.
func VerifC13Hour() {
	c13Updates("59", "00", rt.Tier(1, 2))
}

func c13Updates(first, second string, n int) {
	c := vMonOf(nil, nil)
	minute, _ := strconv.Atoi(first)
	rt.ClockMinute(minute)
	PeriodicTasks(c)
	h := &c13Held{}
	for i := 0; i < n; i++ {
		c13Deliver(c, first, h)
	}
	_, ok := vUpdate(c, c13Number(first))
	rt.Assert(!ok, "no update before the period ends")
	rt.Advance(41000)
	c13Check(c, first, h)
	c13Deliver(c, first, h)
	rt.Advance(60000)
	c13Check(c, second, h)
}

func c13Number(period string) string {
	n, _ := strconv.Atoi(period)
	return strconv.Itoa(n)
}

// VerifC13Number: updates are numbered from the period the monitor started in.
func VerifC13Number() {
	c := vMonOf(nil, nil)
	off := rt.Choice("offset", 3)
	c.Period_Offset = []string{"0", "09", "10"}[off]
	PeriodicTasks(c)
	o := verifw.Full([]int{0, 1}, verifw.STH(0, "10", rt.Str("h")))
	vGossip(c, o)
	rt.Advance(101000)
	u, ok := vUpdate(c, []string{"10", "1", "0"}[off])
	rt.Assert(ok && len(u.STHs) == 1 && reflect.DeepEqual(u.STHs[0], o) && u.Period == "10", "an update is served under the number of its period")
	u, ok = vUpdate(c, []string{"11", "2", "1"}[off])
	rt.Assert(ok && len(u.STHs) == 0 && u.Period == "11", "the next update is served under the next number")
}

// VerifC13Minute: updates are served under the number of their minute, in any minute.
func VerifC13Minute() {
	c := vMonOf(nil, nil)
	minute := rt.Int("minute", 0, 59)
	if rt.Choice("known", 2) == 1 {
		minute = []int{9, 59}[rt.Choice("which", 2)]
	}
	rt.ClockMinute(minute)
	PeriodicTasks(c)
	for i := 0; i < rt.Tier(2, 3); i++ {
		m := (minute + i) % 60
		o := verifw.Full([]int{0, 1}, verifw.STH(0, fmt.Sprintf("%02d", m), "h"+strconv.Itoa(i)))
		vGossip(c, o)
		rt.Advance(41000)
		u, ok := vUpdate(c, strconv.Itoa(m))
		rt.Assert(ok && len(u.STHs) == 1 && reflect.DeepEqual(u.STHs[0], o) && u.Period == fmt.Sprintf("%02d", m), "the update of any minute is served under its number")
		rt.Advance(19000)
	}
	rt.Reach("served")
}

// VerifC13Requests: any request body, with and without an update on file.
func VerifC13Requests() {
	c := vMonOf(nil, nil)
	saved := rt.Choice("saved", 2) == 1
	if saved {
		PeriodicTasks(c)
		rt.Advance(41000)
	}
	body := rt.Str("body")
	served := ""
	if rt.Choice("form", 2) == 0 {
		served = rt.Str("period")
		body = verifw.JSON(served)
	}
	w := &rt.RW{}
	panicked := rt.Try(func() { w = vUpdateBody(c, body) })
	rt.Assert(!panicked, "no request for an update brings the handler down")
	if w.Code == 0 || w.Code == 200 {
		rt.Assert(saved, "only updates that exist are served")
		rt.Reach("served")
	} else {
		rt.Reach("refused")
		rt.Assert(!saved || served != "10", "updates that exist are served")
	}
}
