package gossiper

import (
	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
)

func c04Check(c *GossiperContext) {
	cfg := c.Gossiper_crypto_config
	for _, o := range vStored(c) {
		rt.Assert(o.Verify(cfg) == nil, "everything stored verifies")
	}
	peers, mon := vSent()
	for _, m := range peers {
		rt.Assert(m.Obj.Verify(cfg) == nil, "everything forwarded to peers verifies")
	}
	for _, m := range mon {
		rt.Assert(m.Obj.Verify(cfg) == nil, "everything sent to the monitor verifies")
	}
	if len(peers) > 0 {
		rt.Reach("forwarded to peers")
	}
	if len(mon) > 0 {
		rt.Reach("sent to the monitor")
	}
}

// VerifC04Any: whatever object arrives first, only verified objects are stored or sent.
func VerifC04Any() {
	c := vCtx(2, vNoOpt, false)
	vDeliver(c, vAny("o"))
	c04Check(c)
	rt.Advance(6000)
	c04Check(c)
}

// VerifC04After: the same when the gossiper already holds an object and its own fragment.
func VerifC04After() {
	c := vCtx(2, vNoOpt, false)
	typ := []string{definition.STH_INIT, definition.REV_INIT, definition.ACC_INIT}[rt.Choice("first", 3)]
	key, about := 0, vLogger
	if typ == definition.REV_INIT {
		key, about = 2, vCA
	}
	if typ == definition.ACC_INIT {
		key = 3
	}
	vDeliver(c, vInit(typ, key, about, rt.Str("period"), rt.Str("a1"), ""))
	rt.Advance(6000)
	c04Check(c)
	vDeliver(c, vAny("o"))
	c04Check(c)
}

// VerifC04Announce: the same with payload announcement, after a revocation is held.
func VerifC04Announce() {
	c := vCtx(2, 10, true)
	vDeliver(c, vInit(definition.REV_INIT, 2, vCA, "10", rt.Str("a1"), ""))
	c04Check(c)
	o := vAny("o")
	rt.Assume(rt.Or(o.Type == definition.REV_INIT, o.Type == definition.REV_FRAG))
	vDeliver(c, o)
	for _, s := range vStored(c) {
		rt.Assert(s.Verify(c.Gossiper_crypto_config) == nil, "everything stored verifies")
	}
}
