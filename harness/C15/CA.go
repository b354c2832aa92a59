package CA

import (
	"fmt"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

// VC15Revoke revokes any certificate, or none.
func VC15Revoke(c *CAContext, all *bitset.BitSet) {
	if rt.Choice("revoke", 2) == 1 {
		r := rt.Int("rid", 0, 999999)
		c.CRV.Revoke(r)
		all.Set(uint(r))
	}
}

// VerifC15Minute: every minute of the hour has the statement that was made for it.
func VerifC15Minute() {
	c := VCA(0)
	minute := rt.Int("minute", 0, 59)
	rt.ClockMinute(minute)
	PeriodicTask(c)
	before := verifw.Bits()
	for i := 0; i < rt.Tier(2, 3); i++ {
		c.CRV.Revoke(7 + i)
		at := before.Clone()
		at.Set(uint(7 + i))
		rt.Advance(60000)
		period := fmt.Sprintf("%02d", (minute+i+1)%60)
		o, _ := VAsk(c)
		rt.Assert(o.Verify(c.CA_crypto_config) == nil && o.Signer == verifw.CA && o.Period == period, "statements are about the CA and the current period, in any minute")
		delta := at.Difference(before)
		rt.Assert(o.Payload[2] == verifw.RevPayload(period, delta, verifw.SRH(2, period, at, delta)), "statements sign for the period, delta and vector, in any minute")
		before = at
	}
	rt.Reach("asked")
}

// VerifC15Statements: the statements of an honest CA over a few periods with any revocations.
func VerifC15Statements() {
	c := VCA(0)
	rt.ClockMinute(10)
	PeriodicTask(c)
	all, before := verifw.Bits(), verifw.Bits()
	for i := 0; i < rt.Tier(3, 4); i++ {
		VC15Revoke(c, all)
		VC15Revoke(c, all)
		rt.Advance(41000) // the statement of the next period is made
		at := all.Clone()
		VC15Revoke(c, all) // not before the one after that
		rt.Advance(19000)
		period := []string{"11", "12", "13"}[i]
		o, text := VAsk(c)
		_, text2 := VAsk(c)
		rt.Assert(text == text2, "every monitor gets the same statement")
		rt.Assert(o.Verify(c.CA_crypto_config) == nil, "statements verify")
		rt.Assert(o.Type == definition.REV_INIT && o.Signer == verifw.CA && o.Payload[0] == verifw.CA && o.Period == period, "statements are about the CA and the current period")
		delta := at.Difference(before)
		want := verifw.RevPayload(period, delta, verifw.SRH(2, period, at, delta))
		rt.Assert(o.Payload[2] == want, "statements have the revocations since the one before and sign for the vector they lead to")
		before = at
		rt.Assert(c.CRV.CRV_current.Equal(all), "revocations are never withdrawn")
	}
}

// VerifC15Long: the statements of many periods, some without revocations.
func VerifC15Long() {
	c := VCA(0)
	minute := []int{10, 56}[rt.Choice("minute", 2)]
	rt.ClockMinute(minute)
	PeriodicTask(c)
	asked := rt.Choice("asked", 2) == 1
	before, at := verifw.Bits(), verifw.Bits()
	for i := 0; i < rt.Tier(6, 12); i++ {
		if i != 2 {
			r := rt.Int("rid", 0, 999999)
			c.CRV.Revoke(r)
			at.Set(uint(r))
		}
		rt.Advance(60000)
		if i%2 == 1 && !asked { // nobody asks
			before = at.Clone()
			continue
		}
		o, _ := VAsk(c)
		period := fmt.Sprintf("%02d", (minute+i+1)%60)
		delta := at.Difference(before)
		rt.Assert(o.Verify(c.CA_crypto_config) == nil && o.Payload[2] == verifw.RevPayload(period, delta, verifw.SRH(2, period, at, delta)), "statements sign for what was revoked since the one before, over many periods")
		before = at.Clone()
	}
	rt.Reach("asked")
}
