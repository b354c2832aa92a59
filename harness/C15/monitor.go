//verif:with CA

package monitor

import (
	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/definition"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

// VerifC15Monitor: an honest CA is never accused by a monitor that queries it every period.
func VerifC15Monitor() {
	c := CA.VCA(0)
	m := vMonOf(nil, []string{verifw.CA})
	CA.PeriodicTask(c)
	all := verifw.Bits()
	rt.OnHTTP(func(method, url, body string) (int, string, bool) {
		if method == "GET" {
			_, text := CA.VAsk(c)
			return 200, text, false
		}
		return 200, "", false
	})
	rt.Advance(27000)
	for i := 0; i < rt.Tier(3, 4); i++ {
		CA.VC15Revoke(c, all)
		rt.Advance(33000)
		rt.ClearSent()
		QueryAuthorities(m)
		rt.Drain()
		rt.Advance(6000)
		s := vSent()
		rt.Assert(len(s) == 1 && s[0].Type == definition.REV_INIT, "monitors pass on the statements of an honest CA and do not accuse it")
		vGossip(m, verifw.Full([]int{0, 1}, s[0]))
		rt.Advance(21000)
		rt.Assert(m.Storage_CRV[verifw.CA].Equal(all), "monitors know exactly the revocations of the CA")
	}
	rt.Reach("followed")
}
