package monitor

import (
	"encoding/json"
	"os"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/util"
	rt "github.com/jik18001/CTngV2/verifrt"
	"github.com/jik18001/CTngV2/verifw"
)

// VerifC14Monitor: threshold signed deltas of two CAs over a few periods.
func VerifC14Monitor() {
	c := vMonOf(nil, nil)
	PeriodicTasks(c)
	known := map[int]*bitset.BitSet{2: verifw.Bits(), 4: verifw.Bits()}
	seen := map[int]bool{}
	for i := 0; i < rt.Tier(2, 3); i++ {
		k := []int{2, 4}[rt.Choice("ca", 2)]
		delta := verifw.Bits(rt.Int("rid", 0, 999999))
		if rt.Choice("empty", 2) == 1 {
			delta = verifw.Bits()
		}
		known[k] = known[k].Union(delta)
		seen[k] = true
		o := verifw.Full([]int{1, 2}, verifw.Rev(k, []string{"10", "11", "12"}[i], known[k], delta))
		vGossip(c, o)
		rt.Advance(60000)
		for k, v := range known {
			w := c.Storage_CRV[verifw.Ents[k].Name]
			if w == nil {
				w = verifw.Bits()
			}
			rt.Assert(w.Equal(v), "the monitor's vector of a CA is the union of its deltas")
		}
	}
	// a consistent answer of the CA is recognised, an inconsistent one is not
	r := rt.Int("next", 0, 999999)
	delta := verifw.Bits(r)
	claimed := known[2].Union(delta)
	if rt.Choice("claim", 2) == 1 {
		claimed = verifw.Bits(rt.Int("other", 0, 999999), rt.Int("other", 0, 999999))
	}
	rt.Assert(c.VerifySRH(verifw.SRH(2, "13", claimed, delta), delta, verifw.CA, "13") == claimed.Equal(known[2].Union(delta)),
		"a signed revocation hash fits exactly if it is for the vector the delta leads to")
	rt.Assert(!c.VerifySRH(verifw.SRH(4, "13", claimed, delta), delta, verifw.CA, "13"), "a CA signs for itself")
	b, err := os.ReadFile(c.StorageFile_CRV)
	rt.Assert(err == nil, "vectors are saved")
	saved := map[string][]byte{}
	rt.Assert(json.Unmarshal(b, &saved) == nil, "saved vectors can be read")
	for k, v := range known {
		z, ok := saved[verifw.Ents[k].Name]
		rt.Assert(ok == seen[k], "the vectors of all CAs heard of are saved")
		if ok {
			raw, err := util.DecompressData(z)
			var w bitset.BitSet
			rt.Assert(err == nil && w.UnmarshalBinary(raw) == nil, "saved vectors can be read")
			_ = v
			rt.Assert(w.Equal(c.Storage_CRV[verifw.Ents[k].Name]), "saved vectors are the monitor's")
		}
	}
}
