package crypto

import (
	rt "github.com/jik18001/CTngV2/verifrt"
)

// Configurations that were written to files work as before.
func VerifC21Config() {
	ids := []CTngID{"a", "b", "c"}
	cs, err := GenerateEntityCryptoConfigs(ids, 2)
	rt.Assert(err == nil && len(cs) == 3, "configurations are made")
	rt.Assert(SaveCryptoFiles("conf", cs) == nil, "configurations are saved")
	who, by := rt.Choice("who", 3), rt.Choice("by", 3)
	name := func(i int) string { return "conf/" + string(ids[i]) + ".test.json" }
	s, err := ReadCryptoConfig(name(who))
	rt.Assert(err == nil && s.SelfID == ids[who] && s.Threshold == 2 && s.N == 3, "configurations are read back")
	var v *CryptoConfig
	kind := rt.Choice("kind", 3)
	switch kind {
	case 0:
		v, err = ReadCryptoConfig(name(by))
	case 1:
		v, err = ReadVerifyOnlyCryptoConfig(name(by))
	case 2:
		v, err = ReadBasicCryptoConfig(name(by))
	}
	rt.Assert(err == nil && v.SelfID == ids[by], "configurations are read back for verifying")
	msg, other := rt.Str("msg"), rt.Str("other")
	sig, err := s.Sign([]byte(msg))
	rt.Assert(err == nil && v.Verify([]byte(msg), sig) == nil, "signatures verify")
	rt.Assert((v.Verify([]byte(other), sig) == nil) == (msg == other), "signatures verify for what was signed only")
	sig.ID = ids[by]
	rt.Assert((v.Verify([]byte(msg), sig) == nil) == (who == by), "signatures verify for the signer only")
	if kind < 2 {
		f, err := s.ThresholdSign(msg)
		rt.Assert(err == nil && v.FragmentVerify(msg, f) == nil, "fragments verify")
		s2, _ := ReadCryptoConfig(name((who + 1) % 3))
		f2, _ := s2.ThresholdSign(msg)
		agg, err := v.ThresholdAggregate([]SigFragment{f, f2})
		rt.Assert(err == nil && v.ThresholdVerify(msg, agg) == nil, "threshold signatures verify")
		str, err := agg.String()
		rt.Assert(err == nil, "threshold signatures are written")
		back, err := ThresholdSigFromString(str)
		rt.Assert(err == nil && v.ThresholdVerify(msg, back) == nil, "threshold signatures are read back")
		fb, err := SigFragmentFromString(f.String())
		rt.Assert(err == nil && v.FragmentVerify(msg, fb) == nil, "fragments are read back")
	}
	rt.Reach("end")
}
