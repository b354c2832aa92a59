// Package verifw is the little world the monitor, client and CA harnesses live in:
// named participants with keys, genuine objects and objects an attacker can make.
package verifw

import (
	"encoding/hex"
	"encoding/json"

	"github.com/bits-and-blooms/bitset"
	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/util"
	"github.com/jik18001/CTngV2/verifh"
	rt "github.com/jik18001/CTngV2/verifrt"
)

const (
	Logger  = "localhost:9000"
	Logger2 = "localhost:9001"
	CA      = "localhost:9100"
	Monitor = "localhost:8180"
	CA2     = "localhost:9101"
)

var Gossipers = []string{"localhost:8080", "localhost:8081", "localhost:8082", "localhost:8083"}

// Ents lists the participants with RSA keys; key i is that of entity i.
var Ents = []verifh.Ent{{Name: Logger, Key: 0}, {Name: Logger2, Key: 1}, {Name: CA, Key: 2}, {Name: Monitor, Key: 3}, {Name: CA2, Key: 4}}

func KeyOf(name string) int {
	for _, e := range Ents {
		if e.Name == name {
			return e.Key
		}
	}
	return -1
}

func Sign(key int, msg string) string {
	s, err := crypto.RSASign([]byte(msg), rt.RSAKey(key), crypto.CTngID(Ents[key].Name))
	if err != nil {
		panic(err)
	}
	return s.String()
}

// Init is a genuine STH, revocation or accusation by entity key.
func Init(typ string, key int, about, period, p1, p2 string) definition.Gossip_object {
	return definition.Gossip_object{Application: definition.CTNG_APPLICATION, Period: period, Type: typ, Signer: Ents[key].Name,
		Signature: [2]string{Sign(key, about+p1+p2), ""}, Timestamp: "2026-01-01T00:00:00Z", Crypto_Scheme: "rsa",
		Payload: [3]string{about, p1, p2}}
}

// Con is a genuine conflict proof against entity key.
func Con(key int, period, m1, m2 string) definition.Gossip_object {
	return definition.Gossip_object{Application: definition.CTNG_APPLICATION, Period: period, Type: definition.CON_INIT, Signer: "",
		Signature: [2]string{Sign(key, m1), Sign(key, m2)}, Timestamp: "t", Crypto_Scheme: "rsa",
		Payload: [3]string{Ents[key].Name, m1, m2}}
}

// Bits is a revocation vector with the given bits set.
func Bits(is ...int) *bitset.BitSet {
	b := bitset.New(1000000)
	for _, i := range is {
		b.Set(uint(i))
	}
	return b
}

// SRH is what key signs to say that delta leads to the revocation vector crv in the period.
func SRH(key int, period string, crv, delta *bitset.BitSet) string {
	m1, _ := crv.MarshalBinary()
	m2, _ := delta.MarshalBinary()
	h1, _ := crypto.GenerateSHA256(m1)
	h2, _ := crypto.GenerateSHA256(m2)
	h, _ := crypto.GenerateSHA256([]byte(period + string(h1) + string(h2)))
	return Sign(key, string(h))
}

// RevPayload is the encoding of a revocation.
func RevPayload(period string, delta *bitset.BitSet, srh string) string {
	m, _ := delta.MarshalBinary()
	z, err := util.CompressData(m)
	if err != nil {
		panic(err)
	}
	return JSON(definition.Revocation{Period: period, Delta_CRV: z, SRH: srh})
}

// Rev is a genuine revocation by entity key: delta leads to the vector crv.
func Rev(key int, period string, crv, delta *bitset.BitSet) definition.Gossip_object {
	return Init(definition.REV_INIT, key, Ents[key].Name, period, "CRV", RevPayload(period, delta, SRH(key, period, crv, delta)))
}

// Full is what the gossipers is make of o.
func Full(is []int, o definition.Gossip_object) definition.Gossip_object {
	var ss []bls.Sign
	var ids []crypto.CTngID
	for _, i := range is {
		ss = append(ss, *rt.BLSKey(i).Sign(o.Payload[0] + o.Payload[1] + o.Payload[2]))
		ids = append(ids, crypto.CTngID(Gossipers[i]))
	}
	agg := new(bls.Sign)
	agg.Aggregate(ss)
	ts := crypto.ThresholdSig{IDs: ids, Sign: agg}
	t, err := ts.String()
	if err != nil {
		panic(err)
	}
	f := definition.Gossip_object{Type: o.GetTargetType()}
	return definition.Gossip_object{Application: definition.CTNG_APPLICATION, Period: o.Period, Type: f.GetTargetType(), Signature: [2]string{t, ""},
		Timestamp: "t", Crypto_Scheme: "bls", Payload: o.Payload}
}

// Any is an object with free fields of any type and any signatures an attacker can make.
func Any(l string) definition.Gossip_object { return AnyOf(l, rt.Choice(l+".family", 4)) }

// AnyOf: family 0 initial objects, 1 conflict proofs, 2 fragments, 3 full objects.
func AnyOf(l string, family int) definition.Gossip_object {
	g := definition.Gossip_object{Application: "CTng", Period: rt.Str(l + ".period"), Signer: rt.Str(l + ".signer"), Timestamp: "t", Crypto_Scheme: "x",
		Payload: [3]string{rt.Str(l + ".p0"), rt.Str(l + ".p1"), rt.Str(l + ".p2")}}
	switch family {
	case 0:
		g.Type = []string{definition.STH_INIT, definition.REV_INIT, definition.ACC_INIT}[rt.Choice(l+".type", 3)]
		g.Signature[0] = verifh.AnySig(l+".s0", 6).Text
		g.Signature[1] = rt.Str(l + ".sig1")
	case 1:
		g.Type = definition.CON_INIT
		g.Signature[0] = verifh.AnySig(l+".s0", 6).Text
		g.Signature[1] = verifh.AnySig(l+".s1", 6).Text
	case 2:
		g.Type = []string{definition.STH_FRAG, definition.REV_FRAG, definition.ACC_FRAG}[rt.Choice(l+".type", 3)]
		if rt.Choice(l+".form", 2) == 0 {
			g.Signature[0] = rt.Str(l + ".junk")
		} else {
			f := crypto.SigFragment{ID: crypto.CTngID(rt.Str(l + ".id")), Sign: rt.BLSKey(rt.Choice(l+".key", 5)).Sign(rt.Str(l + ".msg"))}
			g.Signature[0] = f.String()
		}
		g.Signature[1] = rt.Str(l + ".sig1")
	case 3:
		g.Type = []string{definition.STH_FULL, definition.REV_FULL, definition.ACC_FULL}[rt.Choice(l+".type", 3)]
		if rt.Choice(l+".form", 2) == 0 {
			g.Signature[0] = rt.Str(l + ".junk")
		} else {
			agg := new(bls.Sign)
			k := rt.Choice(l+".key", 4)
			m := rt.Str(l + ".msg")
			agg.Aggregate([]bls.Sign{*rt.BLSKey(k).Sign(m), *rt.BLSKey(k + 1).Sign(m)})
			ts := crypto.ThresholdSig{IDs: []crypto.CTngID{crypto.CTngID(rt.Str(l + ".id")), crypto.CTngID(rt.Str(l + ".id"))}, Sign: agg}
			var err error
			g.Signature[0], err = ts.String()
			rt.Assume(err == nil)
		}
	}
	return g
}

// AnyShaped is like AnyOf, but what it carries is in order: a tree head, a revocation on top of old, ... of a logger or
// CA of the little world, whoever signed it or not.
func AnyShaped(l string, family int, old *bitset.BitSet) definition.Gossip_object {
	g := AnyOf(l, family)
	if rt.Choice(l+".now", 2) == 1 {
		g.Period = "10"
	}
	switch g.Type {
	case definition.STH_INIT, definition.STH_FRAG, definition.STH_FULL:
		g.Payload = STH(1, "10", rt.Str(l+".root")).Payload
	case definition.REV_INIT, definition.REV_FRAG, definition.REV_FULL:
		d := Bits(rt.Int(l+".rid", 0, 999999))
		g.Payload = Rev(4, g.Period, old.Union(d), d).Payload
	case definition.ACC_INIT, definition.ACC_FRAG, definition.ACC_FULL:
		g.Payload[1], g.Payload[2] = "", ""
	}
	return g
}

// STH is a genuine tree head of logger key.
func STH(key int, period, root string) definition.Gossip_object {
	p := hex.EncodeToString([]byte(JSON(definition.STH{Timestamp: "t", RootHash: hex.EncodeToString([]byte(root)), TreeSize: 4})))
	return Init(definition.STH_INIT, key, Ents[key].Name, period, p, "")
}

// JSON is the encoding of a value.
func JSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}
