package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---- BLS --------------------------------------------------------------------
// Ideal aggregate signatures: a signature value is a multiset of (key, message)
// contributions plus optional junk; it verifies under a list of keys for a
// message exactly when the contributions are one per listed key, all on that
// message.  Confirmed against the real library: zero keys / zero signatures
// never verify.

type BlsContrib struct {
	key int
	msg *Rope
}
type BlsSig struct {
	cs   []BlsContrib
	junk bool
	id   int
}
type BlsV struct {
	kind string // "" zero, sec, pub, sig, id
	key  int
	sig  *BlsSig
	id   string
}

func (s *BlsSig) String() string { return fmt.Sprintf("bls%d", s.id) }

func (p *TermPool) blsSigEq(a, b *BlsSig) *Term {
	if a == b {
		return p.True
	}
	if a.junk || b.junk || len(a.cs) != len(b.cs) {
		return p.Fals
	}
	return p.multisetEq(a.cs, b.cs)
}

func (p *TermPool) multisetEq(a, b []BlsContrib) *Term {
	if len(a) == 0 {
		return p.Bool(len(b) == 0)
	}
	var alts []*Term
	for j := range b {
		if b[j].key != a[0].key {
			continue
		}
		rest := append(append([]BlsContrib(nil), b[:j]...), b[j+1:]...)
		alts = append(alts, p.And(p.RopeEq(a[0].msg, b[j].msg), p.multisetEq(a[1:], rest)))
	}
	return p.Or(alts...)
}

func blsGet(ex *Exec, v Value) BlsV {
	p := deref(ex, v)
	b, ok := (*p).(BlsV)
	if !ok {
		panic(cut("bls value is %T", *p))
	}
	return b
}

func (ex *Exec) blsVerify(sig BlsV, keys []int, msg *Rope) Value {
	if sig.sig == nil || sig.sig.junk || len(keys) == 0 || len(sig.sig.cs) == 0 {
		return false
	}
	ks := []int{}
	for _, c := range sig.sig.cs {
		ks = append(ks, c.key)
	}
	k2 := append([]int(nil), keys...)
	sort.Ints(ks)
	sort.Ints(k2)
	if fmt.Sprint(ks) != fmt.Sprint(k2) {
		return false
	}
	for _, k := range keys {
		if k == 0 {
			return false
		}
	}
	var c []*Term
	for _, x := range sig.sig.cs {
		c = append(c, ex.p.RopeEq(x.msg, msg))
	}
	return ex.p.simpV(ex.p.And(c...))
}

func (ex *Exec) blsKeyFor(s string) int {
	if n, ok := ex.env.blsIDs[s]; ok {
		return n
	}
	ex.env.nBls++
	ex.env.blsIDs[s] = ex.env.nBls
	return ex.env.nBls
}

var zeroSigHex = strings.Repeat("0", 96)

func init() {
	B := strings.TrimSuffix(blsPkg, ".")
	stub(B+".Init", func(ex *Exec, fr *Frame, a []Value) Value { return nilErr() })
	m := func(t, n string, f stubFn) { stub("(*"+blsPkg+t+")."+n, f) }
	m("SecretKey", "SetByCSPRNG", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.env.nBls++
		*deref(ex, a[0]) = BlsV{kind: "sec", key: ex.env.nBls}
		return nil
	})
	m("SecretKey", "SetHexString", func(ex *Exec, fr *Frame, a []Value) Value {
		*deref(ex, a[0]) = BlsV{kind: "sec", key: ex.blsKeyFor("hex:" + ex.concStr(a[1], "bls key"))}
		return nilErr()
	})
	m("SecretKey", "Set", func(ex *Exec, fr *Frame, a []Value) Value {
		k := ""
		for _, e := range a[1].(*Slice).elems() {
			k += fmt.Sprint(e.(BlsV).key, ",")
		}
		*deref(ex, a[0]) = BlsV{kind: "sec", key: ex.blsKeyFor(k + "/" + blsGet(ex, a[2]).id)}
		return nilErr()
	})
	m("SecretKey", "GetPublicKey", func(ex *Exec, fr *Frame, a []Value) Value {
		s := blsGet(ex, a[0])
		if s.kind == "" {
			return ptrTo(BlsV{})
		}
		return ptrTo(BlsV{kind: "pub", key: s.key})
	})
	m("SecretKey", "Sign", func(ex *Exec, fr *Frame, a []Value) Value {
		s := blsGet(ex, a[0])
		if s.kind == "" {
			return ptrTo(BlsV{})
		}
		ex.env.nBls++
		return ptrTo(BlsV{kind: "sig", sig: &BlsSig{cs: []BlsContrib{{s.key, asRope(a[1])}}, id: ex.env.nBls}})
	})
	ser := func(ex *Exec, v BlsV) *Rope {
		switch v.kind {
		case "sec":
			return ropeA(&Atom{kind: "blssec", obj: v.key})
		case "pub":
			return ropeA(&Atom{kind: "blspub", obj: v.key})
		case "sig":
			return ropeA(&Atom{kind: "blssig", obj: v.sig})
		}
		return ropeC(strings.Repeat("\x00", 48))
	}
	for _, t := range []string{"SecretKey", "PublicKey", "Sign"} {
		kind := map[string]string{"SecretKey": "blssec", "PublicKey": "blspub", "Sign": "blssig"}[t]
		m(t, "Serialize", func(ex *Exec, fr *Frame, a []Value) Value { return ex.mkBytes(ser(ex, blsGet(ex, a[0]))) })
		m(t, "SerializeToHexStr", func(ex *Exec, fr *Frame, a []Value) Value {
			v := blsGet(ex, a[0])
			if v.kind == "" {
				return zeroSigHex
			}
			return strVal(ropeA(&Atom{kind: "hex", in: ser(ex, v)}))
		})
		de := func(ex *Exec, dst *Value, r *Rope) Value {
			r = r.norm()
			if len(r.parts) == 1 && r.parts[0].a != nil && r.parts[0].a.kind == kind {
				at := r.parts[0].a
				switch kind {
				case "blssec":
					*dst = BlsV{kind: "sec", key: at.obj.(int)}
				case "blspub":
					*dst = BlsV{kind: "pub", key: at.obj.(int)}
				case "blssig":
					*dst = BlsV{kind: "sig", sig: at.obj.(*BlsSig)}
				}
				return nilErr()
			}
			if s, ok := r.conc(); ok && len(s) == 48 && strings.Trim(s, "\x00") == "" {
				*dst = BlsV{}
				return nilErr()
			}
			return ex.mkErr("err blsDeserialize")
		}
		m(t, "Deserialize", func(ex *Exec, fr *Frame, a []Value) Value {
			return de(ex, deref(ex, a[0]), ex.bytesRope(a[1]))
		})
		m(t, "DeserializeHexStr", func(ex *Exec, fr *Frame, a []Value) Value {
			d := deref(ex, a[0])
			r := asRope(a[1]).norm()
			if s, ok := r.conc(); ok {
				if b, err := hex.DecodeString(s); err == nil {
					return de(ex, d, ropeC(string(b)))
				}
				return ex.mkErr("err blsDeserialize")
			}
			if len(r.parts) == 1 && r.parts[0].a.kind == "hex" {
				return de(ex, d, r.parts[0].a.in)
			}
			ex.lazyNotHexSig(r)
			return ex.mkErr("err blsDeserialize")
		})
		m(t, "IsEqual", func(ex *Exec, fr *Frame, a []Value) Value {
			x, y := blsGet(ex, a[0]), blsGet(ex, a[1])
			if x.kind == "sig" && y.kind == "sig" {
				return ex.p.simpV(ex.p.blsSigEq(x.sig, y.sig))
			}
			return x == y
		})
	}
	m("Sign", "Aggregate", func(ex *Exec, fr *Frame, a []Value) Value {
		d := deref(ex, a[0])
		es := a[1].(*Slice).elems()
		if len(es) == 0 {
			return nil
		}
		ex.env.nBls++
		out := &BlsSig{id: ex.env.nBls}
		for _, e := range es {
			b := e.(BlsV)
			if b.sig != nil {
				out.cs = append(out.cs, b.sig.cs...)
				out.junk = out.junk || b.sig.junk
			}
		}
		if len(out.cs) == 0 && !out.junk {
			*d = BlsV{}
		} else {
			*d = BlsV{kind: "sig", sig: out}
		}
		return nil
	})
	m("Sign", "Add", func(ex *Exec, fr *Frame, a []Value) Value {
		d := deref(ex, a[0])
		x, y := (*d).(BlsV), blsGet(ex, a[1])
		ex.env.nBls++
		out := &BlsSig{id: ex.env.nBls}
		for _, b := range []BlsV{x, y} {
			if b.sig != nil {
				out.cs = append(out.cs, b.sig.cs...)
			}
		}
		if len(out.cs) > 0 {
			*d = BlsV{kind: "sig", sig: out}
		}
		return nil
	})
	m("Sign", "Verify", func(ex *Exec, fr *Frame, a []Value) Value {
		if isNilVal(a[0]) || isNilVal(a[1]) {
			return false
		}
		s := blsGet(ex, a[0])
		return ex.blsVerify(s, []int{blsGet(ex, a[1]).key}, asRope(a[2]))
	})
	m("Sign", "FastAggregateVerify", func(ex *Exec, fr *Frame, a []Value) Value {
		if len(a[1].(*Slice).elems()) == 0 {
			return false
		}
		s := blsGet(ex, a[0])
		var ks []int
		for _, e := range a[1].(*Slice).elems() {
			ks = append(ks, e.(BlsV).key)
		}
		return ex.blsVerify(s, ks, ex.bytesRope(a[2]))
	})
	m("ID", "SetHexString", func(ex *Exec, fr *Frame, a []Value) Value {
		*deref(ex, a[0]) = BlsV{kind: "id", id: ex.concStr(a[1], "bls id")}
		return nilErr()
	})

	// ---- RSA ----------------------------------------------------------------
	stub("crypto/rsa.GenerateKey", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.env.nRSA++
		return Tuple{ptrTo(ex.rsaKey(ex.env.nRSA)), nilErr()}
	})
	stub("crypto/rsa.SignPKCS1v15", func(ex *Exec, fr *Frame, a []Value) Value {
		k := ex.rsaPrivID(*deref(ex, a[1]))
		if k < 0 {
			return Tuple{(*Slice)(nil), ex.mkErr("crypto/rsa: missing public modulus")}
		}
		return Tuple{ex.mkBytes(ropeA(&Atom{kind: "sig", key: k, in: ex.bytesRope(a[3])})), nilErr()}
	})
	stub("crypto/rsa.VerifyPKCS1v15", func(ex *Exec, fr *Frame, a []Value) Value {
		k := ex.rsaPubID(*deref(ex, a[0]))
		bad := ex.mkErr("crypto/rsa: verification error")
		if k < 0 {
			return bad
		}
		s := ex.bytesRope(a[3]).norm()
		if len(s.parts) != 1 || s.parts[0].a == nil || s.parts[0].a.kind != "sig" || s.parts[0].a.key != k {
			return bad
		}
		if ex.branch(ex.p.RopeEq(s.parts[0].a.in, ex.bytesRope(a[2]))) {
			return nilErr()
		}
		return bad
	})
	stub("(*crypto/rsa.PublicKey).Equal", func(ex *Exec, fr *Frame, a []Value) Value {
		k := ex.rsaPubID(*deref(ex, a[0]))
		o := a[1].(Iface)
		if o.T == nil || o.T.String() != "*crypto/rsa.PublicKey" {
			return false
		}
		return k >= 0 && k == ex.rsaPubID(*deref(ex, o.V))
	})

	// ---- hashing ------------------------------------------------------------
	stub("(crypto.Hash).New", func(ex *Exec, fr *Frame, a []Value) Value {
		t := ex.prog.typeOf(rtPkg, "Hasher")
		s := ex.mkStruct(t, map[string]Value{"Algo": a[0]})
		return Iface{types.NewPointer(t), ptrTo(s)}
	})
	stub("crypto/sha256.New", func(ex *Exec, fr *Frame, a []Value) Value {
		t := ex.prog.typeOf(rtPkg, "Hasher")
		s := ex.mkStruct(t, map[string]Value{"Algo": uint64(5)})
		return Iface{types.NewPointer(t), ptrTo(s)}
	})
	stub("crypto/sha256.Sum256", func(ex *Exec, fr *Frame, a []Value) Value {
		es, _ := ex.expand(hashRope(5, ex.bytesRope(a[0])))
		return Array(es)
	})
	stub("(*"+rtPkg+".Hasher).Write", func(ex *Exec, fr *Frame, a []Value) Value {
		st := (*deref(ex, a[0])).(Struct)
		i := fieldIx(ex.prog.typeOf(rtPkg, "Hasher"), "Buf")
		r := ex.bytesRope(a[1])
		st[i] = strVal(ropeCat(asRope(st[i]), r))
		return Tuple{ex.p.RopeLen(r), nilErr()}
	})
	stub("(*"+rtPkg+".Hasher).Sum", func(ex *Exec, fr *Frame, a []Value) Value {
		ht := ex.prog.typeOf(rtPkg, "Hasher")
		st := *deref(ex, a[0])
		algo := ex.cint(getField(ht, st, "Algo"), "hash")
		return ex.mkBytes(ropeCat(ex.bytesRope(a[1]), hashRope(algo, asRope(getField(ht, st, "Buf")))))
	})

	// ---- encodings ----------------------------------------------------------
	hexEnc := func(r *Rope) *Rope {
		var out []Part
		for _, p := range r.norm().parts {
			if p.a == nil {
				out = append(out, Part{c: hex.EncodeToString([]byte(p.c))})
			} else {
				out = append(out, Part{a: &Atom{kind: "hex", in: ropeA(p.a)}})
			}
		}
		return (&Rope{out}).norm()
	}
	hexDec := func(ex *Exec, r *Rope) (*Rope, bool) {
		var out []*Rope
		for _, p := range r.norm().parts {
			if p.a == nil {
				b, err := hex.DecodeString(p.c)
				if err != nil {
					return nil, false
				}
				out = append(out, ropeC(string(b)))
				continue
			}
			switch p.a.kind {
			case "hex":
				out = append(out, p.a.in)
			case "var":
				// a free string is treated as "not hexadecimal"; well-formed encodings are
				// produced by the harness through the real encoder
				ex.lazyNotHexSig(r)
				return nil, false
			default:
				return nil, false
			}
		}
		return ropeCat(out...), true
	}
	stub("encoding/hex.EncodeToString", func(ex *Exec, fr *Frame, a []Value) Value { return strVal(hexEnc(ex.bytesRope(a[0]))) })
	stub("encoding/hex.DecodeString", func(ex *Exec, fr *Frame, a []Value) Value {
		r, ok := hexDec(ex, asRope(a[0]))
		if !ok {
			return Tuple{ex.mkBytes(&Rope{}), ex.mkErr("encoding/hex: invalid byte")}
		}
		return Tuple{ex.mkBytes(r), nilErr()}
	})
	stub("encoding/hex.Decode", func(ex *Exec, fr *Frame, a []Value) Value {
		r, ok := hexDec(ex, ex.bytesRope(a[1]))
		if !ok {
			return Tuple{uint64(0), ex.mkErr("encoding/hex: invalid byte")}
		}
		ex.fill(a[0], r)
		return Tuple{ex.p.RopeLen(r), nilErr()}
	})
	stub("(*encoding/base64.Encoding).EncodeToString", func(ex *Exec, fr *Frame, a []Value) Value { return strVal(b64Enc(ex.bytesRope(a[1]))) })
	stub("(*encoding/base64.Encoding).DecodeString", func(ex *Exec, fr *Frame, a []Value) Value {
		r, ok := b64Dec(ex, asRope(a[1]))
		if !ok {
			return Tuple{ex.mkBytes(&Rope{}), ex.mkErr("illegal base64 data")}
		}
		return Tuple{ex.mkBytes(r), nilErr()}
	})
}

func b64Enc(r *Rope) *Rope {
	r = r.norm()
	if s, ok := r.conc(); ok {
		return ropeC(base64.StdEncoding.EncodeToString([]byte(s)))
	}
	return ropeA(&Atom{kind: "b64", in: r})
}
func b64Dec(ex *Exec, r *Rope) (*Rope, bool) {
	r = r.norm()
	if s, ok := r.conc(); ok {
		b, err := base64.StdEncoding.DecodeString(s)
		return ropeC(string(b)), err == nil
	}
	if len(r.parts) == 1 && r.parts[0].a.kind == "b64" {
		return r.parts[0].a.in, true
	}
	if len(r.parts) == 1 && r.parts[0].a.kind == "var" {
		ex.lazy = append(ex.lazy, ex.notChars(r.parts[0].a.t))
	}
	return nil, false
}

func hashRope(algo int, in *Rope) *Rope {
	if algo != 5 { // anything but SHA-256 lives in its own domain
		panic(cut("hash algorithm %d", algo))
	}
	return ropeA(&Atom{kind: "hash", in: in.norm()})
}

// rsaKey builds an rsa.PrivateKey whose modulus carries the ideal key identity.
func (ex *Exec) rsaKey(id int) Value {
	pt := ex.prog.typeOf("crypto/rsa", "PrivateKey")
	ut := ex.prog.typeOf("crypto/rsa", "PublicKey")
	n := ptrTo(Opaque{"math/big.Int", id})
	pub := ex.mkStruct(ut, map[string]Value{"N": n, "E": uint64(65537)})
	return ex.mkStruct(pt, map[string]Value{"PublicKey": pub, "D": ptrTo(Opaque{"math/big.Int", id})})
}
func (ex *Exec) rsaPubID(v Value) int {
	ut := ex.prog.typeOf("crypto/rsa", "PublicKey")
	n := getField(ut, v, "N").(*Value)
	if n == nil {
		return -1
	}
	if o, ok := (*n).(Opaque); ok && o.data != nil {
		return o.data.(int)
	}
	return -1
}
func (ex *Exec) rsaPrivID(v Value) int {
	pt := ex.prog.typeOf("crypto/rsa", "PrivateKey")
	d := getField(pt, v, "D").(*Value)
	k := ex.rsaPubID(getField(pt, v, "PublicKey"))
	if d == nil || k < 0 {
		return -1
	}
	return (*d).(Opaque).data.(int)
}

// lazyNotHexSig: at model extraction the free string must not be hexadecimal.
func (ex *Exec) lazyNotHexSig(r *Rope) {
	for _, p := range r.parts {
		if p.a != nil && p.a.kind == "var" {
			ex.lazy = append(ex.lazy, ex.notChars(p.a.t))
			return
		}
	}
}

// notChars: t starts with a character outside hex / base64 / JSON value starts.
func (ex *Exec) notChars(t *Term) *Term {
	return ex.p.Op("str.prefixof", SBool, ex.p.StrC("~"), t)
}
