package main

import (
	"go/types"
	"net"
)

// ---- crypto/x509, encoding/asn1, certificate helpers ---------------------------
//
// A certificate is what CreateCertificate made: its encoding is one opaque atom that
// carries the fields, parses back to them, and is signed by the key used. Strings that
// were not made that way do not parse. Subjects are encoded injectively by common name.

type derCert struct {
	fs   map[string]Value // fields ParseCertificate fills in
	exts []derExt
	bad  string
}
type derExt struct {
	oid  []uint64
	crit Value
	val  *Rope
}

func (ex *Exec) oidOf(v Value) []uint64 {
	var out []uint64
	s, _ := v.(*Slice)
	if s == nil {
		return nil
	}
	for _, e := range s.elems() {
		n, ok := e.(uint64)
		if !ok {
			panic(cut("symbolic object identifier"))
		}
		out = append(out, n)
	}
	return out
}

func oidEq(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func oidVal(o []uint64) Value {
	var es []Value
	for _, x := range o {
		es = append(es, x)
	}
	return mkSlice(es)
}

// rsaPubIface unpacks an any holding an RSA public key.
func (ex *Exec) rsaPubIface(v Value) (int, bool) {
	i, ok := v.(Iface)
	if !ok || i.T == nil {
		return -1, false
	}
	switch i.T.String() {
	case "*crypto/rsa.PublicKey":
		if i.V.(*Value) == nil {
			return -1, false
		}
		return ex.rsaPubID(*deref(ex, i.V)), true
	case "crypto/rsa.PublicKey":
		return ex.rsaPubID(i.V), true
	}
	return -1, false
}

func (ex *Exec) rawName(v Value) *Rope {
	nt := ex.prog.typeOf("crypto/x509/pkix", "Name")
	for _, f := range []string{"Country", "Organization", "OrganizationalUnit", "Locality", "Province", "StreetAddress", "PostalCode", "ExtraNames"} {
		if s, _ := getField(nt, v, f).(*Slice); s != nil && s.ln > 0 {
			panic(cut("names with %s", f))
		}
	}
	return ropeCat(ropeC("\x00name:"), asRope(getField(nt, v, "CommonName")))
}

func (ex *Exec) createCert(a []Value) Value {
	ct := ex.prog.typeOf("crypto/x509", "Certificate")
	et := ex.prog.typeOf("crypto/x509/pkix", "Extension")
	fail := func(m string) Value { return Tuple{(*Slice)(nil), ex.mkErr("x509: " + m)} }
	tp := copyVal(*deref(ex, a[1]))
	parent := *deref(ex, a[2])
	pub, ok := ex.rsaPubIface(a[3])
	if !ok || pub < 0 {
		return fail("only RSA and ECDSA public keys supported")
	}
	pi, _ := a[4].(Iface)
	if pi.T == nil || pi.T.String() != "*crypto/rsa.PrivateKey" {
		panic(cut("signing with %v", pi.T))
	}
	priv := ex.rsaPrivID(*deref(ex, pi.V))
	if priv < 0 {
		return fail("missing key")
	}
	if getField(ct, tp, "SerialNumber").(*Value) == nil {
		return fail("no SerialNumber given")
	}
	if k, ok := ex.rsaPubIface(getField(ct, parent, "PublicKey")); ok && k != priv {
		return fail("provided PrivateKey doesn't match parent's PublicKey")
	}
	subj, issuer := getField(ct, tp, "Subject"), getField(ct, parent, "Subject")
	d := &derCert{}
	d.fs = map[string]Value{}
	for _, f := range []string{"SerialNumber", "Subject", "NotBefore", "NotAfter", "KeyUsage", "BasicConstraintsValid", "IsCA", "SubjectKeyId"} {
		d.fs[f] = copyVal(getField(ct, tp, f))
	}
	for _, f := range []string{"ExtKeyUsage", "DNSNames", "IPAddresses"} {
		d.fs[f] = cloneSlice(getField(ct, tp, f))
	}
	d.fs["Issuer"] = copyVal(issuer)
	rs, ri := ex.rawName(subj), ex.rawName(issuer)
	if r, _ := ex.bytesRopeOpt(getField(ct, tp, "RawSubject")); r != nil && r.minLen() > 0 {
		rs = r
	}
	if r, _ := ex.bytesRopeOpt(getField(ct, parent, "RawSubject")); r != nil && r.minLen() > 0 {
		ri = r
	}
	d.fs["RawSubject"], d.fs["RawIssuer"] = ex.mkBytes(rs), ex.mkBytes(ri)
	d.fs["Version"] = uint64(3)
	d.fs["PublicKeyAlgorithm"], d.fs["SignatureAlgorithm"] = uint64(1), uint64(4)
	d.fs["AuthorityKeyId"] = getField(ct, parent, "SubjectKeyId")
	ut := ex.prog.typeOf("crypto/rsa", "PublicKey")
	d.fs["PublicKey"] = Iface{types.NewPointer(ut), ptrTo(getField(ex.prog.typeOf("crypto/rsa", "PrivateKey"), ex.rsaKey(pub), "PublicKey"))}
	// extensions: the standard ones first
	var extra []derExt
	if s, _ := getField(ct, tp, "ExtraExtensions").(*Slice); s != nil {
		for _, e := range s.elems() {
			v := getField(et, e, "Value")
			extra = append(extra, derExt{ex.oidOf(getField(et, e, "Id")), getField(et, e, "Critical"), ex.bytesRope(v)})
		}
	}
	std := func(n uint64) {
		oid := []uint64{2, 5, 29, n}
		for _, e := range extra {
			if oidEq(e.oid, oid) {
				return
			}
		}
		d.exts = append(d.exts, derExt{oid, false, ropeA(&Atom{kind: "stdext", obj: [2]any{d, n}})})
	}
	for _, n := range []uint64{15, 37, 19, 14, 35, 17} {
		std(n)
	}
	d.exts = append(d.exts, extra...)
	for i := range d.exts {
		for j := range d.exts[:i] {
			if oidEq(d.exts[i].oid, d.exts[j].oid) {
				d.bad = "certificate contains duplicate extensions"
			}
		}
	}
	der := ropeA(&Atom{kind: "der", obj: d})
	tbs := ropeA(&Atom{kind: "tbs", obj: d})
	d.fs["Raw"], d.fs["RawTBSCertificate"] = ex.mkBytes(der), ex.mkBytes(tbs)
	d.fs["Signature"] = ex.mkBytes(ropeA(&Atom{kind: "sig", key: priv, in: hashRope(5, tbs)}))
	return Tuple{ex.mkBytes(der), nilErr()}
}

func cloneSlice(v Value) Value {
	s, ok := v.(*Slice)
	if !ok || s == nil {
		return v
	}
	var es []Value
	for _, e := range s.elems() {
		es = append(es, copyVal(e))
	}
	return mkSlice(es)
}

func (ex *Exec) bytesRopeOpt(v Value) (*Rope, bool) {
	if isNilVal(v) {
		return nil, false
	}
	return ex.bytesRope(v).norm(), true
}

func (ex *Exec) parseCert(r *Rope) (Value, string) {
	r = r.norm()
	if len(r.parts) != 1 || r.parts[0].a == nil || r.parts[0].a.kind != "der" {
		ex.lazyNotHexSig(r)
		return nil, "malformed certificate"
	}
	d := r.parts[0].a.obj.(*derCert)
	if d.bad != "" {
		return nil, d.bad
	}
	ct := ex.prog.typeOf("crypto/x509", "Certificate")
	et := ex.prog.typeOf("crypto/x509/pkix", "Extension")
	fs := map[string]Value{}
	for k, v := range d.fs {
		fs[k] = copyVal(cloneSliceDeep(v))
	}
	var es []Value
	for _, e := range d.exts {
		es = append(es, ex.mkStruct(et, map[string]Value{"Id": oidVal(e.oid), "Critical": e.crit, "Value": ex.mkBytes(e.val)}))
	}
	fs["Extensions"] = mkSlice(es)
	return ex.mkStruct(ct, fs), ""
}

func cloneSliceDeep(v Value) Value {
	if s, ok := v.(*Slice); ok {
		return cloneSlice(s)
	}
	return v
}

func init() {
	stub("crypto/x509.CreateCertificate", func(ex *Exec, fr *Frame, a []Value) Value { return ex.createCert(a) })
	stub("crypto/x509.ParseCertificate", func(ex *Exec, fr *Frame, a []Value) Value {
		r, _ := ex.bytesRopeOpt(a[0])
		if r == nil {
			r = &Rope{}
		}
		c, bad := ex.parseCert(r)
		if bad != "" {
			return Tuple{(*Value)(nil), ex.mkErr("x509: " + bad)}
		}
		return Tuple{ptrTo(c), nilErr()}
	})
	stub("crypto/x509.MarshalPKIXPublicKey", func(ex *Exec, fr *Frame, a []Value) Value {
		k, ok := ex.rsaPubIface(a[0])
		if !ok {
			return Tuple{(*Slice)(nil), ex.mkErr("x509: unsupported public key type")}
		}
		return Tuple{ex.mkBytes(ropeA(&Atom{kind: "pkix", obj: k})), nilErr()}
	})
	stub("crypto/x509.MarshalPKCS1PublicKey", func(ex *Exec, fr *Frame, a []Value) Value {
		return ex.mkBytes(ropeA(&Atom{kind: "pkcs1", obj: ex.rsaPubID(*deref(ex, a[0]))}))
	})
	stub("(*crypto/x509.Certificate).Equal", func(ex *Exec, fr *Frame, a []Value) Value {
		x, y := a[0].(*Value), a[1].(*Value)
		if x == nil || y == nil {
			return x == y
		}
		ct := ex.prog.typeOf("crypto/x509", "Certificate")
		rx, _ := ex.bytesRopeOpt(getField(ct, *x, "Raw"))
		ry, _ := ex.bytesRopeOpt(getField(ct, *y, "Raw"))
		if rx == nil {
			rx = &Rope{}
		}
		if ry == nil {
			ry = &Rope{}
		}
		return ex.p.simpV(ex.p.RopeEq(rx, ry))
	})
	sigFrom := func(ex *Exec, c, parent Value) Value {
		ct := ex.prog.typeOf("crypto/x509", "Certificate")
		bad := ex.mkErr("x509: signature verification failed")
		k, ok := ex.rsaPubIface(getField(ct, parent, "PublicKey"))
		r, _ := ex.bytesRopeOpt(getField(ct, c, "Signature"))
		t, _ := ex.bytesRopeOpt(getField(ct, c, "RawTBSCertificate"))
		if !ok || r == nil || t == nil || len(r.parts) != 1 || r.parts[0].a == nil || r.parts[0].a.kind != "sig" || r.parts[0].a.key != k {
			return bad
		}
		if ex.branch(ex.p.RopeEq(r.parts[0].a.in, hashRope(5, t))) {
			return nilErr()
		}
		return bad
	}
	stub("(*crypto/x509.Certificate).CheckSignatureFrom", func(ex *Exec, fr *Frame, a []Value) Value {
		ct := ex.prog.typeOf("crypto/x509", "Certificate")
		p := *deref(ex, a[1])
		if b, ok := getField(ct, p, "IsCA").(bool); ok && !b {
			return ex.mkErr("x509: invalid signature: parent certificate cannot sign this kind of certificate")
		}
		return sigFrom(ex, *deref(ex, a[0]), p)
	})
	stub("(encoding/asn1.ObjectIdentifier).Equal", func(ex *Exec, fr *Frame, a []Value) Value {
		return oidEq(ex.oidOf(a[0]), ex.oidOf(a[1]))
	})
	stub("encoding/asn1.Marshal", func(ex *Exec, fr *Frame, a []Value) Value {
		i, _ := a[0].(Iface)
		if i.T == nil {
			return Tuple{(*Slice)(nil), ex.mkErr("asn1: structure error")}
		}
		var v Value
		switch i.T.String() {
		case "encoding/asn1.RawValue":
			c, _ := getField(i.T, i.V, "Class").(uint64)
			t, _ := getField(i.T, i.V, "Tag").(uint64)
			full, _ := ex.bytesRopeOpt(getField(i.T, i.V, "FullBytes"))
			if cb, ok := getField(i.T, i.V, "IsCompound").(bool); !ok || cb || c != 0 || t != 4 || full != nil && full.minLen() > 0 {
				panic(cut("asn1 encoding of raw values other than octet strings"))
			}
			v = getField(i.T, i.V, "Bytes")
		case "[]byte", "[]uint8":
			v = i.V
		default:
			panic(cut("asn1 encoding of %s", i.T))
		}
		r, _ := ex.bytesRopeOpt(v)
		if r == nil {
			r = &Rope{}
		}
		return Tuple{ex.mkBytes(ropeA(&Atom{kind: "asn1", in: r})), nilErr()}
	})
	stub("encoding/asn1.Unmarshal", func(ex *Exec, fr *Frame, a []Value) Value {
		i, _ := a[1].(Iface)
		if i.T == nil {
			return Tuple{(*Slice)(nil), ex.mkErr("asn1: structure error")}
		}
		r, _ := ex.bytesRopeOpt(a[0])
		if r == nil || len(r.parts) != 1 || r.parts[0].a == nil || r.parts[0].a.kind != "asn1" {
			return Tuple{(*Slice)(nil), ex.mkErr("asn1: syntax error")}
		}
		in := ex.mkBytes(r.parts[0].a.in)
		p := deref(ex, i.V)
		switch i.T.String() {
		case "*encoding/asn1.RawValue":
			t := ex.prog.typeOf("encoding/asn1", "RawValue")
			*p = ex.mkStruct(t, map[string]Value{"Tag": uint64(4), "Bytes": in, "FullBytes": ex.mkBytes(r)})
		case "*[]byte", "*[]uint8":
			*p = in
		default:
			panic(cut("asn1 decoding into %s", i.T))
		}
		return Tuple{mkSlice(nil), nilErr()}
	})
	stub("net.ParseIP", func(ex *Exec, fr *Frame, a []Value) Value {
		s, ok := asRope(a[0]).conc()
		if !ok {
			return (*Slice)(nil)
		}
		ip := net.ParseIP(s)
		if ip == nil {
			return (*Slice)(nil)
		}
		var es []Value
		for _, b := range ip {
			es = append(es, uint64(b))
		}
		return mkSlice(es)
	})
	stub("math/big.NewInt", func(ex *Exec, fr *Frame, a []Value) Value {
		return ptrTo(Opaque{"math/big.Int", "small"})
	})
	stub("(*math/big.Int).Lsh", func(ex *Exec, fr *Frame, a []Value) Value {
		*deref(ex, a[0]) = Opaque{"math/big.Int", "small"}
		return a[0]
	})
	stub("crypto/rand.Int", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.env.nRand++
		return Tuple{ptrTo(Opaque{"math/big.Int", 1000000 + ex.env.nRand}), nilErr()}
	})
	stub("(*math/big.Int).Cmp", func(ex *Exec, fr *Frame, a []Value) Value {
		x, y := (*deref(ex, a[0])).(Opaque), (*deref(ex, a[1])).(Opaque)
		if x.data == y.data {
			return uint64(0)
		}
		return uint64(1)
	})
}
