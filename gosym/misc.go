package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// ---- fmt --------------------------------------------------------------------

func (ex *Exec) fmtVal(fr *Frame, verb byte, v Value) *Rope {
	i, ok := v.(Iface)
	if !ok || i.T == nil {
		return ropeC("<nil>")
	}
	if verb == 'T' {
		return ropeC(i.T.String())
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, n := range []string{"Error", "String"} {
			if m := ex.prog.method(i.T, n); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 && isString(m.Signature.Results().At(0).Type()) {
				if p, isP := i.V.(*Value); isP && p == nil {
					return ropeC("<nil>")
				}
				if strings.HasPrefix(m.String(), "(*math/big") || strings.HasPrefix(m.String(), "(time.") || strings.Contains(m.String(), "crypto/x509") || strings.Contains(m.String(), "bls-go-binary") {
					return ropeC("?")
				}
				return asRope(ex.callFn(fr, m, []Value{copyVal(i.V)}, nil))
			}
		}
	}
	return ex.fmtRaw(fr, verb, i.T, i.V)
}

func (ex *Exec) fmtRaw(fr *Frame, verb byte, t types.Type, v Value) *Rope {
	switch x := v.(type) {
	case string, *Rope:
		if verb == 'q' {
			return ropeCat(ropeC(`"`), asRope(x), ropeC(`"`))
		}
		if verb == 'x' {
			return ropeA(&Atom{kind: "hex", in: asRope(x)})
		}
		return asRope(x)
	case bool:
		return ropeC(fmt.Sprint(x))
	case uint64:
		b, _ := t.Underlying().(*types.Basic)
		f := "%" + string(verb)
		if verb == 's' || verb == 'v' {
			f = "%d"
		}
		if b != nil && b.Info()&types.IsUnsigned == 0 {
			return ropeC(fmt.Sprintf(f, sx(x, intWidth(b))))
		}
		return ropeC(fmt.Sprintf(f, x))
	case float64:
		return ropeC(fmt.Sprintf("%v", x))
	case *Term:
		if x.sort == SBool {
			return ropeC(fmt.Sprint(ex.branch(x)))
		}
		return ropeA(&Atom{kind: "itoa", t: ex.p.Conv(x, 64, false)})
	case *SymBytes:
		if verb == 's' {
			return x.r
		}
		if verb == 'x' {
			return ropeA(&Atom{kind: "hex", in: x.r})
		}
	case *Slice:
		if isByteSlice(t) {
			switch verb {
			case 's':
				return ex.bytesRope(v)
			case 'x':
				r := ex.bytesRope(v)
				if s, ok := r.conc(); ok {
					return ropeC(fmt.Sprintf("%x", s))
				}
				return ropeA(&Atom{kind: "hex", in: r})
			}
		}
		if st, ok := t.Underlying().(*types.Slice); ok {
			out := []*Rope{ropeC("[")}
			for i, e := range x.elems() {
				if i > 0 {
					out = append(out, ropeC(" "))
				}
				if _, isI := st.Elem().Underlying().(*types.Interface); isI {
					out = append(out, ex.fmtVal(fr, verb, e))
				} else {
					out = append(out, ex.fmtVal(fr, verb, Iface{st.Elem(), e}))
				}
			}
			return ropeCat(append(out, ropeC("]"))...)
		}
	}
	return ropeC("?")
}

func (ex *Exec) sprintf(fr *Frame, format string, as []Value) *Rope {
	var out []*Rope
	n := 0
	for i := 0; i < len(format); i++ {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = append(out, ropeC(format[i:]))
			break
		}
		out = append(out, ropeC(format[i:i+j]))
		i += j + 1
		s := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		flags := format[s:i]
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			out = append(out, ropeC("%"))
			continue
		}
		if n >= len(as) {
			out = append(out, ropeC("%!"+string(format[i])+"(MISSING)"))
			continue
		}
		v := as[n]
		n++
		verb := format[i]
		if verb == 'w' {
			verb = 'v'
		}
		if flags == "02" && verb == 'd' {
			if t, ok := v.(Iface).V.(*Term); ok {
				out = append(out, ropeA(&Atom{kind: "pad2", t: ex.p.Conv(t, 64, false)}))
				continue
			}
		}
		if flags != "" && verb != 'v' {
			iv := v.(Iface)
			if u, ok := iv.V.(uint64); ok {
				out = append(out, ropeC(fmt.Sprintf("%"+flags+string(verb), sx(u, widthOf(iv.T)))))
				continue
			}
			if f, ok := iv.V.(float64); ok {
				out = append(out, ropeC(fmt.Sprintf("%"+flags+string(verb), f)))
				continue
			}
			if s, ok := iv.V.(string); ok {
				out = append(out, ropeC(fmt.Sprintf("%"+flags+string(verb), s)))
				continue
			}
		}
		out = append(out, ex.fmtVal(fr, verb, v))
	}
	return ropeCat(out...)
}

func (ex *Exec) sprint(fr *Frame, as []Value, ln bool) *Rope {
	var out []*Rope
	for i, a := range as {
		if i > 0 {
			isS := func(v Value) bool {
				x, ok := v.(Iface)
				return ok && x.T != nil && isString(x.T)
			}
			if ln || !isS(a) && !isS(as[i-1]) {
				out = append(out, ropeC(" "))
			}
		}
		out = append(out, ex.fmtVal(fr, 'v', a))
	}
	return ropeCat(out...)
}

func init() {
	el := func(v Value) []Value {
		s, _ := v.(*Slice)
		return s.elems()
	}
	stub("fmt.Sprintf", func(ex *Exec, fr *Frame, a []Value) Value {
		return strVal(ex.sprintf(fr, ex.concStr(a[0], "format"), el(a[1])))
	})
	stub("fmt.Sprint", func(ex *Exec, fr *Frame, a []Value) Value { return strVal(ex.sprint(fr, el(a[0]), false)) })
	stub("fmt.Sprintln", func(ex *Exec, fr *Frame, a []Value) Value {
		return strVal(ropeCat(ex.sprint(fr, el(a[0]), true), ropeC("\n")))
	})
	stub("fmt.Errorf", func(ex *Exec, fr *Frame, a []Value) Value {
		return ex.mkErrR(strVal(ex.sprintf(fr, ex.concStr(a[0], "format"), el(a[1]))))
	})
	nop2 := func(ex *Exec, fr *Frame, a []Value) Value { return Tuple{uint64(0), nilErr()} }
	stub("fmt.Println", nop2)
	stub("fmt.Printf", nop2)
	stub("fmt.Print", nop2)
	fw := func(ex *Exec, fr *Frame, w Value, r *Rope) Value {
		ex.invoke(fr, w, "Write", ex.mkBytes(r))
		return Tuple{ex.p.RopeLen(r), nilErr()}
	}
	stub("fmt.Fprint", func(ex *Exec, fr *Frame, a []Value) Value { return fw(ex, fr, a[0], ex.sprint(fr, el(a[1]), false)) })
	stub("fmt.Fprintln", func(ex *Exec, fr *Frame, a []Value) Value {
		return fw(ex, fr, a[0], ropeCat(ex.sprint(fr, el(a[1]), true), ropeC("\n")))
	})
	stub("fmt.Fprintf", func(ex *Exec, fr *Frame, a []Value) Value {
		return fw(ex, fr, a[0], ex.sprintf(fr, ex.concStr(a[1], "format"), el(a[2])))
	})
	nop := func(ex *Exec, fr *Frame, a []Value) Value { return nil }
	for _, n := range []string{"Println", "Printf", "Print", "SetFlags", "SetPrefix"} {
		stub("log."+n, nop)
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		n := n
		stub("log."+n, func(ex *Exec, fr *Frame, a []Value) Value { panic(exitV{"log." + n}) })
	}
	stub("os.Exit", func(ex *Exec, fr *Frame, a []Value) Value { panic(exitV{"os.Exit"}) })
	stub("log.Panic", func(ex *Exec, fr *Frame, a []Value) Value { panic(goPanicV{ex.mkErr("log.Panic")}) })

	// ---- strconv / strings / bytes -----------------------------------------
	stub("strconv.Itoa", func(ex *Exec, fr *Frame, a []Value) Value {
		switch x := a[0].(type) {
		case uint64:
			return strconv.FormatInt(int64(x), 10)
		case *Term:
			return strVal(ropeA(&Atom{kind: "itoa", t: x}))
		}
		panic(cut("Itoa %T", a[0]))
	})
	stub("strconv.Atoi", func(ex *Exec, fr *Frame, a []Value) Value {
		r := asRope(a[0]).norm()
		bad := ex.mkErr("strconv.Atoi: invalid syntax")
		if s, ok := r.conc(); ok {
			n, err := strconv.Atoi(s)
			if err != nil {
				return Tuple{uint64(int64(n)), bad}
			}
			return Tuple{uint64(int64(n)), nilErr()}
		}
		if len(r.parts) == 1 && (r.parts[0].a.kind == "itoa" || r.parts[0].a.kind == "pad2") {
			return Tuple{ex.p.simpV(r.parts[0].a.t), nilErr()}
		}
		if len(r.parts) == 2 && r.parts[0].a == nil && strings.Trim(r.parts[0].c, "0") == "" && r.parts[1].a != nil && (r.parts[1].a.kind == "itoa" || r.parts[1].a.kind == "pad2") {
			return Tuple{ex.p.simpV(r.parts[1].a.t), nilErr()}
		}
		for _, p := range r.parts {
			if p.a != nil && p.a.kind == "var" {
				ex.lazyNotHexSig(r)
				return Tuple{uint64(0), bad}
			}
		}
		panic(cut("Atoi of %s", r))
	})
	stub("strconv.ParseFloat", func(ex *Exec, fr *Frame, a []Value) Value {
		s, ok := asRope(a[0]).conc()
		if !ok {
			return Tuple{float64(0), nilErr()}
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return Tuple{f, ex.mkErr("strconv.ParseFloat: invalid syntax")}
		}
		return Tuple{f, nilErr()}
	})
	ss := func(name string, f func(a, b string) Value) {
		stub("strings."+name, func(ex *Exec, fr *Frame, a []Value) Value {
			return f(ex.concStr(a[0], "strings."+name), ex.concStr(a[1], "strings."+name))
		})
	}
	strs := func(l []string) Value {
		var o []Value
		for _, s := range l {
			o = append(o, s)
		}
		return mkSlice(o)
	}
	ss("Index", func(a, b string) Value { return uint64(int64(strings.Index(a, b))) })
	ss("LastIndex", func(a, b string) Value { return uint64(int64(strings.LastIndex(a, b))) })
	stub("strings.EqualFold", func(ex *Exec, fr *Frame, a []Value) Value {
		x, y := asRope(a[0]).norm(), asRope(a[1]).norm()
		xs, ok1 := x.conc()
		ys, ok2 := y.conc()
		if ok1 && ok2 {
			return strings.EqualFold(xs, ys)
		}
		if ok1 {
			x, ys, ok2 = y, xs, true
			y = asRope(a[0]).norm()
		}
		c := ex.p.RopeEq(x, y)
		if ok2 {
			ex.note("of the spellings in other cases of a string only that in upper case is considered")
			c = ex.p.Or(c, ex.p.RopeEq(x, ropeC(strings.ToUpper(ys))))
		} else {
			ex.note("free strings that differ in case only are considered for addresses")
			for _, k := range ex.p.addresses() {
				u := strings.ToUpper(k)
				c = ex.p.Or(c, ex.p.And(ex.p.RopeEq(x, ropeC(k)), ex.p.RopeEq(y, ropeC(u))), ex.p.And(ex.p.RopeEq(x, ropeC(u)), ex.p.RopeEq(y, ropeC(k))))
			}
		}
		return ex.p.simpV(c)
	})
	// change applies f to a string. A free string is one that f leaves as it is, or one that f makes an address.
	change := func(ex *Exec, name string, v Value, f func(string) string, variants ...func(string) string) Value {
		r := asRope(v).norm()
		if s, ok := r.conc(); ok {
			return f(s)
		}
		if len(r.parts) != 1 || r.parts[0].a.kind != "var" {
			panic(cut("%s of %s", name, r))
		}
		ex.note("free strings given to strings." + name + " are assumed to be unaffected, or to become an address")
		for _, k := range ex.p.addresses() {
			for _, vf := range variants {
				if x := vf(k); x != k && f(x) == k && ex.branch(ex.p.RopeEq(r, ropeC(x))) {
					return k
				}
			}
		}
		return v
	}
	changes := func(name string, f func(a, b string) string, variants ...func(a, b string) string) {
		stub("strings."+name, func(ex *Exec, fr *Frame, a []Value) Value {
			b := ""
			if len(a) > 1 {
				b = ex.concStr(a[1], "strings."+name)
			}
			var vs []func(string) string
			for _, v := range variants {
				v := v
				vs = append(vs, func(s string) string { return v(s, b) })
			}
			return change(ex, name, a[0], func(s string) string { return f(s, b) }, vs...)
		})
	}
	before := func(a, b string) string { return b + a }
	after := func(a, b string) string { return a + b }
	space := func(a, b string) string { return a + " " }
	upper := func(a, b string) string { return strings.ToUpper(a) }
	lower := func(a, b string) string { return strings.ToLower(a) }
	changes("Trim", strings.Trim, before, after, space)
	changes("TrimPrefix", strings.TrimPrefix, before)
	changes("TrimSuffix", strings.TrimSuffix, after)
	changes("TrimLeft", strings.TrimLeft, before)
	changes("TrimRight", strings.TrimRight, after)
	changes("TrimSpace", func(a, b string) string { return strings.TrimSpace(a) }, space)
	changes("ToLower", func(a, b string) string { return strings.ToLower(a) }, upper)
	changes("ToUpper", func(a, b string) string { return strings.ToUpper(a) }, lower)
	ss("Count", func(a, b string) Value { return uint64(strings.Count(a, b)) })
	pre := func(fn, op string, cf func(a, b string) bool) {
		stub("strings."+fn, func(ex *Exec, fr *Frame, a []Value) Value {
			x, y := asRope(a[0]), asRope(a[1])
			s1, ok1 := x.conc()
			s2, ok2 := y.conc()
			if ok1 && ok2 {
				return cf(s1, s2)
			}
			if ok2 && op == "str.contains" {
				// a concrete part may already decide
				for _, p := range x.parts {
					if p.a == nil && strings.Contains(p.c, s2) {
						return true
					}
				}
			}
			tx, ty := ex.p.ropeTerm(x), ex.p.ropeTerm(y)
			if op == "str.contains" {
				return ex.p.simpV(ex.p.Op(op, SBool, tx, ty))
			}
			return ex.p.simpV(ex.p.Op(op, SBool, ty, tx))
		})
	}
	pre("Contains", "str.contains", strings.Contains)
	pre("HasPrefix", "str.prefixof", strings.HasPrefix)
	pre("HasSuffix", "str.suffixof", strings.HasSuffix)
	stub("strings.Split", func(ex *Exec, fr *Frame, a []Value) Value {
		r := asRope(a[0])
		sep := ex.concStr(a[1], "sep")
		if s, ok := r.conc(); ok {
			return strs(strings.Split(s, sep))
		}
		if len(sep) != 1 {
			panic(cut("Split symbolic"))
		}
		for _, p := range r.parts {
			if p.a != nil && p.a.kind == "var" {
				ex.note("free string assumed not to contain the separator " + sep)
			}
		}
		var o []Value
		for _, x := range r.split(sep[0]) {
			o = append(o, strVal(x))
		}
		return mkSlice(o)
	})
	stub("strings.Cut", func(ex *Exec, fr *Frame, a []Value) Value {
		r := asRope(a[0])
		sep := ex.concStr(a[1], "sep")
		if s, ok := r.conc(); ok {
			x, y, found := strings.Cut(s, sep)
			return Tuple{x, y, found}
		}
		if len(sep) != 1 {
			panic(cut("Cut symbolic"))
		}
		for _, p := range r.parts {
			if p.a != nil && p.a.kind == "var" {
				ex.note("free string assumed not to contain the separator " + sep)
			}
		}
		ps := r.split(sep[0])
		if len(ps) == 1 {
			return Tuple{a[0], "", false}
		}
		rest := []*Rope{ps[1]}
		for _, x := range ps[2:] {
			rest = append(rest, ropeC(sep), x)
		}
		return Tuple{strVal(ps[0]), strVal(ropeCat(rest...)), true}
	})
	// what package strings is made of
	byteOf := func(ex *Exec, v Value) byte { return byte(ex.cint(v, "byte")) }
	i64 := func(n int) Value { return uint64(int64(n)) }
	text := func(ex *Exec, v Value, what string) string {
		if _, ok := v.(string); ok {
			return ex.concStr(v, what)
		}
		if _, ok := v.(*Rope); ok {
			return ex.concStr(v, what)
		}
		s, ok := ex.bytesRope(v).conc()
		if !ok {
			panic(cut("%s of a symbolic text", what))
		}
		return s
	}
	for _, suffix := range []string{"", "String"} {
		suffix := suffix
		bl := func(name string, f func(ex *Exec, s string, v Value) Value) {
			stub("internal/bytealg."+name+suffix, func(ex *Exec, fr *Frame, a []Value) Value { return f(ex, text(ex, a[0], name), a[1]) })
		}
		bl("IndexByte", func(ex *Exec, s string, v Value) Value { return i64(strings.IndexByte(s, byteOf(ex, v))) })
		bl("LastIndexByte", func(ex *Exec, s string, v Value) Value { return i64(strings.LastIndexByte(s, byteOf(ex, v))) })
		bl("Count", func(ex *Exec, s string, v Value) Value { return i64(strings.Count(s, string([]byte{byteOf(ex, v)}))) })
		bl("Index", func(ex *Exec, s string, v Value) Value { return i64(strings.Index(s, text(ex, v, "Index"))) })
		bl("Compare", func(ex *Exec, s string, v Value) Value { return i64(strings.Compare(s, text(ex, v, "Compare"))) })
	}
	stub("io.Copy", func(ex *Exec, fr *Frame, a []Value) Value {
		r, e := ex.readAll(fr, a[1])
		if r != nil {
			ex.invoke(fr, a[0], "Write", ex.mkBytes(r))
		}
		return Tuple{ex.p.RopeLen(r), e}
	})
	stub("strings.Join", func(ex *Exec, fr *Frame, a []Value) Value {
		var out []*Rope
		for i, e := range el(a[0]) {
			if i > 0 {
				out = append(out, asRope(a[1]))
			}
			out = append(out, asRope(e))
		}
		return strVal(ropeCat(out...))
	})
	one := func(name string, f func(string) Value) {
		stub("strings."+name, func(ex *Exec, fr *Frame, a []Value) Value { return f(ex.concStr(a[0], name)) })
	}
	one("Fields", func(s string) Value { return strs(strings.Fields(s)) })
	stub("strings.Replace", func(ex *Exec, fr *Frame, a []Value) Value {
		return strings.Replace(ex.concStr(a[0], "Replace"), ex.concStr(a[1], "Replace"), ex.concStr(a[2], "Replace"), ex.cint(a[3], "n"))
	})
	stub("strings.ReplaceAll", func(ex *Exec, fr *Frame, a []Value) Value {
		return strings.ReplaceAll(ex.concStr(a[0], "Replace"), ex.concStr(a[1], "Replace"), ex.concStr(a[2], "Replace"))
	})
	stub("strings.Repeat", func(ex *Exec, fr *Frame, a []Value) Value {
		return strings.Repeat(ex.concStr(a[0], "Repeat"), ex.cint(a[1], "n"))
	})
	beq := func(ex *Exec, fr *Frame, a []Value) Value {
		return ex.p.simpV(ex.p.RopeEq(ex.bytesRope(a[0]), ex.bytesRope(a[1])))
	}
	stub("bytes.Equal", beq)
	stub("crypto/subtle.ConstantTimeCompare", func(ex *Exec, fr *Frame, a []Value) Value {
		if ex.branch(ex.boolTerm(beq(ex, fr, a))) {
			return uint64(1)
		}
		return uint64(0)
	})
	stub("bytes.Compare", func(ex *Exec, fr *Frame, a []Value) Value {
		x, ok1 := ex.bytesRope(a[0]).conc()
		y, ok2 := ex.bytesRope(a[1]).conc()
		if ok1 && ok2 {
			return uint64(int64(strings.Compare(x, y)))
		}
		if ex.branch(ex.boolTerm(beq(ex, fr, a))) {
			return uint64(0)
		}
		return uint64(1)
	})
	stub("reflect.TypeOf", func(ex *Exec, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		if i.T == nil {
			return Iface{}
		}
		return Iface{types.Typ[types.String], i.T.String()}
	})
	stub("reflect.DeepEqual", func(ex *Exec, fr *Frame, a []Value) Value {
		return ex.p.simpV(ex.deepEq(a[0], a[1], 0))
	})
	stub("math.Pow", func(ex *Exec, fr *Frame, a []Value) Value {
		r := 1.0
		n := a[1].(float64)
		for i := 0; i < int(n); i++ {
			r *= a[0].(float64)
		}
		return r
	})
	stub("math.Ceil", func(ex *Exec, fr *Frame, a []Value) Value {
		f := a[0].(float64)
		r := float64(int64(f))
		if r < f {
			r++
		}
		return r
	})
	stub("math/rand.Intn", func(ex *Exec, fr *Frame, a []Value) Value {
		if ex.cint(a[0], "Intn") <= 0 {
			panic(goPanicV{ex.mkErr("invalid argument to Intn")})
		}
		return uint64(0)
	})
	stub("math/rand.Seed", nop)
	stub("math/rand.ExpFloat64", func(ex *Exec, fr *Frame, a []Value) Value { return float64(0) })
	stub("runtime.GC", nop)
	stub("math/bits.TrailingZeros64", func(ex *Exec, fr *Frame, a []Value) Value {
		x, ok := a[0].(uint64)
		if !ok {
			return notHandled{}
		}
		n := uint64(0)
		for n < 64 && x>>n&1 == 0 {
			n++
		}
		return n
	})
	stub("math/bits.OnesCount64", func(ex *Exec, fr *Frame, a []Value) Value {
		x, ok := a[0].(uint64)
		if !ok {
			return notHandled{}
		}
		n := uint64(0)
		for ; x > 0; x &= x - 1 {
			n++
		}
		return n
	})
}

// deepEq mirrors reflect.DeepEqual structurally.
func (ex *Exec) deepEq(a, b Value, d int) *Term {
	p := ex.p
	if d > 40 {
		panic(cut("deepEq depth"))
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return p.Fals
		}
		if x.T == nil || y.T == nil {
			return p.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return p.Fals
		}
		return ex.deepEq(x.V, y.V, d+1)
	case Struct:
		var c []*Term
		for i := range x {
			c = append(c, ex.deepEq(x[i], b.(Struct)[i], d+1))
		}
		return p.And(c...)
	case Array:
		if hasSym(x) || hasSym(b.(Array)) {
			return ex.equals(a, b)
		}
		var c []*Term
		for i := range x {
			c = append(c, ex.deepEq(x[i], b.(Array)[i], d+1))
		}
		return p.And(c...)
	case *Slice, *SymBytes:
		if isNilVal(a) || isNilVal(b) {
			return p.Bool(isNilVal(a) == isNilVal(b))
		}
		s1, ok1 := a.(*Slice)
		s2, ok2 := b.(*Slice)
		if ok1 && ok2 {
			if s1.ln != s2.ln {
				return p.Fals
			}
			sym := false
			for i := 0; i < s1.ln; i++ {
				_, q1 := s1.elems()[i].(symByte)
				_, q2 := s2.elems()[i].(symByte)
				sym = sym || q1 || q2
			}
			if !sym {
				var c []*Term
				for i := 0; i < s1.ln; i++ {
					c = append(c, ex.deepEq(s1.elems()[i], s2.elems()[i], d+1))
				}
				return p.And(c...)
			}
		}
		return p.RopeEq(ex.bytesRope(a), ex.bytesRope(b))
	case *Value:
		y := b.(*Value)
		if x == y {
			return p.True
		}
		if x == nil || y == nil {
			return p.Fals
		}
		return ex.deepEq(*x, *y, d+1)
	case *MapV:
		y := b.(*MapV)
		ex.mapAccess(x, false, func() string { return "reflect.DeepEqual" })
		ex.mapAccess(y, false, func() string { return "reflect.DeepEqual" })
		if x == nil || y == nil {
			return p.Bool(x == nil && y == nil)
		}
		if len(x.es) != len(y.es) {
			return p.Fals
		}
		var c []*Term
		for _, e := range x.es {
			f := ex.mapFind(y, e.k)
			if f == nil {
				return p.Fals
			}
			c = append(c, ex.deepEq(e.v, f.v, d+1))
		}
		return p.And(c...)
	case BlsV:
		y := b.(BlsV)
		if x.kind == "sig" && y.kind == "sig" {
			return p.blsSigEq(x.sig, y.sig)
		}
		return p.Bool(x == y)
	}
	return ex.equals(a, b)
}

// addresses gives those of the participants of the harnesses.
func (p *TermPool) addresses() []string {
	return []string{"localhost:8080", "localhost:8081", "localhost:8082", "localhost:8083", "localhost:8180", "localhost:9000", "localhost:9001", "localhost:9100", "localhost:9101"}
}
