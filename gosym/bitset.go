package main

import (
	"fmt"
	"sort"
)

// ---- github.com/bits-and-blooms/bitset ---------------------------------------
//
// A bit set is a length and an expression over "set bit i" operations with concrete
// or symbolic positions. Membership is a formula; two sets are equal iff they have
// the same length and agree on every position mentioned in either.

const bitsPkg = "github.com/bits-and-blooms/bitset"

type BitExpr struct {
	op   string // empty set clear or and xor diff
	a, b *BitExpr
	i    *Term
}

type BitsV struct {
	n *Term // length, BV64
	e *BitExpr
}

var bitEmpty = &BitExpr{op: "empty"}

func (p *TermPool) bitTest(e *BitExpr, i *Term) *Term {
	switch e.op {
	case "empty":
		return p.Fals
	case "set":
		return p.Or(p.Eq(i, e.i), p.bitTest(e.a, i))
	case "clear":
		return p.And(p.Not(p.Eq(i, e.i)), p.bitTest(e.a, i))
	}
	x, y := p.bitTest(e.a, i), p.bitTest(e.b, i)
	switch e.op {
	case "or":
		return p.Or(x, y)
	case "and":
		return p.And(x, y)
	case "diff":
		return p.And(x, p.Not(y))
	case "xor":
		return p.Or(p.And(x, p.Not(y)), p.And(y, p.Not(x)))
	}
	panic(cut("bit expression %s", e.op))
}

func (e *BitExpr) mentioned(m map[int]*Term) {
	if e.a != nil {
		e.a.mentioned(m)
	}
	if e.b != nil {
		e.b.mentioned(m)
	}
	if e.i != nil {
		m[e.i.id] = e.i
	}
}

func positions(es ...*BitExpr) []*Term {
	m := map[int]*Term{}
	for _, e := range es {
		e.mentioned(m)
	}
	var ids []int
	for k := range m {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	var out []*Term
	for _, k := range ids {
		out = append(out, m[k])
	}
	return out
}

func (p *TermPool) bitsEq(a, b *BitsV) *Term {
	if a == b {
		return p.True
	}
	cs := []*Term{p.Eq(a.n, b.n)}
	if a.e != b.e {
		for _, i := range positions(a.e, b.e) {
			cs = append(cs, p.Eq(p.bitTest(a.e, i), p.bitTest(b.e, i)))
		}
	}
	return p.And(cs...)
}

func (p *TermPool) bitsAny(a *BitsV) *Term {
	var cs []*Term
	for _, i := range positions(a.e) {
		cs = append(cs, p.bitTest(a.e, i))
	}
	return p.Or(cs...)
}

// bitsTerm gives the encoding of a set as an SMT string: a constant per set, equal to
// that of another set iff the sets are equal.
func (p *TermPool) bitsTerm(b *BitsV) *Term {
	if p.bitsT == nil {
		p.bitsT = map[*BitsV]*Term{}
	}
	if t, ok := p.bitsT[b]; ok {
		return t
	}
	eqs := make([]*Term, len(p.bitsL))
	for i, o := range p.bitsL {
		if eqs[i] = p.bitsEq(b, o); eqs[i] == p.True {
			p.bitsT[b] = p.bitsT[o]
			return p.bitsT[b]
		}
	}
	t := p.Var(fmt.Sprintf("opq_bits_%d", len(p.bitsL)), SStr)
	for i, o := range p.bitsL {
		p.axiom(fmt.Sprintf("bitsEq%d_%d", len(p.bitsL), i), p.Eq(p.Eq(t, p.bitsT[o]), eqs[i]))
	}
	p.bitsT[b] = t
	p.bitsL = append(p.bitsL, b)
	return t
}

func (ex *Exec) bits(v Value) *BitsV {
	p := deref(ex, v)
	o, ok := (*p).(Opaque)
	if !ok {
		panic(cut("bit set is %T", *p))
	}
	if o.data == nil {
		return &BitsV{ex.p.BV(0, 64), bitEmpty}
	}
	return o.data.(*BitsV)
}
func (ex *Exec) setBits(v Value, b *BitsV) { *deref(ex, v) = Opaque{bitsPkg + ".BitSet", b} }

func init() {
	m := func(n string, f stubFn) { stub("(*"+bitsPkg+".BitSet)."+n, f) }
	fresh := func(b *BitsV) Value { return ptrTo(Opaque{bitsPkg + ".BitSet", b}) }
	// the library panics on a nil argument and most of its methods on a nil receiver
	stub(bitsPkg+".New", func(ex *Exec, fr *Frame, a []Value) Value {
		return fresh(&BitsV{ex.p.asBV(a[0], 64), bitEmpty})
	})
	idx := func(ex *Exec, v Value) *Term { return ex.p.asBV(v, 64) }
	grow := func(ex *Exec, b *BitsV, i *Term) *Term {
		p := ex.p
		return p.Ite(p.BVCmp("bvult", i, b.n), b.n, p.BVOp("bvadd", i, p.BV(1, 64)))
	}
	capCheck := func(ex *Exec, i *Term) {
		if ex.branch(ex.p.BVCmp("bvule", ex.p.BV(1<<40, 64), i)) {
			ex.goPanic("You are exceeding the capacity")
		}
	}
	m("Set", func(ex *Exec, fr *Frame, a []Value) Value {
		b, i := ex.bits(a[0]), idx(ex, a[1])
		capCheck(ex, i)
		ex.setBits(a[0], &BitsV{grow(ex, b, i), &BitExpr{op: "set", a: b.e, i: i}})
		return a[0]
	})
	m("Clear", func(ex *Exec, fr *Frame, a []Value) Value {
		b := ex.bits(a[0])
		ex.setBits(a[0], &BitsV{b.n, &BitExpr{op: "clear", a: b.e, i: idx(ex, a[1])}})
		return a[0]
	})
	m("SetTo", func(ex *Exec, fr *Frame, a []Value) Value {
		if ex.cond(a[2]) {
			return stubs["(*"+bitsPkg+".BitSet).Set"](ex, fr, a[:2])
		}
		return stubs["(*"+bitsPkg+".BitSet).Clear"](ex, fr, a[:2])
	})
	m("Flip", func(ex *Exec, fr *Frame, a []Value) Value {
		b, i := ex.bits(a[0]), idx(ex, a[1])
		capCheck(ex, i)
		one := &BitExpr{op: "set", a: bitEmpty, i: i}
		ex.setBits(a[0], &BitsV{grow(ex, b, i), &BitExpr{op: "xor", a: b.e, b: one}})
		return a[0]
	})
	m("Test", func(ex *Exec, fr *Frame, a []Value) Value {
		return ex.p.simpV(ex.p.bitTest(ex.bits(a[0]).e, idx(ex, a[1])))
	})
	m("Len", func(ex *Exec, fr *Frame, a []Value) Value { return ex.p.simpV(ex.bits(a[0]).n) })
	m("ClearAll", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.setBits(a[0], &BitsV{ex.bits(a[0]).n, bitEmpty})
		return a[0]
	})
	m("Clone", func(ex *Exec, fr *Frame, a []Value) Value { return fresh(ex.bits(a[0])) })
	m("Copy", func(ex *Exec, fr *Frame, a []Value) Value {
		if p, ok := a[1].(*Value); ok && p == nil {
			return uint64(0)
		}
		src, dst := ex.bits(a[0]), ex.bits(a[1])
		if ex.branch(ex.p.Not(ex.p.BVCmp("bvule", src.n, dst.n))) {
			panic(cut("bitset.Copy into a shorter set"))
		}
		if ex.branch(ex.p.Not(ex.p.Eq(src.n, dst.n))) {
			panic(cut("bitset.Copy into a longer set"))
		}
		ex.setBits(a[1], &BitsV{dst.n, src.e})
		return ex.p.simpV(dst.n)
	})
	m("CopyFull", func(ex *Exec, fr *Frame, a []Value) Value { ex.setBits(a[1], ex.bits(a[0])); return nil })
	m("Any", func(ex *Exec, fr *Frame, a []Value) Value { return ex.p.simpV(ex.p.bitsAny(ex.bits(a[0]))) })
	m("None", func(ex *Exec, fr *Frame, a []Value) Value {
		return ex.p.simpV(ex.p.Not(ex.p.bitsAny(ex.bits(a[0]))))
	})
	m("Count", func(ex *Exec, fr *Frame, a []Value) Value {
		b := ex.bits(a[0])
		ps := positions(b.e)
		n := ex.p.BV(0, 64)
		for k, i := range ps {
			c := []*Term{ex.p.bitTest(b.e, i)}
			for _, j := range ps[:k] {
				c = append(c, ex.p.Not(ex.p.Eq(i, j)))
			}
			n = ex.p.BVOp("bvadd", n, ex.p.Ite(ex.p.And(c...), ex.p.BV(1, 64), ex.p.BV(0, 64)))
		}
		return ex.p.simpV(n)
	})
	m("Equal", func(ex *Exec, fr *Frame, a []Value) Value {
		x, _ := a[0].(*Value)
		y, _ := a[1].(*Value)
		if x == nil || y == nil {
			return x == y
		}
		return ex.p.simpV(ex.p.bitsEq(ex.bits(a[0]), ex.bits(a[1])))
	})
	max := func(ex *Exec, x, y *Term) *Term {
		return ex.p.Ite(ex.p.BVCmp("bvult", x, y), y, x)
	}
	min := func(ex *Exec, x, y *Term) *Term {
		return ex.p.Ite(ex.p.BVCmp("bvult", x, y), x, y)
	}
	bin := func(name, op string, length func(ex *Exec, x, y *Term) *Term) {
		comb := func(ex *Exec, a []Value) *BitsV {
			x, y := ex.bits(a[0]), ex.bits(a[1])
			return &BitsV{length(ex, x.n, y.n), &BitExpr{op: op, a: x.e, b: y.e}}
		}
		m(name, func(ex *Exec, fr *Frame, a []Value) Value { return fresh(comb(ex, a)) })
		m("InPlace"+name, func(ex *Exec, fr *Frame, a []Value) Value { ex.setBits(a[0], comb(ex, a)); return nil })
	}
	bin("Union", "or", max)
	bin("SymmetricDifference", "xor", max)
	bin("Intersection", "and", min)
	bin("Difference", "diff", func(ex *Exec, x, y *Term) *Term { return x })
	m("IsSuperSet", func(ex *Exec, fr *Frame, a []Value) Value {
		x, y := ex.bits(a[0]), ex.bits(a[1])
		var cs []*Term
		for _, i := range positions(y.e) {
			cs = append(cs, ex.p.Or(ex.p.Not(ex.p.bitTest(y.e, i)), ex.p.bitTest(x.e, i)))
		}
		return ex.p.simpV(ex.p.And(cs...))
	})
	m("MarshalBinary", func(ex *Exec, fr *Frame, a []Value) Value {
		return Tuple{ex.mkBytes(ropeA(&Atom{kind: "bits", obj: ex.bits(a[0])})), nilErr()}
	})
	m("UnmarshalBinary", func(ex *Exec, fr *Frame, a []Value) Value {
		r := ex.bytesRope(a[1]).norm()
		if len(r.parts) == 1 && r.parts[0].a != nil && r.parts[0].a.kind == "bits" {
			ex.setBits(a[0], r.parts[0].a.obj.(*BitsV))
			return nilErr()
		}
		// a free text is no encoding of a set (assumption FREE); an empty or short one gives an error
		return ex.mkErr("unexpected EOF")
	})
	m("String", func(ex *Exec, fr *Frame, a []Value) Value { return "{?}" })
}
