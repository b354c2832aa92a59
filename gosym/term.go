package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"strings"
)

// ---- SMT terms -------------------------------------------------------------

type Sort int // 0 = Bool, -1 = String, >0 = BitVec width

const (
	SBool Sort = 0
	SStr  Sort = -1
)

func (s Sort) String() string {
	switch {
	case s == SBool:
		return "Bool"
	case s == SStr:
		return "String"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

type Term struct {
	id   int
	op   string // "var","const","str", or an SMT operator
	sort Sort
	args []*Term
	bv   uint64 // const value for BV / bool
	str  string // var name / string const
	p1   int    // extra integer parameters (extract hi/lo, extend)
	p2   int
	h    [2]uint64       // structural hash, the same on every path
	syms map[string]bool // variables and uninterpreted functions in it
}

func (t *Term) hash() {
	h := sha256.New()
	fmt.Fprintf(h, "%s|%d|%d|%d|%d|%q", t.op, t.sort, t.bv, t.p1, t.p2, t.str)
	for _, a := range t.args {
		fmt.Fprintf(h, "|%x", a.h)
	}
	d := h.Sum(nil)
	t.h = [2]uint64{binary.LittleEndian.Uint64(d), binary.LittleEndian.Uint64(d[8:])}
}

// symbols are the names a constraint is about: constraints without a common one,
// directly or through others, do not influence each other.
func (t *Term) symbols() map[string]bool {
	if t.syms != nil {
		return t.syms
	}
	m := map[string]bool{}
	switch {
	case t.op == "var":
		m[t.str] = true
	case t.op == "app" && t.str != "pad2" && t.str != "itoa" && t.str != "cleanstr" && t.str != "longstr":
		m["f:"+t.str] = true
	}
	for _, a := range t.args {
		for k := range a.symbols() {
			m[k] = true
		}
	}
	t.syms = m
	return m
}

// TermPool hash-conses terms (one per path execution).
type TermPool struct {
	bitsT  map[*BitsV]*Term
	bitsL  []*BitsV
	tab    map[string]*Term
	n      int
	True   *Term
	Fals   *Term
	axioms []*Term // eagerly asserted side conditions, drained by the executor
	axDone map[string]bool
	made   []madeAtom
}

func NewPool() *TermPool {
	p := &TermPool{tab: map[string]*Term{}, axDone: map[string]bool{}}
	p.True = p.mk(&Term{op: "const", sort: SBool, bv: 1})
	p.Fals = p.mk(&Term{op: "const", sort: SBool, bv: 0})
	return p
}

func (p *TermPool) mk(t *Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%d|%d|%d|%d|", t.op, t.sort, t.bv, t.p1, t.p2)
	b.WriteString(t.str)
	for _, a := range t.args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	k := b.String()
	if e, ok := p.tab[k]; ok {
		return e
	}
	p.n++
	t.id = p.n
	t.hash()
	p.tab[k] = t
	return t
}

func (p *TermPool) Bool(b bool) *Term {
	if b {
		return p.True
	}
	return p.Fals
}
func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}
func (p *TermPool) BV(v uint64, w int) *Term {
	return p.mk(&Term{op: "const", sort: Sort(w), bv: v & mask(w)})
}
func (p *TermPool) StrC(s string) *Term { return p.mk(&Term{op: "str", sort: SStr, str: s}) }
func (p *TermPool) Var(name string, s Sort) *Term {
	return p.mk(&Term{op: "var", sort: s, str: name})
}

func (t *Term) isConst() bool { return t.op == "const" || t.op == "str" }
func (t *Term) isTrue() bool  { return t.op == "const" && t.sort == SBool && t.bv == 1 }
func (t *Term) isFalse() bool { return t.op == "const" && t.sort == SBool && t.bv == 0 }

func (p *TermPool) Not(a *Term) *Term {
	if a.isTrue() {
		return p.Fals
	}
	if a.isFalse() {
		return p.True
	}
	if a.op == "not" {
		return a.args[0]
	}
	return p.mk(&Term{op: "not", sort: SBool, args: []*Term{a}})
}

func (p *TermPool) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isFalse() {
			return p.Fals
		}
		if a.isTrue() || seen[a.id] {
			continue
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return p.Fals
		}
	}
	switch len(out) {
	case 0:
		return p.True
	case 1:
		return out[0]
	}
	return p.mk(&Term{op: "and", sort: SBool, args: out})
}

func (p *TermPool) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isTrue() {
			return p.True
		}
		if a.isFalse() || seen[a.id] {
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return p.True
		}
	}
	switch len(out) {
	case 0:
		return p.Fals
	case 1:
		return out[0]
	}
	return p.mk(&Term{op: "or", sort: SBool, args: out})
}

func (p *TermPool) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return p.Not(c)
		}
	}
	return p.mk(&Term{op: "ite", sort: a.sort, args: []*Term{c, a, b}})
}

func (p *TermPool) Eq(a, b *Term) *Term {
	if a == b {
		return p.True
	}
	if a.isConst() && b.isConst() {
		return p.Fals
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %v %v (%s %s)", a.sort, b.sort, a.op, b.op))
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return p.Not(b)
		}
		if b.isFalse() {
			return p.Not(a)
		}
	}
	// (ite c k1 k2) = k3 with constants
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.op == "ite" && a.args[1].isConst() && a.args[2].isConst() {
		e1, e2 := a.args[1] == b, a.args[2] == b
		switch {
		case e1 && !e2:
			return a.args[0]
		case !e1 && e2:
			return p.Not(a.args[0])
		case !e1 && !e2:
			return p.Fals
		}
	}
	if b.isConst() && a.op == "zero_extend" && a.sort > 0 {
		in := a.args[0]
		if b.bv&^mask(int(in.sort)) != 0 {
			return p.Fals
		}
		return p.Eq(in, p.BV(b.bv, int(in.sort)))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	v &= mask(w)
	if v>>(uint(w)-1) == 1 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

// bvFold evaluates op on constants.
func bvFold(op string, a, b uint64, w int) (uint64, bool) {
	m := mask(w)
	switch op {
	case "bvadd":
		return (a + b) & m, true
	case "bvsub":
		return (a - b) & m, true
	case "bvmul":
		return (a * b) & m, true
	case "bvand":
		return a & b, true
	case "bvor":
		return a | b, true
	case "bvxor":
		return a ^ b, true
	case "bvshl":
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case "bvlshr":
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case "bvashr":
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(sx(a, w)>>b) & m, true
	case "bvudiv":
		if b == 0 {
			return 0, false
		}
		return a / b, true
	case "bvurem":
		if b == 0 {
			return 0, false
		}
		return a % b, true
	case "bvsdiv":
		if b == 0 {
			return 0, false
		}
		return uint64(sx(a, w)/sx(b, w)) & m, true
	case "bvsrem":
		if b == 0 {
			return 0, false
		}
		return uint64(sx(a, w)%sx(b, w)) & m, true
	}
	return 0, false
}

func (p *TermPool) BVOp(op string, a, b *Term) *Term {
	w := int(a.sort)
	if a.isConst() && b.isConst() {
		if v, ok := bvFold(op, a.bv, b.bv, w); ok {
			return p.BV(v, w)
		}
	}
	az, bz := a.isConst() && a.bv == 0, b.isConst() && b.bv == 0
	switch op {
	case "bvadd", "bvor", "bvxor":
		if az {
			return b
		}
		if bz {
			return a
		}
		if op == "bvor" && a == b {
			return a
		}
		if op == "bvxor" && a == b {
			return p.BV(0, w)
		}
		// re-associate constants
		if op == "bvadd" && b.isConst() && a.op == "bvadd" && a.args[1].isConst() {
			return p.BVOp("bvadd", a.args[0], p.BV(a.args[1].bv+b.bv, w))
		}
		if op == "bvadd" && a.isConst() {
			return p.BVOp("bvadd", b, a)
		}
	case "bvsub":
		if bz {
			return a
		}
		if a == b {
			return p.BV(0, w)
		}
		if b.isConst() {
			return p.BVOp("bvadd", a, p.BV(-b.bv, w))
		}
	case "bvand":
		if az || bz {
			return p.BV(0, w)
		}
		if a == b {
			return a
		}
		if a.isConst() && a.bv == mask(w) {
			return b
		}
		if b.isConst() && b.bv == mask(w) {
			return a
		}
	case "bvshl", "bvlshr", "bvashr":
		if bz {
			return a
		}
		if az {
			return a
		}
	case "bvmul":
		if az || bz {
			return p.BV(0, w)
		}
		if a.isConst() && a.bv == 1 {
			return b
		}
		if b.isConst() && b.bv == 1 {
			return a
		}
	case "bvudiv", "bvsdiv":
		if b.isConst() && b.bv == 1 {
			return a
		}
	}
	return p.mk(&Term{op: op, sort: a.sort, args: []*Term{a, b}})
}

func (p *TermPool) BVCmp(op string, a, b *Term) *Term {
	w := int(a.sort)
	if a.isConst() && b.isConst() {
		var r bool
		switch op {
		case "bvult":
			r = a.bv < b.bv
		case "bvule":
			r = a.bv <= b.bv
		case "bvslt":
			r = sx(a.bv, w) < sx(b.bv, w)
		case "bvsle":
			r = sx(a.bv, w) <= sx(b.bv, w)
		}
		return p.Bool(r)
	}
	if a == b {
		return p.Bool(op == "bvule" || op == "bvsle")
	}
	if al, ah, ok := a.span(64); ok {
		if bl, bh, ok := b.span(64); ok {
			strict := op == "bvult" || op == "bvslt"
			switch {
			case ah < bl || ah == bl && !strict:
				return p.True
			case al > bh || al == bh && strict:
				return p.Bool(false)
			}
		}
	}
	return p.mk(&Term{op: op, sort: SBool, args: []*Term{a, b}})
}

// span bounds a sum of lengths: what slen's axioms say, without asking the solver.
func (t *Term) span(depth int) (lo, hi uint64, ok bool) {
	const top = 1 << 60
	if t.sort != 64 || depth == 0 {
		return 0, 0, false
	}
	switch {
	case t.isConst():
		return t.bv, t.bv, t.bv < top
	case t.op == "app" && t.str == "slen":
		return 0, 1 << 20, true
	case t.op == "ite":
		al, ah, aok := t.args[1].span(depth - 1)
		bl, bh, bok := t.args[2].span(depth - 1)
		if !aok || !bok {
			return 0, 0, false
		}
		return min(al, bl), max(ah, bh), true
	case t.op == "bvadd":
		al, ah, aok := t.args[0].span(depth - 1)
		bl, bh, bok := t.args[1].span(depth - 1)
		return al + bl, ah + bh, aok && bok && ah+bh < top
	case t.op == "bvmul" && t.args[1].isConst() && t.args[1].bv < 1<<16:
		al, ah, ok := t.args[0].span(depth - 1)
		c := t.args[1].bv
		return al * c, ah * c, ok && ah < 1<<40
	case t.op == "bvudiv" && t.args[1].isConst() && t.args[1].bv > 0:
		al, ah, ok := t.args[0].span(depth - 1)
		return al / t.args[1].bv, ah / t.args[1].bv, ok
	}
	return 0, 0, false
}

func (p *TermPool) BVNot(a *Term) *Term {
	if a.isConst() {
		return p.BV(^a.bv, int(a.sort))
	}
	if a.op == "bvnot" {
		return a.args[0]
	}
	return p.mk(&Term{op: "bvnot", sort: a.sort, args: []*Term{a}})
}
func (p *TermPool) BVNeg(a *Term) *Term { return p.BVOp("bvsub", p.BV(0, int(a.sort)), a) }

// Conv changes the width of a.
func (p *TermPool) Conv(a *Term, w int, signed bool) *Term {
	aw := int(a.sort)
	if aw == w {
		return a
	}
	if a.isConst() {
		if signed {
			return p.BV(uint64(sx(a.bv, aw)), w)
		}
		return p.BV(a.bv, w)
	}
	if w < aw {
		return p.mk(&Term{op: "extract", sort: Sort(w), args: []*Term{a}, p1: w - 1, p2: 0})
	}
	op := "zero_extend"
	if signed {
		op = "sign_extend"
	}
	return p.mk(&Term{op: op, sort: Sort(w), args: []*Term{a}, p1: w - aw})
}
func (p *TermPool) Extract(a *Term, hi, lo int) *Term {
	if a.isConst() {
		return p.BV(a.bv>>uint(lo), hi-lo+1)
	}
	if lo == 0 && hi == int(a.sort)-1 {
		return a
	}
	if a.op == "concatbv" { // args[0] high, args[1] low
		lw := int(a.args[1].sort)
		if hi < lw {
			return p.Extract(a.args[1], hi, lo)
		}
		if lo >= lw {
			return p.Extract(a.args[0], hi-lw, lo-lw)
		}
	}
	return p.mk(&Term{op: "extract", sort: Sort(hi - lo + 1), args: []*Term{a}, p1: hi, p2: lo})
}

// App is an uninterpreted / defined function application.
func (p *TermPool) App(fn string, s Sort, args ...*Term) *Term {
	return p.mk(&Term{op: "app", sort: s, str: fn, args: args})
}
func (p *TermPool) Op(op string, s Sort, args ...*Term) *Term {
	return p.mk(&Term{op: op, sort: s, args: args})
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c >= 32 && c < 127 && c != '\\':
			b.WriteByte(c)
		default:
			fmt.Fprintf(&b, `\u{%x}`, c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (t *Term) head() string {
	switch t.op {
	case "const":
		if t.sort == SBool {
			if t.bv == 1 {
				return "true"
			}
			return "false"
		}
		if int(t.sort)%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.sort)/4, t.bv)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.bv, int(t.sort))
	case "str":
		return smtStr(t.str)
	case "var":
		return "|" + t.str + "|"
	}
	return ""
}

func (t *Term) opStr() string {
	switch t.op {
	case "extract":
		return fmt.Sprintf("(_ extract %d %d)", t.p1, t.p2)
	case "zero_extend", "sign_extend":
		return fmt.Sprintf("(_ %s %d)", t.op, t.p1)
	case "concatbv":
		return "concat"
	case "app":
		return t.str
	}
	return t.op
}
