package main

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
)

// Atom is a symbolic piece of text / bytes: a solver variable or a constructor
// of the ideal (injective, collision-free) crypto / encoding algebra.
type Atom struct {
	kind  string // var hash sig hex b64 gz bits itoa pad2 blssig blspub blssec der tok pem asn1
	t     *Term  // var: String term; itoa/pad2: BV64 term
	in    *Rope  // hash sig hex b64 gz asn1
	key   int    // sig
	obj   any    // blssig etc.
	clean bool   // var: printable, no JSON escapes
}

type Part struct {
	c string
	a *Atom
}

type Rope struct{ parts []Part }

func ropeC(s string) *Rope {
	if s == "" {
		return &Rope{}
	}
	return &Rope{[]Part{{c: s}}}
}
func ropeA(a *Atom) *Rope { return &Rope{[]Part{{a: a}}} }

func (r *Rope) norm() *Rope {
	var out []Part
	for _, p := range r.parts {
		if p.a == nil {
			if p.c == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].a == nil {
				out[n-1].c += p.c
				continue
			}
		}
		out = append(out, p)
	}
	return &Rope{out}
}
func (r *Rope) conc() (string, bool) {
	switch len(r.parts) {
	case 0:
		return "", true
	case 1:
		if r.parts[0].a == nil {
			return r.parts[0].c, true
		}
	}
	for _, p := range r.parts {
		if p.a != nil {
			return "", false
		}
	}
	return r.norm().parts[0].c, true
}
func ropeCat(rs ...*Rope) *Rope {
	var ps []Part
	for _, r := range rs {
		ps = append(ps, r.parts...)
	}
	return (&Rope{ps}).norm()
}

// strVal converts a rope to a string Value (Go string when concrete).
func strVal(r *Rope) Value {
	r = r.norm()
	if s, ok := r.conc(); ok {
		return s
	}
	return r
}
func asRope(v Value) *Rope {
	switch x := v.(type) {
	case string:
		return ropeC(x)
	case *Rope:
		return x
	}
	panic(cut("asRope: %T", v))
}

func (a *Atom) fixedLen() int {
	switch a.kind {
	case "hash":
		return 32
	case "sig":
		return 256
	case "pad2":
		return 2
	case "hex":
		n := 0
		for _, p := range a.in.parts {
			if p.a == nil {
				n += len(p.c)
			} else if l := p.a.fixedLen(); l >= 0 {
				n += l
			} else {
				return -1
			}
		}
		return 2 * n
	}
	return -1
}
func (a *Atom) quoteFree() bool {
	switch a.kind {
	case "var":
		return a.clean
	case "hex", "b64", "itoa", "pad2":
		return true
	}
	return false
}

func (a *Atom) String() string {
	switch a.kind {
	case "var":
		return "<" + a.t.str + ">"
	case "itoa", "pad2":
		return "<" + a.kind + fmt.Sprintf(" t%d>", a.t.id)
	case "sig":
		return fmt.Sprintf("<sig k%d %s>", a.key, a.in)
	}
	if a.in != nil {
		return "<" + a.kind + " " + a.in.String() + ">"
	}
	return "<" + a.kind + fmt.Sprintf("%v>", a.obj)
}
func (r *Rope) String() string {
	var b strings.Builder
	for _, p := range r.parts {
		if p.a == nil {
			b.WriteString(p.c)
		} else {
			b.WriteString(p.a.String())
		}
	}
	return b.String()
}

// ---- translation to SMT strings --------------------------------------------

func (p *TermPool) axiom(key string, t *Term) {
	if p.axDone[key] {
		return
	}
	p.axDone[key] = true
	p.axioms = append(p.axioms, t)
}

func (p *TermPool) atomTerm(a *Atom) *Term {
	inj := func(fn, inv string) *Term {
		x := p.ropeTerm(a.in)
		t := p.App(fn, SStr, x)
		if k := fmt.Sprintf("%s%d", fn, t.id); !p.axDone[k] {
			p.made = append(p.made, madeAtom{a, t})
			p.axiom(k, p.Eq(p.App(inv, SStr, t), x))
		}
		return t
	}
	switch a.kind {
	case "var":
		return a.t
	case "hash":
		return inj("hashF", "hashI")
	case "hex":
		return inj("hexF", "hexI")
	case "b64":
		return inj("b64F", "b64I")
	case "gz":
		return inj("gzF", "gzI")
	case "asn1":
		return inj("uf_asn1", "uf_asn1I")
	case "sig":
		x := p.ropeTerm(a.in)
		t := p.App("sigF", SStr, p.BV(uint64(a.key), 32), x)
		p.axiom(fmt.Sprintf("sigF%d", t.id), p.Eq(p.App("sigI", SStr, t), x))
		return t
	case "itoa":
		return p.App("itoa", SStr, a.t)
	case "pad2":
		return p.App("pad2", SStr, a.t)
	case "bits":
		return p.bitsTerm(a.obj.(*BitsV))
	}
	// opaque constructor: a distinct constant per object identity
	return p.Var(fmt.Sprintf("opq_%s_%v", a.kind, a.obj), SStr)
}

func (p *TermPool) ropeTerm(r *Rope) *Term {
	r = r.norm()
	if len(r.parts) == 0 {
		return p.StrC("")
	}
	var ts []*Term
	for _, q := range r.parts {
		if q.a == nil {
			ts = append(ts, p.StrC(q.c))
		} else {
			ts = append(ts, p.atomTerm(q.a))
		}
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return p.Op("str.++", SStr, ts...)
}

// ---- equality --------------------------------------------------------------

func (p *TermPool) atomEq(a, b *Atom) *Term {
	if a == b {
		return p.True
	}
	if a.kind == b.kind {
		switch a.kind {
		case "var":
			return p.Eq(a.t, b.t)
		case "itoa", "pad2":
			return p.Eq(a.t, b.t)
		case "hash", "hex", "b64", "gz", "asn1":
			return p.RopeEq(a.in, b.in)
		case "sig":
			if a.key != b.key {
				return p.Fals
			}
			return p.RopeEq(a.in, b.in)
		case "bits":
			return p.bitsEq(a.obj.(*BitsV), b.obj.(*BitsV))
		case "blssig":
			return p.blsSigEq(a.obj.(*BlsSig), b.obj.(*BlsSig))
		}
		return p.Bool(a.obj == b.obj)
	}
	if a.kind != "var" && b.kind != "var" {
		set := a.kind + "/" + b.kind
		if set == "pad2/itoa" || set == "itoa/pad2" {
			return p.And(p.Eq(a.t, b.t), p.BVCmp("bvule", p.BV(10, 64), a.t))
		}
		if (a.kind == "itoa" || a.kind == "pad2") != (b.kind == "itoa" || b.kind == "pad2") {
			return p.Fals // encodings of crypto values never read as small decimals
		}
		return p.Fals // distinct constructors of the ideal algebra
	}
	return p.Eq(p.atomTerm(a), p.atomTerm(b))
}

func (p *TermPool) atomEqConst(a *Atom, s string) *Term {
	switch a.kind {
	case "var":
		return p.Eq(a.t, p.StrC(s))
	case "itoa":
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil || strconv.FormatInt(n, 10) != s {
			return p.Fals
		}
		return p.Eq(a.t, p.BV(uint64(n), 64))
	case "pad2":
		if len(s) != 2 || s[0] < '0' || s[0] > '9' || s[1] < '0' || s[1] > '9' {
			return p.Fals
		}
		return p.Eq(a.t, p.BV(uint64(s[0]-'0')*10+uint64(s[1]-'0'), 64))
	case "hex":
		d, err := hex.DecodeString(s)
		if err != nil || hex.EncodeToString(d) != s {
			return p.Fals
		}
		return p.RopeEq(a.in, ropeC(string(d)))
	case "b64":
		d, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			return p.Fals
		}
		return p.RopeEq(a.in, ropeC(string(d)))
	}
	return p.Fals
}

func (p *TermPool) RopeEq(x, y *Rope) *Term {
	x, y = x.norm(), y.norm()
	for _, q := range [2][2]*Rope{{x, y}, {y, x}} { // "0"+itoa(t) against pad2(u)
		a, b := q[0].parts, q[1].parts
		if len(a) == 2 && a[0].a == nil && a[0].c == "0" && a[1].a != nil && a[1].a.kind == "itoa" && len(b) == 1 && b[0].a != nil && b[0].a.kind == "pad2" {
			return p.And(p.Eq(a[1].a.t, b[0].a.t), p.BVCmp("bvult", a[1].a.t, p.BV(10, 64)))
		}
	}
	a := append([]Part(nil), x.parts...)
	b := append([]Part(nil), y.parts...)
	conj := []*Term{}
	// strip prefix
	for len(a) > 0 && len(b) > 0 {
		if a[0].a == nil && b[0].a == nil {
			n := min(len(a[0].c), len(b[0].c))
			if a[0].c[:n] != b[0].c[:n] {
				return p.Fals
			}
			a[0].c, b[0].c = a[0].c[n:], b[0].c[n:]
			if a[0].c == "" {
				a = a[1:]
			}
			if b[0].c == "" {
				b = b[1:]
			}
			continue
		}
		if a[0].a != nil && b[0].a != nil && p.stripEq(a[0].a, b[0].a, &conj) {
			a, b = a[1:], b[1:]
			continue
		}
		break
	}
	for len(a) > 0 && len(b) > 0 {
		i, j := len(a)-1, len(b)-1
		if a[i].a == nil && b[j].a == nil {
			n := min(len(a[i].c), len(b[j].c))
			if a[i].c[len(a[i].c)-n:] != b[j].c[len(b[j].c)-n:] {
				return p.Fals
			}
			a[i].c, b[j].c = a[i].c[:len(a[i].c)-n], b[j].c[:len(b[j].c)-n]
			if a[i].c == "" {
				a = a[:i]
			}
			if b[j].c == "" {
				b = b[:j]
			}
			continue
		}
		if a[i].a != nil && b[j].a != nil && p.stripEq(a[i].a, b[j].a, &conj) {
			a, b = a[:i], b[:j]
			continue
		}
		break
	}
	done := func(t *Term) *Term { return p.And(append(conj, t)...) }
	if len(a) == 0 && len(b) == 0 {
		return done(p.True)
	}
	if len(a) == 0 {
		a, b = b, a
	}
	if len(b) == 0 {
		for _, q := range a {
			if q.a == nil {
				return p.Fals
			}
			switch q.a.kind {
			case "var":
				conj = append(conj, p.Eq(q.a.t, p.StrC("")))
			case "hex", "b64":
				conj = append(conj, p.RopeEq(q.a.in, &Rope{}))
			default:
				return p.Fals
			}
		}
		return done(p.True)
	}
	if len(a) == 1 && len(b) == 1 {
		if a[0].a != nil && b[0].a != nil {
			return done(p.atomEq(a[0].a, b[0].a))
		}
		if a[0].a == nil {
			a, b = b, a
		}
		return done(p.atomEqConst(a[0].a, b[0].c))
	}
	// minimal length vs concrete
	ra, rb := &Rope{a}, &Rope{b}
	if s, ok := ra.conc(); ok && rb.minLen() > len(s) {
		return p.Fals
	}
	if s, ok := rb.conc(); ok && ra.minLen() > len(s) {
		return p.Fals
	}
	// split on a separator no atom can contain
	if ra.quoteFree() && rb.quoteFree() && (ra.hasQuote() || rb.hasQuote()) {
		as, bs := ra.splitQuote(), rb.splitQuote()
		if len(as) != len(bs) {
			return p.Fals
		}
		for i := range as {
			e := p.RopeEq(as[i], bs[i])
			if e.isFalse() {
				return e
			}
			conj = append(conj, e)
		}
		return done(p.True)
	}
	// crypto / compressed constructor material never equals mixed plain text
	if len(a) == 1 && a[0].a != nil && a[0].a.kind != "var" && a[0].a.kind != "itoa" && a[0].a.kind != "pad2" && rb.concLen() > 0 {
		switch a[0].a.kind {
		case "hex", "b64":
		default:
			return p.Fals
		}
	}
	if len(b) == 1 && b[0].a != nil && b[0].a.kind != "var" && b[0].a.kind != "itoa" && b[0].a.kind != "pad2" && ra.concLen() > 0 {
		switch b[0].a.kind {
		case "hex", "b64":
		default:
			return p.Fals
		}
	}
	// outputs of the crypto functions do not start or end with a given text
	for _, q := range [2][2]*Rope{{ra, rb}, {rb, ra}} {
		x, y := q[0].parts, q[1].parts
		if len(x) > 0 && len(y) > 0 && (x[0].a.random() && y[0].a == nil && len(y[0].c) >= 4 ||
			x[len(x)-1].a.random() && y[len(y)-1].a == nil && len(y[len(y)-1].c) >= 4) {
			return p.Fals
		}
	}
	return done(p.Eq(p.ropeTerm(ra), p.ropeTerm(rb)))
}

func (a *Atom) random() bool {
	if a == nil {
		return false
	}
	switch a.kind {
	case "hash", "sig", "der", "tbs", "pkix", "asn1", "gz":
		return true
	}
	return false
}

func (p *TermPool) stripEq(a, b *Atom, conj *[]*Term) bool {
	if a == b {
		return true
	}
	la, lb := a.fixedLen(), b.fixedLen()
	if la >= 0 && la == lb {
		*conj = append(*conj, p.atomEq(a, b))
		return true
	}
	if a.kind == b.kind && a.kind == "var" && a.t == b.t {
		return true
	}
	return false
}
func (r *Rope) minLen() int {
	n := 0
	for _, p := range r.parts {
		if p.a == nil {
			n += len(p.c)
		} else if l := p.a.fixedLen(); l > 0 {
			n += l
		} else if p.a.kind == "itoa" {
			n++
		}
	}
	return n
}
func (r *Rope) concLen() int {
	n := 0
	for _, p := range r.parts {
		n += len(p.c)
	}
	return n
}
func (r *Rope) quoteFree() bool {
	for _, p := range r.parts {
		if p.a != nil && !p.a.quoteFree() {
			return false
		}
	}
	return true
}
func (r *Rope) hasQuote() bool {
	for _, p := range r.parts {
		if strings.Contains(p.c, `"`) {
			return true
		}
	}
	return false
}
func (r *Rope) splitQuote() []*Rope { return r.split('"') }
func (r *Rope) split(sep byte) []*Rope {
	out := []*Rope{{}}
	for _, p := range r.parts {
		if p.a != nil {
			out[len(out)-1].parts = append(out[len(out)-1].parts, p)
			continue
		}
		segs := strings.Split(p.c, string(sep))
		for i, s := range segs {
			if i > 0 {
				out = append(out, &Rope{})
			}
			if s != "" {
				out[len(out)-1].parts = append(out[len(out)-1].parts, Part{c: s})
			}
		}
	}
	return out
}

// RopeLen returns the length as uint64 or a BV64 term.
func (p *TermPool) RopeLen(r *Rope) Value {
	n := uint64(0)
	var t *Term
	for _, q := range r.parts {
		if q.a == nil {
			n += uint64(len(q.c))
			continue
		}
		if l := q.a.fixedLen(); l >= 0 {
			n += uint64(l)
			continue
		}
		var x *Term
		switch q.a.kind {
		case "hex":
			l := p.RopeLen(q.a.in)
			x = p.BVOp("bvmul", p.asBV(l, 64), p.BV(2, 64))
		case "itoa":
			x = p.Ite(p.BVCmp("bvult", q.a.t, p.BV(10, 64)), p.BV(1, 64), p.BV(2, 64))
		case "bits":
			w := p.BVOp("bvudiv", p.BVOp("bvadd", q.a.obj.(*BitsV).n, p.BV(63, 64)), p.BV(64, 64))
			x = p.BVOp("bvadd", p.BV(8, 64), p.BVOp("bvmul", w, p.BV(8, 64)))
		default:
			at := p.atomTerm(q.a)
			x = p.App("slen", 64, at)
			p.axiom(fmt.Sprintf("slen%d", x.id), p.And(
				p.mk(&Term{op: "bvule", sort: SBool, args: []*Term{x, p.BV(1<<20, 64)}}),
				p.Eq(p.Eq(at, p.StrC("")), p.Eq(x, p.BV(0, 64)))))
		}
		if t == nil {
			t = x
		} else {
			t = p.BVOp("bvadd", t, x)
		}
	}
	if t == nil {
		return n
	}
	return p.simpV(p.BVOp("bvadd", t, p.BV(n, 64)))
}

func (p *TermPool) asBV(v Value, w int) *Term {
	switch x := v.(type) {
	case uint64:
		return p.BV(x, w)
	case *Term:
		return x
	}
	panic(cut("asBV %T", v))
}

// simpV turns a constant term back into a concrete Value.
func (p *TermPool) simpV(t *Term) Value {
	if t.op == "const" {
		if t.sort == SBool {
			return t.bv == 1
		}
		return t.bv
	}
	return t
}

// ---- replay values ----------------------------------------------------------

type madeAtom struct {
	a *Atom
	t *Term
}

// realise turns the values of string inputs in a model, where hashes and encodings are just some
// text, into values with the real hashes and encodings in them.
func (p *TermPool) realise(m map[int]string) func(s string) string {
	real := map[int]string{}
	var rope func(r *Rope, depth int) (string, bool)
	var subst func(s string, depth int) string
	atom := func(i, depth int) (string, bool) {
		if v, ok := real[i]; ok {
			return v, true
		}
		in, ok := rope(p.made[i].a.in, depth-1)
		if !ok {
			return "", false
		}
		var v string
		switch p.made[i].a.kind {
		case "hash":
			h := sha256.Sum256([]byte(in))
			v = string(h[:])
		case "hex":
			v = hex.EncodeToString([]byte(in))
		case "b64":
			v = base64.StdEncoding.EncodeToString([]byte(in))
		default:
			return "", false
		}
		real[i] = v
		return v, true
	}
	rope = func(r *Rope, depth int) (string, bool) {
		if depth < 0 {
			return "", false
		}
		out := ""
		for _, x := range r.parts {
			switch {
			case x.a == nil:
				out += x.c
			case x.a.kind == "var":
				v, ok := m[x.a.t.id]
				if !ok {
					return "", false
				}
				out += subst(v, depth-1)
			case x.a.kind == "hash" || x.a.kind == "hex" || x.a.kind == "b64":
				t := p.atomTerm(x.a)
				for i := range p.made {
					if p.made[i].t == t {
						v, ok := atom(i, depth)
						if !ok {
							return "", false
						}
						out += v
						break
					}
				}
			default:
				return "", false
			}
		}
		return out, true
	}
	subst = func(s string, depth int) string {
		if depth < 0 {
			return s
		}
		for i := range p.made {
			v := m[p.made[i].t.id]
			if len(v) < 8 || !strings.Contains(s, v) {
				continue
			}
			if r, ok := atom(i, depth); ok {
				s = strings.ReplaceAll(s, v, r)
			}
		}
		return s
	}
	return func(s string) string { return subst(s, 12) }
}
