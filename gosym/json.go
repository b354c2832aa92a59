package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// encoding/json over ropes. Concrete parts are (un)escaped exactly; atoms are
// drawn from an alphabet that needs no escaping (enforced when a model is built).

type jnode struct {
	kind byte // o a s n t f z(null)
	str  *Rope
	keys []*Rope
	vals []*jnode
}

type jparse struct {
	ex    *Exec
	parts []Part
	i, o  int
}

type jerr struct{ msg string }

func (j *jparse) fail(f string, a ...any) { panic(jerr{fmt.Sprintf(f, a...)}) }

func (j *jparse) atom() *Atom {
	if j.i < len(j.parts) && j.parts[j.i].a != nil {
		return j.parts[j.i].a
	}
	return nil
}
func (j *jparse) peek() (byte, bool) {
	for j.i < len(j.parts) && j.parts[j.i].a == nil && j.o >= len(j.parts[j.i].c) {
		j.i++
		j.o = 0
	}
	if j.i >= len(j.parts) {
		return 0, false
	}
	if j.parts[j.i].a != nil {
		return 0, true
	}
	return j.parts[j.i].c[j.o], true
}
func (j *jparse) ws() {
	for {
		c, ok := j.peek()
		if !ok || j.atom() != nil || !(c == ' ' || c == '\n' || c == '\t' || c == '\r') {
			return
		}
		j.o++
	}
}

func (j *jparse) value() *jnode {
	j.ws()
	c, ok := j.peek()
	if !ok {
		j.fail("unexpected end of JSON input")
	}
	if a := j.atom(); a != nil {
		if a.kind == "num" {
			j.i++
			return &jnode{kind: 'n', str: ropeA(a)}
		}
		if a.kind == "itoa" {
			j.i++
			return &jnode{kind: 'n', str: ropeA(a)}
		}
		if a.kind == "var" {
			j.ex.lazy = append(j.ex.lazy, j.ex.notChars(a.t))
		}
		j.fail("invalid character looking for beginning of value")
	}
	switch {
	case c == '{':
		j.o++
		n := &jnode{kind: 'o'}
		j.ws()
		if c, ok := j.peek(); ok && c == '}' && j.atom() == nil {
			j.o++
			return n
		}
		for {
			j.ws()
			c, ok := j.peek()
			if !ok || j.atom() != nil || c != '"' {
				j.fail("invalid character looking for beginning of object key string")
			}
			k := j.strlit()
			j.ws()
			if c, ok := j.peek(); !ok || j.atom() != nil || c != ':' {
				j.fail("invalid character after object key")
			}
			j.o++
			v := j.value()
			n.keys = append(n.keys, k)
			n.vals = append(n.vals, v)
			j.ws()
			c, ok = j.peek()
			if !ok {
				j.fail("unexpected end of JSON input")
			}
			if j.atom() == nil && c == ',' {
				j.o++
				continue
			}
			if j.atom() == nil && c == '}' {
				j.o++
				return n
			}
			j.fail("invalid character after object key:value pair")
		}
	case c == '[':
		j.o++
		n := &jnode{kind: 'a'}
		j.ws()
		if c, ok := j.peek(); ok && c == ']' && j.atom() == nil {
			j.o++
			return n
		}
		for {
			n.vals = append(n.vals, j.value())
			j.ws()
			c, ok := j.peek()
			if !ok {
				j.fail("unexpected end of JSON input")
			}
			if j.atom() == nil && c == ',' {
				j.o++
				continue
			}
			if j.atom() == nil && c == ']' {
				j.o++
				return n
			}
			j.fail("invalid character after array element")
		}
	case c == '"':
		return &jnode{kind: 's', str: j.strlit()}
	case c == 't' || c == 'f' || c == 'n':
		for _, w := range []string{"true", "false", "null"} {
			if strings.HasPrefix(j.parts[j.i].c[j.o:], w) {
				j.o += len(w)
				return &jnode{kind: map[string]byte{"true": 't', "false": 'f', "null": 'z'}[w]}
			}
		}
		j.fail("invalid literal")
	case c == '-' || c >= '0' && c <= '9':
		s := j.o
		cs := j.parts[j.i].c
		for j.o < len(cs) && strings.IndexByte("+-0123456789.eE", cs[j.o]) >= 0 {
			j.o++
		}
		txt := cs[s:j.o]
		var f json.Number
		if json.Unmarshal([]byte(txt), &f) != nil {
			j.fail("invalid number")
		}
		return &jnode{kind: 'n', str: ropeC(txt)}
	}
	j.fail("invalid character %q looking for beginning of value", c)
	return nil
}

func (j *jparse) strlit() *Rope {
	j.o++ // opening quote
	var out []Part
	for {
		for j.i < len(j.parts) && j.parts[j.i].a == nil && j.o >= len(j.parts[j.i].c) {
			j.i++
			j.o = 0
		}
		if j.i >= len(j.parts) {
			j.fail("unexpected end of JSON input")
		}
		p := j.parts[j.i]
		if p.a != nil {
			if !p.a.quoteFree() {
				j.fail("invalid character in string literal")
			}
			out = append(out, p)
			j.i++
			continue
		}
		s := j.o
		for j.o < len(p.c) && p.c[j.o] != '"' {
			if p.c[j.o] == '\\' {
				j.o++
			}
			j.o++
		}
		seg := p.c[s:min(j.o, len(p.c))]
		if seg != "" {
			var dec string
			if err := json.Unmarshal([]byte(`"`+seg+`"`), &dec); err != nil {
				j.fail("invalid string literal")
			}
			out = append(out, Part{c: dec})
		}
		if j.o < len(p.c) {
			j.o++
			return (&Rope{out}).norm()
		}
	}
}

func (ex *Exec) jsonParse(r *Rope, stream bool) (n *jnode, err string) {
	r = r.norm()
	j := &jparse{ex: ex, parts: r.parts}
	defer func() {
		if e := recover(); e != nil {
			if je, ok := e.(jerr); ok {
				n, err = nil, je.msg
				return
			}
			panic(e)
		}
	}()
	if stream {
		j.ws()
		if _, ok := j.peek(); !ok {
			return nil, "EOF"
		}
	}
	n = j.value()
	if !stream {
		j.ws()
		if _, ok := j.peek(); ok {
			return nil, "invalid character after top-level value"
		}
	}
	return n, ""
}

type jfield struct {
	name string
	omit bool
	str  bool
	path []int
	typ  types.Type
}

func jsonFields(t types.Type) []jfield {
	var out []jfield
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		ps := strings.Split(tag, ",")
		if f.Embedded() && ps[0] == "" {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				for _, e := range jsonFields(f.Type()) {
					e.path = append([]int{i}, e.path...)
					out = append(out, e)
				}
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		jf := jfield{name: f.Name(), path: []int{i}, typ: f.Type()}
		if ps[0] != "" {
			jf.name = ps[0]
		}
		for _, o := range ps[1:] {
			if o == "omitempty" {
				jf.omit = true
			}
			if o == "string" {
				jf.str = true
			}
		}
		out = append(out, jf)
	}
	return out
}

func at(v Value, path []int) *Value {
	s := v.(Struct)
	p := &s[path[0]]
	for _, i := range path[1:] {
		p = &(*p).(Struct)[i]
	}
	return p
}

// isNullable mirrors the JSON rule that null leaves non-nullable targets alone.
func (ex *Exec) jsonDecode(n *jnode, t types.Type, dst *Value, err *string) {
	t = types.Unalias(t)
	bad := func() {
		if *err == "" {
			*err = "json: cannot unmarshal into Go value of type " + t.String()
		}
	}
	name := typeName(t)
	if name == "math/big.Int" {
		if n.kind == 'n' && len(n.str.parts) == 1 && n.str.parts[0].a != nil {
			*dst = Opaque{"math/big.Int", n.str.parts[0].a.obj}
		} else if n.kind == 'n' {
			*dst = Opaque{"math/big.Int", bigOf(n.str.String())}
		} else if n.kind != 'z' {
			bad()
		}
		return
	}
	if name == "time.Time" {
		return
	}
	if m := ex.prog.method(types.NewPointer(t), "UnmarshalJSON"); m != nil && name != "" {
		raw := ex.jsonText(n)
		r := ex.callFn(nil, m, []Value{dst, ex.mkBytes(raw)}, nil)
		if !isNilVal(r) && *err == "" {
			*err = "UnmarshalJSON failed"
		}
		return
	}
	if n.kind == 'z' {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			*dst = ex.zero(t)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, _ := (*dst).(*Value)
		if p == nil {
			p = ptrTo(ex.zero(u.Elem()))
			*dst = p
		}
		ex.jsonDecode(n, u.Elem(), p, err)
	case *types.Struct:
		if n.kind != 'o' {
			bad()
			return
		}
		fs := jsonFields(t)
		for i, k := range n.keys {
			ks, ok := k.conc()
			if !ok {
				ex.note("symbolic JSON object key treated as unknown field")
				continue
			}
			for pass := 0; pass < 2; pass++ {
				hit := false
				for _, f := range fs {
					if pass == 0 && f.name == ks || pass == 1 && strings.EqualFold(f.name, ks) {
						ex.jsonDecode(n.vals[i], f.typ, at(*dst, f.path), err)
						hit = true
						break
					}
				}
				if hit {
					break
				}
			}
		}
	case *types.Map:
		if n.kind != 'o' {
			bad()
			return
		}
		m, _ := (*dst).(*MapV)
		if m == nil {
			m = newMap(u.Key())
			*dst = m
		}
		ex.mapAccess(m, true, func() string { return "json.Unmarshal" })
		for i, k := range n.keys {
			v := ex.zero(u.Elem())
			ex.jsonDecode(n.vals[i], u.Elem(), &v, err)
			var kv Value = strVal(k)
			if b, ok := u.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				x, e := strconv.ParseInt(ex.concStr(kv, "map key"), 10, 64)
				if e != nil {
					bad()
					continue
				}
				kv = uint64(x)
			}
			ex.mapSet(m, kv, v)
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && n.kind == 's' {
			r, ok := b64Dec(ex, n.str)
			if !ok {
				bad()
				return
			}
			*dst = ex.mkBytes(r)
			return
		}
		if n.kind != 'a' {
			bad()
			return
		}
		vs := []Value{}
		for _, e := range n.vals {
			v := ex.zero(u.Elem())
			ex.jsonDecode(e, u.Elem(), &v, err)
			vs = append(vs, v)
		}
		*dst = mkSlice(vs)
	case *types.Array:
		if n.kind != 'a' {
			bad()
			return
		}
		a := (*dst).(Array)
		for i := range a {
			if i < len(n.vals) {
				ex.jsonDecode(n.vals[i], u.Elem(), &a[i], err)
			} else {
				a[i] = ex.zero(u.Elem())
			}
		}
	case *types.Interface:
		if u.NumMethods() > 0 {
			bad()
			return
		}
		*dst = ex.jsonAny(n)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if n.kind != 's' {
				bad()
				return
			}
			*dst = strVal(n.str)
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 't' && n.kind != 'f' {
				bad()
				return
			}
			*dst = n.kind == 't'
		case u.Info()&types.IsInteger != 0:
			if n.kind != 'n' {
				bad()
				return
			}
			if len(n.str.parts) == 1 && n.str.parts[0].a != nil {
				if n.str.parts[0].a.kind == "itoa" {
					*dst = ex.p.simpV(ex.p.Conv(n.str.parts[0].a.t, intWidth(u), false))
					return
				}
				panic(cut("symbolic JSON number"))
			}
			x, e := strconv.ParseInt(n.str.String(), 10, 64)
			if e != nil {
				y, e2 := strconv.ParseUint(n.str.String(), 10, 64)
				if e2 != nil || u.Info()&types.IsUnsigned == 0 {
					bad()
					return
				}
				x = int64(y)
			} else if u.Info()&types.IsUnsigned != 0 && x < 0 {
				bad()
				return
			}
			*dst = uint64(x) & mask(intWidth(u))
		case u.Info()&types.IsFloat != 0:
			if n.kind != 'n' {
				bad()
				return
			}
			x, _ := strconv.ParseFloat(n.str.String(), 64)
			*dst = x
		}
	default:
		bad()
	}
}

func bigOf(s string) any { return s }

func (ex *Exec) jsonAny(n *jnode) Value {
	emptyI := types.NewInterfaceType(nil, nil)
	switch n.kind {
	case 'z':
		return Iface{}
	case 's':
		return Iface{types.Typ[types.String], strVal(n.str)}
	case 't', 'f':
		return Iface{types.Typ[types.Bool], n.kind == 't'}
	case 'n':
		f, _ := strconv.ParseFloat(n.str.String(), 64)
		return Iface{types.Typ[types.Float64], f}
	case 'a':
		var vs []Value
		for _, e := range n.vals {
			vs = append(vs, ex.jsonAny(e))
		}
		return Iface{types.NewSlice(emptyI), mkSlice(vs)}
	}
	m := newMap(types.Typ[types.String])
	for i, k := range n.keys {
		ex.mapSet(m, strVal(k), ex.jsonAny(n.vals[i]))
	}
	return Iface{types.NewMap(types.Typ[types.String], emptyI), m}
}

// jsonText re-renders a node.
func (ex *Exec) jsonText(n *jnode) *Rope {
	switch n.kind {
	case 'z':
		return ropeC("null")
	case 't':
		return ropeC("true")
	case 'f':
		return ropeC("false")
	case 'n':
		return n.str
	case 's':
		return jsonQuote(n.str)
	case 'a':
		out := []*Rope{ropeC("[")}
		for i, e := range n.vals {
			if i > 0 {
				out = append(out, ropeC(","))
			}
			out = append(out, ex.jsonText(e))
		}
		return ropeCat(append(out, ropeC("]"))...)
	}
	out := []*Rope{ropeC("{")}
	for i, e := range n.vals {
		if i > 0 {
			out = append(out, ropeC(","))
		}
		out = append(out, jsonQuote(n.keys[i]), ropeC(":"), ex.jsonText(e))
	}
	return ropeCat(append(out, ropeC("}"))...)
}

func jsonQuote(r *Rope) *Rope {
	out := []Part{{c: `"`}}
	for _, p := range r.norm().parts {
		if p.a != nil {
			if !p.a.quoteFree() {
				panic(cut("raw binary in a JSON string: %s", p.a))
			}
			out = append(out, p)
			continue
		}
		b, _ := json.Marshal(p.c)
		out = append(out, Part{c: string(b[1 : len(b)-1])})
	}
	return (&Rope{append(out, Part{c: `"`})}).norm()
}

func (ex *Exec) isEmptyVal(v Value) bool {
	switch x := v.(type) {
	case bool:
		return !x
	case uint64:
		return x == 0
	case float64:
		return x == 0
	case string:
		return x == ""
	case *Rope:
		return ex.branch(ex.p.RopeEq(x, &Rope{}))
	case *Term:
		if x.sort == SBool {
			return !ex.branch(x)
		}
		return ex.branch(ex.p.Eq(x, ex.p.BV(0, int(x.sort))))
	case *Slice:
		return x == nil || x.ln == 0
	case *SymBytes:
		return x == nil
	case *MapV:
		return x == nil || len(x.es) == 0
	case Array:
		return len(x) == 0
	}
	return isNilVal(v)
}

func (ex *Exec) jsonEncode(t types.Type, v Value, err *string) *Rope {
	t = types.Unalias(t)
	name := typeName(t)
	if name == "math/big.Int" {
		o, _ := v.(Opaque)
		if o.data == nil {
			return ropeC("0")
		}
		if s, ok := o.data.(string); ok {
			return ropeC(s)
		}
		return ropeA(&Atom{kind: "num", obj: o.data})
	}
	if name == "crypto/x509.Certificate" { // written to files for inspection only
		return ropeC(`{"certificate":0}`)
	}
	if name == "time.Time" {
		return jsonQuote(asRope(ex.timeFormat(v.(TimeV), "2006-01-02T15:04:05Z07:00")))
	}
	if name != "" {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			if m := ex.prog.method(t, "MarshalJSON"); m != nil {
				r := ex.callFn(nil, m, []Value{v}, nil).(Tuple)
				if !isNilVal(r[1]) {
					*err = "MarshalJSON failed"
				}
				return ex.bytesRope(r[0])
			}
			if _, isP := t.Underlying().(*types.Pointer); !isP {
				if m := ex.prog.method(types.NewPointer(t), "MarshalJSON"); m != nil && strings.Contains(name, "bitset") {
					r := ex.callFn(nil, m, []Value{ptrTo(v)}, nil).(Tuple)
					return ex.bytesRope(r[0])
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			return ropeC("null")
		}
		if m := ex.prog.method(t, "MarshalJSON"); m != nil && typeName(u.Elem()) != "math/big.Int" {
			r := ex.callFn(nil, m, []Value{v}, nil).(Tuple)
			return ex.bytesRope(r[0])
		}
		return ex.jsonEncode(u.Elem(), *p, err)
	case *types.Interface:
		i := v.(Iface)
		if i.T == nil {
			return ropeC("null")
		}
		return ex.jsonEncode(i.T, i.V, err)
	case *types.Struct:
		if _, ok := v.(Struct); !ok {
			panic(cut("json of opaque %s", t))
		}
		out := []*Rope{ropeC("{")}
		n := 0
		for _, f := range jsonFields(t) {
			fv := *at(v, f.path)
			if f.omit && ex.isEmptyVal(fv) {
				continue
			}
			if n > 0 {
				out = append(out, ropeC(","))
			}
			n++
			out = append(out, jsonQuote(ropeC(f.name)), ropeC(":"), ex.jsonEncode(f.typ, fv, err))
		}
		return ropeCat(append(out, ropeC("}"))...)
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			return ropeC("null")
		}
		ex.mapAccess(m, false, func() string { return "json.Marshal" })
		es := append([]*MapEntry(nil), m.es...)
		sort.SliceStable(es, func(i, j int) bool {
			a, ok1 := es[i].k.(string)
			b, ok2 := es[j].k.(string)
			return ok1 && ok2 && a < b
		})
		out := []*Rope{ropeC("{")}
		for i, e := range es {
			if i > 0 {
				out = append(out, ropeC(","))
			}
			var kr *Rope
			switch k := e.k.(type) {
			case uint64:
				kr = ropeC(strconv.FormatInt(int64(k), 10))
			case string, *Rope:
				kr = asRope(k)
			default:
				*err = "json: unsupported type"
				return ropeC("")
			}
			out = append(out, jsonQuote(kr), ropeC(":"), ex.jsonEncode(u.Elem(), e.v, err))
		}
		return ropeCat(append(out, ropeC("}"))...)
	case *types.Slice:
		if isNilVal(v) {
			return ropeC("null")
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return ropeCat(ropeC(`"`), b64Enc(ex.bytesRope(v)), ropeC(`"`))
		}
		return ex.jsonSeq(u.Elem(), v.(*Slice).elems(), err)
	case *types.Array:
		return ex.jsonSeq(u.Elem(), v.(Array), err)
	case *types.Basic:
		switch x := v.(type) {
		case string, *Rope:
			return jsonQuote(asRope(x))
		case bool:
			return ropeC(fmt.Sprint(x))
		case uint64:
			if u.Info()&types.IsUnsigned != 0 {
				return ropeC(strconv.FormatUint(x, 10))
			}
			return ropeC(strconv.FormatInt(sx(x, intWidth(u)), 10))
		case float64:
			b, _ := json.Marshal(x)
			return ropeC(string(b))
		case *Term:
			if x.sort == SBool {
				return ropeC(fmt.Sprint(ex.branch(x)))
			}
			return ropeA(&Atom{kind: "itoa", t: ex.p.Conv(x, 64, false)})
		}
	}
	*err = "json: unsupported type: " + t.String()
	return ropeC("")
}
func (ex *Exec) jsonSeq(et types.Type, es []Value, err *string) *Rope {
	out := []*Rope{ropeC("[")}
	for i, e := range es {
		if i > 0 {
			out = append(out, ropeC(","))
		}
		out = append(out, ex.jsonEncode(et, e, err))
	}
	return ropeCat(append(out, ropeC("]"))...)
}

func (ex *Exec) jsonUnmarshal(r *Rope, dst Value, stream bool) Value {
	n, e := ex.jsonParse(r, stream)
	if e != "" {
		return ex.mkErr(e)
	}
	i := dst.(Iface)
	if i.T == nil {
		return ex.mkErr("json: Unmarshal(nil)")
	}
	pt, ok := i.T.Underlying().(*types.Pointer)
	if !ok || isNilVal(i.V) {
		return ex.mkErr("json: Unmarshal(non-pointer)")
	}
	es := ""
	ex.jsonDecode(n, pt.Elem(), i.V.(*Value), &es)
	if es != "" {
		return ex.mkErr(es)
	}
	return nilErr()
}

func init() {
	stub("encoding/json.Unmarshal", func(ex *Exec, fr *Frame, a []Value) Value {
		return ex.jsonUnmarshal(ex.bytesRope(a[0]), a[1], false)
	})
	stub("encoding/json.NewDecoder", func(ex *Exec, fr *Frame, a []Value) Value {
		return ptrTo(Opaque{"json.Decoder", &jdec{r: a[0]}})
	})
	stub("(*encoding/json.Decoder).Decode", func(ex *Exec, fr *Frame, a []Value) Value {
		d := (*deref(ex, a[0])).(Opaque).data.(*jdec)
		r, _ := ex.readAll(fr, d.r)
		return ex.jsonUnmarshal(r, a[1], true)
	})
	stub("encoding/json.NewEncoder", func(ex *Exec, fr *Frame, a []Value) Value {
		return ptrTo(Opaque{"json.Encoder", &jdec{r: a[0]}})
	})
	stub("(*encoding/json.Encoder).Encode", func(ex *Exec, fr *Frame, a []Value) Value {
		d := (*deref(ex, a[0])).(Opaque).data.(*jdec)
		es := ""
		r := ex.marshalI(a[1], &es)
		if es != "" {
			return ex.mkErr(es)
		}
		ex.invoke(fr, d.r, "Write", ex.mkBytes(ropeCat(r, ropeC("\n"))))
		return nilErr()
	})
	mar := func(ex *Exec, fr *Frame, a []Value) Value {
		es := ""
		r := ex.marshalI(a[0], &es)
		if es != "" {
			return Tuple{(*Slice)(nil), ex.mkErr(es)}
		}
		return Tuple{ex.mkBytes(r), nilErr()}
	}
	stub("encoding/json.Marshal", mar)
	stub("encoding/json.MarshalIndent", mar)
}

type jdec struct{ r Value }

func (ex *Exec) marshalI(v Value, es *string) *Rope {
	i := v.(Iface)
	if i.T == nil {
		return ropeC("null")
	}
	return ex.jsonEncode(i.T, i.V, es)
}
