package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value

// Slice of ordinary elements.
type Slice struct {
	arr    *[]Value
	off    int
	ln, cp int
}

// SymBytes is a byte slice with symbolic content (whole-buffer granularity).
type SymBytes struct{ r *Rope }

// symbolic-length buffer not yet filled
type Iface struct {
	T types.Type
	V Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type NativeFn struct {
	name string
	f    func(ex *Exec, fr *Frame, args []Value) Value
}
type MapEntry struct {
	k, v Value
}
type MapV struct {
	es   []*MapEntry
	kt   types.Type
	ix   map[interface{}]*MapEntry // fast index when every key is a concrete scalar
	sym  int                       // number of keys that are not indexable
	race *raceInfo
}
type Opaque struct {
	kind string
	data any
}
type MutexV struct {
	w    bool
	r    int
	wait int // writers that wait: readers queue behind them
}
type ChanV struct {
	q      []Value
	cp     int
	closed bool
	hb     Value
}
type MapIter struct {
	es []*MapEntry
	m  *MapV
	i  int
}
type StrIter struct {
	s string
	i int
}

type cutErr struct{ msg string }

func cut(f string, a ...any) cutErr { return cutErr{fmt.Sprintf(f, a...)} }

var debugOn = os.Getenv("GOSYM_DEBUG") != ""

func debugf(f string, a ...any) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func typeName(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return ""
}

const blsPkg = "github.com/herumi/bls-go-binary/bls."

func isOpaqueType(n string) bool {
	if strings.HasPrefix(n, blsPkg) {
		return true
	}
	switch n {
	case "time.Time", "math/big.Int", "bytes.Buffer", "bytes.Reader", "strings.Reader", "strings.Builder", "os.File", "time.Timer", "time.Ticker", "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once", "sync.Map", bitsPkg + ".BitSet", "sync/atomic.Int32", "sync/atomic.Int64", "sync/atomic.Uint32", "sync/atomic.Uint64", "sync/atomic.Bool", "sync/atomic.Value":
		return true
	}
	return false
}

func (ex *Exec) zero(t types.Type) Value {
	t = types.Unalias(t)
	n := typeName(t)
	if n != "" && isOpaqueType(n) {
		switch n {
		case "sync.Mutex", "sync.RWMutex":
			return MutexV{}
		case "time.Time":
			return TimeV{zero: true}
		case "sync/atomic.Int32", "sync/atomic.Int64", "sync/atomic.Uint32", "sync/atomic.Uint64":
			return uint64(0)
		case "sync/atomic.Bool":
			return false
		}
		if strings.HasPrefix(n, blsPkg) {
			return BlsV{}
		}
		return Opaque{kind: n}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
		return uint64(0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = ex.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = ex.zero(u.Elem())
		}
		return a
	case *types.Slice:
		return (*Slice)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = ex.zero(u.At(i).Type())
		}
		return tp
	}
	panic(cut("zero of %s", t))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	}
	return v
}

func isNilVal(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *Value:
		return x == nil
	case *Slice:
		return x == nil
	case *SymBytes:
		return x == nil
	case *MapV:
		return x == nil
	case *ChanV:
		return x == nil
	case Iface:
		return x.T == nil
	case *Closure:
		return x == nil
	case *ssa.Function:
		return x == nil
	case *NativeFn:
		return x == nil
	}
	return false
}

func (ex *Exec) boolTerm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return ex.p.Bool(x)
	case *Term:
		return x
	}
	panic(cut("boolTerm %T", v))
}

// equals builds a Bool term for x == y.
func (ex *Exec) equals(x, y Value) *Term {
	p := ex.p
	switch a := x.(type) {
	case nil:
		return p.Bool(isNilVal(y))
	case bool:
		if b, ok := y.(bool); ok {
			return p.Bool(a == b)
		}
		return p.Eq(p.Bool(a), y.(*Term))
	case uint64:
		if b, ok := y.(uint64); ok {
			return p.Bool(a == b)
		}
		t := y.(*Term)
		return p.Eq(p.BV(a, int(t.sort)), t)
	case *Term:
		switch b := y.(type) {
		case *Term:
			return p.Eq(a, b)
		case uint64:
			return p.Eq(a, p.BV(b, int(a.sort)))
		case bool:
			return p.Eq(a, p.Bool(b))
		}
	case float64:
		if b, ok := y.(float64); ok {
			return p.Bool(a == b)
		}
	case string:
		if b, ok := y.(string); ok {
			return p.Bool(a == b)
		}
		return p.RopeEq(ropeC(a), asRope(y))
	case *Rope:
		return p.RopeEq(a, asRope(y))
	case Struct:
		b := y.(Struct)
		var c []*Term
		for i := range a {
			e := ex.equals(a[i], b[i])
			if e.isFalse() {
				return e
			}
			c = append(c, e)
		}
		return p.And(c...)
	case Array:
		b := y.(Array)
		if hasSym(a) || hasSym(b) {
			return p.RopeEq(ex.elemsRope(a), ex.elemsRope(b))
		}
		var c []*Term
		for i := range a {
			e := ex.equals(a[i], b[i])
			if e.isFalse() {
				return e
			}
			c = append(c, e)
		}
		return p.And(c...)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return p.Bool(a.T == nil && isNilVal(y))
		}
		if a.T == nil || b.T == nil {
			return p.Bool(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return p.Fals
		}
		return ex.equals(a.V, b.V)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return p.Bool(a == nil && isNilVal(y))
		}
		return p.Bool(a == b)
	case TimeV:
		return ex.timeEq(a, y.(TimeV))
	case *Slice, *SymBytes, *MapV, *ChanV, *Closure, *ssa.Function, *NativeFn:
		if isNilVal(x) || isNilVal(y) {
			return p.Bool(isNilVal(x) && isNilVal(y))
		}
		return p.Bool(x == y)
	case MutexV:
		return p.Bool(a == y.(MutexV))
	case BlsV:
		return p.Bool(a == y.(BlsV))
	case Opaque:
		b, ok := y.(Opaque)
		return p.Bool(ok && a.kind == b.kind && a.data == b.data)
	}
	panic(cut("equals %T %T", x, y))
}

// ---- maps -------------------------------------------------------------------

func keyIx(k Value) (interface{}, bool) {
	switch x := k.(type) {
	case string, uint64, bool:
		return x, true
	case Struct:
		var b strings.Builder
		for _, f := range x {
			switch y := f.(type) {
			case string:
				fmt.Fprintf(&b, "s%d:%s|", len(y), y)
			case uint64:
				fmt.Fprintf(&b, "u%d|", y)
			default:
				return nil, false
			}
		}
		return b.String(), true
	}
	return nil, false
}

func newMap(kt types.Type) *MapV { return &MapV{kt: kt, ix: map[interface{}]*MapEntry{}} }

func (ex *Exec) mapFind(m *MapV, k Value) *MapEntry {
	if m == nil {
		return nil
	}
	kk, conc := keyIx(k)
	if conc {
		if e, ok := m.ix[kk]; ok {
			return e
		}
		if m.sym == 0 {
			return nil
		}
	}
	for _, e := range m.es {
		if conc {
			if _, ok := keyIx(e.k); ok {
				continue
			}
		}
		if ex.branch(ex.equals(e.k, k)) {
			return e
		}
	}
	return nil
}
func (ex *Exec) mapSet(m *MapV, k, v Value) {
	if m == nil {
		ex.goPanic("assignment to entry in nil map")
	}
	if e := ex.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &MapEntry{k, v}
	m.es = append(m.es, e)
	if kk, ok := keyIx(k); ok {
		m.ix[kk] = e
	} else {
		m.sym++
	}
}
func (ex *Exec) mapDel(m *MapV, k Value) {
	e := ex.mapFind(m, k)
	if e == nil {
		return
	}
	m.remove(e)
}
func (m *MapV) remove(e *MapEntry) {
	for i, x := range m.es {
		if x == e {
			m.es = append(append([]*MapEntry(nil), m.es[:i]...), m.es[i+1:]...)
			break
		}
	}
	if kk, ok := keyIx(e.k); ok {
		delete(m.ix, kk)
	} else {
		m.sym--
	}
}

// ---- byte slices ------------------------------------------------------------

// bytesRope returns the content of a []byte Value as a rope.
func (ex *Exec) bytesRope(v Value) *Rope {
	switch x := v.(type) {
	case nil:
		return &Rope{}
	case *SymBytes:
		if x == nil {
			return &Rope{}
		}
		return x.r
	case *Slice:
		if x == nil {
			return &Rope{}
		}
		b := make([]byte, x.ln)
		for i := 0; i < x.ln; i++ {
			switch e := (*x.arr)[x.off+i].(type) {
			case uint64:
				b[i] = byte(e)
			case symByte:
				return ex.elemsRope((*x.arr)[x.off : x.off+x.ln])
			default:
				panic(cut("symbolic byte element"))
			}
		}
		return ropeC(string(b))
	case Array:
		return ex.elemsRope(x)
	}
	panic(cut("bytesRope %T", v))
}

// symByte is byte i of an n-byte symbolic rope stored in an ordinary buffer.
type symByte struct {
	r    *Rope
	i, n int
}

func (ex *Exec) elemsRope(es []Value) *Rope {
	var out []*Rope
	for i := 0; i < len(es); {
		switch e := es[i].(type) {
		case uint64:
			out = append(out, ropeC(string([]byte{byte(e)})))
			i++
		case symByte:
			j := i
			for j < len(es) {
				f, ok := es[j].(symByte)
				if !ok || f.r != e.r || f.i != e.i+(j-i) {
					break
				}
				j++
			}
			if e.i == 0 && j-i == e.n {
				out = append(out, e.r)
			} else {
				out = append(out, ex.subRope(e.r, e.i, e.i+(j-i)))
			}
			i = j
		default:
			panic(cut("symbolic byte element"))
		}
	}
	return ropeCat(out...)
}

// expand turns a rope of known length into per-byte values.
func (ex *Exec) expand(r *Rope) ([]Value, bool) {
	r = r.norm()
	n, ok := ex.p.RopeLen(r).(uint64)
	if !ok {
		return nil, false
	}
	var out []Value
	if s, ok := r.conc(); ok {
		for i := range s {
			out = append(out, uint64(s[i]))
		}
		return out, true
	}
	for i := 0; i < int(n); i++ {
		out = append(out, symByte{r, i, int(n)})
	}
	return out, true
}

// fill writes a rope into an existing byte buffer.
func (ex *Exec) fill(dst Value, r *Rope) {
	switch d := dst.(type) {
	case *SymBytes:
		d.r = r
	case *Slice:
		es, ok := ex.expand(r)
		if !ok {
			panic(cut("fill: symbolic length"))
		}
		if d == nil {
			if len(es) > 0 {
				ex.goPanic("index out of range")
			}
			return
		}
		if len(es) > d.ln {
			ex.goPanic("index out of range")
		}
		copy((*d.arr)[d.off:], es)
	default:
		panic(cut("fill %T", dst))
	}
}

func hasSym(a Array) bool {
	for _, e := range a {
		if _, ok := e.(symByte); ok {
			return true
		}
	}
	return false
}

func (ex *Exec) mkBytes(r *Rope) Value {
	r = r.norm()
	if s, ok := r.conc(); ok {
		arr := make([]Value, len(s))
		for i := range arr {
			arr[i] = uint64(s[i])
		}
		return &Slice{&arr, 0, len(s), len(s)}
	}
	return &SymBytes{r}
}
func mkSlice(vs []Value) *Slice {
	return &Slice{&vs, 0, len(vs), len(vs)}
}
func (s *Slice) elems() []Value {
	if s == nil {
		return nil
	}
	return (*s.arr)[s.off : s.off+s.ln]
}
