package main

import (
	"fmt"
	"go/types"
)

// ---- the harness interface --------------------------------------------------

func (ex *Exec) label(l string) string {
	n := ex.labelN[l]
	ex.labelN[l] = n + 1
	if n == 0 {
		return l
	}
	return fmt.Sprintf("%s#%d", l, n)
}

var tierThorough bool

func init() {
	r := func(n string, f stubFn) { stubs[rtPkg+"."+n] = f }
	r("Str", func(ex *Exec, fr *Frame, a []Value) Value {
		l := ex.label(a[0].(string))
		v := ex.p.Var(l, SStr)
		ex.inputs = append(ex.inputs, Input{label: l, kind: "str", t: v})
		return strVal(ropeA(&Atom{kind: "var", t: v, clean: true}))
	})
	r("Int", func(ex *Exec, fr *Frame, a []Value) Value {
		l := ex.label(a[0].(string))
		v := ex.p.Var(l, 64)
		ex.inputs = append(ex.inputs, Input{label: l, kind: "int", t: v})
		ex.assume(ex.p.And(ex.p.BVCmp("bvsle", ex.p.asBV(a[1], 64), v), ex.p.BVCmp("bvsle", v, ex.p.asBV(a[2], 64))))
		return v
	})
	r("U64", func(ex *Exec, fr *Frame, a []Value) Value {
		l := ex.label(a[0].(string))
		v := ex.p.Var(l, 64)
		ex.inputs = append(ex.inputs, Input{label: l, kind: "u64", t: v})
		return v
	})
	r("Bool", func(ex *Exec, fr *Frame, a []Value) Value {
		l := ex.label(a[0].(string))
		v := ex.p.Var(l, SBool)
		ex.inputs = append(ex.inputs, Input{label: l, kind: "bool", t: v})
		return v
	})
	r("Choice", func(ex *Exec, fr *Frame, a []Value) Value {
		l := ex.label(a[0].(string))
		n := ex.cint(a[1], "Choice")
		v := ex.p.Var(l, 8)
		ex.inputs = append(ex.inputs, Input{label: l, kind: "int", t: v})
		ex.assume(ex.p.BVCmp("bvult", v, ex.p.BV(uint64(n), 8)))
		for i := 0; i < n-1; i++ {
			if ex.branchFree(ex.p.Eq(v, ex.p.BV(uint64(i), 8))) {
				return uint64(i)
			}
		}
		return uint64(n - 1)
	})
	r("Assume", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.assume(ex.boolTerm(a[0]))
		return nil
	})
	r("Assert", func(ex *Exec, fr *Frame, a []Value) Value {
		l := a[1].(string)
		ex.asserts[l]++
		t := ex.boolTerm(a[0])
		if v, ok := ex.known(t); ok {
			if !v {
				panic(violationV{l, "assertion is false on this path"})
			}
			return nil
		}
		// the solver decides the negation; the path forks if both are possible
		if !ex.branch(t) {
			panic(violationV{l, "assertion can be false"})
		}
		return nil
	})
	r("Reach", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.reached[a[0].(string)] = true
		return nil
	})
	r("Try", func(ex *Exec, fr *Frame, a []Value) (ret Value) {
		ret = false
		defer func() {
			if e := recover(); e != nil {
				if g, ok := e.(goPanicV); ok {
					debugf("Try: panic %v", g.v)
					ret = true
					return
				}
				panic(e)
			}
		}()
		ex.call(fr, a[0], nil, nil)
		return
	})
	r("Tier", func(ex *Exec, fr *Frame, a []Value) Value {
		if tierThorough {
			return a[1]
		}
		return a[0]
	})
	r("RSAKey", func(ex *Exec, fr *Frame, a []Value) Value { return ptrTo(ex.rsaKey(ex.cint(a[0], "RSAKey") + 1)) })
	r("BLSKey", func(ex *Exec, fr *Frame, a []Value) Value {
		return ptrTo(BlsV{kind: "sec", key: ex.cint(a[0], "BLSKey") + 1})
	})
	r("NewClient", func(ex *Exec, fr *Frame, a []Value) Value { return ptrTo(Opaque{"http.Client", new(int)}) })
	r("OnHTTP", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.env.onHTTP = a[0]
		if isNilVal(a[0]) {
			ex.env.onHTTP = nil
		}
		return nil
	})
	r("Dispatch", func(ex *Exec, fr *Frame, a []Value) Value {
		return ex.dispatch(fr, ex.concStr(a[0], "method"), asRope(a[1]), asRope(a[2]))
	})
	r("Sent", func(ex *Exec, fr *Frame, a []Value) Value {
		t := ex.prog.typeOf(rtPkg, "Msg")
		vs := []Value{}
		for _, m := range ex.env.sent {
			vs = append(vs, ex.mkStruct(t, map[string]Value{"Method": m.method, "URL": strVal(m.url), "Body": strVal(m.body)}))
		}
		return mkSlice(vs)
	})
	r("ClearSent", func(ex *Exec, fr *Frame, a []Value) Value { ex.env.sent = nil; return nil })
	r("ClockMinute", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.env.startMin = a[0]
		return nil
	})
	r("Advance", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.advance(int64(ex.cint(a[0], "Advance")))
		return nil
	})
	r("Drain", func(ex *Exec, fr *Frame, a []Value) Value { ex.drain(); return nil })
	r("MapOrder", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.env.mapRev = ex.cond(a[0])
		return nil
	})
	r("Par", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.conc = true
		ex.preempt = ex.cint(a[0], "preemptions")
		fs := a[1].(*Slice).elems()
		left := len(fs)
		for i, f := range fs {
			f := f
			ex.spawn(fmt.Sprintf("par%d", i), func() {
				ex.call(nil, f, nil, nil)
				left--
				ex.unblockAll()
			}).par = true
		}
		ex.block(func() bool { return left == 0 }, "Par")
		ex.conc = false
		return nil
	})
	r("Deadlocks", func(ex *Exec, fr *Frame, a []Value) (ret Value) {
		ret = false
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(deadlockV); ok {
					ret = true
					return
				}
				panic(e)
			}
		}()
		ex.call(fr, a[0], nil, nil)
		return
	})
	r("And", func(ex *Exec, fr *Frame, a []Value) Value {
		var c []*Term
		for _, e := range a[0].(*Slice).elems() {
			c = append(c, ex.boolTerm(e))
		}
		return ex.p.simpV(ex.p.And(c...))
	})
	r("Or", func(ex *Exec, fr *Frame, a []Value) Value {
		var c []*Term
		for _, e := range a[0].(*Slice).elems() {
			c = append(c, ex.boolTerm(e))
		}
		return ex.p.simpV(ex.p.Or(c...))
	})
	r("DER", func(ex *Exec, fr *Frame, a []Value) Value { return notHandled{} })
	_ = types.Typ
}
