package main

import (
	"go/types"
	nethttp "net/http"
	"sort"
	"strings"
)

// ---- more of the standard library -------------------------------------------

func smap(ex *Exec, v Value) *MapV {
	p := deref(ex, v)
	ex.synced(p)
	o, ok := (*p).(Opaque)
	if !ok {
		panic(cut("sync.Map is %T", *p))
	}
	if o.data == nil {
		o.data = newMap(types.NewInterfaceType(nil, nil))
		*p = o
	}
	return o.data.(*MapV)
}

func nilIface() Value { return Iface{} }

func init() {
	stub("(*sync.Map).Load", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.yield()
		if e := ex.mapFind(smap(ex, a[0]), a[1]); e != nil {
			return Tuple{copyVal(e.v), true}
		}
		return Tuple{nilIface(), false}
	})
	stub("(*sync.Map).Store", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.yield()
		ex.mapSet(smap(ex, a[0]), a[1], a[2])
		return nil
	})
	stub("(*sync.Map).LoadOrStore", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.yield()
		m := smap(ex, a[0])
		if e := ex.mapFind(m, a[1]); e != nil {
			return Tuple{copyVal(e.v), true}
		}
		ex.mapSet(m, a[1], a[2])
		return Tuple{a[2], false}
	})
	stub("(*sync.Map).LoadAndDelete", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.yield()
		m := smap(ex, a[0])
		if e := ex.mapFind(m, a[1]); e != nil {
			m.remove(e)
			return Tuple{copyVal(e.v), true}
		}
		return Tuple{nilIface(), false}
	})
	stub("(*sync.Map).Delete", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.yield()
		ex.mapDel(smap(ex, a[0]), a[1])
		return nil
	})
	stub("(*sync.Map).Range", func(ex *Exec, fr *Frame, a []Value) Value {
		for _, e := range append([]*MapEntry(nil), smap(ex, a[0]).es...) {
			if !ex.cond(ex.call(fr, a[1], []Value{e.k, copyVal(e.v)}, nil)) {
				break
			}
		}
		return nil
	})
	// atomics
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool"} {
		ty := ty
		T := "(*sync/atomic." + ty + ")."
		w := 64
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		stub(T+"Load", func(ex *Exec, fr *Frame, a []Value) Value {
			ex.yield()
			ex.synced(deref(ex, a[0]))
			return *deref(ex, a[0])
		})
		stub(T+"Store", func(ex *Exec, fr *Frame, a []Value) Value {
			ex.yield()
			ex.synced(deref(ex, a[0]))
			*deref(ex, a[0]) = a[1]
			return nil
		})
		stub(T+"Swap", func(ex *Exec, fr *Frame, a []Value) Value {
			ex.yield()
			p := deref(ex, a[0])
			ex.synced(p)
			o := *p
			*p = a[1]
			return o
		})
		stub(T+"CompareAndSwap", func(ex *Exec, fr *Frame, a []Value) Value {
			ex.yield()
			p := deref(ex, a[0])
			ex.synced(p)
			if ex.branch(ex.equals(*p, a[1])) {
				*p = a[2]
				return true
			}
			return false
		})
		stub(T+"Add", func(ex *Exec, fr *Frame, a []Value) Value {
			ex.yield()
			p := deref(ex, a[0])
			ex.synced(p)
			*p = ex.p.simpV(ex.p.BVOp("bvadd", ex.p.asBV(*p, w), ex.p.asBV(a[1], w)))
			return *p
		})
		f := "sync/atomic."
		stub(f+"Load"+ty, func(ex *Exec, fr *Frame, a []Value) Value {
			ex.yield()
			ex.synced(deref(ex, a[0]))
			return *deref(ex, a[0])
		})
		stub(f+"Store"+ty, func(ex *Exec, fr *Frame, a []Value) Value {
			ex.yield()
			ex.synced(deref(ex, a[0]))
			*deref(ex, a[0]) = a[1]
			return nil
		})
		stub(f+"Add"+ty, stubs[T+"Add"])
		stub(f+"CompareAndSwap"+ty, stubs[T+"CompareAndSwap"])
	}
	// sort
	less := func(name string, lt func(ex *Exec, a, b Value) bool) {
		stub(name, func(ex *Exec, fr *Frame, a []Value) Value {
			es := a[0].(*Slice).elems()
			sort.SliceStable(es, func(i, j int) bool { return lt(ex, es[i], es[j]) })
			return nil
		})
	}
	less("sort.Strings", func(ex *Exec, a, b Value) bool {
		return ex.concStr(a, "sort.Strings") < ex.concStr(b, "sort.Strings")
	})
	less("sort.Ints", func(ex *Exec, a, b Value) bool { return ex.cint(a, "sort.Ints") < ex.cint(b, "sort.Ints") })
	slice := func(ex *Exec, fr *Frame, a []Value) Value {
		// insertion sort calling the user's comparison on the slice itself
		s, _ := a[0].(Iface).V.(*Slice)
		es := s.elems()
		for i := 1; i < len(es); i++ {
			for j := i; j > 0; j-- {
				if !ex.cond(ex.call(fr, a[1], []Value{uint64(j), uint64(j - 1)}, nil)) {
					break
				}
				es[j], es[j-1] = es[j-1], es[j]
			}
		}
		return nil
	}
	stub("sort.Slice", slice)
	stub("sort.SliceStable", slice)
	// errors
	stub("errors.Is", func(ex *Exec, fr *Frame, a []Value) Value {
		e, ok := a[0].(Iface)
		for ok && e.T != nil {
			if t, ok := a[1].(Iface); ok && t.T != nil && ex.branch(ex.equals(e, t)) {
				return true
			}
			m := ex.prog.method(e.T, "Unwrap")
			if m == nil {
				return false
			}
			e, ok = ex.callFn(fr, m, []Value{copyVal(e.V)}, nil).(Iface)
		}
		t, _ := a[1].(Iface)
		return (!ok || e.T == nil) && t.T == nil
	})
	stub("net/http.StatusText", func(ex *Exec, fr *Frame, a []Value) Value { return nethttp.StatusText(ex.cint(a[0], "status")) })
	stub("net/http.NotFound", func(ex *Exec, fr *Frame, a []Value) Value {
		return stubs["net/http.Error"](ex, fr, []Value{a[0], "404 page not found", uint64(404)})
	})
	stub("(net/http.Header).Del", func(ex *Exec, fr *Frame, a []Value) Value { return nil })
	// pools give new objects: what was put back may not be used any more
	stub("(*sync.Pool).Put", func(ex *Exec, fr *Frame, a []Value) Value { return nil })
	stub("(*sync.Pool).Get", func(ex *Exec, fr *Frame, a []Value) Value {
		s := (*deref(ex, a[0])).(Struct)
		f := s[fieldIx(ex.prog.typeOf("sync", "Pool"), "New")]
		if c, ok := f.(*Closure); f == nil || ok && c == nil {
			return Iface{}
		}
		return ex.call(fr, f, nil, nil)
	})
	stub("(*sync/atomic.Value).Load", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.yield()
		p := deref(ex, a[0])
		ex.synced(p)
		if i, ok := (*p).(Opaque).data.(Iface); ok {
			return i
		}
		return Iface{}
	})
	stub("(*sync/atomic.Value).Store", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.yield()
		p := deref(ex, a[0])
		ex.synced(p)
		*p = Opaque{"sync/atomic.Value", copyVal(a[1])}
		return nil
	})
	// HTTP requests made by hand
	newReq := func(o int) stubFn {
		return func(ex *Exec, fr *Frame, a []Value) Value {
			rt := ex.prog.typeOf("net/http", "Request")
			r := ex.mkStruct(rt, map[string]Value{"Method": a[o], "RequestURI": a[o+1]})
			if b, ok := a[o+2].(Iface); ok && b.T != nil {
				d, _ := ex.readAll(fr, b)
				r[fieldIx(rt, "Body")] = ex.mkBody(d)
			}
			r[fieldIx(rt, "Header")] = newMap(types.Typ[types.String])
			return Tuple{ptrTo(r), nilErr()}
		}
	}
	stub("net/http.NewRequest", newReq(0))
	stub("net/http.NewRequestWithContext", newReq(1))
	stub("(net/http.Header).Add", func(ex *Exec, fr *Frame, a []Value) Value { return nil })
	stub("(*net/http.Client).Do", func(ex *Exec, fr *Frame, a []Value) Value {
		rt := ex.prog.typeOf("net/http", "Request")
		r := (*deref(ex, a[1])).(Struct)
		body := &Rope{}
		if b, ok := r[fieldIx(rt, "Body")].(Iface); ok && b.T != nil {
			body, _ = ex.readAll(fr, b)
		}
		m := ex.concStr(r[fieldIx(rt, "Method")], "method")
		if m == "" {
			m = "GET"
		}
		return ex.doHTTP(fr, m, asRope(r[fieldIx(rt, "RequestURI")]), "application/json", body)
	})
	stub("(*net/http.Client).CloseIdleConnections", func(ex *Exec, fr *Frame, a []Value) Value { return nil })
	stub("context.Background", func(ex *Exec, fr *Frame, a []Value) Value { return Iface{types.Typ[types.Int], uint64(0)} })
}
