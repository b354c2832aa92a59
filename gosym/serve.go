package main

import (
	"go/types"
	"net/url"
	"strings"
)

// Servers: gorilla/mux routers and net/http's serving functions. A server is known by the
// port of its address; http.Handle belongs to the goroutine that serves next, since several
// servers that are processes of their own in the field share one here.

type muxRouter struct {
	strict bool
	prefix string
	routes []*muxRoute
	root   *muxRouter
}
type muxRoute struct {
	r       *muxRouter
	path    string
	prefix  bool
	h       Value // func(ResponseWriter, *Request) or Iface http.Handler
	methods []string
}
type muxReg struct { // a net/http ServeMux
	pats []string
	hs   []Value
}
type serverE struct {
	addr string
	h    Value
}

const muxP = "github.com/gorilla/mux"

func init() {
	router := func(ex *Exec, v Value) *muxRouter { return (*deref(ex, v)).(Opaque).data.(*muxRouter) }
	route := func(ex *Exec, v Value) *muxRoute { return (*deref(ex, v)).(Opaque).data.(*muxRoute) }
	wrapR := func(r *muxRoute) Value { return ptrTo(Opaque{"mux.Route", r}) }
	add := func(r *muxRouter, rt *muxRoute) *muxRoute {
		rt.r = r
		root := r
		if r.root != nil {
			root = r.root
		}
		rt.path = r.prefix + rt.path
		root.routes = append(root.routes, rt)
		return rt
	}
	stub(muxP+".NewRouter", func(ex *Exec, fr *Frame, a []Value) Value {
		return ptrTo(Opaque{"mux.Router", &muxRouter{}})
	})
	stub("(*"+muxP+".Router).StrictSlash", func(ex *Exec, fr *Frame, a []Value) Value {
		router(ex, a[0]).strict = ex.cond(a[1])
		return a[0]
	})
	for _, n := range []string{"HandleFunc", "Handle"} {
		stub("(*"+muxP+".Router)."+n, func(ex *Exec, fr *Frame, a []Value) Value {
			return wrapR(add(router(ex, a[0]), &muxRoute{path: ex.concStr(a[1], "route"), h: a[2]}))
		})
	}
	stub("(*"+muxP+".Router).Path", func(ex *Exec, fr *Frame, a []Value) Value {
		return wrapR(add(router(ex, a[0]), &muxRoute{path: ex.concStr(a[1], "route")}))
	})
	stub("(*"+muxP+".Router).PathPrefix", func(ex *Exec, fr *Frame, a []Value) Value {
		return wrapR(add(router(ex, a[0]), &muxRoute{path: ex.concStr(a[1], "route"), prefix: true}))
	})
	stub("(*"+muxP+".Route).Subrouter", func(ex *Exec, fr *Frame, a []Value) Value {
		rt := route(ex, a[0])
		root := rt.r
		if root.root != nil {
			root = root.root
		}
		return ptrTo(Opaque{"mux.Router", &muxRouter{strict: rt.r.strict, prefix: rt.path, root: root}})
	})
	for _, n := range []string{"HandlerFunc", "Handler"} {
		stub("(*"+muxP+".Route)."+n, func(ex *Exec, fr *Frame, a []Value) Value {
			route(ex, a[0]).h = a[1]
			return a[0]
		})
	}
	methods := func(ex *Exec, v Value) []string {
		var out []string
		s, _ := v.(*Slice)
		if s == nil {
			return nil
		}
		for _, m := range s.elems() {
			out = append(out, strings.ToUpper(ex.concStr(m, "method")))
		}
		return out
	}
	stub("(*"+muxP+".Route).Methods", func(ex *Exec, fr *Frame, a []Value) Value {
		route(ex, a[0]).methods = methods(ex, a[1])
		return a[0]
	})
	stub("(*"+muxP+".Router).Methods", func(ex *Exec, fr *Frame, a []Value) Value {
		return wrapR(add(router(ex, a[0]), &muxRoute{methods: methods(ex, a[1])}))
	})
	stub("(*"+muxP+".Route).Path", func(ex *Exec, fr *Frame, a []Value) Value {
		r := route(ex, a[0])
		r.path = r.r.prefix + ex.concStr(a[1], "route")
		return a[0]
	})
	stub("(*"+muxP+".Route).Name", func(ex *Exec, fr *Frame, a []Value) Value { return a[0] })

	pend := func(ex *Exec) *muxReg {
		if ex.env.pendMux == nil {
			ex.env.pendMux = map[int]*muxReg{}
		}
		m := ex.env.pendMux[ex.cur.id]
		if m == nil {
			m = &muxReg{}
			ex.env.pendMux[ex.cur.id] = m
		}
		return m
	}
	reg := func(m *muxReg, ex *Exec, p, h Value) Value {
		m.pats = append(m.pats, ex.concStr(p, "pattern"))
		m.hs = append(m.hs, h)
		return nil
	}
	for _, n := range []string{"Handle", "HandleFunc"} {
		stub("net/http."+n, func(ex *Exec, fr *Frame, a []Value) Value { return reg(pend(ex), ex, a[0], a[1]) })
		stub("(*net/http.ServeMux)."+n, func(ex *Exec, fr *Frame, a []Value) Value {
			return reg((*deref(ex, a[0])).(Opaque).data.(*muxReg), ex, a[1], a[2])
		})
	}
	stub("net/http.NewServeMux", func(ex *Exec, fr *Frame, a []Value) Value { return ptrTo(Opaque{"http.ServeMux", &muxReg{}}) })
	serve := func(ex *Exec, addr Value, h Value) Value {
		if isNilVal(h) {
			h = Opaque{"http.ServeMux", pend(ex)}
			delete(ex.env.pendMux, ex.cur.id)
		}
		s := ex.concStr(addr, "address")
		if s == "" {
			s = ":80"
		}
		ex.env.servers = append(ex.env.servers, &serverE{s, h})
		ex.block(func() bool { return false }, "serving")
		return nil
	}
	stub("net/http.ListenAndServe", func(ex *Exec, fr *Frame, a []Value) Value { return serve(ex, a[0], a[1]) })
	stub("(*net/http.Server).ListenAndServe", func(ex *Exec, fr *Frame, a []Value) Value {
		t := ex.prog.typeOf("net/http", "Server")
		s := (*deref(ex, a[0])).(Struct)
		return serve(ex, s[fieldIx(t, "Addr")], s[fieldIx(t, "Handler")])
	})
}

// port of an address or host, "" if there is none.
func portOf(s string) string {
	if i := strings.LastIndexByte(s, ':'); i >= 0 {
		return s[i+1:]
	}
	return "80"
}

// dispatch hands a request to the server it is for, the way a client and server would.
func (ex *Exec) dispatch(fr *Frame, method string, u *Rope, body *Rope) Value {
	fail := Tuple{uint64(0), "", true}
	s, ok := u.conc()
	if !ok {
		// a URL with unknown parts: one of those that exist, or none
		for _, sv := range ex.env.servers {
			for _, p := range ex.paths(sv.h) {
				cand := "http://localhost:" + portOf(sv.addr) + p
				if ex.branch(ex.p.RopeEq(u, ropeC(cand))) {
					return ex.dispatch(fr, method, ropeC(cand), body)
				}
			}
		}
		ex.notes["requests to unknown URLs are taken to fail"] = true
		return fail
	}
	pu, err := url.Parse(s)
	if err != nil {
		return fail
	}
	for _, sv := range ex.env.servers {
		if portOf(sv.addr) != portOf(pu.Host) {
			continue
		}
		return ex.route(fr, sv.h, method, pu, body, 0)
	}
	return fail
}

func (ex *Exec) paths(h Value) []string {
	var out []string
	if i, ok := h.(Iface); ok {
		h = i.V
	}
	if p, ok := h.(*Value); ok && p != nil {
		h = *p
	}
	o, ok := h.(Opaque)
	if !ok {
		return nil
	}
	switch d := o.data.(type) {
	case *muxReg:
		for i, p := range d.pats {
			ps := ex.paths(d.hs[i])
			if ps == nil {
				ps = []string{p}
			}
			out = append(out, ps...)
		}
	case *muxRouter:
		for _, r := range d.routes {
			out = append(out, r.path)
		}
	}
	return out
}

func (ex *Exec) route(fr *Frame, h Value, method string, u *url.URL, body *Rope, depth int) Value {
	path := u.Path
	if path == "" {
		path = "/"
	}
	inner := h
	if i, ok := inner.(Iface); ok {
		inner = i.V
	}
	if p, ok := inner.(*Value); ok && p != nil {
		inner = *p
	}
	if o, ok := inner.(Opaque); ok {
		switch d := o.data.(type) {
		case *muxReg:
			best := -1
			for i, p := range d.pats {
				if m := strings.IndexByte(p, ' '); m >= 0 { // "POST /x"
					if p[:m] != method {
						continue
					}
					p = p[m+1:]
				}
				if (path == p || strings.HasSuffix(p, "/") && strings.HasPrefix(path, p)) && (best < 0 || len(p) > len(d.pats[best])) {
					best = i
				}
			}
			if best < 0 {
				return Tuple{uint64(404), "404 page not found\n", false}
			}
			return ex.route(fr, d.hs[best], method, u, body, depth)
		case *muxRouter:
			wrong := false
			for _, r := range d.routes {
				if r.h == nil {
					continue
				}
				hit := r.path == path || r.prefix && strings.HasPrefix(path, r.path)
				slash := r.r.strict && !r.prefix && !hit && (r.path == path+"/" || r.path+"/" == path)
				if !hit && !slash {
					continue
				}
				okM := len(r.methods) == 0
				for _, m := range r.methods {
					okM = okM || m == method
				}
				if !okM {
					wrong = true
					continue
				}
				if slash {
					if depth > 8 {
						return Tuple{uint64(0), "", true}
					}
					u2 := *u
					u2.Path = r.path
					if method != "GET" && method != "HEAD" {
						return ex.route(fr, h, "GET", &u2, &Rope{}, depth+1) // what clients do on 301
					}
					return ex.route(fr, h, method, &u2, body, depth+1)
				}
				return ex.handle(fr, r.h, method, u, body)
			}
			if wrong {
				return Tuple{uint64(405), "", false}
			}
			return Tuple{uint64(404), "404 page not found\n", false}
		}
	}
	return ex.handle(fr, h, method, u, body)
}

func (ex *Exec) handle(fr *Frame, h Value, method string, u *url.URL, body *Rope) Value {
	rwT := ex.prog.typeOf(rtPkg, "RW")
	w := ptrTo(ex.mkStruct(rwT, nil))
	reqT := ex.prog.typeOf("net/http", "Request")
	urlT := ex.prog.typeOf("net/url", "URL")
	req := ptrTo(ex.mkStruct(reqT, map[string]Value{"Method": method, "Body": ex.mkBody(body), "Header": newMap(types.Typ[types.String]),
		"RemoteAddr": "127.0.0.1:9", "Host": u.Host, "RequestURI": u.RequestURI(), "ContentLength": ex.p.RopeLen(body),
		"URL": ptrTo(ex.mkStruct(urlT, map[string]Value{"Scheme": "http", "Host": u.Host, "Path": u.Path, "RawQuery": u.RawQuery}))}))
	wi := Iface{types.NewPointer(rwT), w}
	if i, ok := h.(Iface); ok && i.T != nil && i.T.String() == "net/http.HandlerFunc" {
		ex.call(fr, i.V, []Value{wi, req}, nil)
	} else if ok {
		ex.invoke(fr, i, "ServeHTTP", wi, req)
	} else {
		ex.call(fr, h, []Value{wi, req}, nil)
	}
	s := (*w).(Struct)
	code := s[fieldIx(rwT, "Code")]
	if c, ok := code.(uint64); ok && c == 0 {
		code = uint64(200)
	}
	return Tuple{code, s[fieldIx(rwT, "Out")], false}
}
