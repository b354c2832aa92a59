package main

import (
	"fmt"
	"strings"
)

// ---- files ------------------------------------------------------------------
//
// A flat list of files and directories. Names are ropes; repeated slashes and "./"
// in their constant parts do not matter. Writing needs an existing parent directory;
// the working directory and the harness scratch directory exist.

type openFile struct {
	f    *FileE // nil: a directory
	read bool
	wr   bool
}

// cleanName collapses repeated slashes and drops a trailing one.
func cleanName(r *Rope) *Rope {
	r = r.norm()
	var out []Part
	prev := byte(0)
	for i, p := range r.parts {
		if p.a != nil {
			out = append(out, p)
			prev = 'x'
			continue
		}
		var b []byte
		for j := 0; j < len(p.c); j++ {
			if p.c[j] == '/' && prev == '/' {
				continue
			}
			b = append(b, p.c[j])
			prev = p.c[j]
		}
		s := string(b)
		for strings.Contains(s, "/./") {
			s = strings.ReplaceAll(s, "/./", "/")
		}
		if i == 0 {
			s = strings.TrimPrefix(s, "./")
		}
		if i == len(r.parts)-1 && len(s) > 1 {
			s = strings.TrimSuffix(s, "/")
		}
		out = append(out, Part{c: s})
	}
	return (&Rope{out}).norm()
}

// parentDir is the name up to the last constant slash; false: the working directory.
func parentDir(r *Rope) (*Rope, bool) {
	for i := len(r.parts) - 1; i >= 0; i-- {
		p := r.parts[i]
		if p.a != nil {
			continue
		}
		if k := strings.LastIndexByte(p.c, '/'); k >= 0 {
			out := append([]Part{}, r.parts[:i]...)
			out = append(out, Part{c: p.c[:k]})
			return (&Rope{out}).norm(), len(out) > 1 || k > 0
		}
	}
	return nil, false
}

func (ex *Exec) findFile(name *Rope) *FileE {
	name = cleanName(name)
	for _, f := range ex.env.fs {
		if ex.branch(ex.p.RopeEq(f.name, name)) {
			return f
		}
	}
	return nil
}
func (ex *Exec) isDir(name *Rope) bool {
	name = cleanName(name)
	if s, ok := name.conc(); ok && (s == "" || s == "." || s == "/" || s == vfsRoot) {
		return true
	}
	for _, d := range ex.env.dirs {
		if ex.branch(ex.p.RopeEq(d, name)) {
			return true
		}
	}
	return false
}
func (ex *Exec) mkdirAll(name *Rope) {
	name = cleanName(name)
	if ex.isDir(name) {
		return
	}
	if p, ok := parentDir(name); ok {
		ex.mkdirAll(p)
	}
	ex.env.dirs = append(ex.env.dirs, name)
}

// createFile truncates or creates; nil if the parent directory does not exist.
func (ex *Exec) createFile(name *Rope) *FileE {
	if f := ex.findFile(name); f != nil {
		f.data = &Rope{}
		return f
	}
	name = cleanName(name)
	if p, ok := parentDir(name); ok && !ex.isDir(p) {
		return nil
	}
	f := &FileE{name: name, data: &Rope{}}
	ex.env.fs = append(ex.env.fs, f)
	return f
}

// ---- crash points ----

type crashS struct {
	v *Term
	n int
}
type crashV struct{}

// crashPoint: the process may end here, when the harness asks for it.
func (ex *Exec) crashPoint() {
	c := ex.env.crash
	if c == nil {
		return
	}
	n := c.n
	c.n++
	if n >= 60 {
		panic(cut("too many crash points"))
	}
	if ex.branchFree(ex.p.Eq(c.v, ex.p.BV(uint64(n), 8))) {
		panic(crashV{})
	}
}

// half is what of a file got written when the process ends in the middle.
func half(r *Rope) *Rope {
	if s, ok := r.conc(); ok {
		return ropeC(s[:len(s)/2])
	}
	if p := r.parts[0]; p.a == nil {
		return ropeC(p.c)
	}
	return &Rope{}
}

const vfsRoot = "/verif-scratch"

func init() {
	open := func(ex *Exec, f *FileE, wr bool) Value {
		return Tuple{ptrTo(Opaque{"os.File", &openFile{f: f, wr: wr}}), nilErr()}
	}
	notExist := func(ex *Exec) Value { return ex.mkErr("no such file or directory") }
	stub(rtPkg+".Dir", func(ex *Exec, fr *Frame, a []Value) Value { return vfsRoot })
	stub("os.Open", func(ex *Exec, fr *Frame, a []Value) Value {
		if f := ex.findFile(asRope(a[0])); f != nil {
			return open(ex, f, false)
		}
		if ex.isDir(asRope(a[0])) {
			return open(ex, nil, false)
		}
		return Tuple{(*Value)(nil), notExist(ex)}
	})
	stub(rtPkg+".Crash", func(ex *Exec, fr *Frame, a []Value) (ret Value) {
		l := ex.label("crash")
		v := ex.p.Var(l, 8)
		ex.inputs = append(ex.inputs, Input{label: l, kind: "int", t: v})
		ex.assume(ex.p.BVCmp("bvult", v, ex.p.BV(64, 8)))
		ex.env.crash = &crashS{v: v}
		ret = false
		defer func() {
			ex.env.crash = nil
			if e := recover(); e != nil {
				if _, ok := e.(crashV); !ok {
					panic(e)
				}
				ret = true
			}
		}()
		ex.call(fr, a[0], nil, nil)
		return
	})
	around := func(f func(ex *Exec, fr *Frame, a []Value) Value) func(ex *Exec, fr *Frame, a []Value) Value {
		return func(ex *Exec, fr *Frame, a []Value) Value {
			ex.crashPoint()
			v := f(ex, fr, a)
			ex.crashPoint()
			return v
		}
	}
	stub("os.Create", around(func(ex *Exec, fr *Frame, a []Value) Value {
		if f := ex.createFile(asRope(a[0])); f != nil {
			return open(ex, f, true)
		}
		return Tuple{(*Value)(nil), notExist(ex)}
	}))
	stub("os.OpenFile", around(func(ex *Exec, fr *Frame, a []Value) Value {
		const trunc, creat, app, wronly, rdwr = 0x200, 0x40, 0x400, 1, 2
		fl := ex.cint(a[1], "open flags")
		f := ex.findFile(asRope(a[0]))
		if f == nil && fl&creat != 0 {
			f = ex.createFile(asRope(a[0]))
		}
		if f == nil {
			return Tuple{(*Value)(nil), notExist(ex)}
		}
		if fl&trunc != 0 {
			f.data = &Rope{}
		} else if fl&(wronly|rdwr) != 0 && fl&app == 0 {
			if s, ok := f.data.conc(); !ok || s != "" {
				panic(cut("open for overwriting"))
			}
		}
		return open(ex, f, fl&(wronly|rdwr) != 0)
	}))
	rf := func(ex *Exec, fr *Frame, a []Value) Value {
		if f := ex.findFile(asRope(a[0])); f != nil {
			return Tuple{ex.mkBytes(f.data), nilErr()}
		}
		return Tuple{(*Slice)(nil), notExist(ex)}
	}
	stub("os.ReadFile", rf)
	stub("io/ioutil.ReadFile", rf)
	wf := func(ex *Exec, fr *Frame, a []Value) Value {
		ex.crashPoint()
		f := ex.createFile(asRope(a[0]))
		if f == nil {
			return notExist(ex)
		}
		ex.crashPoint()
		r := ex.bytesRope(a[1])
		f.data = half(r)
		ex.crashPoint()
		f.data = r
		ex.crashPoint()
		return nilErr()
	}
	stub("os.WriteFile", wf)
	stub("io/ioutil.WriteFile", wf)
	stub("os.Stat", func(ex *Exec, fr *Frame, a []Value) Value {
		if f := ex.findFile(asRope(a[0])); f != nil || ex.isDir(asRope(a[0])) {
			return Tuple{Iface{}, nilErr()}
		}
		return Tuple{Iface{}, notExist(ex)}
	})
	stub("os.IsNotExist", func(ex *Exec, fr *Frame, a []Value) Value { return !isNilVal(a[0]) })
	stub("os.MkdirAll", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.mkdirAll(asRope(a[0]))
		return nilErr()
	})
	stub("os.Mkdir", func(ex *Exec, fr *Frame, a []Value) Value {
		n := cleanName(asRope(a[0]))
		if ex.isDir(n) {
			return ex.mkErr("file exists")
		}
		if p, ok := parentDir(n); ok && !ex.isDir(p) {
			return notExist(ex)
		}
		ex.env.dirs = append(ex.env.dirs, n)
		return nilErr()
	})
	rm := func(ex *Exec, fr *Frame, a []Value) Value {
		n := cleanName(asRope(a[0]))
		for i, f := range ex.env.fs {
			if ex.branch(ex.p.RopeEq(f.name, n)) {
				ex.env.fs = append(append([]*FileE{}, ex.env.fs[:i]...), ex.env.fs[i+1:]...)
				return nilErr()
			}
		}
		panic(cut("removing a directory"))
	}
	stub("os.Remove", around(rm))
	stub("os.Rename", around(func(ex *Exec, fr *Frame, a []Value) Value {
		f := ex.findFile(asRope(a[0]))
		if f == nil {
			return notExist(ex)
		}
		d := f.data
		rm(ex, fr, a[:1])
		g := ex.createFile(asRope(a[1]))
		if g == nil {
			return notExist(ex)
		}
		g.data = d
		return nilErr()
	}))
	ok := func(ex *Exec, fr *Frame, a []Value) Value { return nilErr() }
	stub("(*os.File).Close", ok)
	stub("(*os.File).Sync", ok)
	stub("(*os.File).Chmod", ok)
	stub("os.Chmod", ok)
	stub("(*os.File).Name", func(ex *Exec, fr *Frame, a []Value) Value {
		h := (*deref(ex, a[0])).(Opaque).data.(*openFile)
		if h.f == nil {
			panic(cut("name of a directory"))
		}
		return strVal(h.f.name)
	})
	temp := func(ex *Exec, fr *Frame, a []Value) Value {
		pre, post, _ := strings.Cut(ex.concStr(a[1], "pattern"), "*")
		d := asRope(a[0])
		if s, ok := d.conc(); ok && s == "" {
			panic(cut("temporary file outside the scratch directory"))
		}
		ex.env.temps++
		f := ex.createFile(ropeCat(d, ropeC(fmt.Sprintf("/%s%d%s", pre, ex.env.temps, post))))
		if f == nil {
			return Tuple{(*Value)(nil), notExist(ex)}
		}
		return open(ex, f, true)
	}
	stub("os.CreateTemp", temp)
	stub("io/ioutil.TempFile", temp)
	fw := func(ex *Exec, fr *Frame, a []Value) Value {
		h := (*deref(ex, a[0])).(Opaque).data.(*openFile)
		var r *Rope
		switch a[1].(type) {
		case string, *Rope:
			r = asRope(a[1])
		default:
			r = ex.bytesRope(a[1])
		}
		if !h.wr {
			return Tuple{uint64(0), ex.mkErr("bad file descriptor")}
		}
		h.f.data = ropeCat(h.f.data, r)
		return Tuple{ex.p.RopeLen(r), nilErr()}
	}
	stub("(*os.File).Write", fw)
	stub("(*os.File).WriteString", fw)
	join := func(ex *Exec, fr *Frame, a []Value) Value {
		var parts []*Rope
		for _, e := range a[0].(*Slice).elems() {
			r := asRope(e)
			if s, ok := r.conc(); ok && s == "" {
				continue
			}
			if len(parts) > 0 {
				parts = append(parts, ropeC("/"))
			}
			parts = append(parts, r)
		}
		return strVal(cleanName(ropeCat(parts...)))
	}
	dir := func(ex *Exec, fr *Frame, a []Value) Value {
		n := cleanName(asRope(a[0]))
		if p, ok := parentDir(n); ok {
			return strVal(p)
		}
		if s, ok := n.conc(); ok && strings.HasPrefix(s, "/") {
			return "/"
		}
		return "."
	}
	stub("path/filepath.Dir", dir)
	stub("path.Dir", dir)
	stub("path/filepath.Join", join)
	stub("path.Join", join)
}
