package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- outcome kinds ----------------------------------------------------------

type goPanicV struct{ v Value } // an interpreted panic
type exitV struct{ msg string } // log.Fatal / os.Exit
type infeasible struct{}        // assumption failed
type violationV struct{ label, detail string }
type killG struct{}
type budgetErr struct{ msg string }
type deadlockV struct{ msg string }

type Decision struct {
	taken bool
}

type Input struct {
	label string
	kind  string
	t     *Term
	conc  string // for concrete choices
}

// Exec runs one path of one harness.
type Exec struct {
	prog      *Program
	p         *TermPool
	s         *Solver
	prefix    []bool
	dec       []bool
	forks     [][]bool // new prefixes discovered
	facts     map[int]bool
	globals   map[*ssa.Global]*Value
	inited    map[*ssa.Package]int
	inputs    []Input
	labelN    map[string]int
	steps     int
	maxSteps  int
	loopMax   int
	lazy      []*Term // constraints asserted only when a model is extracted
	reached   map[string]bool
	asserts   map[string]int
	notes     map[string]bool
	funcs     map[*ssa.Function]bool
	unknown   int
	nvar      int
	outcome   string
	pathConds int

	// environment
	env *Env
	// goroutines
	cur     *G
	gs      []*G
	runq    []*G
	conc    bool
	preempt int
	sched   []int
	nextG   int
	abort   any
	axN     int
	// races on maps
	race    bool
	raceGen int
	raceMsg string
	lockVC  map[*Value]*lockClock
}

type G struct {
	id      int
	wake    chan struct{}
	fn      func()
	started bool
	done    bool
	blocked bool
	name    string
	par     bool // a thread under schedule control
	vc      map[int]int
}

type Frame struct {
	ex          *Exec
	fn          *ssa.Function
	env         map[ssa.Value]Value
	block, prev *ssa.BasicBlock
	defers      []deferred
	result      Value
	panicking   bool
	panicV      any
	caller      *Frame
	visits      map[int]int
	depth       int
}
type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

func (ex *Exec) note(s string) { ex.notes[s] = true }

// ---- decisions --------------------------------------------------------------

func (ex *Exec) pushAxioms() {
	for ex.axN < len(ex.p.axioms) {
		ex.s.Assert(ex.p.axioms[ex.axN])
		ex.axN++
	}
}

func (ex *Exec) learn(t *Term, val bool) {
	for t.op == "not" {
		t, val = t.args[0], !val
	}
	ex.facts[t.id] = val
	if t.op == "and" && val {
		for _, a := range t.args {
			ex.learn(a, true)
		}
	}
	if t.op == "or" && !val {
		for _, a := range t.args {
			ex.learn(a, false)
		}
	}
}
func (ex *Exec) known(t *Term) (bool, bool) {
	neg := false
	for t.op == "not" {
		t, neg = t.args[0], !neg
	}
	if t.op == "const" {
		return (t.bv == 1) != neg, true
	}
	if v, ok := ex.facts[t.id]; ok {
		return v != neg, true
	}
	switch t.op {
	case "and":
		all := true
		for _, a := range t.args {
			v, ok := ex.known(a)
			if ok && !v {
				return neg, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return !neg, true
		}
	case "or":
		all := true
		for _, a := range t.args {
			v, ok := ex.known(a)
			if ok && v {
				return !neg, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return neg, true
		}
	}
	return false, false
}

func (ex *Exec) assertT(t *Term) {
	ex.pushAxioms()
	ex.s.Assert(t)
	ex.pushAxioms()
	ex.learn(t, true)
	ex.pathConds++
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (ex *Exec) branch(c *Term) bool {
	if v, ok := ex.known(c); ok {
		return v
	}
	i := len(ex.dec)
	if i < len(ex.prefix) {
		d := ex.prefix[i]
		ex.dec = append(ex.dec, d)
		if d {
			ex.assertT(c)
		} else {
			ex.assertT(ex.p.Not(c))
		}
		return d
	}
	ex.s.render(c)
	ex.pushAxioms()
	rt := ex.s.Check(c)
	if rt == Unsat {
		ex.dec = append(ex.dec, false)
		ex.assertT(ex.p.Not(c))
		return false
	}
	if rt == Unknown {
		ex.unknown++
	}
	rf := ex.s.Check(ex.p.Not(c))
	if rf == Unknown {
		ex.unknown++
	}
	if rf != Unsat {
		alt := append(append([]bool(nil), ex.dec...), false)
		ex.forks = append(ex.forks, alt)
	}
	ex.dec = append(ex.dec, true)
	ex.assertT(c)
	return true
}

// branchFree forks on a condition over a fresh variable: both sides are possible.
func (ex *Exec) branchFree(c *Term) bool {
	d := true
	if i := len(ex.dec); i < len(ex.prefix) {
		d = ex.prefix[i]
	} else {
		ex.forks = append(ex.forks, append(append([]bool(nil), ex.dec...), false))
	}
	ex.dec = append(ex.dec, d)
	if d {
		ex.assertT(c)
	} else {
		ex.assertT(ex.p.Not(c))
	}
	return d
}

func (ex *Exec) cond(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return ex.branch(x)
	}
	panic(cut("cond %T", v))
}

// concretize forces an integer value to a concrete one by forking over values 0..max.
func (ex *Exec) concretize(v Value, max int, what string) int {
	switch x := v.(type) {
	case uint64:
		return int(int64(x))
	case *Term:
		for i := 0; i <= max; i++ {
			if ex.branch(ex.p.Eq(x, ex.p.BV(uint64(i), int(x.sort)))) {
				return i
			}
		}
		panic(cut("concretize %s out of range", what))
	}
	panic(cut("concretize %T", v))
}

func (ex *Exec) fresh(prefix string, s Sort) *Term {
	ex.nvar++
	return ex.p.Var(fmt.Sprintf("%s!%d", prefix, ex.nvar), s)
}

func (ex *Exec) assume(t *Term) {
	if v, ok := ex.known(t); ok {
		if !v {
			panic(infeasible{})
		}
		return
	}
	ex.s.render(t)
	ex.pushAxioms()
	if len(ex.dec) >= len(ex.prefix) {
		if ex.s.Check(t) == Unsat {
			panic(infeasible{})
		}
	}
	ex.assertT(t)
}

// ---- goroutines -------------------------------------------------------------

func (ex *Exec) spawn(name string, f func()) *G {
	ex.nextG++
	g := &G{id: ex.nextG, wake: make(chan struct{}, 1), fn: f, name: name}
	if ex.race {
		g.vc = vcCopy(ex.cur.vc)
		g.vc[g.id] = 1
		ex.tick(ex.cur)
	}
	ex.gs = append(ex.gs, g)
	ex.runq = append(ex.runq, g)
	return g
}

func (ex *Exec) runG(g *G) {
	// transfer the baton to g and wait until we are woken again
	me := ex.cur
	ex.cur = g
	if !g.started {
		g.started = true
		go func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(killG); ok {
						g.done = true
						return
					}
					if ex.abort == nil {
						if g, ok := r.(goPanicV); ok {
							r = exitV{"uncaught panic in a goroutine: " + ex.panicText(g)}
						}
						ex.abort = r
					}
				}
				g.done = true
				ex.exitG(g)
			}()
			g.fn()
		}()
	} else {
		g.wake <- struct{}{}
	}
	if me != nil && !me.done {
		<-me.wake
		ex.resume(me)
	}
}

func (ex *Exec) resume(me *G) {
	ex.cur = me
	if ex.abort != nil {
		if me.id == 0 {
			a := ex.abort
			panic(a)
		}
		panic(killG{})
	}
}

// exitG is called by a finished goroutine holding the baton.
func (ex *Exec) exitG(g *G) {
	if ex.abort != nil {
		m := ex.gs[0]
		ex.cur = m
		m.wake <- struct{}{}
		return
	}
	n := ex.pickNext(nil)
	if n == nil {
		ex.abort = deadlockV{"all goroutines are blocked"}
		m := ex.gs[0]
		ex.cur = m
		m.wake <- struct{}{}
		return
	}
	ex.handoff(n)
}

func (ex *Exec) handoff(n *G) {
	ex.cur = n
	if !n.started {
		n.started = true
		go func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(killG); ok {
						n.done = true
						return
					}
					if ex.abort == nil {
						if g, ok := r.(goPanicV); ok {
							r = exitV{"uncaught panic in a goroutine: " + ex.panicText(g)}
						}
						ex.abort = r
					}
				}
				n.done = true
				ex.exitG(n)
			}()
			n.fn()
		}()
		return
	}
	n.wake <- struct{}{}
}

func (ex *Exec) runnable(except *G) []*G {
	var out []*G
	for _, g := range ex.gs {
		if g != except && !g.done && !g.blocked {
			out = append(out, g)
		}
	}
	return out
}

// pickNext chooses the next goroutine; in sequential mode spawned goroutines
// run in FIFO order before control returns to a waiting main goroutine.
func (ex *Exec) pickNext(except *G) *G {
	rs := ex.runnable(except)
	if len(rs) == 0 {
		return nil
	}
	if ex.conc {
		// goroutines started by the code under test run when no controlled thread can
		if ps := parOnly(rs); len(ps) > 1 {
			return ps[ex.chooseSched(len(ps))]
		} else if len(ps) == 1 {
			return ps[0]
		}
	}
	for _, g := range rs {
		if g.id != 0 {
			return g
		}
	}
	return rs[0]
}

// chooseSched forks over which goroutine runs next (a symbolic schedule variable).
func (ex *Exec) chooseSched(n int) int {
	lab := fmt.Sprintf("sched#%d", len(ex.sched))
	v := ex.p.Var(lab, 64)
	ex.inputs = append(ex.inputs, Input{label: lab, kind: "sched", t: v})
	r := n - 1
	for i := 0; i < n-1; i++ {
		if ex.branchFree(ex.p.Eq(v, ex.p.BV(uint64(i), 64))) {
			r = i
			break
		}
	}
	if r == n-1 {
		ex.assertT(ex.p.Eq(v, ex.p.BV(uint64(r), 64)))
	}
	ex.sched = append(ex.sched, r)
	return r
}

// block parks the current goroutine until another one unblocks it (or it is
// rescheduled and re-tests its condition).
func (ex *Exec) block(cond func() bool, what string) {
	for !cond() {
		me := ex.cur
		me.blocked = true
		n := ex.pickNext(me)
		if n == nil {
			me.blocked = false
			panic(deadlockV{"deadlock: " + what})
		}
		ex.switchTo(me, n)
		me.blocked = false
	}
}

// unblockAll makes parked goroutines re-test their conditions.
func (ex *Exec) unblockAll() {
	for _, g := range ex.gs {
		g.blocked = false
	}
}

func (ex *Exec) switchTo(me, n *G) {
	if n == me {
		return
	}
	ex.handoff(n)
	<-me.wake
	ex.resume(me)
}

func parOnly(gs []*G) []*G {
	var out []*G
	for _, g := range gs {
		if g.par {
			out = append(out, g)
		}
	}
	return out
}

// yield is a preemption point in concurrent mode.
func (ex *Exec) yield() {
	if !ex.conc || ex.preempt <= 0 {
		return
	}
	me := ex.cur
	rs := parOnly(ex.runnable(me))
	if len(rs) == 0 || !me.par {
		return
	}
	i := ex.chooseSched(len(rs) + 1)
	if i == 0 {
		return
	}
	ex.preempt--
	ex.switchTo(me, rs[i-1])
}

// drain runs all other goroutines until they finish or block.
func (ex *Exec) drain() {
	me := ex.cur
	for {
		n := (*G)(nil)
		for _, g := range ex.runnable(me) {
			n = g
			break
		}
		if n == nil {
			return
		}
		// mark self as waiting: others hand back when nothing else is runnable
		ex.switchTo(me, n)
	}
}

func (ex *Exec) killAll() {
	for _, g := range ex.gs {
		if g.id != 0 && g.started && !g.done {
			ex.abort = killG{}
			g.wake <- struct{}{}
		}
	}
}

// ---- interpretation ---------------------------------------------------------

func (ex *Exec) goPanic(msg string) {
	panic(goPanicV{ex.runtimeErr(msg)})
}
func (ex *Exec) runtimeErr(msg string) Value {
	return ex.mkErr("runtime error: " + msg)
}

func (fr *Frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	case *ssa.Const:
		return fr.ex.constVal(x)
	case *ssa.Global:
		return fr.ex.globalAddr(x)
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(cut("get: no value for %s in %s", v.Name(), fr.fn))
}

func (ex *Exec) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return ex.zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			w := intWidth(b)
			if b.Info()&types.IsUnsigned != 0 {
				return c.Uint64() & mask(w)
			}
			return uint64(c.Int64()) & mask(w)
		case b.Info()&types.IsFloat != 0:
			return c.Float64()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	panic(cut("const %s", c))
}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}
func widthOf(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return intWidth(b)
	}
	return 64
}

func (ex *Exec) globalAddr(g *ssa.Global) *Value {
	if a, ok := ex.globals[g]; ok {
		return a
	}
	var v Value
	if gi, ok := globalOverrides[g.String()]; ok {
		v = gi(ex)
	} else {
		v = ex.zero(g.Type().(*types.Pointer).Elem())
	}
	a := &v
	ex.globals[g] = a
	if _, ok := globalOverrides[g.String()]; !ok {
		ex.initPkg(g.Pkg)
	}
	return a
}

// initPkg lazily runs a package's initialiser.
func (ex *Exec) initPkg(pkg *ssa.Package) {
	if pkg == nil || ex.inited[pkg] != 0 {
		return
	}
	ex.inited[pkg] = 1
	if noInit[pkg.Pkg.Path()] {
		return
	}
	init := pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	if g, ok := pkg.Members["init$guard"].(*ssa.Global); ok {
		var v Value = false
		ex.globals[g] = &v
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if c, ok := r.(cutErr); ok {
					ex.note("package init of " + pkg.Pkg.Path() + " only partly modelled: " + c.msg)
					return
				}
				if _, ok := r.(goPanicV); ok {
					ex.note("package init of " + pkg.Pkg.Path() + " only partly modelled (panic)")
					return
				}
				panic(r)
			}
		}()
		ex.callFn(nil, init, nil, nil)
	}()
	ex.inited[pkg] = 2
}

var noInit = map[string]bool{
	"unicode": true, "net/http": true, "crypto/x509": true, "os": true, "runtime": true, "syscall": true, "time": true,
	"reflect": true, "encoding/json": true, "fmt": true, "log": true, "math/rand": true, "math/big": true,
	"crypto/rsa": true, "internal/godebug": true, "net": true, "compress/gzip": true, "compress/flate": true,
	"crypto/sha256": true, "crypto": true, "encoding/asn1": true, "crypto/tls": true, "github.com/herumi/bls-go-binary/bls": true,
}

var globalOverrides = map[string]func(*Exec) Value{}

func (ex *Exec) call(fr *Frame, fv Value, args []Value, call *ssa.CallCommon) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			ex.goPanic("call of nil function")
		}
		return ex.callFn(fr, f, args, nil)
	case *Closure:
		if f == nil {
			ex.goPanic("invalid memory address or nil pointer dereference")
		}
		return ex.callFn(fr, f.fn, args, f.env)
	case *NativeFn:
		return f.f(ex, fr, args)
	case *ssa.Builtin:
		return ex.builtin(fr, f, args, call)
	}
	panic(cut("call %T", fv))
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (ex *Exec) callFn(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	key := fnKey(fn)
	if st, ok := stubs[key]; ok {
		r := st(ex, caller, args)
		if _, no := r.(notHandled); !no {
			return r
		}
	}
	if fn.Blocks == nil {
		if fn.Synthetic != "" || fn.Pkg == nil {
			panic(cut("no body: %s", key))
		}
		panic(cut("no model for %s", key))
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && caller != nil && fn.Pkg != caller.fn.Pkg {
		return nil // imported package initialisers run lazily
	}
	if p := fn.Pkg; p != nil && cutPkgs[p.Pkg.Path()] && !strings.HasPrefix(key, "(time.Duration)") {
		panic(cut("no model for %s", key))
	}
	fr := &Frame{ex: ex, fn: fn, env: make(map[ssa.Value]Value, 16), caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > 200 {
		panic(budgetErr{"call depth " + key})
	}
	ex.funcs[fn] = true
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = env[i]
	}
	for _, l := range fn.Locals {
		v := ex.zero(l.Type().(*types.Pointer).Elem())
		fr.env[l] = &v
	}
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		fr.run()
	}
	return fr.result
}

var cutPkgs = map[string]bool{
	"encoding/json": true, "net/http": true, "crypto/x509": true, "crypto/rsa": true, "reflect": true, "os": true,
	"compress/gzip": true, "math/rand": true, "crypto/rand": true, "github.com/gorilla/mux": true, "net": true, "encoding/asn1": true,
	"log": true, "fmt": true, "syscall": true, "runtime": true, "encoding/pem": true, "internal/poll": true, "math/big": true,
	"crypto/tls": true, "time": true,
}

func (fr *Frame) run() {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		switch x := r.(type) {
		case goPanicV:
			fr.panicking = true
			fr.panicV = x
			fr.runDefers()
			// recovered
			fr.block = fr.fn.Recover
			if fr.block == nil {
				fr.result = fr.ex.zeroResult(fr.fn)
			}
		case runtime.Error:
			if debugOn {
				buf := make([]byte, 8192)
				n := runtime.Stack(buf, false)
				debugf("internal error in %s: %v\n%s", fr.fn, x, buf[:n])
			}
			panic(cut("internal error in %s: %v", fr.fn, x))
		case nil:
			panic(killG{})
		default:
			panic(r)
		}
	}()
	for {
	blk:
		for _, in := range fr.block.Instrs {
			fr.ex.steps++
			if fr.ex.steps > fr.ex.maxSteps {
				panic(budgetErr{"step budget exhausted in " + fr.fn.String()})
			}
			switch fr.instr(in) {
			case kReturn:
				fr.block = nil
				return
			case kJump:
				break blk
			}
		}
	}
}

func (ex *Exec) zeroResult(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return ex.zero(rs.At(0).Type())
	}
	return ex.zero(rs)
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if g, ok := r.(goPanicV); ok {
						fr.panicking = true
						fr.panicV = g
						return
					}
					panic(r)
				}
			}()
			fr.ex.call(fr, d.fn, d.args, d.call)
		}()
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

type kont int

const (
	kNext kont = iota
	kReturn
	kJump
)

func (fr *Frame) deref(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		panic(cut("deref %T in %s", v, fr.fn))
	}
	if p == nil {
		fr.ex.goPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (fr *Frame) instr(in ssa.Instruction) kont {
	ex := fr.ex
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.env[x] = fr.unop(x)
	case *ssa.BinOp:
		fr.env[x] = ex.binop(x.Op, x.X.Type(), x.Y.Type(), fr.get(x.X), fr.get(x.Y))
	case *ssa.Call:
		fn, args := fr.prepCall(&x.Call)
		fr.env[x] = ex.call(fr, fn, args, &x.Call)
	case *ssa.ChangeInterface:
		fr.env[x] = fr.get(x.X)
	case *ssa.ChangeType:
		fr.env[x] = fr.get(x.X)
	case *ssa.Convert:
		fr.env[x] = ex.convert(x.X.Type(), x.Type(), fr.get(x.X))
	case *ssa.MultiConvert:
		fr.env[x] = ex.convert(x.X.Type(), x.Type(), fr.get(x.X))
	case *ssa.SliceToArrayPointer:
		panic(cut("slice to array pointer"))
	case *ssa.MakeInterface:
		fr.env[x] = Iface{x.X.Type(), fr.get(x.X)}
	case *ssa.Extract:
		fr.env[x] = fr.get(x.Tuple).(Tuple)[x.Index]
	case *ssa.Slice:
		fr.env[x] = fr.slice(x)
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
		case 1:
			fr.result = fr.get(x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = fr.get(r)
			}
			fr.result = t
		}
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		panic(goPanicV{fr.get(x.X)})
	case *ssa.Store:
		p := fr.deref(fr.get(x.Addr))
		*p = copyVal(fr.get(x.Val))
	case *ssa.If:
		s := 1
		if ex.cond(fr.get(x.Cond)) {
			s = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[s]
		fr.visit()
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		fr.visit()
		return kJump
	case *ssa.Defer:
		fn, args := fr.prepCall(&x.Call)
		fr.defers = append(fr.defers, deferred{fn, args, &x.Call})
	case *ssa.Go:
		fn, args := fr.prepCall(&x.Call)
		cc := &x.Call
		ex.spawn(fr.fn.String(), func() { ex.call(nil, fn, args, cc) })
	case *ssa.MakeChan:
		fr.env[x] = &ChanV{cp: ex.concretize(fr.get(x.Size), 64, "chan size")}
	case *ssa.Send:
		ex.chanSend(fr.get(x.Chan).(*ChanV), fr.get(x.X))
	case *ssa.Alloc:
		v := ex.zero(x.Type().(*types.Pointer).Elem())
		if x.Heap {
			fr.env[x] = &v
		} else {
			*(fr.env[x].(*Value)) = v
		}
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		ln := fr.get(x.Len)
		if t, ok := ln.(*Term); ok {
			if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				fr.env[x] = &SymBytes{ropeA(&Atom{kind: "undef", obj: new(int), t: t})}
				break
			}
		}
		n := ex.concretize(ln, 64, "make len")
		c := n
		if x.Cap != nil {
			if cv, ok := fr.get(x.Cap).(uint64); ok {
				c = int(int64(cv))
			}
		}
		if n < 0 || c < n || c > 1<<24 {
			ex.goPanic("makeslice: len out of range")
		}
		arr := make([]Value, c)
		for i := range arr {
			arr[i] = ex.zero(et)
		}
		fr.env[x] = &Slice{&arr, 0, n, c}
	case *ssa.MakeMap:
		fr.env[x] = newMap(x.Type().Underlying().(*types.Map).Key())
	case *ssa.Range:
		switch v := fr.get(x.X).(type) {
		case *MapV:
			it := &MapIter{m: v}
			ex.mapAccess(v, false, fr.where)
			if v != nil {
				it.es = append([]*MapEntry(nil), v.es...)
				if ex.env.mapRev {
					for i, j := 0, len(it.es)-1; i < j; i, j = i+1, j-1 {
						it.es[i], it.es[j] = it.es[j], it.es[i]
					}
				}
			}
			fr.env[x] = it
		case string:
			fr.env[x] = &StrIter{s: v}
		default:
			panic(cut("range over %T", v))
		}
	case *ssa.Next:
		switch it := fr.get(x.Iter).(type) {
		case *MapIter:
			r := Tuple{false, nil, nil}
			ex.mapAccess(it.m, false, fr.where)
			for it.i < len(it.es) {
				e := it.es[it.i]
				it.i++
				live := false
				for _, q := range it.m.es {
					if q == e {
						live = true
					}
				}
				if live {
					r = Tuple{true, copyVal(e.k), copyVal(e.v)}
					break
				}
			}
			if r[0] == false {
				tt := x.Type().(*types.Tuple)
				for i := 1; i < 3; i++ {
					if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
						continue
					}
					r[i] = ex.zero(tt.At(i).Type())
				}
			}
			fr.env[x] = r
		case *StrIter:
			if it.i >= len(it.s) {
				fr.env[x] = Tuple{false, uint64(0), uint64(0)}
			} else {
				for i, c := range it.s[it.i:] {
					_ = i
					fr.env[x] = Tuple{true, uint64(it.i), uint64(uint32(c))}
					it.i += len(string(c))
					break
				}
			}
		}
	case *ssa.FieldAddr:
		p := fr.deref(fr.get(x.X))
		s, ok := (*p).(Struct)
		if o, is := (*p).(Opaque); is && (o.kind == "time.Timer" || o.kind == "time.Ticker") && x.Field == 0 {
			var ch Value = (*ChanV)(nil)
			if tm, _ := o.data.(*Timer); tm != nil {
				ch = tm.ch
			}
			fr.env[x] = &ch
			return kNext
		}
		if !ok {
			panic(cut("field of opaque %T (%s) in %s", *p, x.X.Type(), fr.fn))
		}
		fr.env[x] = &s[x.Field]
	case *ssa.Field:
		s, ok := fr.get(x.X).(Struct)
		if !ok {
			panic(cut("field of opaque in %s", fr.fn))
		}
		fr.env[x] = s[x.Field]
	case *ssa.IndexAddr:
		fr.env[x] = fr.indexAddr(x)
	case *ssa.Index:
		fr.env[x] = fr.index(x)
	case *ssa.Lookup:
		fr.env[x] = fr.lookup(x)
	case *ssa.MapUpdate:
		ex.mapAccess(fr.get(x.Map).(*MapV), true, fr.where)
		ex.mapSet(fr.get(x.Map).(*MapV), copyVal(fr.get(x.Key)), copyVal(fr.get(x.Value)))
	case *ssa.TypeAssert:
		fr.env[x] = fr.typeAssert(x)
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.env = append(c.env, fr.get(b))
		}
		fr.env[x] = c
	case *ssa.Phi: // evaluated in parallel by visit()
	case *ssa.Select:
		fr.env[x] = ex.selectStmt(fr, x)
	default:
		panic(cut("instruction %T", in))
	}
	return kNext
}

func (fr *Frame) visit() {
	// parallel phi evaluation
	var vals []Value
	var ps []*ssa.Phi
	for _, in := range fr.block.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pred := range fr.block.Preds {
			if pred == fr.prev {
				vals = append(vals, fr.get(ph.Edges[i]))
				ps = append(ps, ph)
				break
			}
		}
	}
	for i, ph := range ps {
		fr.env[ph] = vals[i]
	}
	if fr.visits == nil {
		fr.visits = map[int]int{}
	}
	fr.visits[fr.block.Index]++
	if fr.visits[fr.block.Index] > fr.ex.loopMax {
		panic(budgetErr{fmt.Sprintf("loop bound %d in %s", fr.ex.loopMax, fr.fn)})
	}
}

func (fr *Frame) prepCall(c *ssa.CallCommon) (Value, []Value) {
	ex := fr.ex
	v := fr.get(c.Value)
	var args []Value
	var fn Value
	if c.Method == nil {
		fn = v
	} else {
		r, ok := v.(Iface)
		if !ok {
			panic(cut("invoke on %T", v))
		}
		if r.T == nil {
			ex.goPanic("invalid memory address or nil pointer dereference")
		}
		m := ex.prog.lookup(r.T, c.Method)
		if m == nil {
			panic(cut("no method %s on %s", c.Method.Name(), r.T))
		}
		fn = m
		args = append(args, copyVal(r.V))
	}
	for _, a := range c.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	return fn, args
}

func (fr *Frame) unop(x *ssa.UnOp) Value {
	ex := fr.ex
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		p := fr.deref(v)
		return copyVal(*p)
	case token.NOT:
		switch b := v.(type) {
		case bool:
			return !b
		case *Term:
			return ex.p.Not(b)
		}
	case token.SUB:
		switch n := v.(type) {
		case uint64:
			return (-n) & mask(widthOf(x.Type()))
		case float64:
			return -n
		case *Term:
			return ex.p.simpV(ex.p.BVNeg(n))
		}
	case token.XOR:
		switch n := v.(type) {
		case uint64:
			return ^n & mask(widthOf(x.Type()))
		case *Term:
			return ex.p.simpV(ex.p.BVNot(n))
		}
	case token.ARROW:
		c := v.(*ChanV)
		val, ok := ex.chanRecv(c, x.X.Type().Underlying().(*types.Chan).Elem())
		if x.CommaOk {
			return Tuple{val, ok}
		}
		return val
	}
	panic(cut("unop %s %T", x.Op, v))
}

func (ex *Exec) binop(op token.Token, t, t2 types.Type, x, y Value) Value {
	p := ex.p
	switch op {
	case token.EQL:
		return p.simpV(ex.equals(x, y))
	case token.NEQ:
		return p.simpV(p.Not(ex.equals(x, y)))
	}
	switch a := x.(type) {
	case string, *Rope:
		if op == token.ADD {
			if s, ok := x.(string); ok {
				if s2, ok := y.(string); ok {
					return s + s2
				}
			}
			return strVal(ropeCat(asRope(x), asRope(y)))
		}
		if s, ok := x.(string); ok {
			if s2, ok := y.(string); ok {
				switch op {
				case token.LSS:
					return s < s2
				case token.LEQ:
					return s <= s2
				case token.GTR:
					return s > s2
				case token.GEQ:
					return s >= s2
				}
			}
		}
		ta, tb := p.ropeTerm(asRope(x)), p.ropeTerm(asRope(y))
		lt := func(a, b *Term) *Term { return p.Op("str.<", SBool, a, b) }
		switch op {
		case token.LSS:
			return lt(ta, tb)
		case token.GTR:
			return lt(tb, ta)
		case token.LEQ:
			return p.Not(lt(tb, ta))
		case token.GEQ:
			return p.Not(lt(ta, tb))
		}
	case float64:
		b, ok := y.(float64)
		if !ok {
			panic(cut("float op %T", y))
		}
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case bool:
		if b, ok := y.(bool); ok {
			switch op {
			case token.AND:
				return a && b
			case token.OR:
				return a || b
			}
		}
	case uint64, *Term:
		if tt, ok := x.(*Term); ok && tt.sort == SBool {
			break
		}
		w := widthOf(t)
		sg := isSigned(t)
		ta := p.asBV(x, w)
		shift := op == token.SHL || op == token.SHR
		var tb *Term
		if shift {
			w2 := widthOf(t2)
			tb = p.asBV(y, w2)
			if isSigned(t2) {
				if tb.isConst() && sx(tb.bv, w2) < 0 {
					ex.goPanic("negative shift amount")
				}
			}
			if w2 > w {
				// saturate
				big := p.BVCmp("bvule", p.BV(uint64(w), w2), tb)
				tb = p.Ite(big, p.BV(uint64(w), w), p.Conv(tb, w, false))
			} else {
				tb = p.Conv(tb, w, false)
			}
		} else {
			tb = p.asBV(y, w)
		}
		div := op == token.QUO || op == token.REM
		if div {
			if ex.branch(p.Eq(tb, p.BV(0, w))) {
				ex.goPanic("integer divide by zero")
			}
		}
		var o string
		switch op {
		case token.ADD:
			o = "bvadd"
		case token.SUB:
			o = "bvsub"
		case token.MUL:
			o = "bvmul"
		case token.AND:
			o = "bvand"
		case token.OR:
			o = "bvor"
		case token.XOR:
			o = "bvxor"
		case token.AND_NOT:
			return p.simpV(p.BVOp("bvand", ta, p.BVNot(tb)))
		case token.SHL:
			o = "bvshl"
		case token.SHR:
			o = "bvlshr"
			if sg {
				o = "bvashr"
			}
		case token.QUO:
			o = "bvudiv"
			if sg {
				o = "bvsdiv"
			}
		case token.REM:
			o = "bvurem"
			if sg {
				o = "bvsrem"
			}
		}
		if o != "" {
			return p.simpV(p.BVOp(o, ta, tb))
		}
		lt, le := "bvult", "bvule"
		if sg {
			lt, le = "bvslt", "bvsle"
		}
		switch op {
		case token.LSS:
			return p.simpV(p.BVCmp(lt, ta, tb))
		case token.LEQ:
			return p.simpV(p.BVCmp(le, ta, tb))
		case token.GTR:
			return p.simpV(p.BVCmp(lt, tb, ta))
		case token.GEQ:
			return p.simpV(p.BVCmp(le, tb, ta))
		}
	}
	panic(cut("binop %s on %T,%T", op, x, y))
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (ex *Exec) convert(from, to types.Type, v Value) Value {
	if isString(to) {
		if isByteSlice(from) {
			return strVal(ex.bytesRope(v))
		}
		if isString(from) {
			return v
		}
		if n, ok := v.(uint64); ok {
			return string(rune(int64(n)))
		}
		if s, ok := v.(*Slice); ok { // []rune
			var b strings.Builder
			for _, e := range s.elems() {
				b.WriteRune(rune(e.(uint64)))
			}
			return b.String()
		}
	}
	if isString(from) && isByteSlice(to) {
		return ex.mkBytes(asRope(v))
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		switch {
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
			switch x := v.(type) {
			case uint64:
				w := intWidth(fb)
				if fb.Info()&types.IsUnsigned == 0 {
					return uint64(sx(x, w)) & mask(intWidth(tb))
				}
				return x & mask(intWidth(tb))
			case *Term:
				return ex.p.simpV(ex.p.Conv(x, intWidth(tb), fb.Info()&types.IsUnsigned == 0))
			}
		case tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsInteger != 0:
			if x, ok := v.(uint64); ok {
				if fb.Info()&types.IsUnsigned == 0 {
					return float64(sx(x, intWidth(fb)))
				}
				return float64(x)
			}
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsFloat != 0:
			if x, ok := v.(float64); ok {
				return uint64(int64(x)) & mask(intWidth(tb))
			}
		case tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsFloat != 0:
			if tb.Kind() == types.Float32 {
				return float64(float32(v.(float64)))
			}
			return v
		}
		if tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer {
			return v
		}
	}
	if isString(from) {
		if s, ok := v.(string); ok { // []rune
			var arr []Value
			for _, r := range s {
				arr = append(arr, uint64(uint32(r)))
			}
			return mkSlice(arr)
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	if tb, ok := to.Underlying().(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		return v
	}
	panic(cut("convert %s -> %s (%T)", from, to, v))
}

func (fr *Frame) idx(v Value, n int) int {
	ex := fr.ex
	switch i := v.(type) {
	case uint64:
		if int64(i) < 0 || int64(i) >= int64(n) {
			ex.goPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i), n))
		}
		return int(i)
	case *Term:
		w := int(i.sort)
		in := ex.p.BVCmp("bvult", i, ex.p.BV(uint64(n), w))
		if !ex.branch(in) {
			ex.goPanic("index out of range")
		}
		for k := 0; k < n-1; k++ {
			if ex.branch(ex.p.Eq(i, ex.p.BV(uint64(k), w))) {
				return k
			}
		}
		return n - 1
	}
	panic(cut("idx %T", v))
}

func (fr *Frame) indexAddr(x *ssa.IndexAddr) Value {
	switch a := fr.get(x.X).(type) {
	case *Slice:
		n := 0
		if a != nil {
			n = a.ln
		}
		i := fr.idx(fr.get(x.Index), n)
		return &(*a.arr)[a.off+i]
	case *Value:
		p := fr.deref(a)
		arr := (*p).(Array)
		return &arr[fr.idx(fr.get(x.Index), len(arr))]
	case *SymBytes:
		iv, ok := fr.get(x.Index).(uint64)
		if ok {
			off := 0
			for _, pt := range a.r.parts {
				if pt.a != nil {
					break
				}
				if int(iv) < off+len(pt.c) {
					var v Value = uint64(pt.c[int(iv)-off])
					return &v
				}
				off += len(pt.c)
			}
		}
		panic(cut("byte index into symbolic buffer in %s", fr.fn))
	}
	panic(cut("indexaddr %T", fr.get(x.X)))
}

func (fr *Frame) index(x *ssa.Index) Value {
	switch a := fr.get(x.X).(type) {
	case Array:
		return copyVal(a[fr.idx(fr.get(x.Index), len(a))])
	case string:
		return uint64(a[fr.idx(fr.get(x.Index), len(a))])
	case *Rope:
		iv, ok := fr.get(x.Index).(uint64)
		if ok {
			off := 0
			for _, pt := range a.parts {
				if pt.a != nil {
					break
				}
				if int(iv) < off+len(pt.c) {
					return uint64(pt.c[int(iv)-off])
				}
				off += len(pt.c)
			}
		}
		panic(cut("byte index into symbolic string in %s", fr.fn))
	}
	panic(cut("index %T", fr.get(x.X)))
}

func (fr *Frame) lookup(x *ssa.Lookup) Value {
	ex := fr.ex
	m, ok := fr.get(x.X).(*MapV)
	if !ok {
		switch a := fr.get(x.X).(type) {
		case string:
			return uint64(a[fr.idx(fr.get(x.Index), len(a))])
		case *Rope:
			if iv, ok := fr.get(x.Index).(uint64); ok {
				off := 0
				for _, pt := range a.parts {
					if pt.a != nil {
						break
					}
					if int(iv) < off+len(pt.c) {
						return uint64(pt.c[int(iv)-off])
					}
					off += len(pt.c)
				}
			}
			panic(cut("byte index into symbolic string in %s", fr.fn))
		}
		panic(cut("lookup in %T", fr.get(x.X)))
	}
	ex.mapAccess(m, false, fr.where)
	e := ex.mapFind(m, fr.get(x.Index))
	var v Value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = ex.zero(x.X.Type().Underlying().(*types.Map).Elem())
	}
	if x.CommaOk {
		return Tuple{v, e != nil}
	}
	return v
}

func (fr *Frame) slice(x *ssa.Slice) Value {
	ex := fr.ex
	v := fr.get(x.X)
	geti := func(s ssa.Value, def int) int {
		if s == nil {
			return def
		}
		iv, ok := fr.get(s).(uint64)
		if !ok {
			panic(cut("symbolic slice bound in %s", fr.fn))
		}
		return int(int64(iv))
	}
	switch a := v.(type) {
	case string:
		lo, hi := geti(x.Low, 0), geti(x.High, len(a))
		if lo < 0 || hi > len(a) || lo > hi {
			ex.goPanic("slice bounds out of range")
		}
		return a[lo:hi]
	case *Rope:
		return strVal(ex.subRope(a, geti(x.Low, 0), geti(x.High, -1)))
	case *SymBytes:
		if x.Low == nil && x.High == nil {
			return a
		}
		if x.High != nil && x.Low == nil {
			if t, ok := fr.get(x.High).(*Term); ok {
				if l, ok := ex.p.RopeLen(a.r).(*Term); ok && ex.branch(ex.p.Eq(l, t)) {
					return a
				}
				panic(cut("symbolic slice bound in %s", fr.fn))
			}
		}
		lo := geti(x.Low, 0)
		if lo == 0 && x.High == nil {
			return a
		}
		return ex.mkBytes(ex.subRope(a.r, lo, geti(x.High, -1)))
	case *Slice:
		ln, cp := 0, 0
		if a != nil {
			ln, cp = a.ln, a.cp
		}
		lo, hi := geti(x.Low, 0), geti(x.High, ln)
		mx := geti(x.Max, cp)
		if lo < 0 || hi > cp || lo > hi || mx > cp || hi > mx {
			ex.goPanic("slice bounds out of range")
		}
		if a == nil {
			return a
		}
		return &Slice{a.arr, a.off + lo, hi - lo, mx - lo}
	case *Value:
		p := fr.deref(a)
		arr := (*p).(Array)
		lo, hi := geti(x.Low, 0), geti(x.High, len(arr))
		mx := geti(x.Max, len(arr))
		if lo < 0 || hi > len(arr) || lo > hi {
			ex.goPanic("slice bounds out of range")
		}
		s := []Value(arr)
		return &Slice{&s, lo, hi - lo, mx - lo}
	}
	panic(cut("slice of %T", v))
}

// subRope extracts [lo,hi) when the cut points fall on known offsets.
func (ex *Exec) subRope(r *Rope, lo, hi int) *Rope {
	var out []Part
	off := 0
	if hi >= 0 && lo == hi {
		return &Rope{}
	}
	for i, p := range r.parts {
		if hi >= 0 && off >= hi {
			return (&Rope{out}).norm()
		}
		n := 0
		if p.a == nil {
			n = len(p.c)
		} else {
			n = p.a.fixedLen()
			if n < 0 {
				if off >= lo && hi < 0 {
					return (&Rope{append(out, r.parts[i:]...)}).norm()
				}
				panic(cut("substring across a symbolic part"))
			}
		}
		s, e := max(lo-off, 0), n
		if hi >= 0 {
			e = min(n, hi-off)
		}
		if s < e {
			if p.a == nil {
				out = append(out, Part{c: p.c[s:e]})
			} else if s == 0 && e == n {
				out = append(out, p)
			} else if p.a.kind == "hex" && s%2 == 0 && e%2 == 0 {
				out = append(out, Part{a: &Atom{kind: "hex", in: ex.subRope(p.a.in, s/2, e/2)}})
			} else {
				panic(cut("substring inside a symbolic part"))
			}
		}
		off += n
	}
	if hi > off {
		ex.goPanic("slice bounds out of range")
	}
	return (&Rope{out}).norm()
}

func (fr *Frame) typeAssert(x *ssa.TypeAssert) Value {
	ex := fr.ex
	i, ok := fr.get(x.X).(Iface)
	if !ok {
		panic(cut("typeassert on %T", fr.get(x.X)))
	}
	okk := false
	var v Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if i.T != nil && types.Implements(i.T, it) {
			okk = true
			v = i
		}
	} else if i.T != nil && types.Identical(i.T, x.AssertedType) {
		okk = true
		v = copyVal(i.V)
	}
	if !okk {
		if !x.CommaOk {
			ex.goPanic("interface conversion")
		}
		v = ex.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{v, okk}
	}
	return v
}

// ---- builtins / channels ------------------------------------------------------

func (ex *Exec) lenOf(v Value) Value {
	switch a := v.(type) {
	case string:
		return uint64(len(a))
	case *Rope:
		return ex.p.RopeLen(a)
	case *Slice:
		if a == nil {
			return uint64(0)
		}
		return uint64(a.ln)
	case *SymBytes:
		if len(a.r.parts) == 1 && a.r.parts[0].a != nil && a.r.parts[0].a.kind == "undef" {
			return a.r.parts[0].a.t
		}
		return ex.p.RopeLen(a.r)
	case *MapV:
		if a == nil {
			return uint64(0)
		}
		return uint64(len(a.es))
	case Array:
		return uint64(len(a))
	case *Value:
		return uint64(len((*a).(Array)))
	case *ChanV:
		if a == nil {
			return uint64(0)
		}
		return uint64(len(a.q))
	}
	panic(cut("len %T", v))
}

func (ex *Exec) appendVals(a, b Value) Value {
	sa, okA := a.(*Slice)
	var sb *Slice
	okB := false
	switch y := b.(type) {
	case *Slice:
		sb, okB = y, true
	case string:
		sb, okB = ex.mkBytes(ropeC(y)).(*Slice), true
	case *Rope:
		b = &SymBytes{y}
	}
	if okA && okB {
		n := 0
		if sb != nil {
			n = sb.ln
		}
		if n == 0 {
			return a
		}
		if sa == nil {
			sa = &Slice{arr: &[]Value{}}
		}
		if sa.ln+n <= sa.cp {
			for i := 0; i < n; i++ {
				(*sa.arr)[sa.off+sa.ln+i] = copyVal((*sb.arr)[sb.off+i])
			}
			return &Slice{sa.arr, sa.off, sa.ln + n, sa.cp}
		}
		nc := sa.ln + n
		if nc < 2*sa.cp {
			nc = 2 * sa.cp
		}
		arr := make([]Value, nc)
		for i := 0; i < sa.ln; i++ {
			arr[i] = (*sa.arr)[sa.off+i]
		}
		for i := 0; i < n; i++ {
			arr[sa.ln+i] = copyVal((*sb.arr)[sb.off+i])
		}
		// zero-fill
		for i := sa.ln + n; i < nc; i++ {
			arr[i] = zeroLike(arr[0])
		}
		return &Slice{&arr, 0, sa.ln + n, nc}
	}
	ra, rb := ex.bytesRope(a), ex.bytesRope(b)
	return ex.mkBytes(ropeCat(ra, rb))
}

func zeroLike(v Value) Value {
	switch x := v.(type) {
	case uint64, *Term:
		return uint64(0)
	case string, *Rope:
		return ""
	case bool:
		return false
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = zeroLike(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = zeroLike(x[i])
		}
		return n
	case *Value:
		return (*Value)(nil)
	case *Slice, *SymBytes:
		return (*Slice)(nil)
	case *MapV:
		return (*MapV)(nil)
	case Iface:
		return Iface{}
	case *Closure:
		return (*Closure)(nil)
	case float64:
		return float64(0)
	case TimeV:
		return TimeV{zero: true}
	case BlsV:
		return BlsV{}
	case MutexV:
		return MutexV{}
	}
	return nil
}

func (ex *Exec) builtin(fr *Frame, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		return ex.lenOf(args[0])
	case "cap":
		if s, ok := args[0].(*Slice); ok {
			if s == nil {
				return uint64(0)
			}
			return uint64(s.cp)
		}
		return ex.lenOf(args[0])
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return ex.appendVals(args[0], args[1])
	case "copy":
		return ex.copyBytes(args[0], args[1])
	case "delete":
		ex.mapAccess(args[0].(*MapV), true, fr.where)
		ex.mapDel(args[0].(*MapV), args[1])
		return nil
	case "panic":
		panic(goPanicV{args[0]})
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking frame
		if fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			v := fr.caller.panicV.(goPanicV).v
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "close":
		ex.synced(&args[0].(*ChanV).hb)
		args[0].(*ChanV).closed = true
		ex.unblockAll()
		return nil
	case "clear":
		if m, ok := args[0].(*MapV); ok && m != nil {
			ex.mapAccess(m, true, fr.where)
			m.es, m.ix, m.sym = nil, map[interface{}]*MapEntry{}, 0
		}
		return nil
	case "min", "max":
		r := args[0]
		t := call.Args[0].Type()
		for _, a := range args[1:] {
			lt := ex.cond(ex.binop(token.LSS, t, t, a, r))
			if lt == (b.Name() == "min") {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilVal(args[0]) {
			ex.goPanic("value method called using nil pointer")
		}
		return args[0]
	}
	panic(cut("builtin %s", b.Name()))
}

func (ex *Exec) copyBytes(d, s Value) Value {
	if st, ok := s.(string); ok {
		s = ex.mkBytes(ropeC(st))
	}
	ds, ok1 := d.(*Slice)
	if sb, ok := s.(*SymBytes); ok && ok1 {
		if es, ok := ex.expand(sb.r); ok {
			s = mkSlice(es)
		}
	}
	if r, ok := s.(*Rope); ok && ok1 {
		if es, ok := ex.expand(r); ok {
			s = mkSlice(es)
		}
	}
	ss, ok2 := s.(*Slice)
	if ok1 && ok2 {
		n := 0
		if ds != nil && ss != nil {
			n = min(ds.ln, ss.ln)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal((*ss.arr)[ss.off+i])
		}
		for i := 0; i < n; i++ {
			(*ds.arr)[ds.off+i] = tmp[i]
		}
		return uint64(n)
	}
	if db, ok := d.(*SymBytes); ok && len(db.r.parts) == 1 && db.r.parts[0].a != nil && db.r.parts[0].a.kind == "undef" {
		db.r = ex.bytesRope(s)
		return ex.p.RopeLen(db.r)
	}
	panic(cut("copy %T <- %T", d, s))
}

func (ex *Exec) chanSend(c *ChanV, v Value) {
	if c == nil {
		ex.block(func() bool { return false }, "send on nil channel")
	}
	ex.block(func() bool { return c.closed || len(c.q) < max(c.cp, 1) }, "channel send")
	if c.closed {
		ex.goPanic("send on closed channel")
	}
	ex.synced(&c.hb)
	c.q = append(c.q, copyVal(v))
	ex.unblockAll()
}
func (ex *Exec) chanRecv(c *ChanV, et types.Type) (Value, bool) {
	if c == nil {
		ex.block(func() bool { return false }, "receive from nil channel")
	}
	ex.block(func() bool { return c.closed || len(c.q) > 0 }, "channel receive")
	ex.synced(&c.hb)
	if len(c.q) == 0 {
		return ex.zero(et), false
	}
	v := c.q[0]
	c.q = c.q[1:]
	ex.unblockAll()
	return v, true
}

func (ex *Exec) selectStmt(fr *Frame, x *ssa.Select) Value {
	ready := func() int {
		for i, st := range x.States {
			c, _ := fr.get(st.Chan).(*ChanV)
			if c == nil {
				continue
			}
			if st.Dir == types.SendOnly {
				if c.closed || len(c.q) < max(c.cp, 1) {
					return i
				}
			} else if c.closed || len(c.q) > 0 {
				return i
			}
		}
		return -1
	}
	i := ready()
	if i < 0 && x.Blocking {
		ex.block(func() bool { return ready() >= 0 }, "select")
		i = ready()
	}
	r := Tuple{uint64(i) & mask(64), false}
	if i < 0 {
		r[0] = ^uint64(0)
	}
	for j, st := range x.States {
		if st.Dir == types.RecvOnly {
			et := st.Chan.Type().Underlying().(*types.Chan).Elem()
			if j == i {
				v, ok := ex.chanRecv(fr.get(st.Chan).(*ChanV), et)
				r[1] = ok
				r = append(r, v)
			} else {
				r = append(r, ex.zero(et))
			}
		} else if j == i {
			ex.chanSend(fr.get(st.Chan).(*ChanV), fr.get(st.Send))
		}
	}
	return r
}
