package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type notHandled struct{}

type stubFn = func(ex *Exec, fr *Frame, args []Value) Value

var stubs = map[string]stubFn{}

// stub registers a model for a library function; it is listed in the evidence when used.
func stub(name string, f stubFn) {
	stubs[name] = func(ex *Exec, fr *Frame, args []Value) Value {
		ex.env.used[name] = true
		return f(ex, fr, args)
	}
}

// Env is the modelled outside world of one path.
type Env struct {
	mapRev      bool
	used        map[string]bool
	temps       int
	startMin    Value // uint64 or *Term: minute of the hour at time zero
	nowMS       int64
	timers      []*Timer
	onHTTP      Value
	servers     []*serverE
	pendMux     map[int]*muxReg
	sent        []*HTTPMsg
	fs          []*FileE
	dirs        []*Rope
	crash       *crashS
	nBls        int
	blsIDs      map[string]int
	nRSA, nRand int
	rsaPub      map[int]bool
	serial      int
	certN       int
	inTry       int
	randN       int
}

type Timer struct {
	at   int64
	f    Value
	n    int
	dead bool
	// a timer or ticker with a channel
	ch    *ChanV
	every int64
}
type HTTPMsg struct {
	method, ctype string
	url           *Rope
	body          *Rope
}
type FileE struct {
	name *Rope
	data *Rope
	dir  bool
}

func newEnv() *Env {
	return &Env{used: map[string]bool{}, blsIDs: map[string]int{}, startMin: uint64(0), nBls: 1000, nRSA: 1000}
}

// ---- construction helpers ---------------------------------------------------

func (ex *Exec) mkErrR(msg Value) Value {
	t := ex.prog.typeOf("errors", "errorString")
	var v Value = Struct{msg}
	return Iface{types.NewPointer(t), &v}
}
func (ex *Exec) mkErr(msg string) Value { return ex.mkErrR(msg) }

func nilErr() Value { return Iface{} }

func ptrTo(v Value) *Value { return &v }

// mkStruct builds a struct value of a named type with some fields set.
func (ex *Exec) mkStruct(t types.Type, fs map[string]Value) Struct {
	s := ex.zero(t).(Struct)
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := fs[st.Field(i).Name()]; ok {
			s[i] = v
		}
	}
	return s
}
func fieldIx(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(cut("no field %s in %s", name, t))
}
func getField(t types.Type, s Value, name string) Value { return s.(Struct)[fieldIx(t, name)] }

func deref(ex *Exec, v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		panic(cut("deref %T", v))
	}
	if p == nil {
		ex.goPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

// invoke calls a method on an interface value.
func (ex *Exec) invoke(fr *Frame, i Value, name string, args ...Value) Value {
	r, ok := i.(Iface)
	if !ok || r.T == nil {
		ex.goPanic("invalid memory address or nil pointer dereference")
	}
	m := ex.prog.method(r.T, name)
	if m == nil {
		panic(cut("no method %s on %s", name, r.T))
	}
	return ex.callFn(fr, m, append([]Value{copyVal(r.V)}, args...), nil)
}

func (ex *Exec) concStr(v Value, what string) string {
	switch x := v.(type) {
	case string:
		return x
	case *Rope:
		if s, ok := x.conc(); ok {
			return s
		}
		panic(cut("%s: symbolic string %s", what, x))
	}
	panic(cut("%s: %T", what, v))
}

func (ex *Exec) cint(v Value, what string) int {
	switch x := v.(type) {
	case uint64:
		return int(int64(x))
	case *Term:
		panic(cut("%s: symbolic integer", what))
	}
	panic(cut("%s: %T", what, v))
}

// ---- time -------------------------------------------------------------------

type TimeV struct {
	zero bool
	ms   int64 // offset from the (possibly symbolic) start of the run
}

func (ex *Exec) timeEq(a, b TimeV) *Term { return ex.p.Bool(a == b) }

// timeFrom is the time when the run starts at the given minute.
func timeFrom(t TimeV, minute uint64) time.Time {
	if t.zero {
		return time.Time{}
	}
	return time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(minute)*time.Minute + time.Duration(t.ms)*time.Millisecond)
}

func (ex *Exec) realTime(t TimeV) time.Time {
	m, ok := ex.env.startMin.(uint64)
	if !ok && !t.zero {
		panic(cut("part of a time that depends on the symbolic starting minute"))
	}
	return timeFrom(t, m)
}

var layoutToks = []string{"2006", "01", "02", "15", "04", "05.000", "05", "Z07:00", "MST"}

func (ex *Exec) timeFormat(t TimeV, layout string) Value {
	if t.zero {
		return time.Time{}.Format(layout)
	}
	sm := ex.env.startMin
	if m, ok := sm.(uint64); ok {
		base := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
		return base.Add(time.Duration(m) * time.Minute).Add(time.Duration(t.ms) * time.Millisecond).Format(layout)
	}
	p := ex.p
	m := sm.(*Term)
	sec := t.ms / 1000
	ms := t.ms % 1000
	tot := p.BVOp("bvadd", m, p.BV(uint64(sec/60), 64)) // minutes since midnight (run stays within a day)
	minute := p.BVOp("bvurem", tot, p.BV(60, 64))
	hour := p.BVOp("bvudiv", tot, p.BV(60, 64))
	if sec/60 == 0 {
		minute, hour = m, p.BV(0, 64)
	}
	var out []*Rope
	pad := func(t *Term) *Rope {
		if t.op == "const" {
			return ropeC(fmt.Sprintf("%02d", t.bv))
		}
		return ropeA(&Atom{kind: "pad2", t: t})
	}
	for len(layout) > 0 {
		hit := ""
		for _, k := range layoutToks {
			if strings.HasPrefix(layout, k) {
				hit = k
				break
			}
		}
		switch hit {
		case "":
			out = append(out, ropeC(layout[:1]))
			layout = layout[1:]
			continue
		case "2006":
			out = append(out, ropeC("2000"))
		case "01", "02":
			out = append(out, ropeC("01"))
		case "15":
			out = append(out, pad(hour))
		case "04":
			out = append(out, pad(minute))
		case "05":
			out = append(out, ropeC(fmt.Sprintf("%02d", sec%60)))
		case "05.000":
			out = append(out, ropeC(fmt.Sprintf("%02d.%03d", sec%60, ms)))
		case "Z07:00":
			out = append(out, ropeC("Z"))
		case "MST":
			out = append(out, ropeC("UTC"))
		}
		layout = layout[len(hit):]
	}
	return strVal(ropeCat(out...))
}

// advance moves the clock, firing timers in order and draining goroutines.
func (ex *Exec) advance(ms int64) {
	ex.drain()
	end := ex.env.nowMS + ms
	for n := 0; ; n++ {
		if n > 200 {
			panic(budgetErr{"timer events"})
		}
		var best *Timer
		for _, t := range ex.env.timers {
			if !t.dead && t.at <= end && (best == nil || t.at < best.at || t.at == best.at && t.n < best.n) {
				best = t
			}
		}
		if best == nil {
			break
		}
		best.dead = true
		if best.at > ex.env.nowMS {
			ex.env.nowMS = best.at
		}
		if best.f != nil {
			f := best.f
			ex.spawn("timer", func() { ex.call(nil, f, nil, nil) })
		} else {
			if best.ch != nil && len(best.ch.q) == 0 {
				best.ch.q = append(best.ch.q, TimeV{ms: ex.env.nowMS})
			}
			if best.every > 0 {
				best.dead = false
				best.at += best.every
			}
			ex.unblockAll()
		}
		ex.drain()
	}
	ex.env.nowMS = end
	ex.drain()
}

func (ex *Exec) addTimer(ms int64, f Value) *Timer {
	t := &Timer{at: ex.env.nowMS + ms, f: f, n: len(ex.env.timers)}
	ex.env.timers = append(ex.env.timers, t)
	return t
}

func durMS(ex *Exec, v Value) int64 {
	n := int64(ex.cint(v, "duration"))
	return n / int64(time.Millisecond)
}

func init() {
	stub("time.Now", func(ex *Exec, fr *Frame, a []Value) Value { return TimeV{ms: ex.env.nowMS} })
	stub("(time.Time).UTC", func(ex *Exec, fr *Frame, a []Value) Value { return a[0] })
	stub("(time.Time).Local", func(ex *Exec, fr *Frame, a []Value) Value { return a[0] })
	stub("(time.Time).Add", func(ex *Exec, fr *Frame, a []Value) Value {
		t := a[0].(TimeV)
		t.ms += durMS(ex, a[1])
		return t
	})
	stub("(time.Time).AddDate", func(ex *Exec, fr *Frame, a []Value) Value {
		t := a[0].(TimeV)
		t.ms += int64(ex.cint(a[1], "years"))*365*86400000 + int64(ex.cint(a[2], "months"))*30*86400000 + int64(ex.cint(a[3], "days"))*86400000
		return t
	})
	stub("(time.Time).Format", func(ex *Exec, fr *Frame, a []Value) Value {
		return ex.timeFormat(a[0].(TimeV), ex.concStr(a[1], "layout"))
	})
	stub("time.AfterFunc", func(ex *Exec, fr *Frame, a []Value) Value {
		tm := ex.addTimer(durMS(ex, a[0]), a[1])
		var v Value = Opaque{"time.Timer", tm}
		return &v
	})
	newTimer := func(kind string, every bool) stubFn {
		return func(ex *Exec, fr *Frame, a []Value) Value {
			tm := ex.addTimer(durMS(ex, a[0]), nil)
			tm.ch = &ChanV{cp: 1}
			if every {
				tm.every = durMS(ex, a[0])
				if tm.every <= 0 {
					panic(cut("ticker of %v", a[0]))
				}
			}
			if kind == "" {
				return tm.ch
			}
			var v Value = Opaque{kind, tm}
			return &v
		}
	}
	stub("time.NewTimer", newTimer("time.Timer", false))
	stub("time.After", newTimer("", false))
	stub("time.NewTicker", newTimer("time.Ticker", true))
	stub("time.Tick", newTimer("", true))
	stub("(*time.Ticker).Stop", func(ex *Exec, fr *Frame, a []Value) Value {
		(*deref(ex, a[0])).(Opaque).data.(*Timer).dead = true
		return nil
	})
	stub("(*time.Timer).Reset", func(ex *Exec, fr *Frame, a []Value) Value {
		t := (*deref(ex, a[0])).(Opaque).data.(*Timer)
		r := !t.dead
		t.dead = true
		n := ex.addTimer(durMS(ex, a[1]), t.f)
		n.ch = t.ch
		if n.ch != nil {
			n.ch.q = nil
		}
		*deref(ex, a[0]) = Opaque{"time.Timer", n}
		return r
	})
	part := func(name string, f func(ex *Exec, t TimeV) Value) {
		stub("(time.Time)."+name, func(ex *Exec, fr *Frame, a []Value) Value { return f(ex, a[0].(TimeV)) })
	}
	num := func(f func(time.Time) int64) func(ex *Exec, t TimeV) Value {
		return func(ex *Exec, t TimeV) Value { return uint64(f(ex.realTime(t))) }
	}
	// parts that do not depend on the minute at which the run starts
	low := func(f func(time.Time) int64) func(ex *Exec, t TimeV) Value {
		return func(ex *Exec, t TimeV) Value { return uint64(f(timeFrom(t, 0))) }
	}
	minute := func(ex *Exec, t TimeV) Value {
		m, ok := ex.env.startMin.(*Term)
		if t.zero || !ok {
			return uint64(ex.realTime(t).Minute())
		}
		if t.ms/60000 == 0 {
			return m
		}
		return ex.p.BVOp("bvurem", ex.p.BVOp("bvadd", m, ex.p.BV(uint64(t.ms/60000), 64)), ex.p.BV(60, 64))
	}
	part("Minute", minute)
	part("Second", low(func(t time.Time) int64 { return int64(t.Second()) }))
	part("Nanosecond", low(func(t time.Time) int64 { return int64(t.Nanosecond()) }))
	part("Hour", num(func(t time.Time) int64 { return int64(t.Hour()) }))
	part("Day", num(func(t time.Time) int64 { return int64(t.Day()) }))
	part("Month", num(func(t time.Time) int64 { return int64(t.Month()) }))
	part("Year", num(func(t time.Time) int64 { return int64(t.Year()) }))
	part("YearDay", num(func(t time.Time) int64 { return int64(t.YearDay()) }))
	part("Weekday", num(func(t time.Time) int64 { return int64(t.Weekday()) }))
	unix := func(per int64) func(ex *Exec, t TimeV) Value {
		return func(ex *Exec, t TimeV) Value {
			low := uint64(timeFrom(t, 0).UnixNano() / per)
			m, ok := ex.env.startMin.(*Term)
			if t.zero || !ok {
				return uint64(ex.realTime(t).UnixNano() / per)
			}
			return ex.p.BVOp("bvadd", ex.p.BVOp("bvmul", m, ex.p.BV(uint64(60000000000/per), 64)), ex.p.BV(low, 64))
		}
	}
	part("Unix", unix(1000000000))
	part("UnixMilli", unix(1000000))
	part("UnixMicro", unix(1000))
	part("UnixNano", unix(1))
	part("Clock", func(ex *Exec, t TimeV) Value {
		var h Value
		if _, sym := ex.env.startMin.(*Term); !sym || t.zero {
			h = uint64(ex.realTime(t).Hour())
		} else {
			ex.note("the hour given by Time.Clock is taken to be 0")
			h = uint64(0)
		}
		return Tuple{h, minute(ex, t), uint64(timeFrom(t, 0).Second())}
	})
	part("Date", func(ex *Exec, t TimeV) Value {
		y, m, d := ex.realTime(t).Date()
		return Tuple{uint64(y), uint64(m), uint64(d)}
	})
	part("IsZero", func(ex *Exec, t TimeV) Value { return t.zero })
	two := func(name string, f func(a, b time.Time) Value) {
		stub("(time.Time)."+name, func(ex *Exec, fr *Frame, a []Value) Value {
			return f(timeFrom(a[0].(TimeV), 0), timeFrom(a[1].(TimeV), 0))
		})
	}
	two("Before", func(a, b time.Time) Value { return a.Before(b) })
	two("After", func(a, b time.Time) Value { return a.After(b) })
	two("Equal", func(a, b time.Time) Value { return a.Equal(b) })
	two("Sub", func(a, b time.Time) Value { return uint64(a.Sub(b)) })
	stub("time.Since", func(ex *Exec, fr *Frame, a []Value) Value {
		return uint64(timeFrom(TimeV{ms: ex.env.nowMS}, 0).Sub(timeFrom(a[0].(TimeV), 0)))
	})
	stub("time.Until", func(ex *Exec, fr *Frame, a []Value) Value {
		return uint64(timeFrom(a[0].(TimeV), 0).Sub(timeFrom(TimeV{ms: ex.env.nowMS}, 0)))
	})
	round := func(name string, f func(time.Time, time.Duration) time.Time) {
		stub("(time.Time)."+name, func(ex *Exec, fr *Frame, a []Value) Value {
			d := time.Duration(ex.cint(a[1], "duration"))
			if _, sym := ex.env.startMin.(*Term); sym && (d <= 0 || time.Minute%d != 0) {
				panic(cut("%s to %v", name, d))
			}
			r := f(timeFrom(a[0].(TimeV), 0), d)
			return TimeV{ms: r.Sub(timeFrom(TimeV{}, 0)).Milliseconds()}
		})
	}
	round("Truncate", time.Time.Truncate)
	round("Round", time.Time.Round)
	stub("(*time.Timer).Stop", func(ex *Exec, fr *Frame, a []Value) Value {
		t := (*deref(ex, a[0])).(Opaque).data.(*Timer)
		r := !t.dead
		t.dead = true
		return r
	})
	stub("time.Sleep", func(ex *Exec, fr *Frame, a []Value) Value {
		ms := durMS(ex, a[0])
		if ms <= 0 {
			return nil
		}
		if ex.cur.id == 0 {
			ex.advance(ms)
			return nil
		}
		at := ex.env.nowMS + ms
		ex.addTimer(ms, nil)
		ex.block(func() bool { return ex.env.nowMS >= at }, "sleep")
		return nil
	})
}

// ---- sync -------------------------------------------------------------------

func mu(ex *Exec, v Value) *Value {
	p := deref(ex, v)
	if _, ok := (*p).(MutexV); !ok {
		panic(cut("mutex is %T", *p))
	}
	return p
}

func init() {
	lock := func(ex *Exec, fr *Frame, a []Value) Value {
		m := mu(ex, a[0])
		ex.yield()
		if x := (*m).(MutexV); x.w || x.r > 0 {
			x.wait++
			*m = x
			ex.block(func() bool { x := (*m).(MutexV); return !x.w && x.r == 0 }, "lock")
			x = (*m).(MutexV)
			x.wait--
			*m = x
		}
		x := (*m).(MutexV)
		x.w = true
		*m = x
		ex.acquired(m, true)
		return nil
	}
	unlock := func(ex *Exec, fr *Frame, a []Value) Value {
		m := mu(ex, a[0])
		x := (*m).(MutexV)
		if !x.w {
			panic(exitV{"fatal error: sync: unlock of unlocked mutex"})
		}
		ex.released(m, true)
		x.w = false
		*m = x
		ex.unblockAll()
		return nil
	}
	stub("(*sync.Mutex).Lock", lock)
	stub("(*sync.RWMutex).Lock", lock)
	stub("(*sync.Mutex).Unlock", unlock)
	stub("(*sync.RWMutex).Unlock", unlock)
	try := func(ex *Exec, fr *Frame, a []Value) Value {
		m := mu(ex, a[0])
		x := (*m).(MutexV)
		if x.w || x.r > 0 {
			return false
		}
		x.w = true
		*m = x
		ex.acquired(m, true)
		return true
	}
	stub("(*sync.Mutex).TryLock", try)
	stub("(*sync.RWMutex).TryLock", try)
	stub("(*sync.RWMutex).RLock", func(ex *Exec, fr *Frame, a []Value) Value {
		m := mu(ex, a[0])
		ex.yield()
		ex.block(func() bool { x := (*m).(MutexV); return !x.w && x.wait == 0 }, "rlock")
		x := (*m).(MutexV)
		x.r++
		*m = x
		ex.acquired(m, false)
		return nil
	})
	stub("(*sync.RWMutex).RUnlock", func(ex *Exec, fr *Frame, a []Value) Value {
		m := mu(ex, a[0])
		x := (*m).(MutexV)
		if x.r <= 0 {
			panic(exitV{"fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		ex.released(m, false)
		x.r--
		*m = x
		ex.unblockAll()
		return nil
	})
	wg := func(p *Value) int {
		if o, ok := (*p).(Opaque); ok && o.data != nil {
			return o.data.(int)
		}
		return 0
	}
	set := func(p *Value, n int) { *p = Opaque{"sync.WaitGroup", n} }
	stub("(*sync.WaitGroup).Add", func(ex *Exec, fr *Frame, a []Value) Value {
		p := deref(ex, a[0])
		set(p, wg(p)+ex.cint(a[1], "wg"))
		return nil
	})
	stub("(*sync.WaitGroup).Done", func(ex *Exec, fr *Frame, a []Value) Value {
		p := deref(ex, a[0])
		ex.released(p, true)
		set(p, wg(p)-1)
		ex.unblockAll()
		return nil
	})
	stub("(*sync.WaitGroup).Wait", func(ex *Exec, fr *Frame, a []Value) Value {
		p := deref(ex, a[0])
		ex.block(func() bool { return wg(p) <= 0 }, "wait")
		ex.acquired(p, true)
		return nil
	})
	stub("(*sync.Once).Do", func(ex *Exec, fr *Frame, a []Value) Value {
		p := deref(ex, a[0])
		ex.synced(p)
		if o := (*p).(Opaque); o.data != nil {
			return nil
		}
		*p = Opaque{"sync.Once", 1}
		return ex.call(fr, a[1], nil, nil)
	})
}

// ---- HTTP -------------------------------------------------------------------

const rtPkg = modPath + "/verifrt"

func (ex *Exec) mkBody(r *Rope) Value {
	t := ex.prog.typeOf(rtPkg, "Body")
	s := ex.mkStruct(t, map[string]Value{"Data": strVal(r)})
	return Iface{types.NewPointer(t), ptrTo(s)}
}

func (ex *Exec) doHTTP(fr *Frame, method string, url *Rope, ctype string, body *Rope) Value {
	ex.yield()
	ex.env.sent = append(ex.env.sent, &HTTPMsg{method, ctype, url, body})
	status, rbody, fail := uint64(200), &Rope{}, false
	if ex.env.onHTTP != nil {
		r := ex.call(fr, ex.env.onHTTP, []Value{method, strVal(url), strVal(body)}, nil).(Tuple)
		s, ok := r[0].(uint64)
		if !ok {
			panic(cut("symbolic status"))
		}
		status, rbody = s, asRope(r[1])
		fail = ex.cond(r[2])
	}
	rt := ex.prog.typeOf("net/http", "Response")
	if fail {
		return Tuple{(*Value)(nil), ex.mkErr("connection refused")}
	}
	resp := ex.mkStruct(rt, map[string]Value{"StatusCode": status, "Status": fmt.Sprint(status), "Body": ex.mkBody(rbody)})
	return Tuple{ptrTo(resp), nilErr()}
}

// readAll drains a reader value.
func (ex *Exec) readAll(fr *Frame, rd Value) (*Rope, Value) {
	r, ok := rd.(Iface)
	if !ok || r.T == nil {
		ex.goPanic("invalid memory address or nil pointer dereference")
	}
	tn := r.T.String()
	switch tn {
	case "*" + rtPkg + ".Body":
		p := deref(ex, r.V)
		t := ex.prog.typeOf(rtPkg, "Body")
		st := (*p).(Struct)
		i := fieldIx(t, "Data")
		d := asRope(st[i])
		st[i] = ""
		return d, nilErr()
	case "*bytes.Buffer", "*bytes.Reader", "*strings.Reader":
		p := deref(ex, r.V)
		o := (*p).(Opaque)
		d, _ := o.data.(*Rope)
		if d == nil {
			d = &Rope{}
		}
		*p = Opaque{o.kind, &Rope{}}
		return d, nilErr()
	case "*os.File":
		p := deref(ex, r.V)
		h := (*p).(Opaque).data.(*openFile)
		if h.f == nil {
			return &Rope{}, ex.mkErr("is a directory")
		}
		d := h.f.data
		if h.read {
			d = &Rope{}
		}
		h.read = true
		return d, nilErr()
	case "*compress/gzip.Reader":
		p := deref(ex, r.V)
		o := (*p).(Opaque)
		d := o.data.(*Rope)
		*p = Opaque{o.kind, &Rope{}}
		return d, nilErr()
	case "net/http.noBody":
		return &Rope{}, nilErr()
	}
	panic(cut("readAll from %s", tn))
}

func init() {
	post := func(ex *Exec, fr *Frame, url, ct, body Value) Value {
		b := &Rope{}
		if !isNilVal(body) {
			b, _ = ex.readAll(fr, body)
		}
		return ex.doHTTP(fr, "POST", asRope(url), ex.concStr(ct, "content type"), b)
	}
	stub("(*net/http.Client).Post", func(ex *Exec, fr *Frame, a []Value) Value {
		deref(ex, a[0])
		return post(ex, fr, a[1], a[2], a[3])
	})
	stub("net/http.Post", func(ex *Exec, fr *Frame, a []Value) Value { return post(ex, fr, a[0], a[1], a[2]) })
	stub("net/http.Get", func(ex *Exec, fr *Frame, a []Value) Value {
		return ex.doHTTP(fr, "GET", asRope(a[0]), "", &Rope{})
	})
	stub("(*net/http.Client).Get", func(ex *Exec, fr *Frame, a []Value) Value {
		deref(ex, a[0])
		return ex.doHTTP(fr, "GET", asRope(a[1]), "", &Rope{})
	})
	stub("net/http.Error", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.invoke(fr, a[0], "WriteHeader", a[2])
		ex.invoke(fr, a[0], "Write", ex.mkBytes(ropeCat(asRope(a[1]), ropeC("\n"))))
		return nil
	})
	stub("(net/http.Header).Get", func(ex *Exec, fr *Frame, a []Value) Value {
		m := a[0].(*MapV)
		if m == nil {
			return ""
		}
		e := ex.mapFind(m, a[1])
		if e == nil {
			return ""
		}
		s := e.v.(*Slice)
		if s == nil || s.ln == 0 {
			return ""
		}
		return s.elems()[0]
	})
	stub("(net/http.Header).Set", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.mapSet(a[0].(*MapV), a[1], mkSlice([]Value{a[2]}))
		return nil
	})
	rd := func(ex *Exec, fr *Frame, a []Value) Value {
		r, e := ex.readAll(fr, a[0])
		return Tuple{ex.mkBytes(r), e}
	}
	stub("io.ReadAll", rd)
	stub("io/ioutil.ReadAll", rd)
	newBuf := func(kind string, str bool) stubFn {
		return func(ex *Exec, fr *Frame, a []Value) Value {
			var r *Rope
			if str {
				r = asRope(a[0])
			} else {
				r = ex.bytesRope(a[0])
			}
			return ptrTo(Opaque{kind, r})
		}
	}
	stub("bytes.NewBuffer", newBuf("bytes.Buffer", false))
	stub("bytes.NewBufferString", newBuf("bytes.Buffer", true))
	stub("bytes.NewReader", newBuf("bytes.Reader", false))
	stub("strings.NewReader", newBuf("strings.Reader", true))
	get := func(ex *Exec, v Value) *Rope {
		o, ok := (*deref(ex, v)).(Opaque)
		if !ok {
			panic(cut("buffer %T", *deref(ex, v)))
		}
		r, _ := o.data.(*Rope)
		if r == nil {
			return &Rope{}
		}
		return r
	}
	for _, bt := range []string{"bytes.Buffer", "strings.Builder"} {
		bt := bt
		stub("(*"+bt+").Bytes", func(ex *Exec, fr *Frame, a []Value) Value { return ex.mkBytes(get(ex, a[0])) })
		stub("(*"+bt+").String", func(ex *Exec, fr *Frame, a []Value) Value { return strVal(get(ex, a[0])) })
		stub("(*"+bt+").Len", func(ex *Exec, fr *Frame, a []Value) Value { return ex.p.RopeLen(get(ex, a[0])) })
		stub("(*"+bt+").Grow", func(ex *Exec, fr *Frame, a []Value) Value { return nil })
		stub("(*"+bt+").Reset", func(ex *Exec, fr *Frame, a []Value) Value {
			*deref(ex, a[0]) = Opaque{bt, &Rope{}}
			return nil
		})
		stub("(*"+bt+").Write", func(ex *Exec, fr *Frame, a []Value) Value {
			r := ex.bytesRope(a[1])
			*deref(ex, a[0]) = Opaque{bt, ropeCat(get(ex, a[0]), r)}
			return Tuple{ex.p.RopeLen(r), nilErr()}
		})
		stub("(*"+bt+").WriteString", func(ex *Exec, fr *Frame, a []Value) Value {
			r := asRope(a[1])
			*deref(ex, a[0]) = Opaque{bt, ropeCat(get(ex, a[0]), r)}
			return Tuple{ex.p.RopeLen(r), nilErr()}
		})
		stub("(*"+bt+").WriteByte", func(ex *Exec, fr *Frame, a []Value) Value {
			*deref(ex, a[0]) = Opaque{bt, ropeCat(get(ex, a[0]), ropeC(string([]byte{byte(ex.cint(a[1], "byte"))})))}
			return nilErr()
		})
	}
	// gzip: an ideal invertible encoding
	stub("compress/gzip.NewWriter", func(ex *Exec, fr *Frame, a []Value) Value {
		return ptrTo(Opaque{"gzip.Writer", &gzW{w: a[0]}})
	})
	stub("(*compress/gzip.Writer).Write", func(ex *Exec, fr *Frame, a []Value) Value {
		g := (*deref(ex, a[0])).(Opaque).data.(*gzW)
		r := ex.bytesRope(a[1])
		g.d = append(g.d, r)
		return Tuple{ex.p.RopeLen(r), nilErr()}
	})
	stub("(*compress/gzip.Writer).Close", func(ex *Exec, fr *Frame, a []Value) Value {
		g := (*deref(ex, a[0])).(Opaque).data.(*gzW)
		if !g.closed {
			g.closed = true
			ex.invoke(fr, g.w, "Write", ex.mkBytes(ropeA(&Atom{kind: "gz", in: ropeCat(g.d...)})))
		}
		return nilErr()
	})
	stub("compress/gzip.NewReader", func(ex *Exec, fr *Frame, a []Value) Value {
		r, _ := ex.readAll(fr, a[0])
		r = r.norm()
		if len(r.parts) == 1 && r.parts[0].a != nil && r.parts[0].a.kind == "gz" {
			return Tuple{ptrTo(Opaque{"gzip.Reader", r.parts[0].a.in}), nilErr()}
		}
		return Tuple{(*Value)(nil), ex.mkErr("gzip: invalid header")}
	})
	stub("(*compress/gzip.Reader).Close", func(ex *Exec, fr *Frame, a []Value) Value { return nilErr() })
}

type gzW struct {
	w      Value
	d      []*Rope
	closed bool
}

// ---- misc -------------------------------------------------------------------

func isRepoFn(fn *ssa.Function) bool {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && f.Pkg.Pkg.Path() != rtPkg
}

func sortedKeys[V any](m map[string]V) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
