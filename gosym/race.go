package main

import (
	"fmt"
	"sort"
	"strings"
)

// Happens-before tracking for maps inside a Race section: the Go runtime ends a process
// that touches a map from two goroutines at once.

type access struct {
	g, clk int
	pos    string
}

type raceInfo struct {
	gen int
	w   *access
	r   map[int]*access
}

type lockClock struct{ w, r map[int]int }

func vcCopy(a map[int]int) map[int]int {
	b := make(map[int]int, len(a)+1)
	for k, v := range a {
		b[k] = v
	}
	return b
}
func vcJoin(a, b map[int]int) map[int]int {
	if a == nil {
		a = map[int]int{}
	}
	for k, v := range b {
		if v > a[k] {
			a[k] = v
		}
	}
	return a
}

func (ex *Exec) tick(g *G) {
	if g.vc == nil {
		g.vc = map[int]int{}
	}
	g.vc[g.id]++
}

func (ex *Exec) lockClock(m *Value) *lockClock {
	l := ex.lockVC[m]
	if l == nil {
		l = &lockClock{}
		if ex.lockVC == nil {
			ex.lockVC = map[*Value]*lockClock{}
		}
		ex.lockVC[m] = l
	}
	return l
}

// acquired and released record the order that locks impose.
func (ex *Exec) acquired(m *Value, write bool) {
	if !ex.race {
		return
	}
	l := ex.lockClock(m)
	ex.cur.vc = vcJoin(ex.cur.vc, l.w)
	if write {
		ex.cur.vc = vcJoin(ex.cur.vc, l.r)
	}
}
func (ex *Exec) released(m *Value, write bool) {
	if !ex.race {
		return
	}
	l := ex.lockClock(m)
	if write {
		l.w = vcJoin(l.w, ex.cur.vc)
	} else {
		l.r = vcJoin(l.r, ex.cur.vc)
	}
	ex.tick(ex.cur)
}

// synced is for operations that both acquire and release (atomics, wait groups, ...).
func (ex *Exec) synced(m *Value) {
	ex.acquired(m, true)
	ex.released(m, true)
}

func (ex *Exec) mapAccess(m *MapV, write bool, pos func() string) {
	if !ex.race || m == nil || ex.raceMsg != "" {
		return
	}
	if m.race == nil || m.race.gen != ex.raceGen {
		m.race = &raceInfo{gen: ex.raceGen, r: map[int]*access{}}
	}
	g := ex.cur
	me := &access{g.id, g.vc[g.id], pos()}
	bad := func(a *access) bool { return a != nil && a.g != g.id && a.clk > g.vc[a.g] }
	report := func(a *access) {
		p := []string{a.pos, me.pos}
		sort.Strings(p)
		ex.raceMsg = "no order between " + p[0] + " and " + p[1]
	}
	if bad(m.race.w) {
		report(m.race.w)
		return
	}
	if write {
		ids := make([]int, 0, len(m.race.r))
		for id := range m.race.r {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if bad(m.race.r[id]) {
				report(m.race.r[id])
				return
			}
		}
		m.race.w = me
		m.race.r = map[int]*access{}
	} else {
		m.race.r[g.id] = me
	}
}

func (fr *Frame) where() string {
	if fr == nil || fr.fn == nil {
		return "?"
	}
	return strings.TrimPrefix(fr.fn.String(), modPath+"/")
}

const raceLabel = "no table is touched from two places at once"

func init() {
	// Race runs the functions, and the timers due within ms, at the same time.
	stubs[rtPkg+".Race"] = func(ex *Exec, fr *Frame, a []Value) Value {
		ex.drain()
		ex.conc = true
		ex.preempt = ex.cint(a[0], "preemptions")
		end := ex.env.nowMS + int64(ex.cint(a[1], "Race"))
		fs := append([]Value{}, a[2].(*Slice).elems()...)
		for _, t := range ex.env.timers {
			if !t.dead && t.at <= end && t.f != nil {
				t.dead = true
				fs = append(fs, t.f)
			}
		}
		ex.env.nowMS = end
		ex.raceGen++
		ex.race, ex.raceMsg, ex.lockVC = true, "", nil
		ex.cur.vc = map[int]int{ex.cur.id: 1}
		left := len(fs)
		for i, f := range fs {
			f := f
			g := ex.spawn(fmt.Sprintf("par%d", i), func() {
				ex.call(nil, f, nil, nil)
				left--
				ex.unblockAll()
			})
			g.par = true
		}
		ex.block(func() bool { return left == 0 }, "Race")
		ex.conc = false
		ex.drain()
		ex.race = false
		ex.asserts[raceLabel]++
		if ex.raceMsg != "" {
			panic(violationV{raceLabel, ex.raceMsg})
		}
		return nil
	}
}
