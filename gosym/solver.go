package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Stats struct {
	Queries, Unknown, Sat, Unsat int64
	SolverNS                     int64
	Retries, Cached              int64
}

var gstats Stats

// Solver drives one incremental SMT process.
type Solver struct {
	name     string
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	script   []string // commands of the current scope (for the fallback solver)
	decl     map[string]bool
	defd     map[int]string
	tmo      int
	dead     bool
	q        strings.Builder
	thorough bool
	asserted []*Term
}

func NewSolver(tmoMS int) *Solver {
	s := &Solver{tmo: tmoMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", fmt.Sprintf("-t:%d", s.tmo))
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.dead = false
	io.WriteString(s.in, "(set-option :produce-models true)\n(set-option :print-success false)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

const prelude = `(declare-fun hashF (String) String)
(declare-fun hashI (String) String)
(declare-fun sigF (Int String) String)
(declare-fun sigI (String) String)
(declare-fun sigK (String) Int)
(declare-fun hexF (String) String)
(declare-fun hexI (String) String)
(declare-fun b64F (String) String)
(declare-fun b64I (String) String)
(declare-fun gzF (String) String)
(declare-fun gzI (String) String)
(declare-fun slen (String) (_ BitVec 64))
`

const cleanFn = `(define-fun cleanstr ((x String)) Bool (and (<= (str.len x) 24) (str.in_re x (re.* (re.union (re.range "a" "z") (re.range "A" "Z") (re.range "0" "9") (str.to_re "~") (str.to_re ":") (str.to_re ".") (str.to_re "/") (str.to_re "_") (str.to_re "{") (str.to_re "}") (str.to_re "-") (str.to_re " "))))))`

const longFn = `(define-fun longstr ((x String)) Bool (and (= (str.len x) 11) (str.in_re x (re.* (re.range "a" "z")))))`

var tabFns string

func init() {
	var b strings.Builder
	b.WriteString("(define-fun pad2 ((x (_ BitVec 64))) String ")
	for i := 0; i < 99; i++ {
		fmt.Fprintf(&b, `(ite (= x #x%016x) "%02d" `, i, i)
	}
	b.WriteString(`"99"` + strings.Repeat(")", 99) + ")\n")
	b.WriteString("(define-fun itoa ((x (_ BitVec 64))) String ")
	for i := 0; i < 128; i++ {
		fmt.Fprintf(&b, `(ite (= x #x%016x) "%d" `, i, i)
	}
	b.WriteString(`"?"` + strings.Repeat(")", 128) + ")\n")
	tabFns = b.String()
}

func (s *Solver) send(c string) {
	s.q.WriteString(c)
	s.q.WriteByte('\n')
	s.script = append(s.script, c)
}

func (s *Solver) flush() {
	if s.dead {
		return
	}
	if _, err := io.WriteString(s.in, s.q.String()); err != nil {
		s.dead = true
	}
	s.q.Reset()
}

// Begin opens a fresh path scope.
func (s *Solver) Begin() {
	if s.dead {
		s.Close()
		s.start()
	}
	s.script = nil
	s.asserted = nil
	s.decl = map[string]bool{}
	s.defd = map[int]string{}
	s.q.Reset()
	s.q.WriteString("(push)\n")
}
func (s *Solver) End() {
	s.q.Reset()
	s.q.WriteString("(pop)\n")
	s.flush()
	s.q.Reset()
}

func (s *Solver) need(name, text string) {
	if !s.decl[name] {
		s.decl[name] = true
		s.send(text)
	}
}

// render returns an SMT expression, declaring what it needs.
func (s *Solver) render(t *Term) string {
	if r, ok := s.defd[t.id]; ok {
		return r
	}
	if h := t.head(); h != "" {
		if t.op == "var" && !s.decl["v:"+t.str] {
			s.decl["v:"+t.str] = true
			s.send(fmt.Sprintf("(declare-const |%s| %s)", t.str, t.sort))
		}
		s.defd[t.id] = h
		return h
	}
	if t.op == "app" {
		switch t.str {
		case "pad2", "itoa":
			s.need("tab", tabFns)
		case "cleanstr":
			s.need("clean", cleanFn)
		case "longstr":
			s.need("long", longFn)
		default:
			if strings.HasPrefix(t.str, "uf_") {
				var as []string
				for _, a := range t.args {
					as = append(as, a.sort.String())
				}
				s.need("f:"+t.str, fmt.Sprintf("(declare-fun %s (%s) %s)", t.str, strings.Join(as, " "), t.sort))
			} else {
				s.need("prelude", prelude)
			}
		}
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(t.opStr())
	for _, a := range t.args {
		b.WriteByte(' ')
		if t.op == "app" && t.str == "sigF" && a.sort > 0 {
			fmt.Fprintf(&b, "%d", a.bv)
			continue
		}
		b.WriteString(s.render(a))
	}
	b.WriteByte(')')
	r := b.String()
	if len(r) > 60 {
		n := fmt.Sprintf("t!%d", t.id)
		s.send(fmt.Sprintf("(define-fun %s () %s %s)", n, t.sort, r))
		r = n
	}
	s.defd[t.id] = r
	return r
}

func (s *Solver) Assert(t *Term) {
	if t.isTrue() {
		return
	}
	s.render(t)
	s.asserted = append(s.asserted, t)
}

// slice is the part of the path condition that the extra constraints can depend on;
// the rest has no symbol in common with it and is satisfiable by itself.
func (s *Solver) slice(extra []*Term, funcs bool) []*Term {
	seen := map[string]bool{}
	add := func(t *Term) {
		for k := range t.symbols() {
			if funcs || !strings.HasPrefix(k, "f:") {
				seen[k] = true
			}
		}
	}
	for _, e := range extra {
		add(e)
	}
	in := make([]bool, len(s.asserted))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, a := range s.asserted {
			if in[i] {
				continue
			}
			for k := range a.symbols() {
				if seen[k] {
					in[i], changed = true, true
					add(a)
					out = append(out, a)
					break
				}
			}
		}
	}
	return out
}

// only leaves the constraints that have to do with the terms, until the returned function is called.
func (s *Solver) only(terms []*Term) func() {
	all := s.asserted
	s.asserted = s.slice(terms, true)
	return func() { s.asserted = all }
}

var queryCache sync.Map // key of a query -> Res

func queryKey(a, b []*Term) [32]byte {
	var hs []string
	for _, t := range a {
		hs = append(hs, string(fmt.Sprintf("%x", t.h)))
	}
	for _, t := range b {
		hs = append(hs, string(fmt.Sprintf("%x", t.h)))
	}
	sort.Strings(hs)
	return sha256.Sum256([]byte(strings.Join(hs, "|")))
}

func (s *Solver) readLine() (string, bool) {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "", false
	}
	return strings.TrimSpace(l), true
}

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

// Check decides the conjunction of current assertions with extra.
func (s *Solver) Check(extra ...*Term) Res {
	var ex []*Term
	for _, e := range extra {
		if e.isFalse() {
			return Unsat
		}
		if !e.isTrue() {
			ex = append(ex, e)
			s.render(e)
		}
	}
	if len(ex) == 0 {
		return Sat
	}
	small := s.slice(ex, false)
	r := s.check(small, ex)
	if r == Unsat {
		return r
	}
	// functions tie constraints on different variables together
	if full := s.slice(ex, true); len(full) > len(small) {
		r = s.check(full, ex)
	}
	return r
}

func (s *Solver) check(pc, ex []*Term) Res {
	key := queryKey(pc, ex)
	if r, ok := queryCache.Load(key); ok {
		atomic.AddInt64(&gstats.Cached, 1)
		return r.(Res)
	}
	var cs []string
	for _, t := range append(append([]*Term{}, pc...), ex...) {
		cs = append(cs, s.render(t))
	}
	t0 := time.Now()
	atomic.AddInt64(&gstats.Queries, 1)
	r := Unknown
	if !s.dead {
		s.q.WriteString("(push)\n")
		for _, e := range cs {
			s.q.WriteString("(assert " + e + ")\n")
		}
		fmt.Fprintf(&s.q, "(set-option :timeout %d)\n(check-sat)\n(set-option :timeout %d)\n(pop)\n(echo \"#\")\n", quickTmo, s.tmo)
		s.flush()
		bad := false
		for {
			l, ok := s.readLine()
			if !ok {
				break
			}
			if l == "#" {
				break
			}
			switch {
			case l == "sat":
				r = Sat
			case l == "unsat":
				r = Unsat
			case strings.HasPrefix(l, "(error"):
				bad = true
				debugf("solver error: %s", l)
			}
		}
		if bad {
			r = Unknown
		}
	}
	if r == Unknown {
		atomic.AddInt64(&gstats.Retries, 1)
		r = s.race(cs)
	}
	if debugOn && time.Since(t0) > time.Second {
		x := fmt.Sprint(cs)
		debugf("slow query: %v, %v, %d constraints, %.1500s", time.Since(t0), r, len(cs), x)
	}
	atomic.AddInt64(&gstats.SolverNS, int64(time.Since(t0)))
	switch r {
	case Sat:
		atomic.AddInt64(&gstats.Sat, 1)
	case Unsat:
		atomic.AddInt64(&gstats.Unsat, 1)
	default:
		atomic.AddInt64(&gstats.Unknown, 1)
	}
	if r != Unknown {
		queryCache.Store(key, r)
	}
	return r
}

// quickTmo is how long (ms) the incremental solver gets before others are asked as well.
const quickTmo = 2500

// race asks several solvers at once and takes the first verdict.
func (s *Solver) race(ex []string) Res {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	in := s.standalone(ex)
	asks := [][]string{
		{"cvc5", "--lang=smt2", "--strings-exp", "--tlimit=20000"},
		{"z3-new", "-in", "-T:20"},
	}
	got := make(chan Res, len(asks))
	for _, a := range asks {
		go func(a []string) { got <- fallback(ctx, in, a[0], a[1:]...) }(a)
	}
	for range asks {
		if r := <-got; r != Unknown {
			return r
		}
	}
	return fallback(ctx, in, "z3", "-in", "-T:20")
}

func (s *Solver) standalone(ex []string) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	for _, c := range s.script {
		b.WriteString(c + "\n")
	}
	for _, e := range ex {
		b.WriteString("(assert " + e + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func fallback(ctx context.Context, in, bin string, args ...string) Res {
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(in)
	o, _ := cmd.Output()
	for _, l := range strings.Split(string(o), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(error") {
			return Unknown
		}
		if l == "sat" {
			return Sat
		}
		if l == "unsat" {
			return Unsat
		}
	}
	return Unknown
}

// Model checks extra and returns values of the given terms.
func (s *Solver) Model(extra []*Term, terms []*Term) (Res, map[int]string) {
	var ex []string
	for _, e := range extra {
		if e.isFalse() {
			return Unsat, nil
		}
		ex = append(ex, s.render(e))
	}
	for _, t := range s.asserted {
		ex = append(ex, s.render(t))
	}
	var tr []string
	for _, t := range terms {
		tr = append(tr, s.render(t))
	}
	if s.dead {
		return Unknown, nil
	}
	atomic.AddInt64(&gstats.Queries, 1)
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&gstats.SolverNS, int64(time.Since(t0)))
		if debugOn && time.Since(t0) > time.Second {
			debugf("slow model: %v, %d constraints", time.Since(t0), len(ex))
		}
	}()
	s.q.WriteString("(push)\n")
	for _, e := range ex {
		s.q.WriteString("(assert " + e + ")\n")
	}
	s.q.WriteString("(check-sat)\n")
	s.flush()
	l, ok := s.readLine()
	for ok && strings.HasPrefix(l, "(error") {
		l, ok = s.readLine()
	}
	if !ok || l != "sat" {
		s.q.WriteString("(pop)\n")
		s.flush()
		if l == "unsat" {
			return Unsat, nil
		}
		return Unknown, nil
	}
	res := map[int]string{}
	for i, t := range terms {
		if t.isConst() {
			if t.op == "str" {
				res[t.id] = t.str
			} else {
				res[t.id] = fmt.Sprint(t.bv)
			}
			continue
		}
		s.q.WriteString("(get-value (" + tr[i] + "))\n(echo \"#\")\n")
		s.flush()
		var all strings.Builder
		for {
			l, ok := s.readLine()
			if !ok || l == "#" {
				break
			}
			all.WriteString(l + " ")
		}
		res[t.id] = parseVal(all.String(), t.sort)
	}
	s.q.WriteString("(pop)\n")
	s.flush()
	return Sat, res
}

func parseVal(l string, srt Sort) string {
	l = strings.TrimSpace(l)
	l = strings.TrimSuffix(strings.TrimSpace(l), "))")
	switch {
	case srt == SStr:
		// last string literal
		end := strings.LastIndexByte(l, '"')
		// find start: walk back honouring ""
		i := end - 1
		for i >= 0 {
			if l[i] == '"' {
				if i > 0 && l[i-1] == '"' {
					i -= 2
					continue
				}
				break
			}
			i--
		}
		if i < 0 {
			return ""
		}
		return unSMT(l[i+1 : end])
	case srt == SBool:
		if strings.HasSuffix(l, "true") {
			return "1"
		}
		return "0"
	default:
		f := strings.Fields(l)
		v := f[len(f)-1]
		if strings.HasPrefix(v, "#x") {
			var x uint64
			fmt.Sscanf(v[2:], "%x", &x)
			return fmt.Sprint(x)
		}
		if strings.HasPrefix(v, "#b") {
			var x uint64
			for _, c := range v[2:] {
				x = x<<1 | uint64(c-'0')
			}
			return fmt.Sprint(x)
		}
		if len(f) >= 3 { // (_ bv5 64
			v = f[len(f)-2]
			if strings.HasPrefix(v, "bv") {
				return v[2:]
			}
		}
		return "0"
	}
}

func unSMT(s string) string {
	s = strings.ReplaceAll(s, `""`, `"`)
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.HasPrefix(s[i:], `\u{`) {
			j := strings.IndexByte(s[i:], '}')
			if j > 0 {
				var x int
				fmt.Sscanf(s[i+3:i+j], "%x", &x)
				if x < 256 {
					b.WriteByte(byte(x))
				} else {
					b.WriteRune(rune(x))
				}
				i += j
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}
