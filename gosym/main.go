package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type harnessRes struct {
	Name     string            `json:"harness"`
	Paths    int               `json:"paths"`
	OK       int               `json:"paths_completed"`
	Infeas   int               `json:"paths_assumed_away"`
	Cut      map[string]int    `json:"paths_outside_the_model,omitempty"`
	Budget   map[string]int    `json:"paths_cut_by_bound,omitempty"`
	Asserts  map[string]int    `json:"assertions_decided"`
	Reached  []string          `json:"witnesses_reached"`
	Missing  []string          `json:"witnesses_missing,omitempty"`
	Complete bool              `json:"all_paths_explored"`
	WallS    float64           `json:"wall_s"`
	Spurious map[string]int    `json:"candidates_not_reproduced,omitempty"`
	Steps    int64             `json:"instructions"`
	Sample   map[string]string `json:"sample_path_inputs,omitempty"`

	viol    map[string][]*cand
	funcs   map[string]bool
	used    map[string]bool
	notes   map[string]bool
	unk     int
	nInputs int
}

const maxCand = 6

type cand struct {
	label, detail string
	inputs        map[string]string
	sched         bool
	res           Res
}

var (
	fRepo   = flag.String("repo", "/repo", "")
	fVerif  = flag.String("verif", "/verif", "")
	fProp   = flag.String("prop", "", "")
	fTier   = flag.String("tier", "quick", "")
	fOnly   = flag.String("only", "", "run only harnesses matching")
	fBudget = flag.Int("budget", 0, "seconds")
	fNoRep  = flag.Bool("noreplay", false, "")
	fV      = flag.Bool("v", false, "")
	fExt    = flag.Bool("ext", false, "")
	fList   = flag.Bool("selftest", false, "")
)

func runPath(pr *Program, s *Solver, fn *ssa.Function, prefix []bool, loopMax, maxSteps int) (ex *Exec, out string, viol *violationV, detail string) {
	ex = &Exec{prog: pr, p: NewPool(), s: s, prefix: prefix, facts: map[int]bool{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{},
		labelN: map[string]int{}, maxSteps: maxSteps, loopMax: loopMax, reached: map[string]bool{}, asserts: map[string]int{}, notes: map[string]bool{},
		funcs: map[*ssa.Function]bool{}, env: newEnv()}
	m := &G{id: 0, wake: make(chan struct{}, 1), started: true, name: "main"}
	ex.gs = []*G{m}
	ex.cur = m
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
				out = "ok"
			case infeasible:
				out = "infeasible"
			case violationV:
				out, viol = "violation", &x
			case goPanicV:
				out, viol = "violation", &violationV{"panic", "uncaught panic: " + ex.panicText(x)}
			case exitV:
				out, viol = "violation", &violationV{"process-exit", x.msg}
			case deadlockV:
				out, viol = "violation", &violationV{"deadlock", x.msg}
			case cutErr:
				out, detail = "cut", x.msg
			case budgetErr:
				out, detail = "budget", x.msg
			case runtime.Error:
				out, detail = "cut", "internal: "+x.Error()
				if debugOn {
					debug.PrintStack()
				}
			default:
				out, detail = "cut", fmt.Sprintf("internal: %v", r)
			}
		}()
		ex.callFn(nil, fn, nil, nil)
	}()
	ex.killAll()
	return
}

func (ex *Exec) panicText(g goPanicV) (s string) {
	defer func() {
		if recover() != nil {
			s = "?"
		}
	}()
	switch x := g.v.(type) {
	case Iface:
		return ex.fmtVal(nil, 'v', x).String()
	}
	return fmt.Sprintf("%v", g.v)
}

func explore(pr *Program, fn *ssa.Function, deadline time.Time, workers int) *harnessRes {
	t0 := time.Now()
	h := &harnessRes{Name: fn.Name(), Cut: map[string]int{}, Budget: map[string]int{}, Asserts: map[string]int{}, Spurious: map[string]int{},
		viol: map[string][]*cand{}, funcs: map[string]bool{}, used: map[string]bool{}, notes: map[string]bool{}}
	reached := map[string]bool{}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := [][]bool{nil}
	active := 0
	var stop int32
	h.Complete = true
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := NewSolver(10000)
			defer s.Close()
			for {
				mu.Lock()
				for len(queue) == 0 && active > 0 {
					cond.Wait()
				}
				if len(queue) == 0 || atomic.LoadInt32(&stop) == 1 {
					if len(queue) > 0 {
						h.Complete = false
						queue = nil
					}
					cond.Broadcast()
					mu.Unlock()
					return
				}
				pre := queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				active++
				mu.Unlock()
				s.Begin()
				ex, out, v, det := runPath(pr, s, fn, pre, 400, 3000000)
				var c *cand
				if v != nil {
					mu.Lock()
					old := len(h.viol[v.label])
					n := h.Spurious["~"+v.label]
					mu.Unlock()
					if old < maxCand && n < 40 {
						c = ex.candidate(v)
					}
				}
				var samp map[string]string
				if out == "ok" && h.Sample == nil && len(ex.inputs) > 0 {
					if cc := ex.candidate(&violationV{"sample", ""}); cc != nil {
						samp = cc.inputs
					}
				}
				s.End()
				mu.Lock()
				if samp != nil && h.Sample == nil {
					h.Sample = samp
				}
				active--
				h.Paths++
				h.Steps += int64(ex.steps)
				h.unk += ex.unknown
				if len(ex.inputs) > h.nInputs {
					h.nInputs = len(ex.inputs)
				}
				queue = append(queue, ex.forks...)
				switch out {
				case "ok":
					h.OK++
				case "infeasible":
					h.Infeas++
				case "cut":
					h.Cut[det]++
				case "budget":
					h.Budget[det]++
				}
				if v != nil {
					if c != nil {
						if len(h.viol[v.label]) < maxCand {
							h.viol[v.label] = append(h.viol[v.label], c)
						}
					} else if len(h.viol[v.label]) == 0 {
						h.Spurious["~"+v.label]++
					}
				}
				for k, n := range ex.asserts {
					h.Asserts[k] += n
				}
				if out == "ok" {
					for k := range ex.reached {
						reached[k] = true
					}
				}
				for f := range ex.funcs {
					if isRepoFn(f) && !strings.Contains(f.Name(), "Verif") {
						h.funcs[f.RelString(nil)] = true
					}
				}
				for k := range ex.env.used {
					h.used[k] = true
				}
				for k := range ex.notes {
					h.notes[k] = true
				}
				if time.Now().After(deadline) {
					atomic.StoreInt32(&stop, 1)
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for k := range reached {
		h.Reached = append(h.Reached, k)
	}
	sort.Strings(h.Reached)
	for _, k := range reachLabels(fn) {
		if !reached[k] {
			h.Missing = append(h.Missing, k)
		}
	}
	h.WallS = time.Since(t0).Seconds()
	return h
}

// reachLabels finds the Reach("...") witnesses written in a harness.
func reachLabels(fn *ssa.Function) []string {
	var out []string
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if cf := c.Call.StaticCallee(); cf != nil && cf.String() == rtPkg+".Reach" {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok {
							out = append(out, strings.Trim(k.Value.ExactString(), `"`))
						}
					}
				}
			}
		}
	}
	walk(fn)
	return out
}

// candidate asks the solver for a concrete model of the current path.
func (ex *Exec) candidate(v *violationV) *cand {
	ex.pushAxioms()
	p := ex.p
	var extra, terms []*Term
	for _, in := range ex.inputs {
		terms = append(terms, in.t)
		if in.kind == "str" {
			extra = append(extra, p.App("cleanstr", SBool, in.t))
		}
	}
	extra = append(extra, ex.lazy...)
	if v.label == "sample" {
		defer ex.s.only(terms)()
	}
	// hashes that are recognised in the inputs can be replaced by the real ones
	long := extra
	for _, a := range p.made {
		terms = append(terms, a.t)
		if a.a.kind == "hash" {
			long = append(long[:len(long):len(long)], p.App("longstr", SBool, a.t))
		}
	}
	res, m := Unsat, map[int]string(nil)
	if v.label != "sample" && len(long) > len(extra) && len(p.made) < 200 {
		res, m = ex.s.Model(long, terms)
	}
	if res != Sat {
		res, m = ex.s.Model(extra, terms)
	}
	if res == Unsat {
		return nil
	}
	if res == Unknown {
		res, m = ex.s.Model(nil, terms)
		if res != Sat {
			return nil
		}
	}
	c := &cand{label: v.label, detail: v.detail, inputs: map[string]string{}, res: res}
	real := p.realise(m)
	for _, in := range ex.inputs {
		c.inputs[in.label] = m[in.t.id]
		if in.kind == "str" {
			c.inputs[in.label] = real(m[in.t.id])
		}
		if in.kind == "sched" {
			c.sched = true
		}
	}
	return c
}

// ---- driver -----------------------------------------------------------------

type harnessFile struct{ pkg, path string }

func overlayFor(prop string) (map[string]string, []harnessFile) {
	ov := map[string]string{}
	add := func(glob, dir string) {
		fs, _ := filepath.Glob(filepath.Join(*fVerif, "harness", glob))
		for _, f := range fs {
			ov[filepath.Join(*fRepo, dir, "zz_verif_"+filepath.Base(f))] = f
		}
	}
	add("verifrt/*.go", "verifrt")
	add("verifh/*.go", "verifh")
	add("verifw/*.go", "verifw")
	var hs []harnessFile
	fs, _ := filepath.Glob(filepath.Join(*fVerif, "harness", prop, "*.go"))
	for _, f := range fs {
		pkg := strings.TrimSuffix(filepath.Base(f), ".go")
		if i := strings.Index(pkg, "_"); i > 0 {
			pkg = pkg[:i]
		}
		ov[filepath.Join(*fRepo, pkg, "zz_verif_"+prop+"_"+filepath.Base(f))] = f
		hs = append(hs, harnessFile{pkg, f})
		// helpers shared by the harnesses of a package, and of those it says it uses
		with := []string{pkg}
		src, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(src), "\n") {
			if strings.HasPrefix(l, "//verif:with ") {
				with = append(with, strings.Fields(l)[1:]...)
			}
		}
		for _, pkg := range with {
			if c := filepath.Join(*fVerif, "harness", "common", pkg+".go"); fileExists(c) {
				ov[filepath.Join(*fRepo, pkg, "zz_verif_common.go")] = c
			}
		}
	}
	return ov, hs
}

var propMeta struct {
	Properties map[string]struct {
		Bounds      []string `json:"bounds"`
		Assumptions []string `json:"assumptions"`
	} `json:"properties"`
}

type known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	Status   string `json:"status"` // "known" or "fixed"
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func fileExists(p string) bool { _, err := os.Stat(p); return err == nil }

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	t0 := time.Now()
	tierThorough = *fTier == "thorough"
	ov, hs := overlayFor(*fProp)
	if len(hs) == 0 {
		fatal("no harness for %s", *fProp)
	}
	pk := map[string]bool{}
	pats := []string{"./verifrt"}
	for _, h := range hs {
		if !pk[h.pkg] {
			pats = append(pats, "./"+h.pkg)
		}
		pk[h.pkg] = true
	}
	pr, err := load(*fRepo, ov, pats)
	if err != nil {
		fatal("cannot load /repo with the harness: %v", err)
	}
	loadS := time.Since(t0).Seconds()
	var fns []*ssa.Function
	for pkg := range pk {
		sp := pr.pkgs[modPath+"/"+pkg]
		for n, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "Verif"+*fProp) {
				if *fOnly != "" && !regexp.MustCompile(*fOnly).MatchString(n) {
					continue
				}
				fns = append(fns, f)
				pkgOf[n] = pkg
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	if len(fns) == 0 {
		fatal("no harness function Verif%s*", *fProp)
	}
	budget := *fBudget
	if budget == 0 {
		budget = 600
		if tierThorough {
			budget = 3000
		}
	}
	var kn []known
	readJSON(filepath.Join(*fVerif, "known_findings.json"), &kn)
	per := time.Duration(budget) * time.Second / time.Duration(len(fns))
	var all []*harnessRes
	exit := 0
	var viols []map[string]any
	var knownHit []string
	spent := time.Duration(0)
	for i, f := range fns {
		// unused time of earlier harnesses is passed on
		allow := per*time.Duration(i+1) - spent
		h0 := time.Now()
		h := explore(pr, f, time.Now().Add(allow), 8)
		spent += time.Since(h0)
		all = append(all, h)
		if *fV {
			b, _ := json.MarshalIndent(h, "", " ")
			fmt.Println(string(b))
		}
		for _, lab := range sortedKeys(h.viol) {
			ok := false
			for _, k := range kn {
				if k.Status == "known" && k.Property == *fProp && k.Harness == h.Name && k.Label == lab {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, k.What)
					knownHit = append(knownHit, k.What)
					ok = true
				}
			}
			if ok {
				continue
			}
			if exit == 1 && len(viols) >= 3 {
				break // enough counterexamples confirmed
			}
			for _, c := range h.viol[lab] {
				rp, conf, txt := replay(pkgOf[h.Name], h.Name, c, ov)
				fmt.Printf("candidate %s/%s: %s -> replay %s\n", h.Name, lab, c.detail, txt)
				if conf {
					exit = 1
					fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, rp)
					viols = append(viols, map[string]any{"harness": h.Name, "label": lab, "detail": c.detail, "replay": rp, "inputs": c.inputs})
					break
				}
				h.Spurious[lab+": "+txt]++
			}
		}
	}
	writeEvidence(all, exit, viols, knownHit, t0, loadS)
	for _, h := range all {
		fmt.Printf("%-46s paths=%d ok=%d assumed=%d cut=%d bound=%d complete=%v missing=%v spurious=%v %.1fs\n", h.Name, h.Paths, h.OK, h.Infeas, sum(h.Cut), sum(h.Budget), h.Complete, h.Missing, h.Spurious, h.WallS)
		for k, n := range h.Cut {
			fmt.Printf("   cut %d: %s\n", n, k)
		}
		for k, n := range h.Budget {
			fmt.Printf("   bound %d: %s\n", n, k)
		}
	}
	fmt.Printf("property=%s tier=%s queries=%d cached=%d unknown=%d solver=%.1fs wall=%.1fs exit=%d\n", *fProp, *fTier, gstats.Queries, gstats.Cached, gstats.Unknown, float64(gstats.SolverNS)/1e9, time.Since(t0).Seconds(), exit)
	if replayTmp != "" {
		os.RemoveAll(replayTmp)
	}
	os.Exit(exit)
}

var mapRace = regexp.MustCompile(`concurrent map|DATA RACE\n[^=]*runtime\.map|DATA RACE\n[^=]*internal/runtime/maps\.`)

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

// replay runs the counterexample against the real code.
func replay(pkg, harness string, c *cand, ov map[string]string) (string, bool, string) {
	dir := filepath.Join(*fVerif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	san := regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(c.label, "_")
	rp := filepath.Join(dir, harness+"."+san+".json")
	var keys []string
	readJSON(filepath.Join(*fVerif, "harness", "rsakeys.json"), &keys)
	bin0 := map[string]string{} // what does not survive JSON otherwise
	for k, v := range c.inputs {
		if !utf8.ValidString(v) {
			bin0[k] = base64.StdEncoding.EncodeToString([]byte(v))
		}
	}
	doc := map[string]any{"Harness": harness, "Bytes": bin0, "Label": c.label, "Detail": c.detail, "Tier": *fTier, "Inputs": c.inputs, "RSAKeys": keys, "Controlled": c.sched && c.label != raceLabel, "Race": c.label == raceLabel}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(rp, b, 0o644)
	if *fNoRep {
		return rp, true, "skipped"
	}
	race := c.label == raceLabel
	bin, tmp, err := replayBin(pkg, ov, c.sched && !race, race)
	if err != nil {
		return rp, false, err.Error()
	}
	n := 1
	if c.sched {
		n = 3
	}
	if race {
		n = 30
	}
	last := ""
	for i := 0; i < n; i++ {
		cmd := exec.Command("timeout", "-s", "KILL", "60", bin, "-test.run", "^TestVerifReplay$", "-test.count=1")
		work := filepath.Join(tmp, "work")
		os.MkdirAll(work, 0o755)
		cmd.Dir = work
		cmd.Env = append(os.Environ(), "VERIF_REPLAY="+rp, fmt.Sprintf("VERIF_TRY=%d", i))
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		txt := out.String()
		last = "no result"
		if j := strings.LastIndex(txt, "VERIF-RESULT "); j >= 0 {
			last = strings.SplitN(txt[j+len("VERIF-RESULT "):], "\n", 2)[0]
		}
		switch {
		case race:
			if mapRace.MatchString(txt) {
				return rp, true, "the race detector reports simultaneous use of a map"
			}
			last = "no race seen"
		case strings.HasPrefix(last, "FAIL "):
			return rp, true, last
		case last == "PASS" || last == "ASSUME":
		case last == "NOHARNESS":
			return rp, false, last
		case err != nil: // the process died or hung before finishing
			if strings.Contains(txt, "fatal error: all goroutines are asleep") || strings.Contains(err.Error(), "killed") || strings.Contains(txt, "deadlock") {
				if c.label == "deadlock" {
					return rp, true, "blocked for ever"
				}
			}
			if c.label == "process-exit" || strings.Contains(txt, "panic:") || strings.Contains(txt, "fatal error:") {
				return rp, true, "process ended: " + tail(txt, 200)
			}
			last = "died: " + tail(txt, 300)
		}
	}
	return rp, false, last
}

var pkgOf = map[string]string{}
var replayBins = map[string]string{}
var replayTmp string

func replayBin(pkg string, ov map[string]string, sched, race bool) (string, string, error) {
	if replayTmp == "" {
		t, err := os.MkdirTemp("", "gosymreplay")
		if err != nil {
			return "", "", err
		}
		replayTmp = t
	}
	key := pkg
	if sched {
		key += "_sched"
	}
	if race {
		key += "_race"
	}
	if b := replayBins[key]; b != "" {
		return b, replayTmp, nil
	}
	tmp := filepath.Join(replayTmp, key)
	os.MkdirAll(tmp, 0o755)
	ent := ""
	for _, h := range sortedKeys(pkgOf) {
		if pkgOf[h] == pkg {
			ent += fmt.Sprintf("\t\t%q: %s,\n", h, h)
		}
	}
	test := fmt.Sprintf("package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tverifrt.RunReplay(t, map[string]func(){\n%s\t})\n}\n", pkgName(pkg), rtPkg, ent)
	tf := filepath.Join(tmp, "t_test.go")
	os.WriteFile(tf, []byte(test), 0o644)
	o2 := map[string]string{}
	for k, v := range ov {
		o2[k] = v
	}
	o2[filepath.Join(*fRepo, pkg, "zz_verif_replay_test.go")] = tf
	// leave out the repository's own tests: they are not needed and may have side effects
	ts, _ := filepath.Glob(filepath.Join(*fRepo, pkg, "*_test.go"))
	for _, t := range ts {
		o2[t] = ""
	}
	for _, d := range repoPkgs() {
		in, err := instrument(filepath.Join(*fRepo, d), tmp, sched && d == pkg)
		if err != nil {
			return "", "", err
		}
		for k, v := range in {
			o2[k] = v
		}
	}
	ob, _ := json.Marshal(map[string]any{"Replace": o2})
	of := filepath.Join(tmp, "ov.json")
	os.WriteFile(of, ob, 0o644)
	bin := filepath.Join(tmp, "replay.test")
	args := []string{"test", "-c", "-o", bin, "-overlay", of, "-vet=off"}
	if race {
		args = append(args, "-race")
	}
	bc := exec.Command("go", append(args, "./"+pkg)...)
	bc.Dir = *fRepo
	bc.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if out, err := bc.CombinedOutput(); err != nil {
		return "", "", fmt.Errorf("build failed: %s", tail(string(out), 600))
	}
	replayBins[key] = bin
	return bin, replayTmp, nil
}

// repoPkgs lists the directories of the repository with Go code in them.
func repoPkgs() []string {
	var out []string
	ms, _ := filepath.Glob(filepath.Join(*fRepo, "*"))
	for _, m := range ms {
		if fs, _ := filepath.Glob(filepath.Join(m, "*.go")); len(fs) > 0 {
			out = append(out, filepath.Base(m))
		}
	}
	return out
}

func pkgName(p string) string { return filepath.Base(p) }
func tail(s string, n int) string {
	s = strings.ReplaceAll(strings.TrimSpace(s), "\n", " | ")
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func writeEvidence(all []*harnessRes, exit int, viols []map[string]any, knownHit []string, t0 time.Time, loadS float64) {
	funcs, used, notes := map[string]bool{}, map[string]bool{}, map[string]bool{}
	paths, dec, ok := 0, 0, 0
	var steps int64
	var incomplete []string
	for _, h := range all {
		for k := range h.funcs {
			funcs[k] = true
		}
		for k := range h.used {
			used[k] = true
		}
		for k := range h.notes {
			notes[k] = true
		}
		paths += h.Paths
		ok += h.OK
		dec += sum(h.Asserts)
		steps += h.Steps
		if !h.Complete || len(h.Cut) > 0 || len(h.Budget) > 0 || h.unk > 0 {
			incomplete = append(incomplete, h.Name)
		}
	}
	readJSON(filepath.Join(*fVerif, "harness", "meta.json"), &propMeta)
	pm := propMeta.Properties[*fProp]
	var samples []any
	for _, h := range all {
		samples = append(samples, map[string]any{"harness": h.Name, "path_inputs": h.Sample})
	}
	if viols == nil {
		viols = []map[string]any{}
	}
	asm := append([]string{}, pm.Assumptions...)
	asm = append(asm, sortedKeys(notes)...)
	ev := map[string]any{
		"property": *fProp, "tier": *fTier, "seed": 1, "level": "model_checking",
		"coverage": map[string]any{
			"states": paths, "transitions": steps, "traces_validated_against_impl": len(viols), "samples": samples,
			"explanation":         "bounded symbolic execution of the Go SSA of /repo's current tree; states = symbolic paths, transitions = SSA instructions executed, every assertion is decided by the SMT solver for all values of the symbolic inputs on its path",
			"functions_encoded":   sortedKeys(funcs),
			"library_models_used": sortedKeys(used),
			"bounds":              pm.Bounds,
			"harnesses":           all,
			"paths_completed":     ok,
			"assertions_decided":  dec,
			"queries":             gstats.Queries, "queries_sat": gstats.Sat, "queries_unsat": gstats.Unsat, "queries_unknown": gstats.Unknown, "queries_answered_from_cache": gstats.Cached,
			"solver_s": float64(gstats.SolverNS) / 1e9, "load_s": loadS,
			"not_exhaustive_within_bounds": incomplete,
			"known_findings_hit":           knownHit,
		},
		"assumptions": asm,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  viols,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*fVerif, "evidence", *fProp+".json"), b, 0o644)
}
