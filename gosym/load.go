package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/jik18001/CTngV2"

// Program is the SSA form of /repo's current tree plus the harness overlay.
type Program struct {
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package
	mu     sync.Mutex
	mcache map[mkey]*ssa.Function
}
type mkey struct {
	t types.Type
	m *types.Func
}

func (pr *Program) lookup(t types.Type, m *types.Func) *ssa.Function {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	k := mkey{t, m}
	if f, ok := pr.mcache[k]; ok {
		return f
	}
	f := pr.prog.LookupMethod(t, m.Pkg(), m.Name())
	pr.mcache[k] = f
	return f
}

func (pr *Program) method(t types.Type, name string) *ssa.Function {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	ms := pr.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return pr.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// typeOf finds a named type in a loaded package.
func (pr *Program) typeOf(pkg, name string) types.Type {
	p := pr.pkgs[pkg]
	if p == nil {
		panic(cut("package %s not loaded", pkg))
	}
	m := p.Members[name]
	if m == nil {
		panic(cut("type %s.%s not found", pkg, name))
	}
	return m.(*ssa.Type).Type()
}

func load(repo string, overlay map[string]string, patterns []string) (*Program, error) {
	ov := map[string][]byte{}
	for k, f := range overlay {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, mcache: map[mkey]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		pr.pkgs[p.Pkg.Path()] = p
	}
	return pr, nil
}

// extCalls lists functions outside the repository that repository code calls.
func (pr *Program) extCalls() []string {
	set := map[string]string{}
	for f := range ssautil.AllFunctions(pr.prog) {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if cf := c.Common().StaticCallee(); cf != nil && cf.Pkg != nil && !strings.HasPrefix(cf.Pkg.Pkg.Path(), modPath) {
					set[fnKey(cf)] += " " + f.Name()
				}
				if c.Common().IsInvoke() {
					set["INVOKE "+c.Common().Method.FullName()] += " " + f.Name()
				}
			}
		}
	}
	var out []string
	for k, v := range set {
		if len(v) > 100 {
			v = v[:100]
		}
		out = append(out, k+"   <-"+v)
	}
	sort.Strings(out)
	return out
}

func readJSON(f string, v any) error {
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}
