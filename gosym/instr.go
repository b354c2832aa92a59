package main

import (
	"bytes"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

// instrumentNet redirects the code's use of net/http servers and clients in a replay.
func instrumentNet(af *ast.File) int {
	name := ""
	for _, im := range af.Imports {
		if im.Path.Value == `"net/http"` {
			name = "http"
			if im.Name != nil {
				name = im.Name.Name
			}
		}
	}
	if name == "" {
		return 0
	}
	rt := func(s string) ast.Expr {
		return &ast.SelectorExpr{X: ast.NewIdent("verifrt"), Sel: ast.NewIdent(s)}
	}
	isHTTP := func(e ast.Expr, sel string) bool {
		s, ok := e.(*ast.SelectorExpr)
		if !ok || s.Sel.Name != sel {
			return false
		}
		x, ok := s.X.(*ast.Ident)
		return ok && x.Name == name
	}
	n := 0
	astutil.Apply(af, nil, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.CallExpr:
			for from, to := range map[string]string{"Handle": "HTTPHandle", "HandleFunc": "HTTPHandleFunc", "ListenAndServe": "HTTPListen"} {
				if isHTTP(x.Fun, from) {
					x.Fun = rt(to)
					n++
					return true
				}
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "ListenAndServe" && len(x.Args) == 0 {
				x.Args = []ast.Expr{s.X}
				x.Fun = rt("HTTPServe")
				n++
			}
		case *ast.UnaryExpr:
			if l, ok := x.X.(*ast.CompositeLit); ok && x.Op == token.AND && isHTTP(l.Type, "Client") {
				c.Replace(&ast.CallExpr{Fun: rt("HTTPClient"), Args: []ast.Expr{x}})
				n++
			}
		}
		return true
	})
	if n > 0 {
		af.Decls = append(af.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")},
			Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("StatusOK")}}}}})
	}
	return n
}

// instrumentFiles redirects what changes files, so that a replay can stop at the crash
// point of a counterexample.
func instrumentFiles(af *ast.File) int {
	names := map[string]string{}
	for _, im := range af.Imports {
		switch im.Path.Value {
		case `"os"`:
			names["os"] = "OS"
		case `"io/ioutil"`:
			names["ioutil"] = "OS"
		}
	}
	n := 0
	ast.Inspect(af, func(nd ast.Node) bool {
		c, ok := nd.(*ast.CallExpr)
		if !ok {
			return true
		}
		s, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		x, ok := s.X.(*ast.Ident)
		if !ok || names[x.Name] == "" {
			return true
		}
		switch s.Sel.Name {
		case "Create", "OpenFile", "WriteFile", "Remove", "Rename":
			c.Fun = &ast.SelectorExpr{X: ast.NewIdent("verifrt"), Sel: ast.NewIdent("OS" + s.Sel.Name)}
			n++
			use := map[string]string{"os": "Getpid", "ioutil": "NopCloser"}[x.Name]
			af.Decls = append(af.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")},
				Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(x.Name), Sel: ast.NewIdent(use)}}}}})
		}
		return true
	})
	return n
}

// instrumentTimers lets a replay run timers together with requests.
func instrumentTimers(af *ast.File) int {
	n := 0
	ast.Inspect(af, func(nd ast.Node) bool {
		if c, ok := nd.(*ast.CallExpr); ok {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "AfterFunc" {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == "time" {
					c.Fun = &ast.SelectorExpr{X: ast.NewIdent("verifrt"), Sel: ast.NewIdent("AfterFunc")}
					n++
				}
			}
		}
		return true
	})
	if n > 0 {
		af.Decls = append(af.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")},
			Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent("time"), Sel: ast.NewIdent("Second")}}}}})
	}
	return n
}

// instrument rewrites the lock operations of a package so that a replay can follow the
// schedule of a counterexample: x.Lock() -> verifrt.Lock(x.Lock, x.TryLock) and so on.
func instrument(dir, out string, locks bool) (map[string]string, error) {
	ov := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		n := instrumentNet(af) + instrumentFiles(af) + instrumentTimers(af)
		ast.Inspect(af, func(nd ast.Node) bool {
			c, ok := nd.(*ast.CallExpr)
			if !ok || len(c.Args) != 0 || !locks {
				return true
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			rt := func(name string) ast.Expr {
				return &ast.SelectorExpr{X: ast.NewIdent("verifrt"), Sel: ast.NewIdent(name)}
			}
			switch s.Sel.Name {
			case "Lock", "RLock":
				key := s.Sel.Name
				if f, ok := s.X.(*ast.SelectorExpr); ok {
					key += "@" + f.Sel.Name
				}
				c.Args = []ast.Expr{&ast.SelectorExpr{X: s.X, Sel: ast.NewIdent(s.Sel.Name)}, &ast.SelectorExpr{X: s.X, Sel: ast.NewIdent("Try" + s.Sel.Name)}, &ast.BasicLit{Kind: token.STRING, Value: `"` + key + `"`}}
				c.Fun = rt("Lock")
				n++
			case "Unlock", "RUnlock":
				c.Args = []ast.Expr{&ast.SelectorExpr{X: s.X, Sel: ast.NewIdent(s.Sel.Name)}}
				c.Fun = rt("Unlock")
				n++
			}
			return true
		})
		if n == 0 {
			continue
		}
		af.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + rtPkg + `"`}}}}}, af.Decls...)
		af.Comments = nil
		var b bytes.Buffer
		if err := format.Node(&b, fset, af); err != nil {
			return nil, err
		}
		o := filepath.Join(out, "instr_"+filepath.Base(dir)+"_"+filepath.Base(f))
		if err := os.WriteFile(o, b.Bytes(), 0o644); err != nil {
			return nil, err
		}
		ov[f] = o
	}
	return ov, nil
}
