package build

import (
	"bytes"
	"fmt"
	"go/ast"
	gobuild "go/build"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// what simsync has.
var simsyncHas = map[string]bool{"Map": true, "Locker": true, "Mutex": true, "RWMutex": true, "Once": true,
	"OnceFunc": true, "OnceValue": true, "OnceValues": true, "WaitGroup": true, "Pool": true}

// InstrumentDir writes an instrumented copy of the package in src to dst: a
// yield before every statement, an account of every slice that is made, and
// sync replaced by the simulator's. Comments are dropped.
func InstrumentDir(src, dst string) (files int, err error) {
	ents, err := os.ReadDir(src)
	if err != nil {
		return 0, err
	}
	ctx := gobuild.Default
	ctx.GOROOT = Goroot
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(src, n); err != nil || !ok {
			continue
		}
		out, err := instrument(filepath.Join(src, n))
		if err != nil {
			return files, err
		}
		if err := os.MkdirAll(dst, 0o755); err != nil {
			return files, err
		}
		if err := os.WriteFile(filepath.Join(dst, n), out, 0o644); err != nil {
			return files, err
		}
		files++
	}
	return files, nil
}

func instrument(file string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	var usesRT, usesUnsafe bool
	call := func(name string) ast.Stmt {
		usesRT = true
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(name)}}}
	}
	spread := func(list []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range list {
			out = append(out, call("Y"), s)
		}
		return out
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			n.List = append(spreadKeep(n.List, spread), tail(n, call)...)
		case *ast.CaseClause:
			n.Body = spreadKeep(n.Body, spread)
		case *ast.CommClause:
			n.Body = spreadKeep(n.Body, spread)
		case *ast.CallExpr:
			id, ok := n.Fun.(*ast.Ident)
			if !ok || id.Name != "make" || len(n.Args) < 2 {
				break
			}
			at, ok := n.Args[0].(*ast.ArrayType)
			if !ok || at.Len != nil {
				break
			}
			usesRT, usesUnsafe = true, true
			k := len(n.Args) - 1
			n.Args[k] = &ast.CallExpr{
				Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent("A")},
				Args: []ast.Expr{n.Args[k], &ast.CallExpr{
					Fun: &ast.SelectorExpr{X: ast.NewIdent("unsafe"), Sel: ast.NewIdent("Sizeof")},
					Args: []ast.Expr{&ast.StarExpr{X: &ast.CallExpr{Fun: ast.NewIdent("new"),
						Args: []ast.Expr{at.Elt}}}},
				}},
			}
		}
		return true
	})
	replaceSync := true
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Name == "sync" && !simsyncHas[s.Sel.Name] {
				replaceSync = false
			}
		}
		return true
	})
	hasUnsafe := false
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		switch p {
		case "sync":
			if replaceSync && im.Name == nil {
				im.Name = ast.NewIdent("sync")
				im.Path.Value = strconv.Quote("vsim/simrt/simsync")
			}
		case "unsafe":
			hasUnsafe = im.Name == nil
		}
	}
	var specs []ast.Spec
	add := func(p string) {
		specs = append(specs, &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}})
	}
	if usesRT {
		add("vsim/simrt")
	}
	if usesUnsafe && !hasUnsafe {
		add("unsafe")
	}
	if len(specs) > 0 {
		d := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs, Rparen: 2}
		f.Decls = append([]ast.Decl{d}, f.Decls...)
	}
	// Without positions, so that the printer does not mind the insertions.
	var b bytes.Buffer
	if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, token.NewFileSet(), f); err != nil {
		return nil, fmt.Errorf("%s: %w", file, err)
	}
	return b.Bytes(), nil
}

// spreadKeep leaves the clauses of a switch alone.
func spreadKeep(list []ast.Stmt, spread func([]ast.Stmt) []ast.Stmt) []ast.Stmt {
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return list
		}
	}
	return spread(list)
}

// tail puts a yield into otherwise empty blocks, so that empty loops count.
func tail(b *ast.BlockStmt, call func(string) ast.Stmt) []ast.Stmt {
	return nil
}
