package main

// Scheduling points between the statements of the code under test.  The same
// rewritten source is encoded and compiled for replay, so that an interleaving
// that breaks an assertion can be enforced natively.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// instrument adds the rewritten files of a package directory to the overlay.
// A step has level 1 in ordinary functions, level 2 in generated Xdr methods
// and level 3 in lib packages.
func (c *ctx) instrument(rel string, lib bool) error {
	fs, err := filepath.Glob(filepath.Join(c.repo, rel, "*.go"))
	if err != nil {
		return err
	}
	for _, p := range fs {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		n, err := instrumentFile(filepath.Base(p), b, lib)
		if err != nil {
			return err
		}
		if n != nil {
			c.overlay[p] = n
		}
	}
	return nil
}

const symName = "zz_sym"

func instrumentFile(name string, src []byte, lib bool) ([]byte, error) {
	set := token.NewFileSet()
	f, err := parser.ParseFile(set, name, src, 0)
	if err != nil {
		return nil, err
	}
	used := false
	sel := func(fn string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(symName), Sel: ast.NewIdent(fn)} }
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" {
			continue
		}
		level, recv := 1, ""
		if lib {
			level = 3
		} else if fd.Name.Name == "Xdr" {
			level = 2
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					recv = id.Name
				}
			}
		}
		step := func(s ast.Stmt) ast.Stmt {
			used = true
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Step"), Args: []ast.Expr{
				&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(level)},
				&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", name, set.Position(s.Pos()).Line))},
				&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(recv)}}}}
		}
		list := func(l []ast.Stmt) []ast.Stmt {
			var r []ast.Stmt
			for _, s := range l {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.BranchStmt:
				default:
					if d, ok := s.(*ast.DeclStmt); !ok || d.Decl.(*ast.GenDecl).Tok == token.VAR {
						r = append(r, step(s))
					}
				}
				if g, ok := s.(*ast.GoStmt); ok {
					used = true
					s = goStmt(g, sel)
				}
				r = append(r, s)
			}
			return r
		}
		skip := map[*ast.BlockStmt]bool{}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.SwitchStmt:
				skip[n.Body] = true
			case *ast.TypeSwitchStmt:
				skip[n.Body] = true
			case *ast.SelectStmt:
				skip[n.Body] = true
			}
			return true
		})
		var blocks []ast.Node
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				if !skip[n] {
					blocks = append(blocks, n)
				}
			case *ast.CaseClause, *ast.CommClause:
				blocks = append(blocks, n)
			}
			return true
		})
		for _, n := range blocks {
			switch n := n.(type) {
			case *ast.BlockStmt:
				n.List = list(n.List)
			case *ast.CaseClause:
				n.Body = list(n.Body)
			case *ast.CommClause:
				n.Body = list(n.Body)
			}
		}
	}
	pool := false
	ast.Inspect(f, func(n ast.Node) bool {
		if e, ok := n.(*ast.SelectorExpr); ok {
			if p, ok := e.X.(*ast.Ident); ok && p.Name == "sync" && p.Obj == nil && e.Sel.Name == "Pool" {
				p.Name = symName
				pool, used = true, true
			}
		}
		return true
	})
	if !used {
		return nil, nil
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(symName),
		Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/zz_verif/sym")}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	if pool {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")},
			Type: &ast.SelectorExpr{X: ast.NewIdent("sync"), Sel: ast.NewIdent("Mutex")}}}})
	}
	var o bytes.Buffer
	if err := printer.Fprint(&o, token.NewFileSet(), f); err != nil {
		return nil, err
	}
	return o.Bytes(), nil
}

// goStmt numbers the goroutine that is started.
func goStmt(g *ast.GoStmt, sel func(string) ast.Expr) ast.Stmt {
	var b ast.BlockStmt
	def := func(n string, v ast.Expr) ast.Expr {
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{v}})
		return ast.NewIdent(n)
	}
	call := &ast.CallExpr{Ellipsis: g.Call.Ellipsis}
	if fl, ok := g.Call.Fun.(*ast.FuncLit); ok {
		call.Fun = def("zz_f", fl)
	} else {
		call.Fun = def("zz_f", g.Call.Fun)
	}
	for i, a := range g.Call.Args {
		call.Args = append(call.Args, def(fmt.Sprintf("zz_a%d", i), a))
	}
	id := def("zz_id", &ast.CallExpr{Fun: sel("NewG")})
	body := &ast.BlockStmt{List: []ast.Stmt{
		&ast.ExprStmt{X: &ast.CallExpr{Fun: sel("EnterG"), Args: []ast.Expr{id}}},
		&ast.ExprStmt{X: call}}}
	b.List = append(b.List, &ast.GoStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body}}})
	return &b
}
