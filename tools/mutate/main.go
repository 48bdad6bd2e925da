// mutate FILE lists small changes of a Go file, one per line, as JSON
// {"at","end","new","what"}; for mutation runs by tools/mutrun.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	At, End int
	New     string
	What    string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	put := func(from, to token.Pos, s, what string) {
		enc.Encode(change{off(from), off(to), s, fmt.Sprintf("%d: %s", fs.Position(from).Line, what)})
	}
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.REM: {"/"},
	}
	list := func(l []ast.Stmt) {
		for k, s := range l {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
				put(s.Pos(), s.End(), "", "delete "+text(s))
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					put(s.Pos(), s.End(), "", "delete "+text(s))
				}
			case *ast.ReturnStmt:
				put(s.Pos(), s.End(), "", "delete "+text(s))
			case *ast.IfStmt:
				if s.Else == nil {
					put(s.Pos(), s.End(), "", "delete if "+text(s.Cond))
				}
			}
			if k > 0 {
				a, b := l[k-1], s
				if _, ok := a.(*ast.ReturnStmt); !ok {
					put(a.Pos(), b.End(), text(b)+"\n"+text(a), "exchange with next")
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
			if len(n.List) > 0 {
				put(n.Pos(), n.Colon+1, "case "+text(n.List[0])+":", "")
			}
		case *ast.IfStmt:
			put(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+text(n.Cond))
		case *ast.BinaryExpr:
			for _, o := range swap[n.Op] {
				put(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, text(n)+" with "+o)
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				put(n.Pos(), n.End(), text(n.X), text(n)+" left only")
				put(n.Pos(), n.End(), text(n.Y), text(n)+" right only")
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				put(n.Pos(), n.End(), "("+n.Value+"+1)", n.Value+" +1")
				if n.Value != "0" {
					put(n.Pos(), n.End(), "("+n.Value+"-1)", n.Value+" -1")
				}
			case token.STRING:
				s, _ := strconv.Unquote(n.Value)
				if len(s) > 1 {
					put(n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]), "shorter "+n.Value)
				}
			}
		case *ast.Ident:
			if n.Name == "true" {
				put(n.Pos(), n.End(), "false", "true to false")
			} else if n.Name == "false" {
				put(n.Pos(), n.End(), "true", "false to true")
			}
		case *ast.CallExpr:
			if len(n.Args) > 1 {
				for k := 1; k < len(n.Args); k++ {
					put(n.Args[k-1].Pos(), n.Args[k].End(), text(n.Args[k])+", "+text(n.Args[k-1]), "arguments exchanged in "+text(n))
				}
			}
		case *ast.ImportSpec:
			return false
		}
		return true
	})
}
