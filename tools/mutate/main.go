// Development tool (no check uses it): lists small changes of Go source files as JSON lines {file, from, to, text, kind, line}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type Mut struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(from, to token.Pos, text, kind string) {
			_ = enc.Encode(Mut{name, off(from), off(to), text, kind, fset.Position(from).Line})
		}
		drop := func(list []ast.Expr, kind string) {
			for i, e := range list {
				switch {
				case i+1 < len(list):
					add(e.Pos(), list[i+1].Pos(), "", kind)
				case i > 0:
					add(list[i-1].End(), e.End(), "", kind)
				}
			}
		}
		swap := func(list []ast.Expr, kind string) {
			for i := 0; i+1 < len(list); i++ {
				a, b := list[i], list[i+1]
				if txt(a) != txt(b) {
					add(a.Pos(), b.End(), txt(b)+", "+txt(a), kind)
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.IfStmt:
				c := txt(x.Cond)
				add(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "if-not")
				add(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "if-true")
				add(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "if-false")
			case *ast.ForStmt:
				if x.Cond != nil {
					add(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "for-false")
				}
			case *ast.BinaryExpr:
				m := map[token.Token][]string{
					token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="},
					token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"},
				}
				for _, o := range m[x.Op] {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x.Pos(), x.End(), txt(x.X), "left-only")
					add(x.Pos(), x.End(), txt(x.Y), "right-only")
				}
			case *ast.BlockStmt:
				for i, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
						add(s.Pos(), s.End(), "", "delete")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							add(s.Pos(), s.End(), "", "delete")
						}
					}
					if i+1 < len(x.List) {
						t := x.List[i+1]
						add(s.Pos(), t.End(), txt(t)+"\n"+txt(s), "swap-stmts")
					}
				}
			case *ast.CaseClause:
				drop(x.List, "case-drop")
				for _, s := range x.Body {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.IfStmt:
						add(s.Pos(), s.End(), "", "delete")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							add(s.Pos(), s.End(), "", "delete")
						}
					}
				}
				if x.List != nil {
					add(x.Pos(), x.End(), "", "clause-delete")
				}
			case *ast.BranchStmt:
				switch x.Tok {
				case token.BREAK:
					if x.Label == nil {
						add(x.Pos(), x.End(), "continue", "branch")
					}
				case token.CONTINUE:
					add(x.Pos(), x.End(), "break", "branch")
				}
			case *ast.CompositeLit:
				drop(x.Elts, "elt-drop")
				if len(x.Elts) == 1 {
					add(x.Lbrace+1, x.Rbrace, "", "elt-drop")
				}
			case *ast.CallExpr:
				drop(x.Args, "arg-drop")
				swap(x.Args, "arg-swap")
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x.Pos(), x.X.Pos(), "", "unnot")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						add(x.Pos(), x.End(), fmt.Sprint(v+1), "int")
						if v > 0 {
							add(x.Pos(), x.End(), fmt.Sprint(v-1), "int")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), x.End(), "false", "bool")
				}
				if x.Name == "false" {
					add(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
						continue
					}
					add(r.Pos(), r.End(), "nil", "return-nil")
				}
			}
			return true
		})
	}
}
