// Command mutate lists small changes to the Go files given (one JSON object a
// line: file, line, kind, from, to, start, end), for the sensitivity campaign
// described in DESIGN.md. It changes nothing itself.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File       string
	Line       int
	Kind       string
	From, To   string
	Start, End int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		put := func(kind string, a, b token.Pos, to string) {
			s, e := off(a), off(b)
			enc.Encode(mut{name, fset.Position(a).Line, kind, string(src[s:e]), to, s, e})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt:
					put("delete", s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						put("delete", s.Pos(), s.End(), "")
					}
				case *ast.BranchStmt:
					put("delete", s.Pos(), s.End(), "")
					if x.Tok == token.CONTINUE {
						put("branch", s.Pos(), s.End(), "break")
					} else if x.Tok == token.BREAK {
						put("branch", s.Pos(), s.End(), "continue")
					}
				case *ast.IfStmt:
					put("delete", s.Pos(), s.End(), "")
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							put("noerr", r.Pos(), r.End(), "nil")
						}
					}
				}
				if i > 0 {
					if _, ok := l[i-1].(*ast.DeclStmt); !ok {
						put("swap", l[i-1].Pos(), s.End(), txt(s)+"\n"+txt(l[i-1]))
					}
				}
			}
		}
		swap := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, t := range swap[x.Op] {
					put("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					put("side", x.Pos(), x.End(), txt(x.X))
					put("side", x.Pos(), x.End(), txt(x.Y))
				}
			case *ast.AssignStmt:
				switch x.Tok {
				case token.ADD_ASSIGN:
					put("op", x.TokPos, x.TokPos+2, "-=")
					put("op", x.TokPos, x.TokPos+2, "=")
				case token.SUB_ASSIGN:
					put("op", x.TokPos, x.TokPos+2, "+=")
				case token.QUO_ASSIGN:
					put("op", x.TokPos, x.TokPos+2, "*=")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.Atoi(x.Value)
					if err == nil {
						put("const", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							put("const", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				}
				if x.Kind == token.FLOAT {
					put("const", x.Pos(), x.End(), "("+x.Value+"+0.25)")
				}
			case *ast.Ident:
				if x.Name == "true" {
					put("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					put("bool", x.Pos(), x.End(), "true")
				}
			case *ast.IfStmt:
				put("not", x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")")
			case *ast.CallExpr:
				// method Clone dropped
				if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Clone" {
					put("noclone", x.Pos(), x.End(), txt(s.X))
				}
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "max" || id.Name == "min") && len(x.Args) == 2 {
					put("side", x.Pos(), x.End(), txt(x.Args[0]))
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			}
			return true
		})
	}
}
