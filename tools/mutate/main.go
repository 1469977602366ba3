// mutate lists small changes to Go files as JSON: {file, line, start, end, repl, desc}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type Mut struct {
	ID    int    `json:"id"`
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Repl  string `json:"repl"`
	Desc  string `json:"desc"`
}

var out []Mut

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		add := func(a, b token.Pos, repl, desc string) {
			s, e := fs.Position(a).Offset, fs.Position(b).Offset
			old := string(src[s:e])
			if old == repl {
				return
			}
			short := func(x string) string {
				x = strings.Join(strings.Fields(x), " ")
				if len(x) > 70 {
					x = x[:70] + "…"
				}
				return x
			}
			out = append(out, Mut{len(out), f, fs.Position(a).Line, fn, s, e, repl, fmt.Sprintf("%s: %s => %s", desc, short(old), short(repl))})
		}
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		isLog := func(n ast.Node) bool {
			t := text(n)
			return strings.HasPrefix(t, "logs.") || strings.HasPrefix(t, "glog.")
		}
		var cond func(e ast.Expr)
		cond = func(e ast.Expr) {
			add(e.Pos(), e.End(), "(("+text(e)+") || true)", "true")
			add(e.Pos(), e.End(), "(("+text(e)+") && false)", "false")
		}
		var stmts func(l []ast.Stmt)
		stmts = func(l []ast.Stmt) {
			for _, s := range l {
				switch x := s.(type) {
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						add(x.Pos(), x.End(), blank(x.Rhs, text), "delete")
					}
				case *ast.IncDecStmt:
					add(x.Pos(), x.End(), "", "delete")
				case *ast.ExprStmt:
					if !isLog(x.X) {
						add(x.Pos(), x.End(), "", "delete")
					}
				case *ast.BranchStmt:
					add(x.Pos(), x.End(), "", "delete")
					if x.Tok == token.BREAK && x.Label == nil {
						add(x.Pos(), x.End(), "continue", "swap")
					} else if x.Tok == token.CONTINUE && x.Label == nil {
						add(x.Pos(), x.End(), "break", "swap")
					}
				case *ast.ReturnStmt:
					add(x.Pos(), x.End(), "", "delete")
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
			case *ast.CallExpr:
				if isLog(x) {
					return false
				}
			case *ast.ImportSpec:
				return false
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				for _, e := range x.List {
					if len(x.List) > 1 {
						i := 0
						for j := range x.List {
							if x.List[j] == e {
								i = j
							}
						}
						if i+1 < len(x.List) {
							add(e.Pos(), x.List[i+1].Pos(), "", "drop case")
						} else {
							add(x.List[i-1].End(), e.End(), "", "drop case")
						}
					}
				}
				if len(x.Body) > 0 {
					add(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case")
				}
			case *ast.IfStmt:
				cond(x.Cond)
			case *ast.ForStmt:
				if x.Cond != nil {
					add(x.Cond.Pos(), x.Cond.End(), "(("+text(x.Cond)+") && false)", "false")
				}
			case *ast.BinaryExpr:
				l, r := text(x.X), text(x.Y)
				op := func(t string) { add(x.Pos(), x.End(), l+" "+t+" "+r, "op "+x.Op.String()+"→"+t) }
				switch x.Op {
				case token.LAND, token.LOR:
					add(x.Pos(), x.End(), "("+l+")", "left of "+x.Op.String())
					add(x.Pos(), x.End(), "("+r+")", "right of "+x.Op.String())
				case token.LSS:
					op("<=")
				case token.LEQ:
					op("<")
				case token.GTR:
					op(">=")
				case token.GEQ:
					op(">")
				case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.SHL, token.SHR, token.XOR:
					add(x.Pos(), x.End(), "("+l+")", "left of "+x.Op.String())
					if x.Op != token.SHL && x.Op != token.SHR && x.Op != token.QUO {
						add(x.Pos(), x.End(), "("+r+")", "right of "+x.Op.String())
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x.Pos(), x.End(), "("+text(x.X)+")", "drop !")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseUint(x.Value, 0, 64)
					if err == nil {
						add(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
						if v > 0 {
							add(x.Pos(), x.End(), fmt.Sprint(v-1), "int-1")
						}
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 {
					add(x.Pos(), x.End(), x.Value[:len(x.Value)-2]+string(x.Value[len(x.Value)-1]), "string")
				}
			}
			return true
		})
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

// blank keeps the uses of variables of a deleted assignment, so that it still compiles.
func blank(rhs []ast.Expr, text func(ast.Node) string) string {
	var s []string
	for _, e := range rhs {
		s = append(s, text(e))
	}
	if len(s) == 1 {
		if _, ok := rhs[0].(*ast.CallExpr); ok {
			return "{ x := func(...interface{}) {}; x(" + s[0] + ") }"
		}
		return "_ = " + s[0]
	}
	return strings.Repeat("_, ", len(s)-1) + "_ = " + strings.Join(s, ", ")
}
