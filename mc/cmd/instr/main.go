// instr OUT writes a copy of the packages of /repo in which every statement is a point where the
// scheduler may switch to another goroutine, and the overlay file for building with it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const pkg = "github.com/zbdba/db-recovery/recovery/verifyield"

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func main() {
	out := os.Args[1]
	must(os.MkdirAll(out, 0755))
	replace := map[string]string{}
	var where []string
	spawns := false
	var files []string
	must(filepath.Walk("/repo/recovery", func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return err
	}))
	sort.Strings(files)
	for _, p := range files {
		src, err := os.ReadFile(p)
		must(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		must(err)
		at := map[int]string{}
		point := func(pos token.Pos) {
			o := fset.Position(pos)
			at[o.Offset] = fmt.Sprintf("verifyield__.Y(%d); ", len(where))
			where = append(where, fmt.Sprintf("%s:%d", strings.TrimPrefix(p, "/repo/"), o.Line))
		}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				default:
					point(s.Pos())
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.GoStmt:
				spawns = true
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		at[fset.Position(f.Name.End()).Offset] = fmt.Sprintf("; import verifyield__ %q", pkg)
		var b strings.Builder
		for i := 0; i <= len(src); i++ {
			b.WriteString(at[i])
			if i < len(src) {
				b.WriteByte(src[i])
			}
		}
		n := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(p, "/repo/"), "/", "_"))
		must(os.WriteFile(n, []byte(b.String()), 0644))
		replace[p] = n
	}
	y := fmt.Sprintf(`package verifyield

// Hook is called before every statement.
var Hook func(site int)

// Y is a point where another goroutine may go on.
func Y(site int) {
	if Hook != nil {
		Hook(site)
	}
}

// Spawns is whether the code starts goroutines of its own.
const Spawns = %v

// Where are the places of the points.
var Where = %#v
`, spawns, where)
	n := filepath.Join(out, "verifyield.go")
	must(os.WriteFile(n, []byte(y), 0644))
	replace["/repo/recovery/verifyield/verifyield.go"] = n
	j, err := json.Marshal(map[string]interface{}{"Replace": replace})
	must(err)
	must(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644))
}
