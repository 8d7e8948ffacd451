// mutate lists mutants of Go files as JSON lines: go run mutate.go FILE...
// It serves the measurement of the checks only; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File       string `json:"file"`
	Line       int    `json:"line"`
	Func       string `json:"func"`
	Op         string `json:"op"`
	Start, End int
	New        string
	Old        string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(n ast.Node, op string, s, e int, nw string) {
			enc.Encode(mutant{f, fset.Position(n.Pos()).Line, fn, op, s, e, nw, string(src[s:e])})
		}
		logging := func(n ast.Node) bool {
			t := txt(n)
			for _, p := range []string{"sigolo.", "log.", "errors.", "fmt.Errorf", "fmt.Print", "panic("} {
				if strings.HasPrefix(t, p) {
					return true
				}
			}
			return false
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CallExpr:
					if logging(x) {
						return false
					}
				case *ast.ExprStmt:
					if logging(x) {
						return false
					}
					emit(x, "drop-call", off(x.Pos()), off(x.End()), "")
				case *ast.DeferStmt:
					emit(x, "drop-defer", off(x.Pos()), off(x.End()), "")
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN {
						var l []string
						for _, r := range x.Rhs {
							l = append(l, txt(r))
						}
						blank := strings.Repeat("_, ", len(x.Rhs)-1) + "_"
						if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
							blank = strings.Repeat("_, ", len(x.Lhs)-1) + "_"
						}
						emit(x, "drop-assign", off(x.Pos()), off(x.End()), blank+" = "+strings.Join(l, ", "))
					}
				case *ast.IncDecStmt:
					emit(x, "drop-inc", off(x.Pos()), off(x.End()), "")
				case *ast.IfStmt:
					emit(x, "cond-true", off(x.Cond.Pos()), off(x.Cond.End()), "true || "+"("+txt(x.Cond)+")")
					emit(x, "cond-false", off(x.Cond.Pos()), off(x.Cond.End()), "false && "+"("+txt(x.Cond)+")")
				case *ast.BranchStmt:
					if x.Label == nil && (x.Tok == token.CONTINUE || x.Tok == token.BREAK) {
						emit(x, "drop-branch", off(x.Pos()), off(x.End()), "")
					}
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}}
					if x.Op == token.ADD && (strings.Contains(txt(x), `"`) || strings.Contains(txt(x), "`")) {
						emit(x, "drop-concat", off(x.Pos()), off(x.End()), txt(x.X))
						return true
					}
					for _, a := range alt[x.Op] {
						emit(x, "op", off(x.OpPos), off(x.OpPos)+len(x.Op.String()), a)
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x, "drop-not", off(x.OpPos), off(x.OpPos)+1, "")
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						if v, err := strconv.Atoi(x.Value); err == nil {
							emit(x, "int", off(x.Pos()), off(x.End()), fmt.Sprint(v+1))
						}
					case token.STRING:
						if len(x.Value) > 2 {
							emit(x, "string", off(x.Pos()), off(x.End()), x.Value[:1]+x.Value[2:])
						} else {
							emit(x, "string", off(x.Pos()), off(x.End()), `"x"`)
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x, "bool", off(x.Pos()), off(x.End()), "false")
					} else if x.Name == "false" {
						emit(x, "bool", off(x.Pos()), off(x.End()), "true")
					}
				case *ast.ReturnStmt:
				}
				return true
			})
		}
	}
}
