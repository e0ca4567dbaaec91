// automut lists first-order mutants of the Go files of a tree: statements
// deleted, conditions negated, comparisons and connectives swapped, small
// constants changed. One JSON object per line; tools/automut.py runs them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mutant struct {
	File      string
	Func      string
	Line      int
	Off, End  int
	Repl, Old string
	Op        string
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(root, path)
		if err != nil || fi.IsDir() || !strings.HasSuffix(rel, ".go") || strings.HasSuffix(rel, "_test.go") || strings.HasPrefix(rel, "_") || strings.Contains(rel, "trcdebug") {
			return nil
		}
		src, _ := os.ReadFile(path)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			return nil
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			emit := func(op string, from, to token.Pos, repl string) {
				enc.Encode(mutant{rel, fn.Name.Name, fset.Position(from).Line, off(from), off(to), repl, string(src[off(from):off(to)]), op})
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ExprStmt:
					emit("delete", n.Pos(), n.End(), "")
				case *ast.DeferStmt:
					emit("delete", n.Pos(), n.End(), "")
				case *ast.IncDecStmt:
					emit("delete", n.Pos(), n.End(), "")
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						repl := ""
						for _, e := range n.Rhs {
							if len(n.Lhs) == len(n.Rhs) {
								repl += "_ = " + string(src[off(e.Pos()):off(e.End())]) + "; "
							}
						}
						emit("delete", n.Pos(), n.End(), repl)
					}
				case *ast.IfStmt:
					c := string(src[off(n.Cond.Pos()):off(n.Cond.End())])
					emit("negate", n.Cond.Pos(), n.Cond.End(), "!("+c+")")
					emit("never", n.Cond.Pos(), n.Cond.End(), "("+c+") && false")
				case *ast.CaseClause:
					if len(n.Body) > 0 {
						emit("empty-case", n.Colon+1, n.End(), "")
					}
				case *ast.BranchStmt:
					if n.Tok == token.CONTINUE || n.Tok == token.BREAK {
						emit("delete", n.Pos(), n.End(), "")
					}
				case *ast.ReturnStmt:
					for _, e := range n.Results {
						if id, ok := e.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							emit("bool", e.Pos(), e.End(), map[string]string{"true": "false", "false": "true"}[id.Name])
						}
					}
				case *ast.BinaryExpr:
					var ops []token.Token
					switch n.Op {
					case token.LSS:
						ops = []token.Token{token.LEQ}
					case token.LEQ:
						ops = []token.Token{token.LSS}
					case token.GTR:
						ops = []token.Token{token.GEQ}
					case token.GEQ:
						ops = []token.Token{token.GTR}
					case token.EQL:
						ops = []token.Token{token.NEQ}
					case token.NEQ:
						ops = []token.Token{token.EQL}
					case token.LAND:
						ops = []token.Token{token.LOR}
					case token.LOR:
						ops = []token.Token{token.LAND}
					case token.ADD:
						ops = []token.Token{token.SUB}
					case token.SUB:
						ops = []token.Token{token.ADD}
					case token.MUL:
						ops = []token.Token{token.QUO}
					case token.QUO:
						ops = []token.Token{token.MUL}
					}
					for _, op := range ops {
						emit("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), op.String())
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						emit("const", n.Pos(), n.End(), fmt.Sprintf("(%s+1)", n.Value))
					}
					if n.Kind == token.STRING && len(n.Value) > 2 {
						emit("string", n.Pos(), n.End(), `""`)
					}
				}
				return true
			})
		}
		return nil
	})
}
