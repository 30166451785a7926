// mutate lists single-edit mutants of the library: mutate DIR > mutants.jsonl
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// Edit replaces [From,To) of File by New.
type Edit struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Kind string `json:"kind"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Old  string `json:"old"`
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	_ = filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		rel, _ := filepath.Rel(root, p)
		if i.IsDir() && (rel == "examples" || rel == ".git" || rel == "internal/generators") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.HasPrefix(i.Name(), "mock_") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				name = fmt.Sprint(string(src[fs.Position(fd.Recv.List[0].Type.Pos()).Offset:fs.Position(fd.Recv.List[0].Type.End()).Offset]), ".", name)
			}
			off := func(p token.Pos) int { return fs.Position(p).Offset }
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			emit := func(kind string, from, to token.Pos, n string) {
				_ = enc.Encode(Edit{rel, fs.Position(from).Line, name, kind, off(from), off(to), n, string(src[off(from):off(to)])})
			}
			stmts := func(l []ast.Stmt) {
				for _, s := range l {
					switch x := s.(type) {
					case *ast.ExprStmt:
						if !strings.Contains(text(x), "internal.Log") {
							emit("delete", x.Pos(), x.End(), "")
						}
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							var b []string
							for _, r := range x.Lhs {
								b = append(b, text(r))
							}
							for range b {
							}
							emit("delete", x.Pos(), x.End(), "_ = 0")
						}
					case *ast.DeferStmt, *ast.IncDecStmt:
						emit("delete", x.Pos(), x.End(), "")
					case *ast.IfStmt:
						if x.Else == nil && x.Init == nil {
							emit("if-gone", x.Pos(), x.End(), "")
						}
					case *ast.BranchStmt:
						if x.Label == nil {
							switch x.Tok {
							case token.CONTINUE:
								emit("branch", x.Pos(), x.End(), "break")
							case token.BREAK:
								emit("branch", x.Pos(), x.End(), "continue")
							}
						}
					}
				}
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					stmts(x.List)
				case *ast.CaseClause:
					stmts(x.Body)
				case *ast.IfStmt:
					emit("negate", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
					if _, isBin := x.Cond.(*ast.BinaryExpr); !isBin {
						emit("true", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
						emit("false", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
					}
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.LAND: {"||"}, token.LOR: {"&&"}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"},
					}[x.Op]
					for _, a := range alt {
						emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit("left", x.Pos(), x.End(), text(x.X))
						emit("right", x.Pos(), x.End(), text(x.Y))
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit("not", x.Pos(), x.End(), text(x.X))
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						v, err := strconv.Atoi(x.Value)
						if err == nil {
							emit("int", x.Pos(), x.End(), strconv.Itoa(v+1))
						}
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok {
							switch id.Name {
							case "true":
								emit("ret", r.Pos(), r.End(), "false")
							case "false":
								emit("ret", r.Pos(), r.End(), "true")
							case "err":
								emit("ret", r.Pos(), r.End(), "nil")
							}
						}
					}
				}
				return true
			})
		}
		return nil
	})
}
