// mutate DIR OUT writes one mutated file per mutant of the non-test Go files
// of DIR: OUT/<n>/file (path relative to DIR), OUT/<n>/src, OUT/<n>/desc.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type edit struct {
	from, to int
	repl     string
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	n := 0
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.Contains(p, "debug") || strings.Contains(p, "/fontmaker/main") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(dir, p)
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		emit := func(pos token.Pos, desc string, es ...edit) {
			b := string(src)
			for i := len(es) - 1; i >= 0; i-- {
				b = b[:es[i].from] + es[i].repl + b[es[i].to:]
			}
			d := filepath.Join(out, fmt.Sprintf("%05d", n))
			n++
			os.MkdirAll(d, 0o755)
			os.WriteFile(filepath.Join(d, "file"), []byte(rel), 0o644)
			os.WriteFile(filepath.Join(d, "src"), []byte(b), 0o644)
			ps := fs.Position(pos)
			line := strings.Split(string(src), "\n")[ps.Line-1]
			os.WriteFile(filepath.Join(d, "desc"), []byte(fmt.Sprintf("%s:%d: %s   [%s]", rel, ps.Line, desc, strings.TrimSpace(line))), 0o644)
		}
		swap := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">",
			token.ADD: "-", token.SUB: "+", token.MUL: "/", token.QUO: "*", token.LAND: "||", token.LOR: "&&", token.AND: "|", token.OR: "&", token.SHL: ">>", token.SHR: "<<", token.REM: "/"}
		ast.Inspect(f, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				if r, ok := swap[x.Op]; ok {
					o := off(x.OpPos)
					emit(x.OpPos, x.Op.String()+" -> "+r, edit{o, o + len(x.Op.String()), r})
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					emit(x.Pos(), "const+1", edit{off(x.Pos()), off(x.End()), "(" + x.Value + "+1)"})
				}
				if x.Kind == token.FLOAT {
					emit(x.Pos(), "const*1.1", edit{off(x.Pos()), off(x.End()), "(" + x.Value + "*1.1)"})
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), "true->false", edit{off(x.Pos()), off(x.End()), "false"})
				}
				if x.Name == "false" {
					emit(x.Pos(), "false->true", edit{off(x.Pos()), off(x.End()), "true"})
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), "if false", edit{off(x.Cond.Pos()), off(x.Cond.Pos()), "false && ("}, edit{off(x.Cond.End()), off(x.Cond.End()), ")"})
				emit(x.Cond.Pos(), "if true", edit{off(x.Cond.Pos()), off(x.Cond.Pos()), "true || ("}, edit{off(x.Cond.End()), off(x.Cond.End()), ")"})
			case *ast.BlockStmt:
				for _, s := range x.List {
					stmt(s, off, emit, src)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					stmt(s, off, emit, src)
				}
			}
			return true
		})
		return nil
	})
	fmt.Println(n)
}

func stmt(s ast.Stmt, off func(token.Pos) int, emit func(token.Pos, string, ...edit), src []byte) {
	a, b := off(s.Pos()), off(s.End())
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
		emit(s.Pos(), "drop statement", edit{a, b, "func(){ if false { " + string(src[a:b]) + " } }()"})
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			emit(s.Pos(), "drop assignment", edit{a, b, "if len(\"\") > 0 { " + string(src[a:b]) + " }"})
		}
	case *ast.BranchStmt:
		if x.Tok == token.BREAK && x.Label == nil {
			emit(s.Pos(), "break->continue", edit{a, b, "continue"})
		}
		if x.Tok == token.CONTINUE && x.Label == nil {
			emit(s.Pos(), "continue->break", edit{a, b, "break"})
		}
		emit(s.Pos(), "drop branch", edit{a, b, ""})
	case *ast.ReturnStmt:
		if n := len(x.Results); n > 0 {
			if id, ok := x.Results[n-1].(*ast.Ident); ok && id.Name == "err" {
				emit(s.Pos(), "return nil error", edit{off(id.Pos()), off(id.End()), "nil"})
			}
		}
	}
}
