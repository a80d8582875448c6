// mutate lists small changes of Go source files, as JSON lines {file, line, start, end, new, kind, old}.
// It is used to look for changes that the tests of a repository accept and the checks of /verif miss; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
	Kind  string `json:"kind"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(kind string, from, to token.Pos, repl string) {
			s, e := off(from), off(to)
			old := string(src[s:e])
			if old == repl {
				return
			}
			enc.Encode(mut{f, fs.Position(from).Line, s, e, repl, old, kind})
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.TYPE {
					return false
				}
			case *ast.BinaryExpr:
				for _, r := range swaps[x.Op] {
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit("left", x.Pos(), x.End(), string(src[off(x.X.Pos()):off(x.X.End())]))
					emit("right", x.Pos(), x.End(), string(src[off(x.Y.Pos()):off(x.Y.End())]))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT || x.Op == token.SUB {
					emit("unary", x.OpPos, x.OpPos+1, "")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("int", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				}
				if x.Kind == token.CHAR {
					emit("char", x.Pos(), x.End(), "'~'")
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					emit("bool", x.Pos(), x.End(), "true")
				}
			case *ast.IfStmt:
				emit("if", x.Cond.Pos(), x.Cond.End(), "("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+") || true")
				emit("if", x.Cond.Pos(), x.Cond.End(), "("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+") && false")
				if x.Else != nil {
					emit("else", x.Else.Pos(), x.Else.End(), "{}")
				}
			case *ast.ForStmt:
				if x.Cond != nil {
					emit("for", x.Cond.Pos(), x.Cond.End(), "("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+") && false")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || strings.HasPrefix(id.Name, "err")) {
						emit("return", r.Pos(), r.End(), "nil")
					}
					if c, ok := r.(*ast.CallExpr); ok && strings.HasPrefix(string(src[off(c.Pos()):off(c.End())]), "fmt.Errorf") {
						emit("return", r.Pos(), r.End(), "nil")
					}
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					stmt(emit, s, src, off)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					stmt(emit, s, src, off)
				}
				if len(x.List) > 1 {
					for i, e := range x.List {
						if i > 0 {
							emit("case", x.List[i-1].End(), e.End(), "")
						}
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit("slice", x.Low.Pos(), x.Low.End(), "0")
				}
			}
			return true
		})
	}
}

func stmt(emit func(string, token.Pos, token.Pos, string), s ast.Stmt, src []byte, off func(token.Pos) int) {
	switch y := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
		emit("delete", s.Pos(), s.End(), "")
	case *ast.AssignStmt:
		if y.Tok != token.DEFINE {
			emit("delete", s.Pos(), s.End(), "")
		}
	case *ast.BranchStmt:
		if y.Tok == token.BREAK {
			emit("branch", s.Pos(), s.End(), "continue")
			emit("delete", s.Pos(), s.End(), "")
		} else if y.Tok == token.CONTINUE {
			emit("branch", s.Pos(), s.End(), "break")
			emit("delete", s.Pos(), s.End(), "")
		} else if y.Tok == token.FALLTHROUGH {
			emit("delete", s.Pos(), s.End(), "")
		}
	case *ast.ReturnStmt:
		emit("delete", s.Pos(), s.End(), "")
	}
}
