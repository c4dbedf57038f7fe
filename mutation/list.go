// Command list prints mutants of Go source files, one JSON object per line:
// {file, line, from, to, text, kind} replaces the bytes [from, to) by text.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mutant struct {
	File     string `json:"file"`
	Line     int    `json:"line"`
	From, To int
	Text     string
	Kind     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		pos := func(p token.Pos) int { return fs.Position(p).Offset }
		out := func(kind string, n ast.Node, from, to int, text string) {
			enc.Encode(mutant{file, fs.Position(n.Pos()).Line, from, to, text, kind})
		}
		text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.IfStmt:
				c := text(x.Cond)
				if x.Init != nil || strings.Contains(c, "err != nil") || strings.Contains(c, "err == nil") {
					if c == "err != nil" {
						out("ignore-err", x.Cond, pos(x.Cond.Pos()), pos(x.Cond.End()), "err != nil && false")
					}
					break
				}
				out("cond-false", x.Cond, pos(x.Cond.Pos()), pos(x.Cond.End()), "("+c+") && false")
				out("cond-true", x.Cond, pos(x.Cond.Pos()), pos(x.Cond.End()), "("+c+") || true")
			case *ast.BinaryExpr:
				swap := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.EQL: {"!="}, token.NEQ: {"=="},
					token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}}
				for _, s := range swap[x.Op] {
					out("op", x, pos(x.OpPos), pos(x.OpPos)+len(x.Op.String()), s)
				}
				if x.Op == token.LAND || x.Op == token.LOR { // drop one side
					out("left-only", x, pos(x.Pos()), pos(x.End()), text(x.X))
					out("right-only", x, pos(x.Pos()), pos(x.End()), text(x.Y))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT && len(x.Value) < 4 {
					out("int", x, pos(x.Pos()), pos(x.End()), "("+x.Value+"+1)")
					if x.Value != "0" {
						out("int", x, pos(x.Pos()), pos(x.End()), "("+x.Value+"-1)")
					}
				}
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN && len(x.Lhs) == 1 {
					out("drop-assign", x, pos(x.Pos()), pos(x.End()), "_ = "+text(x.Rhs[0]))
				}
			case *ast.ExprStmt:
				if _, ok := x.X.(*ast.CallExpr); ok {
					out("drop-call", x, pos(x.Pos()), pos(x.End()), "")
				}
			case *ast.IncDecStmt:
				out("drop-inc", x, pos(x.Pos()), pos(x.End()), "")
			case *ast.BranchStmt:
				if x.Label == nil && (x.Tok == token.BREAK || x.Tok == token.CONTINUE) {
					t := "continue"
					if x.Tok == token.CONTINUE {
						t = "break"
					}
					out("branch", x, pos(x.Pos()), pos(x.End()), t)
					out("branch", x, pos(x.Pos()), pos(x.End()), "")
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					out("bool", x, pos(x.Pos()), pos(x.End()), map[string]string{"true": "false", "false": "true"}[x.Name])
				}
			}
			return true
		})
	}
}
