// Command mutate lists small changes of Go files: one JSON object per line with file, offsets and new text.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File     string `json:"file"`
	From, To int
	New      string
	Kind     string
	Line     int
}

var ops = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.QUO: {"*"}, token.REM: {"/"},
}

func main() {
	out := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(from, to token.Pos, s, kind string) {
			if string(src[off(from):off(to)]) != s {
				out.Encode(mutant{name, off(from), off(to), s, kind, fs.Position(from).Line})
			}
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, o := range ops[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, "op")
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "left")
					emit(n.Pos(), n.End(), text(n.Y), "right")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT || n.Kind == token.CHAR && len(n.Value) == 3 {
					if n.Kind == token.INT {
						v, err := strconv.ParseUint(n.Value, 0, 64)
						if err == nil {
							emit(n.Pos(), n.End(), fmt.Sprint(v+1), "lit")
							if v > 0 {
								emit(n.Pos(), n.End(), fmt.Sprint(v-1), "lit")
							}
						}
					}
				}
			case *ast.IfStmt:
				if n.Init == nil {
					emit(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "if")
					emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "if")
				} else {
					emit(n.Cond.Pos(), n.Cond.End(), "(true || ("+text(n.Cond)+"))", "if")
					emit(n.Cond.Pos(), n.Cond.End(), "(false && ("+text(n.Cond)+"))", "if")
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "for")
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt:
						emit(s.Pos(), s.End(), "", "delete")
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							emit(s.Pos(), s.End(), "", "delete")
						}
					case *ast.BranchStmt:
						emit(s.Pos(), s.End(), "", "delete")
					case *ast.ReturnStmt:
						if len(s.Results) == 0 {
							emit(s.Pos(), s.End(), "", "delete")
						}
					}
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					switch text(r) {
					case "true":
						emit(r.Pos(), r.End(), "false", "ret")
					case "false":
						emit(r.Pos(), r.End(), "true", "ret")
					case "nil":
					default:
						emit(r.Pos(), r.End(), "nil", "ret")
						emit(r.Pos(), r.End(), "0", "ret")
						emit(r.Pos(), r.End(), "n", "ret")
					}
				}
			case *ast.CompositeLit:
				for i, e := range n.Elts {
					if _, ok := e.(*ast.KeyValueExpr); ok {
						to := n.Rbrace
						if i+1 < len(n.Elts) {
							to = n.Elts[i+1].Pos()
						}
						emit(e.Pos(), to, "", "field")
					}
				}
			case *ast.CallExpr:
				if len(n.Args) == 2 && text(n.Args[0]) != text(n.Args[1]) {
					emit(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "args")
				}
			}
			return true
		})
	}
}
