// mutate FILE...: lists small source mutations as JSON lines (for measuring what the checks notice).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, New, Desc, Func string
	Off, Len, Line        int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(pos, end token.Pos, nw, desc string) {
				o := fs.Position(pos).Offset
				l := int(end - pos)
				enc.Encode(mut{f, nw, fmt.Sprintf("%s: %q -> %q", desc, string(src[o:o+l]), nw), fd.Name.Name, o, l, fs.Position(pos).Line})
			}
			isLog := func(c *ast.CallExpr) bool {
				if s, ok := c.Fun.(*ast.SelectorExpr); ok {
					if x, ok := s.X.(*ast.Ident); ok && (x.Name == "log" || x.Name == "fmt") {
						return true
					}
				}
				return false
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CallExpr:
					if isLog(x) {
						return false
					}
				case *ast.BinaryExpr:
					ops := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}}
					for _, o := range ops[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "operator")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), "constant")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), "constant")
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "bool")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "bool")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.OpPos, x.OpPos+1, "", "negation")
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "!("+string(src[fs.Position(x.Cond.Pos()).Offset:fs.Position(x.Cond.End()).Offset])+")", "condition")
				case *ast.ExprStmt:
					if c, ok := x.X.(*ast.CallExpr); ok && isLog(c) {
						return false
					}
					emit(x.Pos(), x.End(), "", "statement")
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN {
						emit(x.Pos(), x.End(), "", "statement")
					}
				case *ast.IncDecStmt, *ast.SendStmt:
					emit(n.Pos(), n.End(), "", "statement")
				case *ast.BranchStmt:
					if x.Label == nil {
						o := "continue"
						if x.Tok == token.CONTINUE {
							o = "break"
						}
						emit(x.Pos(), x.End(), o, "branch")
						emit(x.Pos(), x.End(), "", "branch")
					}
				}
				return true
			})
		}
	}
}
