// mutate lists first-order mutants of a Go file: one JSON object per line {off,len,new,kind,line}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	Off, Len  int
	New, Kind string
	Line      int
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	emit := func(a, b token.Pos, n, k string) {
		enc.Encode(mut{off(a), off(b) - off(a), n, k, fs.Position(a).Line})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token]string{token.ADD: "-", token.SUB: "+", token.MUL: "+", token.QUO: "*", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">",
		token.EQL: "!=", token.NEQ: "==", token.LAND: "||", token.LOR: "&&", token.SHL: ">>", token.SHR: "<<", token.AND: "|", token.OR: "&", token.XOR: "|", token.REM: "/"}
	names := map[string]string{"Add": "Sub", "Sub": "Add", "And": "Or", "Or": "And", "Xor": "Or", "Lrot": "Rshift", "AssertIsLessOrEqual": "AssertIsDifferent", "Inverse": "Neg", "Conjugate": "Neg", "Square": "Double", "Double": "Square"}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT || d.Tok == token.TYPE {
				continue
			}
		}
		lits := 0
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.StructType:
				return false
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 63); err == nil {
						lits++
						if lits < 40 {
							emit(n.Pos(), n.End(), strconv.FormatInt(v+1, 10), "lit+1")
						}
					}
				}
			case *ast.BinaryExpr:
				if r, ok := swap[n.Op]; ok {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, "op"+n.Op.String())
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "(false && ("+text(n.Cond)+"))", "if-false")
				emit(n.Cond.Pos(), n.Cond.End(), "(true || ("+text(n.Cond)+"))", "if-true")
			case *ast.ExprStmt:
				c, ok := n.X.(*ast.CallExpr)
				if !ok {
					return true
				}
				r := "_ = []any{"
				for _, a := range c.Args {
					r += text(a) + ", "
				}
				r += "}"
				if c.Ellipsis != 0 {
					r = "_ = " + text(c.Args[len(c.Args)-1])
				}
				emit(n.Pos(), n.End(), r, "del-call")
			case *ast.AssignStmt:
				if n.Tok == token.ASSIGN && len(n.Lhs) == 1 {
					emit(n.Pos(), n.End(), "_ = "+text(n.Rhs[0]), "del-assign")
				}
				if n.Tok == token.ADD_ASSIGN {
					emit(n.TokPos, n.TokPos+2, "-=", "op+=")
				}
			case *ast.IncDecStmt:
				if n.Tok == token.INC {
					emit(n.TokPos, n.TokPos+2, "+=2", "op++")
				}
			case *ast.CallExpr:
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					if r, ok := names[s.Sel.Name]; ok {
						emit(s.Sel.Pos(), s.Sel.End(), r, "call")
					}
					if (s.Sel.Name == "Select") && len(n.Args) == 3 {
						emit(n.Args[1].Pos(), n.Args[2].End(), text(n.Args[2])+", "+text(n.Args[1]), "select")
					}
					if (s.Sel.Name == "Sub" || s.Sel.Name == "Div") && len(n.Args) == 2 {
						emit(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "args")
					}
				}
			case *ast.SliceExpr:
				if n.High != nil {
					emit(n.High.Pos(), n.High.End(), "("+text(n.High)+")-1", "slice-high")
				}
			}
			return true
		})
	}
	_ = fmt.Sprint
}
