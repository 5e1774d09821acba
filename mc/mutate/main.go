// mutate lists small changes of the given Go files, one JSON object per line: {file, off, end, new, what}.
// It serves tools/mutants.py, which measures what the checks detect; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
	Line int    `json:"line"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, s, what string) {
			if s != text(n) {
				enc.Encode(mut{f, off(n.Pos()), off(n.End()), s, what, fset.Position(n.Pos()).Line})
			}
		}
		cond := func(e ast.Expr) {
			if e == nil {
				return
			}
			emit(e, "!("+text(e)+")", "negate")
			emit(e, "(true || "+text(e)+")", "true")
			emit(e, "(false && "+text(e)+")", "false")
		}
		swaps := map[token.Token][]token.Token{
			token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
			token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.REM: {token.QUO}, token.QUO: {token.MUL}, token.MUL: {token.QUO}, token.AND_NOT: {token.AND},
		}
		del := func(list []ast.Stmt) {
			for _, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt, *ast.SendStmt:
					emit(s, "", "delete")
					if d, ok := s.(*ast.DeferStmt); ok {
						emit(s, text(d.Call), "undefer")
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s, "", "delete")
					} else {
						_ = x
					}
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil {
						emit(s, "", "delete if")
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						emit(s, "", "delete return")
					}
				}
			}
			// neighbours in another order
			for i := 0; i+1 < len(list); i++ {
				a, b := list[i], list[i+1]
				simple := func(s ast.Stmt) bool {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						return true
					case *ast.AssignStmt:
						return x.Tok != token.DEFINE
					}
					return false
				}
				if simple(a) && simple(b) {
					enc.Encode(mut{f, off(a.Pos()), off(b.End()), text(b) + "\n" + text(a), "swap", fset.Position(a.Pos()).Line})
				}
			}
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.Field:
				return x.Tag == nil
			case *ast.BinaryExpr:
				for _, t := range swaps[x.Op] {
					emit(x, text(x.X)+" "+t.String()+" "+text(x.Y), x.Op.String()+" to "+t.String())
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x, text(x.X), "left only")
					emit(x, text(x.Y), "right only")
				}
			case *ast.IfStmt:
				cond(x.Cond)
			case *ast.ForStmt:
				if x.Cond != nil {
					emit(x.Cond, "(false && "+text(x.Cond)+")", "no loop")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x, text(x.X), "drop !")
				}
				if x.Op == token.SUB {
					emit(x, text(x.X), "drop -")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x, fmt.Sprint(v+1), "n+1")
						if v > 0 {
							emit(x, fmt.Sprint(v-1), "n-1")
						}
					}
				case token.STRING:
					if len(x.Value) > 2 {
						emit(x, `""`, "empty string")
						emit(x, x.Value[:len(x.Value)-1]+"X"+x.Value[len(x.Value)-1:], "other string")
					} else {
						emit(x, `"x"`, "some string")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x, "false", "false for true")
				} else if x.Name == "false" {
					emit(x, "true", "true for false")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit(id, "nil", "no error")
					}
				}
			case *ast.BlockStmt:
				del(x.List)
			case *ast.CaseClause:
				del(x.Body)
			case *ast.CommClause:
				del(x.Body)
			case *ast.RangeStmt:
				if x.Body != nil && len(x.Body.List) > 0 {
					l := x.Body
					enc.Encode(mut{f, off(l.Rbrace), off(l.Rbrace), "\nbreak\n", "once", fset.Position(l.Pos()).Line})
				}
			case *ast.SliceExpr:
				if x.Low == nil && x.High != nil {
					emit(x, text(x.X)+"["+text(x.High)+":]", "other half")
				}
			}
			return true
		})
	}
}
