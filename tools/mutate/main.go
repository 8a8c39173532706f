// Command mutate lists or applies small source mutations to a Go file.
//
//	mutate FILE          prints one line per mutant: number, position, kind, what
//	mutate FILE N        prints the file with mutant N
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	pos  token.Pos
	what string
	do   func()
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	text := func(n ast.Node) string {
		a, b := fset.Position(n.Pos()).Offset, fset.Position(n.End()).Offset
		s := string(src[a:b])
		if len(s) > 70 {
			s = s[:70] + "..."
		}
		return string(bytes.ReplaceAll([]byte(s), []byte("\n"), []byte(" ")))
	}
	var ms []mutant
	add := func(n ast.Node, what string, do func()) {
		ms = append(ms, mutant{n.Pos(), what + ": " + text(n), do})
	}
	var list func(l *[]ast.Stmt)
	list = func(l *[]ast.Stmt) {
		for i, s := range *l {
			switch x := s.(type) {
			case *ast.AssignStmt, *ast.IncDecStmt, *ast.ExprStmt:
				if a, ok := x.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
					continue
				}
				i := i
				add(s, "drop", func() { (*l)[i] = &ast.EmptyStmt{} })
			case *ast.BranchStmt:
				i := i
				add(s, "drop", func() { (*l)[i] = &ast.EmptyStmt{} })
				if x.Tok == token.CONTINUE {
					add(s, "continue to break", func() { x.Tok = token.BREAK })
				}
				if x.Tok == token.BREAK && x.Label == nil {
					add(s, "break to continue", func() { x.Tok = token.CONTINUE })
				}
			}
		}
	}
	bin := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
		token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR},
		token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
		token.ADD: {token.SUB}, token.SUB: {token.ADD},
		token.AND: {token.OR}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			list(&x.List)
		case *ast.CaseClause:
			list(&x.Body)
		case *ast.IfStmt:
			c := x.Cond
			add(c, "if true", func() {
				x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LOR, Y: ast.NewIdent("true")}
			})
			add(c, "if false", func() {
				x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LAND, Y: ast.NewIdent("false")}
			})
		case *ast.BinaryExpr:
			for _, t := range bin[x.Op] {
				t := t
				add(x, fmt.Sprintf("%s to %s", x.Op, t), func() { x.Op = t })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				a, b := x.X, x.Y
				val := "true"
				t := token.LOR
				if x.Op == token.LOR {
					val, t = "false", token.LAND
				}
				keep := func(e ast.Expr) ast.Expr {
					o := token.LAND
					if val == "true" {
						o = token.LOR
					}
					return &ast.ParenExpr{X: &ast.BinaryExpr{X: &ast.ParenExpr{X: e}, Op: o, Y: ast.NewIdent(val)}}
				}
				add(x, "without left", func() { x.X = keep(a) })
				add(x, "without right", func() { x.Y = keep(b) })
				add(x, fmt.Sprintf("%s to %s", x.Op, t), func() { x.X, x.Y, x.Op = &ast.ParenExpr{X: a}, &ast.ParenExpr{X: b}, t })
			}
			if x.Op == token.OR { // a set of properties without one
				a, b := x.X, x.Y
				add(x, "without left", func() { x.X = &ast.BinaryExpr{X: &ast.ParenExpr{X: a}, Op: token.AND, Y: &ast.BasicLit{Kind: token.INT, Value: "0"}} })
				add(x, "without right", func() { x.Y = &ast.ParenExpr{X: &ast.BinaryExpr{X: &ast.ParenExpr{X: b}, Op: token.AND, Y: &ast.BasicLit{Kind: token.INT, Value: "0"}}} })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err != nil {
					return true
				}
				old := x.Value
				add(x, "+1", func() { x.Value = fmt.Sprint(v + 1) })
				if v > 0 {
					add(x, "-1", func() { x.Value = fmt.Sprint(v - 1) })
				}
				_ = old
			}
			if x.Kind == token.CHAR {
				r, _, _, err := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\'')
				if err != nil {
					return true
				}
				add(x, "+1", func() { x.Value = strconv.QuoteRune(r + 1) })
				add(x, "-1", func() { x.Value = strconv.QuoteRune(r - 1) })
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				add(x, "not", func() {
					if x.Name == "true" {
						x.Name = "false"
					} else {
						x.Name = "true"
					}
				})
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, "without !", func() { x.Op = token.ADD; *x = ast.UnaryExpr{Op: token.NOT, X: &ast.UnaryExpr{Op: token.NOT, X: x.X}} })
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		for i, m := range ms {
			p := fset.Position(m.pos)
			fmt.Printf("%d\t%d:%d\t%s\n", i, p.Line, p.Column, m.what)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	ms[n].do()
	if err := printer.Fprint(os.Stdout, fset, f); err != nil {
		panic(err)
	}
}
