// mutate lists the small changes it can make to a Go file, or makes one of them (development tool: the
// survivors of bin/check among them show what the checks do not see).
//
//	mutate FILE           lists them: number, position, what is changed
//	mutate FILE N         prints the file with change N
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	pos  token.Pos
	what string
	do   func()
}

var bin = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD},
	token.QUO: {token.MUL}, token.REM: {token.QUO}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND},
	token.XOR: {token.OR}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.AND_NOT: {token.AND},
}
var asg = map[token.Token]token.Token{token.ADD_ASSIGN: token.SUB_ASSIGN, token.SUB_ASSIGN: token.ADD_ASSIGN, token.XOR_ASSIGN: token.OR_ASSIGN, token.OR_ASSIGN: token.AND_ASSIGN,
	token.SHL_ASSIGN: token.SHR_ASSIGN, token.SHR_ASSIGN: token.SHL_ASSIGN, token.AND_ASSIGN: token.OR_ASSIGN}

func main() {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var l []change
	add := func(n ast.Node, what string, do func()) { l = append(l, change{n.Pos(), what, do}) }
	block := func(list []ast.Stmt) {
		for i, s := range list {
			i := i
			list := list
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				add(s, "statement removed", func() { list[i] = &ast.EmptyStmt{} })
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s, "assignment removed", func() {
						var e []ast.Expr
						for range x.Rhs {
							e = append(e, ast.NewIdent("_"))
						}
						if len(x.Lhs) == len(x.Rhs) {
							x.Lhs = e
							x.Tok = token.ASSIGN
						} else {
							list[i] = &ast.EmptyStmt{}
						}
					})
				}
			case *ast.IfStmt:
				if x.Else == nil {
					add(s, "if removed", func() {
						x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
					})
				}
				add(s, "if made always", func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
				})
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.CompositeLit:
			if len(x.Elts) > 16 {
				return false // a table
			}
		case *ast.BinaryExpr:
			for _, o := range bin[x.Op] {
				o := o
				add(x, x.Op.String()+" to "+o.String(), func() { x.Op = o })
			}
		case *ast.AssignStmt:
			if o, ok := asg[x.Tok]; ok {
				add(x, x.Tok.String()+" to "+o.String(), func() { x.Tok = o })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v := x.Value
				add(x, v+"+1", func() { x.Value = "(" + v + "+1)" })
				if v != "0" {
					add(x, v+"-1", func() { x.Value = "(" + v + "-1)" })
				}
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				add(x, x.Name+" flipped", func() { x.Name = map[string]string{"true": "false", "false": "true"}[x.Name] })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, "! removed", func() { x.X = &ast.UnaryExpr{Op: token.NOT, X: x.X} })
			}
		case *ast.BlockStmt:
			block(x.List)
		case *ast.CaseClause:
			block(x.Body)
		case *ast.BranchStmt:
			if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
				o := token.BREAK + token.CONTINUE - x.Tok
				add(x, x.Tok.String()+" to "+o.String(), func() { x.Tok = o })
			}
		case *ast.SliceExpr:
			if x.Low != nil && x.High != nil {
				add(x, "slice end dropped", func() { x.High = nil; x.Max = nil; x.Slice3 = false })
			}
		case *ast.ReturnStmt:
			if len(x.Results) > 1 {
				if id, ok := x.Results[len(x.Results)-1].(*ast.Ident); ok && id.Name == "err" {
					add(x, "error dropped", func() { x.Results[len(x.Results)-1] = ast.NewIdent("nil") })
				}
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, c := range l {
			fmt.Printf("%d\t%s\t%s\n", i, fs.Position(c.pos), c.what)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	l[n].do()
	if err := format.Node(os.Stdout, fs, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
