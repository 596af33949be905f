package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
)

// parseNormal parses a file and gives loops that fetch the next item ahead
//
//	for x, err := next(); cond; x, err = next() { … }
//
// the form that fetches at the head,
//
//	for { x, err := next(); if !cond { break }; … }
//
// which does the same in the same order, so that a round shows the item it handles. A loop with a
// closure that captures its variables is left alone, as the two forms differ there.
func parseNormal(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
	f, err := parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments)
	if err != nil || f == nil {
		return f, err
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			rotateAll(n.List)
		case *ast.CaseClause:
			rotateAll(n.Body)
		case *ast.CommClause:
			rotateAll(n.Body)
		case *ast.LabeledStmt:
			if l, ok := n.Stmt.(*ast.ForStmt); ok {
				rotate(l)
			}
		}
		return true
	})
	return f, nil
}

func rotateAll(l []ast.Stmt) {
	for _, s := range l {
		if f, ok := s.(*ast.ForStmt); ok {
			rotate(f)
		}
	}
}

func sameExprs(a, b []ast.Expr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if types.ExprString(a[i]) != types.ExprString(b[i]) {
			return false
		}
	}
	return true
}

func rotate(f *ast.ForStmt) {
	init, ok := f.Init.(*ast.AssignStmt)
	if !ok || f.Cond == nil {
		return
	}
	post, ok := f.Post.(*ast.AssignStmt)
	if !ok || post.Tok != token.ASSIGN || init.Tok != token.ASSIGN && init.Tok != token.DEFINE {
		return
	}
	if !sameExprs(init.Lhs, post.Lhs) || !sameExprs(init.Rhs, post.Rhs) {
		return
	}
	call := false
	for _, e := range post.Rhs {
		if _, ok := e.(*ast.CallExpr); ok {
			call = true
		}
	}
	closure := false
	ast.Inspect(f.Body, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			closure = true
		}
		return true
	})
	if !call || closure {
		return
	}
	at := f.Body.Lbrace
	exit := &ast.IfStmt{If: f.Cond.Pos(), Cond: &ast.UnaryExpr{OpPos: f.Cond.Pos(), Op: token.NOT, X: &ast.ParenExpr{Lparen: f.Cond.Pos(), X: f.Cond, Rparen: f.Cond.End()}},
		Body: &ast.BlockStmt{Lbrace: at, List: []ast.Stmt{&ast.BranchStmt{TokPos: at, Tok: token.BREAK}}, Rbrace: at}}
	f.Init, f.Cond, f.Post = nil, nil, nil
	f.Body.List = append([]ast.Stmt{init, exit}, f.Body.List...)
}
