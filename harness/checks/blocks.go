package checks

import (
	"sort"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

func sortStrings(s []string) { sort.Strings(s) }

// blockInfo is one block of a module, found by our own traversal.
type blockInfo struct {
	root  *ast.FunctionOrProcedure
	owner ast.Statement // the statement that directly contains the block, nil for the module body
	stmts ast.Statements
	depth int
}

// eachBlock visits every block (a slice of statements) of a module.
func eachBlock(a *ast.AstNode, f func(b blockInfo)) {
	visitBlock(blockInfo{stmts: a.ModuleStatement.Body}, f)
}

func visitBlock(b blockInfo, f func(b blockInfo)) {
	f(b)
	for _, s := range b.stmts {
		visitOwned(b.root, s, b.depth, f)
	}
}

func visitOwned(root *ast.FunctionOrProcedure, s ast.Statement, depth int, f func(b blockInfo)) {
	sub := func(r *ast.FunctionOrProcedure, st ast.Statements) {
		visitBlock(blockInfo{root: r, owner: s, stmts: st, depth: depth + 1}, f)
	}
	switch v := s.(type) {
	case *ast.FunctionOrProcedure:
		sub(v, v.Body)
	case *ast.IfStatement:
		sub(root, v.TrueBlock)
		for _, e := range v.IfElseBlock {
			if ei, ok := e.(*ast.IfStatement); ok {
				visitOwned(root, ei, depth, f)
			}
		}
		sub(root, v.ElseBlock)
	case *ast.LoopStatement:
		sub(root, v.Body)
	case ast.TryStatement:
		sub(root, v.Body)
		sub(root, v.Catch)
	}
}
