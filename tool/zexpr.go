package main

import (
	"go/ast"
	"go/printer"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/ssa"
)

// exprAt is the source text of the expression an instruction comes from
func (p *Prog) exprAt(in ssa.Instruction) string {
	pos := in.Pos()
	if !pos.IsValid() {
		return in.String()
	}
	for _, f := range p.pp.Syntax {
		if f.FileStart <= pos && pos < f.FileEnd {
			path, _ := astutil.PathEnclosingInterval(f, pos, pos)
			for _, n := range path {
				switch n := n.(type) {
				case *ast.IndexExpr, *ast.SliceExpr, *ast.BinaryExpr, *ast.CallExpr, *ast.TypeAssertExpr:
					var b strings.Builder
					printer.Fprint(&b, token.NewFileSet(), n)
					s := strings.Join(strings.Fields(b.String()), " ")
					if len(s) > 80 {
						s = s[:80]
					}
					return s
				case *ast.RangeStmt:
					var b strings.Builder
					printer.Fprint(&b, token.NewFileSet(), n.X)
					return "range " + strings.Join(strings.Fields(b.String()), " ")
				case ast.Stmt, *ast.FuncDecl:
					return in.String()
				}
			}
		}
	}
	return in.String()
}
