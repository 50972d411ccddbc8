package main

import (
	"go/ast"
	"go/types"
)

// appendedViews finds the slice expressions x[:n] whose value something is appended to in the same function: the append
// may overwrite elements of x beyond n.
func (p *Program) appendedViews() map[*ast.SliceExpr]bool {
	if p.views != nil {
		return p.views
	}
	p.views = map[*ast.SliceExpr]bool{}
	for _, fi := range p.Funcs {
		if fi.Decl == nil || fi.Decl.Body == nil {
			continue
		}
		info := fi.Pkg.Info
		grown := map[types.Object]bool{}
		view := func(e ast.Expr) *ast.SliceExpr {
			if s, ok := ast.Unparen(e).(*ast.SliceExpr); ok && s.High != nil && s.Max == nil {
				return s
			}
			return nil
		}
		ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok && len(c.Args) > 0 {
				if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok && id.Name == "append" {
					if s := view(c.Args[0]); s != nil {
						p.views[s] = true
					}
					if v, ok := ast.Unparen(c.Args[0]).(*ast.Ident); ok && info.Uses[v] != nil {
						grown[info.Uses[v]] = true
					}
				}
			}
			return true
		})
		assign := func(l, r ast.Expr) {
			if id, ok := ast.Unparen(l).(*ast.Ident); ok {
				o := info.Defs[id]
				if o == nil {
					o = info.Uses[id]
				}
				if s := view(r); s != nil && grown[o] {
					p.views[s] = true
				}
			}
		}
		ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				if len(n.Lhs) == len(n.Rhs) {
					for i := range n.Lhs {
						assign(n.Lhs[i], n.Rhs[i])
					}
				}
			case *ast.ValueSpec:
				if len(n.Names) == len(n.Values) {
					for i := range n.Names {
						assign(n.Names[i], n.Values[i])
					}
				}
			}
			return true
		})
	}
	return p.views
}

// clipped tells whether e is a slice expression x[i:n:n], to which nothing can be appended in place.
func clipped(e ast.Expr) bool {
	s, ok := ast.Unparen(e).(*ast.SliceExpr)
	return ok && s.Max != nil && s.High != nil && types.ExprString(s.Max) == types.ExprString(s.High)
}

// regrown finds the calls x = append(x, ...) whose result takes the place of the slice appended to.
func (p *Program) regrown() map[*ast.CallExpr]bool {
	if p.grows != nil {
		return p.grows
	}
	p.grows = map[*ast.CallExpr]bool{}
	for _, fi := range p.Funcs {
		if fi.Decl == nil || fi.Decl.Body == nil {
			continue
		}
		ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
			if s, ok := n.(*ast.AssignStmt); ok && len(s.Lhs) == len(s.Rhs) {
				for i, r := range s.Rhs {
					if c, ok := ast.Unparen(r).(*ast.CallExpr); ok && len(c.Args) > 0 && types.ExprString(stem(c.Args[0])) == types.ExprString(s.Lhs[i]) {
						p.grows[c] = true
					}
				}
			}
			return true
		})
	}
	return p.grows
}

// stem strips parentheses and type assertions.
func stem(e ast.Expr) ast.Expr {
	e = ast.Unparen(e)
	if t, ok := e.(*ast.TypeAssertExpr); ok {
		return stem(t.X)
	}
	return e
}
