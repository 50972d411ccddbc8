package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

// scanImmutable lists the assignments to fields of immutable types outside the allowed functions.
func (p *Program) scanImmutable(immut, allowed map[string]bool) []string {
	var out []string
	for _, name := range sortedKeys(p.Funcs) {
		fi := p.Funcs[name]
		if allowed[name] {
			continue
		}
		info := fi.Pkg.Info
		// an object the function has just created may still be filled in
		fresh := map[types.Object]bool{}
		stale := map[types.Object]bool{}
		ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
			s, ok := n.(*ast.AssignStmt)
			if !ok {
				return true
			}
			for i, l := range s.Lhs {
				id, ok := l.(*ast.Ident)
				if !ok {
					continue
				}
				o := info.ObjectOf(id)
				isNew := false
				if len(s.Lhs) == len(s.Rhs) {
					switch r := ast.Unparen(s.Rhs[i]).(type) {
					case *ast.UnaryExpr:
						_, isNew = ast.Unparen(r.X).(*ast.CompositeLit)
						isNew = isNew && r.Op == token.AND
					case *ast.CallExpr:
						f, ok := r.Fun.(*ast.Ident)
						isNew = ok && f.Name == "new"
					}
				}
				if isNew && s.Tok == token.DEFINE {
					fresh[o] = true
				} else {
					stale[o] = true
				}
			}
			return true
		})
		check := func(x ast.Expr) {
			for {
				switch e := ast.Unparen(x).(type) {
				case *ast.SelectorExpr:
					bt := info.TypeOf(e.X)
					if bt == nil {
						return
					}
					if pt, ok := bt.Underlying().(*types.Pointer); ok {
						if id, ok := ast.Unparen(e.X).(*ast.Ident); ok && fresh[info.ObjectOf(id)] && !stale[info.ObjectOf(id)] {
							return
						}
						if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok && immut[qualName(n)] {
							out = append(out, fmt.Sprintf("%s: %s assigns field %s of immutable %s", p.RelPos(e.Pos()), name, e.Sel.Name, qualName(n)))
						}
						return
					}
					x = e.X
				case *ast.IndexExpr:
					x = e.X
				case *ast.StarExpr:
					if n, ok := types.Unalias(info.TypeOf(e)).(*types.Named); ok && immut[qualName(n)] {
						out = append(out, fmt.Sprintf("%s: %s assigns *%s", p.RelPos(e.Pos()), name, qualName(n)))
					}
					return
				default:
					return
				}
			}
		}
		ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.AssignStmt:
				for _, l := range s.Lhs {
					check(l)
				}
			case *ast.IncDecStmt:
				check(s.X)
			case *ast.UnaryExpr:
				if s.Op == token.AND {
					if _, ok := ast.Unparen(s.X).(*ast.SelectorExpr); ok {
						check(s.X)
					}
				}
			}
			return true
		})
	}
	return out
}

// nilSlice tells whether the type is a slice with a declared element type.
func nilSlice(t types.Type, decl map[string]bool) bool {
	if t == nil || len(decl) == 0 {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, ok := types.Unalias(s.Elem()).(*types.Named)
	return ok && decl[qualName(n)]
}

// scanNilSlices lists the places that could make an empty slice of these element types that is not nil.
func (p *Program) scanNilSlices(decl map[string]bool) []string {
	var out []string
	for _, name := range sortedKeys(p.Funcs) {
		fi := p.Funcs[name]
		ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
			bad := false
			switch x := n.(type) {
			case *ast.CompositeLit:
				bad = len(x.Elts) == 0 && nilSlice(fi.Pkg.Info.TypeOf(x), decl)
			case *ast.SliceExpr:
				bad = nilSlice(fi.Pkg.Info.TypeOf(x), decl)
			case *ast.CallExpr:
				id, ok := ast.Unparen(x.Fun).(*ast.Ident)
				bad = !(ok && id.Name == "append" && len(x.Args) > 1 && !x.Ellipsis.IsValid()) && nilSlice(fi.Pkg.Info.TypeOf(x), decl)
			}
			if bad {
				out = append(out, fmt.Sprintf("%s: %s may make an empty slice that is not nil", p.RelPos(n.Pos()), name))
			}
			return true
		})
	}
	return out
}
