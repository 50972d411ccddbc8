package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// closureContract finds the contract declared for function literals of a signature inside a function.
func (fv *FV) closureContract(fr *Frame, lit *ast.FuncLit) *Contract {
	top := fr
	for top.up != nil {
		top = top.up
	}
	if top.name != fv.name {
		return nil
	}
	sig := fr.info.TypeOf(lit)
	for _, c := range fv.v.byClosure[top.name] {
		ct := fv.v.GoType(fv.v.typesPkg(c.Pkg), c.Sig)
		if types.Identical(ct, sig) {
			return c
		}
	}
	return nil
}

// captured lists the local variables of the enclosing functions a literal uses.
func captured(info *types.Info, lit *ast.FuncLit) map[types.Object]bool {
	out := map[types.Object]bool{}
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := info.Uses[id].(*types.Var); ok && !v.IsField() && v.Parent() != nil && v.Pkg() != nil && v.Parent() != v.Pkg().Scope() &&
				!(lit.Pos() <= v.Pos() && v.Pos() < lit.End()) {
				out[v] = true
			}
		}
		return true
	})
	return out
}

// settled reports whether the variables a literal captures have one value from the time it is first used:
// at most one assignment besides the declaration, never by the literal itself or through a pointer.
func (fv *FV) settled(clo *Closure) (string, bool) {
	info := clo.Fr.info
	capt := captured(info, clo.Lit)
	var body ast.Node
	for _, f := range clo.Fr.pkg.Files {
		for _, d := range f.Decls {
			if d.Pos() <= clo.Lit.Pos() && clo.Lit.Pos() < d.End() {
				body = d
			}
		}
	}
	if body == nil {
		return "no enclosing declaration", false
	}
	n := map[types.Object]int{}
	bad := ""
	base := func(x ast.Expr) (types.Object, bool) {
		deep := false
		for {
			switch e := ast.Unparen(x).(type) {
			case *ast.Ident:
				return info.ObjectOf(e), deep
			case *ast.IndexExpr:
				x, deep = e.X, true
			case *ast.SelectorExpr:
				x, deep = e.X, true
			case *ast.StarExpr:
				return nil, false
			default:
				return nil, false
			}
		}
	}
	note := func(x ast.Expr) {
		o, deep := base(x)
		if o == nil || !capt[o] {
			return
		}
		n[o]++
		if deep {
			n[o]++
		}
		if clo.Lit.Pos() <= x.Pos() && x.Pos() < clo.Lit.End() {
			bad = o.Name()
		}
	}
	ast.Inspect(body, func(x ast.Node) bool {
		switch s := x.(type) {
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				for _, l := range s.Lhs {
					note(l)
				}
			} else {
				for _, l := range s.Lhs {
					if id, ok := l.(*ast.Ident); ok && info.Defs[id] == nil {
						note(l)
					}
				}
			}
		case *ast.IncDecStmt:
			note(s.X)
		case *ast.UnaryExpr:
			if s.Op == token.AND {
				if o, _ := base(s.X); o != nil && capt[o] {
					bad = o.Name()
				}
			}
		case *ast.RangeStmt:
			if s.Tok == token.ASSIGN {
				if s.Key != nil {
					note(s.Key)
				}
				if s.Value != nil {
					note(s.Value)
				}
			}
		}
		return true
	})
	for o, k := range n {
		if k > 1 {
			bad = o.Name()
		}
	}
	return bad, bad == ""
}

// expose makes what is known of a function literal available as facts about its applications:
// its contract (which is verified here, once per path), or the value it returns where that is a plain expression.
func (fv *FV) expose(st *State, f Val, pos token.Pos) {
	clo := fv.clos[f.T.Op]
	if clo == nil || clo.Lit == nil || len(f.T.Args) > 0 || st.dead {
		return
	}
	key := "exposed:" + f.T.Op
	if st.facts[key] {
		return
	}
	st.facts[key] = true
	v := fv.v
	g := v.g
	sig := clo.Fr.info.TypeOf(clo.Lit).(*types.Signature)
	if clo.C != nil {
		if bad, ok := fv.settled(clo); !ok {
			fv.unsup(pos, "function literal under contract captures %s, which is assigned more than once", bad)
		}
		var bs []*Term
		var args []Val
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			b := bv("x", g.Sort(p.Type()))
			bs = append(bs, b)
			args = append(args, Val{T: b, Typ: p.Type()})
		}
		vars := fv.bindParams(clo.C, clo.C.Target, args, &f)
		env := &Env{v: v, pkg: v.typesPkg(clo.C.Pkg), vars: vars, st: st, lets: clo.C.Lets}
		var pre []*Term
		for _, cl := range clo.C.Requires {
			pre = append(pre, env.Bool(cl.E))
		}
		var tr []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			r := v.pureApp("apply", i, rt, append([]*Term{f.T}, bs...))
			tr = append(tr, r)
			clo.C.bindResults(vars, i, STm{r, rt})
		}
		for _, cl := range clo.C.Ensures {
			st.assume(Forall(bs, Imp(And(pre...), env.Bool(cl.E)), tr)) // within its own body too: partial correctness
		}
		if fv.mode == modeEmit {
			s2 := st.clone()
			fv.VerifyClosure(s2, f, clo, clo.C)
		}
		return
	}
	fv.summarise(st, f, clo, sig)
}

// summarise describes a literal whose body is evaluated without loops or effects.
func (fv *FV) summarise(st *State, f Val, clo *Closure, sig *types.Signature) {
	v := fv.v
	g := v.g
	if len(clo.Lit.Body.List) > 4 || sig.Results().Len() == 0 {
		return
	}
	if _, ok := fv.settled(clo); !ok {
		return
	}
	effects := false
	ast.Inspect(clo.Lit.Body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit, *ast.GoStmt, *ast.DeferStmt, *ast.SendStmt:
			effects = true
		}
		return true
	})
	if effects {
		return
	}
	type path struct {
		pc []*Term
		rs []Val
	}
	var paths []path
	sub := map[string]*Term{}
	var bs, ts []*Term
	s2 := st.clone()
	n0 := len(s2.pc)
	nf := fv.newFrame(clo.Fr, clo.Fr.pkg, "closure", 1)
	fv.scanBoxed(nf, clo.Lit.Body)
	mark := 0
	ok := func() (ok bool) {
		save := fv.mode
		fv.mode = modeDry
		defer func() {
			fv.mode = save
			if r := recover(); r != nil {
				if _, is := r.(unsupported); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			t := g.Fresh("lit$"+p.Name(), g.Sort(p.Type()))
			b := bv("x", t.Sort)
			sub[t.Op] = b
			bs, ts = append(bs, b), append(ts, t)
			if p.Name() != "" && p.Name() != "_" {
				fv.declare(nf, s2, p, Val{T: t, Typ: p.Type()})
			}
		}
		mark = g.fresh
		fv.runBody(nf, clo.Lit.Body, sig, s2, func(st *State, vs []Val) {
			paths = append(paths, path{append([]*Term{}, st.pc[n0:]...), vs})
		})
		return true
	}()
	if !ok || len(paths) == 0 || len(paths) > 8 || g.fresh != mark {
		return
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		r := v.pureApp("apply", i, rt, append([]*Term{f.T}, ts...))
		for _, p := range paths {
			x := fv.convert(st, p.rs[i], rt)
			body := Imp(And(p.pc...), Eq(r, x.T))
			st.assume(Forall(bs, body.subst(sub), []*Term{r.subst(sub)}))
		}
	}
}
