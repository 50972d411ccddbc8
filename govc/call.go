package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (fv *FV) call(fr *Frame, x *ast.CallExpr, st *State, k func(*State, Val)) {
	g := fv.v.g
	fun := ast.Unparen(x.Fun)
	if tv, ok := fr.info.Types[x.Fun]; ok && tv.IsType() {
		fv.eval(fr, x.Args[0], st, func(st *State, v Val) { k(st, fv.goConvert(st, v, fr.typ(tv.Type), x.Pos())) })
		return
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := fr.info.Uses[id].(*types.Builtin); ok {
			fv.builtin(fr, b.Name(), x, st, k)
			return
		}
	}
	sig, _ := fr.typ(fr.info.TypeOf(x.Fun)).Underlying().(*types.Signature)
	if sig == nil {
		fv.unsup(x.Pos(), "call of %T", fun)
	}
	args := func(st *State, k func(*State, []Val)) { fv.args(fr, x, sig, st, k) }
	// explicit instantiation f[T](..)
	if ix, ok := fun.(*ast.IndexExpr); ok {
		if _, isSig := fr.info.TypeOf(ix.X).(*types.Signature); isSig {
			fun = ast.Unparen(ix.X)
		}
	}
	if ix, ok := fun.(*ast.IndexListExpr); ok {
		fun = ast.Unparen(ix.X)
	}
	switch f := fun.(type) {
	case *ast.Ident:
		if fn, ok := fr.info.Uses[f].(*types.Func); ok {
			args(st, func(st *State, as []Val) { fv.invoke(fr, fn, nil, as, sig, fv.inst(fr, f, fn), x.Pos(), st, k) })
			return
		}
	case *ast.SelectorExpr:
		sel, ok := fr.info.Selections[f]
		if !ok {
			if fn, ok := fr.info.Uses[f.Sel].(*types.Func); ok {
				if fv.extPlaceArgs(fr, fn, x, st, k) {
					return
				}
				args(st, func(st *State, as []Val) { fv.invoke(fr, fn, nil, as, sig, fv.inst(fr, f.Sel, fn), x.Pos(), st, k) })
				return
			}
		} else if sel.Kind() == types.MethodVal {
			fn := sel.Obj().(*types.Func)
			if fv.builderCall(fr, f, fn, x, st, k) {
				return
			}
			fv.recv(fr, f, sel, st, func(st *State, r Val) {
				args(st, func(st *State, as []Val) { fv.invoke(fr, fn, &r, as, sig, nil, x.Pos(), st, k) })
			})
			return
		}
	}
	// function value
	fv.eval(fr, x.Fun, st, func(st *State, f Val) {
		args(st, func(st *State, as []Val) { fv.callValue(fr, f, as, sig, x.Pos(), st, k) })
	})
	_ = g
}

func (fv *FV) inst(fr *Frame, id *ast.Ident, fn *types.Func) map[*types.TypeParam]types.Type {
	in, ok := fr.info.Instances[id]
	if !ok {
		return nil
	}
	m := map[*types.TypeParam]types.Type{}
	tps := fn.Type().(*types.Signature).TypeParams()
	for i := 0; i < tps.Len(); i++ {
		m[tps.At(i)] = fr.typ(in.TypeArgs.At(i))
	}
	return m
}

// args evaluates call arguments, packing variadic ones.
func (fv *FV) args(fr *Frame, x *ast.CallExpr, sig *types.Signature, st *State, k func(*State, []Val)) {
	np := sig.Params().Len()
	fin := func(st *State, vs []Val) {
		out := make([]Val, 0, np)
		fixed := np
		if sig.Variadic() && !x.Ellipsis.IsValid() {
			fixed = np - 1
		}
		for i := 0; i < fixed; i++ {
			out = append(out, fv.convert(st, vs[i], fr.typ(sig.Params().At(i).Type())))
		}
		if fixed < np {
			pt := fr.typ(sig.Params().At(np - 1).Type())
			et := pt.Underlying().(*types.Slice).Elem()
			var el []*Term
			for _, v := range vs[fixed:] {
				fv.leak(st, v)
				el = append(el, fv.convert(st, v, et).T)
			}
			t := fv.v.g.SeqLit(fv.v.g.Sort(pt), el...)
			fv.litFacts(st, t)
			out = append(out, Val{T: t, Typ: pt, Cell: fv.newCell(st, t, true)})
		}
		k(st, out)
	}
	if len(x.Args) == 1 && np > 1 {
		fv.eval(fr, x.Args[0], st, func(st *State, v Val) {
			if v.Tup != nil {
				fin(st, v.Tup)
			} else {
				fin(st, []Val{v})
			}
		})
		return
	}
	fv.evalList(fr, x.Args, st, fin)
}

// recv evaluates a method receiver, taking its address or dereferencing it as needed.
func (fv *FV) recv(fr *Frame, x *ast.SelectorExpr, sel *types.Selection, st *State, k func(*State, Val)) {
	fn := sel.Obj().(*types.Func)
	rt := fn.Type().(*types.Signature).Recv().Type()
	_, wantPtr := rt.(*types.Pointer)
	path := sel.Index()
	path = path[:len(path)-1]
	xt := fr.typ(fr.info.TypeOf(x.X))
	if wantPtr && !isPtr(xt) && len(path) == 0 {
		fv.place(fr, x.X, st, func(st *State, p *Place) {
			pt := types.NewPointer(p.typ)
			if strings.HasPrefix(fv.v.g.Sort(pt), "Ref.") {
				v := fv.load(st, p)
				k(st, Val{T: fv.v.g.App("mkref$"+fv.v.g.Sort(pt), v.T), Typ: pt})
				return
			}
			if p.kind != "heap" {
				fv.unsup(x.Pos(), "address of %s for method %s", p.kind, fn.Name())
			}
			k(st, Val{T: p.ref, Typ: pt})
		})
		return
	}
	fv.eval(fr, x.X, st, func(st *State, v Val) {
		v = fv.fieldPath(fr, st, v, path, x.Pos())
		if isIface(v.Typ) {
			k(st, v)
			return
		}
		if el, isP := derefType(v.Typ); isP && !wantPtr {
			v = fv.derefVal(st, v, el, x.Pos())
		} else if !isP && wantPtr {
			pt := types.NewPointer(v.Typ)
			if strings.HasPrefix(fv.v.g.Sort(pt), "Ref.") {
				k(st, Val{T: fv.v.g.App("mkref$"+fv.v.g.Sort(pt), v.T), Typ: pt})
				return
			}
			fv.unsup(x.Pos(), "embedded pointer receiver")
		}
		k(st, v)
	})
}

func resTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

func pack(vs []Val) Val {
	switch len(vs) {
	case 0:
		return Val{}
	case 1:
		return vs[0]
	}
	return Val{Tup: vs}
}

func (fv *FV) invoke(fr *Frame, fn *types.Func, recv *Val, args []Val, sig *types.Signature, tsub map[*types.TypeParam]types.Type, pos token.Pos, st *State, k func(*State, Val)) {
	if st.dead {
		return
	}
	v := fv.v
	fn = fn.Origin()
	if recv != nil && isIface(recv.Typ) {
		fv.ifaceCall(fr, fn, *recv, args, sig, pos, st, k)
		return
	}
	name := v.extName(fn)
	all := args
	if recv != nil {
		all = append([]Val{*recv}, args...)
	}
	if c, ok := v.byFunc[name]; ok && c.Opts["inline"] == "" && (c.Opts["within"] == "" || strings.HasSuffix(fv.c.Target, c.Opts["within"])) {
		fv.applyContract(fr, c, name, all, sig, nil, pos, st, k)
		return
	}
	if fi, ok := v.prog.ByObj[fn]; ok {
		fv.inline(fr, fi, recv, args, tsub, pos, st, k)
		return
	}
	fv.external(fr, fn, name, all, sig, pos, st, k)
}

func (fv *FV) inline(fr *Frame, fi *FuncInfo, recv *Val, args []Val, tsub map[*types.TypeParam]types.Type, pos token.Pos, st *State, k func(*State, Val)) {
	rec := 0
	for f := fr; f != nil; f = f.up {
		_ = f
	}
	if fr.depth > 14 {
		fv.unsup(pos, "inlining too deep (%s)", fi.Name)
	}
	for _, n := range fv.stack {
		if n == fi.Name {
			rec++
		}
	}
	if rec > 1 || fi.Name == fv.name && rec > 0 {
		fv.unsup(pos, "recursive call of %s, which has no contract", fi.Name)
	}
	fv.inlined[fi.Name] = true
	nf := fv.newFrame(nil, fi.Pkg, fi.Name, fr.depth+1)
	nf.tsub = tsub
	fv.scanBoxed(nf, fi.Decl.Body)
	sig := fi.Obj.Type().(*types.Signature)
	if recv != nil && sig.Recv() != nil {
		if ps := sig.RecvTypeParams(); ps.Len() > 0 {
			rt := recv.Typ
			if el, isP := derefType(rt); isP {
				rt = el
			}
			if n, ok := types.Unalias(rt).(*types.Named); ok && n.TypeArgs().Len() == ps.Len() {
				nf.tsub = map[*types.TypeParam]types.Type{}
				for i := 0; i < ps.Len(); i++ {
					nf.tsub[ps.At(i)] = n.TypeArgs().At(i)
				}
			}
		}
		if sig.Recv().Name() != "" {
			fv.declare(nf, st, sig.Recv(), *recv)
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		fv.declare(nf, st, sig.Params().At(i), args[i])
	}
	fv.push(fi.Name)
	fv.runBody(nf, fi.Decl.Body, sig, st, func(st *State, vs []Val) {
		fv.pop()
		k(st, pack(vs))
		fv.push(fi.Name)
	})
	fv.pop()
}

func (fv *FV) push(n string) { fv.stack = append(fv.stack, n) }
func (fv *FV) pop()          { fv.stack = fv.stack[:len(fv.stack)-1] }

// runBody executes a function body; k receives the results after deferred calls ran.
func (fv *FV) runBody(nf *Frame, body *ast.BlockStmt, sig *types.Signature, st *State, k func(*State, []Val)) {
	nf.results = []*types.Var{}
	named := false
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		nf.results = append(nf.results, r)
		if r.Name() != "" {
			named = true
			if r.Name() != "_" {
				fv.declare(nf, st, r, fv.zeroVal(st, nf.typ(r.Type())))
			} else {
				st.vars[VarKey{Fr: nf.id, Obj: r}] = fv.zeroVal(st, nf.typ(r.Type()))
			}
		}
	}
	ret := func(st *State, vs []Val) {
		ds := st.defers[nf.id]
		if named {
			for i, r := range nf.results {
				fv.store(nf, st, fv.varPlace(nf, st, r), vs[i], token.NoPos)
			}
		}
		if len(ds) == 0 {
			k(st, vs)
			return
		}
		var run func(st *State, i int)
		run = func(st *State, i int) {
			if i < 0 {
				if named {
					for i, r := range nf.results {
						vs[i] = fv.readVar(nf, st, r, token.NoPos)
					}
				}
				k(st, vs)
				return
			}
			ds[i](st, func(st *State) { run(st, i-1) })
		}
		run(st, len(ds)-1)
	}
	fv.block(nf, body.List, st, nil, ret, func(st *State) {
		var rs []Val
		if named {
			for _, r := range nf.results {
				rs = append(rs, fv.readVar(nf, st, r, token.NoPos))
			}
		}
		ret(st, rs)
	})
}

func (fv *FV) varPlace(fr *Frame, st *State, o types.Object) *Place {
	if fr.isBoxed(o) {
		k, _ := fv.key(fr, st, o)
		return &Place{kind: "heap", ref: st.vars[k].T, typ: fr.typ(o.Type())}
	}
	return &Place{kind: "var", fr: fr, obj: o, typ: fr.typ(o.Type())}
}

// callValue calls a function value.
func (fv *FV) callValue(fr *Frame, f Val, args []Val, sig *types.Signature, pos token.Pos, st *State, k func(*State, Val)) {
	if c, ok := fv.clos[f.T.Op]; ok && len(f.T.Args) == 0 {
		if c.Fn != nil {
			fv.invoke(fr, c.Fn, c.Recv, args, sig, nil, pos, st, k)
			return
		}
		if c.C != nil {
			fv.expose(st, f, pos)
			fv.applyContract(fr, c.C, c.C.Target, args, sig, &f, pos, st, k)
			return
		}
		if fr.depth > 14 {
			fv.unsup(pos, "closure inlining too deep")
		}
		nf := fv.newFrame(c.Fr, c.Fr.pkg, "closure", fr.depth+1)
		fv.scanBoxed(nf, c.Lit.Body)
		csig := c.Fr.info.TypeOf(c.Lit).(*types.Signature)
		for i := 0; i < csig.Params().Len(); i++ {
			fv.declare(nf, st, csig.Params().At(i), args[i])
		}
		fv.runBody(nf, c.Lit.Body, csig, st, func(st *State, vs []Val) { k(st, pack(vs)) })
		return
	}
	if n, ok := types.Unalias(f.Typ).(*types.Named); ok {
		if c, ok := fv.v.byFType[qualName(n)]; ok {
			fv.applyContract(fr, c, qualName(n), args, sig, &f, pos, st, k)
			return
		}
	}
	for _, a := range args {
		if isPtr(a.Typ) && a.T.Sort == "Int" {
			fv.unsup(pos, "call of an unknown function value with pointer arguments")
		}
	}
	fv.assumed["calls through function values of type "+f.Typ.String()+" are taken to be pure"] = true
	ts := []*Term{f.T}
	for _, a := range args {
		ts = append(ts, a.T)
	}
	var rs []Val
	for i, rt := range resTypes(sig) {
		rt = fr.typ(rt)
		rs = append(rs, Val{T: fv.v.pureApp("apply", i, rt, ts), Typ: rt})
	}
	k(st, pack(rs))
}

func ifaceKey(t types.Type, m string) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return qualName(n) + "." + m
	}
	return "?." + m
}

func (fv *FV) ifaceCall(fr *Frame, fn *types.Func, recv Val, args []Val, sig *types.Signature, pos token.Pos, st *State, k func(*State, Val)) {
	v := fv.v
	g := v.g
	if id, ok := st.knownType(recv.T); ok {
		if id == 0 {
			fv.safe(st, "nil interface call", pos, False)
			return // panics
		}
		t := g.typeOf[id]
		fv.devirt(fr, fn, t, recv, args, sig, pos, st, k)
		return
	}
	nn := Not(Eq(g.App("typ", recv.T), Int(0)))
	if b, ok := st.known(nn); !ok || !b {
		fv.safe(st, "nil interface call", pos, nn)
		st.assume(nn)
	}
	if st.dead {
		return
	}
	// the interface the method was declared on, then the static type
	keys := []string{ifaceKey(recv.Typ, fn.Name())}
	if r := fn.Type().(*types.Signature).Recv(); r != nil {
		keys = append(keys, ifaceKey(r.Type(), fn.Name()))
	}
	for _, key := range keys {
		if c, ok := v.byIface[key]; ok {
			if c.Target == key {
				fv.assumed["contract of interface method "+key+" of another package"] = true
			}
			fv.applyContract(fr, c, key, append([]Val{recv}, args...), sig, nil, pos, st, k)
			return
		}
	}
	if n, ok := types.Unalias(recv.Typ).(*types.Named); ok {
		if ts, ok := v.spec.Closed[qualName(n)]; ok {
			fv.assumed["closed world: "+qualName(n)] = true
			var try func(st *State, i int)
			try = func(st *State, i int) {
				if i == len(ts) {
					return
				}
				t := v.GoType(v.typesPkg(v.spec.ClosedPkg[qualName(n)]), ts[i])
				fv.fork(st, g.IsType(recv.T, t), func(st *State) {
					fv.devirt(fr, fn, t, recv, args, sig, pos, st, k)
				}, func(st *State) { try(st, i+1) })
			}
			try(st, 0)
			return
		}
	}
	for _, a := range args {
		if isPtr(a.Typ) && a.T.Sort == "Int" {
			fv.unsup(pos, "call of interface method %s without a contract", keys[0])
		}
	}
	fv.assumed["interface method "+keys[0]+" is taken to be pure"] = true
	ts := []*Term{recv.T}
	for _, a := range args {
		ts = append(ts, a.T)
	}
	var rs []Val
	for i, rt := range resTypes(sig) {
		rs = append(rs, Val{T: v.pureApp(keys[len(keys)-1], i, rt, ts), Typ: rt})
		fv.typeAssume(st, rs[i].T, rt)
	}
	k(st, pack(rs))
}

func (fv *FV) devirt(fr *Frame, fn *types.Func, t types.Type, recv Val, args []Val, sig *types.Signature, pos token.Pos, st *State, k func(*State, Val)) {
	g := fv.v.g
	obj, path, _ := types.LookupFieldOrMethod(t, true, fn.Pkg(), fn.Name())
	m, ok := obj.(*types.Func)
	if !ok {
		st.dead = true
		return
	}
	u := Val{T: g.Unbox(t, recv.T), Typ: t}
	u = fv.fieldPath(fr, st, u, path[:len(path)-1], pos)
	_, wantPtr := m.Type().(*types.Signature).Recv().Type().(*types.Pointer)
	if el, isP := derefType(u.Typ); isP && !wantPtr && !isIface(u.Typ) {
		u = fv.derefVal(st, u, el, pos)
	}
	fv.invoke(fr, m, &u, args, sig, nil, pos, st, k)
}

func (fv *FV) builtin(fr *Frame, name string, x *ast.CallExpr, st *State, k func(*State, Val)) {
	g := fv.v.g
	switch name {
	case "len", "cap":
		fv.eval(fr, x.Args[0], st, func(st *State, v Val) {
			if el, isP := derefType(v.Typ); isP {
				v = fv.derefVal(st, v, el, x.Pos())
			}
			var t *Term
			switch kd, _ := sortOfOp(v.T.Sort); kd {
			case "Str":
				t = g.App("slen", v.T)
			case "Seq":
				t = g.SeqLen(v.T)
				if name == "cap" {
					g.sym("cap$"+v.T.Sort, "Int", v.T.Sort)
					t = g.App("cap$"+v.T.Sort, v.T)
				}
			case "Map":
				t = g.App("card."+v.T.Sort, v.T)
			default:
				fv.unsup(x.Pos(), "len of %s", v.Typ)
			}
			k(st, Val{T: t, Typ: tInt})
		})
	case "append":
		fv.eval(fr, x.Args[0], st, func(st *State, b Val) {
			bt := fr.typ(fr.info.TypeOf(x))
			b = fv.convert(st, b, bt)
			own := b.Cell != 0 && st.cells[b.Cell].Own && !st.cells[b.Cell].Leak
			if el, ok := g.seqLit(b.T); ok && len(el) == 0 {
				own = true
			}
			if !own && !clipped(x.Args[0]) && !fv.v.prog.regrown()[x] && fv.c.Opts["shares"] == "" {
				fv.emit(st, "frame", "writes storage it does not own", nil, x.Pos(), False, "append to a slice that is used on: a later append to it overwrites the element")
			}
			fv.evalList(fr, x.Args[1:], st, func(st *State, vs []Val) {
				t := b.T
				et := fr.typ(bt.Underlying().(*types.Slice).Elem())
				if x.Ellipsis.IsValid() {
					if vs[0].T.Sort == "Str" { // append([]byte, string...)
						fv.unsup(x.Pos(), "append of a string")
					}
					t = g.SeqCat(t, fv.convert(st, vs[0], bt).T)
				} else {
					for _, v := range vs {
						fv.leak(st, v)
						t = g.SeqPush(t, fv.convert(st, v, et).T)
					}
				}
				k(st, Val{T: t, Typ: bt, Cell: fv.newCell(st, t, own)})
			})
		})
	case "make":
		t := fr.typ(fr.info.TypeOf(x))
		fv.evalList(fr, x.Args[1:], st, func(st *State, vs []Val) {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				n := vs[0].T
				st.assume(Le(Int(0), n))
				var r *Term
				if m, ok := n.isInt(); ok && m == 0 {
					r = g.SeqLit(g.Sort(t))
				} else {
					r = g.App("fill."+g.Sort(t), n, g.Zero(fr.typ(u.Elem())))
				}
				k(st, Val{T: r, Typ: t, Cell: fv.newCell(st, r, true)})
			case *types.Map:
				r := g.Zero(t)
				st.assume(Not(fv.v.isNil(r)))
				k(st, Val{T: r, Typ: t, Cell: fv.newCell(st, r, true)})
			default:
				fv.unsup(x.Pos(), "make of %s", t)
			}
		})
	case "new":
		t := fr.typ(fr.info.TypeOf(x))
		el, _ := derefType(t)
		k(st, fv.alloc(st, fv.zeroVal(st, el), t))
	case "panic":
		fv.evalList(fr, x.Args, st, func(st *State, vs []Val) {
			fv.safe(st, "explicit panic", x.Pos(), False)
			// the path ends here
		})
	case "delete":
		fv.place(fr, x.Args[0], st, func(st *State, p *Place) {
			fv.eval(fr, x.Args[1], st, func(st *State, key Val) {
				m := fv.load(st, p)
				key = fv.convert(st, key, m.Typ.Underlying().(*types.Map).Key())
				nt := g.MapDel(m.T, key.T)
				if sv, ok := fv.storage(st, p); ok {
					c := st.cells[sv.Cell]
					if !c.Own {
						fv.emit(st, "frame", "writes storage it does not own", nil, x.Pos(), False, "delete")
					}
					c.T = nt
				} else {
					fv.store(fr, st, p, Val{T: nt, Typ: m.Typ}, x.Pos())
				}
				k(st, Val{})
			})
		})
	case "copy":
		fv.unsup(x.Pos(), "copy")
	case "min", "max":
		fv.evalList(fr, x.Args, st, func(st *State, vs []Val) {
			r := vs[0].T
			for _, v := range vs[1:] {
				c := Lt(v.T, r)
				if name == "max" {
					c = Lt(r, v.T)
				}
				r = Ite(c, v.T, r)
			}
			k(st, Val{T: r, Typ: fr.typ(fr.info.TypeOf(x))})
		})
	default:
		fv.unsup(x.Pos(), "builtin %s", name)
	}
}

func (fv *FV) goConvert(st *State, v Val, t types.Type, pos token.Pos) Val {
	g := fv.v.g
	if b, ok := v.Typ.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return Val{T: g.Zero(t), Typ: t}
	}
	if isIface(t) {
		return fv.convert(st, v, t)
	}
	ts := g.Sort(t)
	if ts == v.T.Sort {
		v.Typ = t
		if ts == "Int" {
			// integer conversions keep the value (machine arithmetic treated as mathematical)
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
				c := And(Le(Int(0), v.T), Lt(v.T, Int(256)))
				if b, ok := st.known(c); !ok || !b {
					return Val{T: Ite(c, v.T, mk("mod", "Int", v.T, Int(256))), Typ: t}
				}
			}
		}
		return v
	}
	if c, ok := g.ConvStruct(v.T, ts); ok {
		return Val{T: c, Typ: t}
	}
	if ts == "Str" && v.T.Sort == "Int" { // string(rune)
		return Val{T: fv.v.runeStr(v.T), Typ: t}
	}
	// []byte(string), []rune(string), string([]byte) ...
	op := "conv$" + v.T.Sort + "$" + ts
	g.sym(op, ts, v.T.Sort)
	r := g.App(op, v.T)
	if ts == "Seq.Int" && v.T.Sort == "Str" {
		if el, ok := t.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && el.Kind() == types.Uint8 {
			op = "bytes$of"
			g.sym(op, ts, "Str")
			x, i := bv("x", "Str"), bv("i", "Int")
			b := mk(op, ts, x)
			g.axiom(op, Forall([]*Term{x}, mk("=", "Bool", mk("len."+ts, "Int", b), mk("slen", "Int", x)), []*Term{b}), op)
			at := mk("at."+ts, "Int", b, i)
			g.axiom(op+"2", Forall([]*Term{x, i}, Imp(And(Le(Int(0), i), Lt(i, mk("slen", "Int", x))), mk("=", "Bool", at, mk("sat", "Int", x, i))), []*Term{at}), op)
			g.sym("bytes$str", "Str", ts)
			g.axiom(op+"3", Forall([]*Term{x}, mk("=", "Bool", mk("bytes$str", "Str", b), x), []*Term{b}), op)
			return Val{T: g.App(op, v.T), Typ: t, Cell: fv.newCell(st, g.App(op, v.T), true)}
		}
	}
	if ts == "Str" && v.T.Sort == "Seq.Int" {
		if el, ok := v.Typ.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && el.Kind() == types.Uint8 {
			g.sym("bytes$str", "Str", v.T.Sort)
			return Val{T: g.App("bytes$str", v.T), Typ: t}
		}
	}
	return Val{T: r, Typ: t}
}

// runeStr is string(rune).
func (v *Verifier) runeStr(t *Term) *Term {
	g := v.g
	if n, ok := t.isInt(); ok && n >= 0 && n < 128 {
		return g.Str(string(rune(n)))
	}
	if _, ok := g.syms["runestr"]; !ok {
		g.sym("runestr", "Str", "Int")
		g.sym("sbyte", "Str", "Int")
		x := bv("x", "Int")
		g.axiom("runestr", Forall([]*Term{x}, Imp(And(Le(Int(0), x), Lt(x, Int(128))), mk("=", "Bool", mk("runestr", "Str", x), mk("sbyte", "Str", x))),
			[]*Term{mk("runestr", "Str", x)}), "runestr")
	}
	return g.App("runestr", t)
}

// external models a call of a function without source.
func (fv *FV) external(fr *Frame, fn *types.Func, name string, args []Val, sig *types.Signature, pos token.Pos, st *State, k func(*State, Val)) {
	v := fv.v
	g := v.g
	for _, a := range args {
		fv.expose(st, a, pos)
	}
	if r, ok := fv.model(name, args, sig, st, pos); ok {
		k(st, r)
		return
	}
	for _, a := range args {
		if a.T.Sort == "Int" && isPtr(a.Typ) {
			fv.unsup(pos, "external function %s with pointer arguments", name)
		}
		if a.T.Sort == "Func" && !a.isNilFunc() {
			if _, known := fv.clos[a.T.Op]; known {
				fv.assumed["external "+name+" only calls its function argument (its effects are not modelled)"] = true
			}
		}
	}
	var ts []*Term
	for _, a := range args {
		ts = append(ts, a.T)
	}
	var rs []Val
	for i, rt := range resTypes(sig) {
		rt = fr.typ(rt)
		t := v.pureApp(name, i, rt, ts)
		fv.typeAssume(st, t, rt)
		rs = append(rs, Val{T: t, Typ: rt})
	}
	fv.exts[name] = true
	_ = g
	k(st, pack(rs))
}

func (v Val) isNilFunc() bool { return v.T.Op == "nil$Func" }

// model implements externals with a built-in meaning.
func (fv *FV) model(name string, a []Val, sig *types.Signature, st *State, pos token.Pos) (Val, bool) {
	g := fv.v.g
	rt := func(i int) types.Type { return sig.Results().At(i).Type() }
	one := func(t *Term) (Val, bool) { fv.exts[name] = true; return Val{T: t, Typ: rt(0)}, true }
	switch name {
	case "strings.HasPrefix":
		return one(g.App("sprefix", a[0].T, a[1].T))
	case "frozen.(Map).With":
		return one(g.MapUpd(a[0].T, a[1].T, a[2].T))
	case "frozen.(Map).Has":
		return one(g.MapDom(a[0].T, a[1].T))
	case "frozen.(Map).Get":
		fv.exts[name] = true
		d := g.MapDom(a[0].T, a[1].T)
		return Val{Tup: []Val{{T: g.MapVal(a[0].T, a[1].T), Typ: rt(0)}, {T: d, Typ: tBool}}}, true
	case "frozen.(Map).MustGet":
		st.assume(g.MapDom(a[0].T, a[1].T))
		return one(g.MapVal(a[0].T, a[1].T))
	case "frozen.(Map).GetElse":
		return one(Ite(g.MapDom(a[0].T, a[1].T), g.MapVal(a[0].T, a[1].T), a[2].T))
	case "frozen.(Map).Count":
		return one(g.App("card."+a[0].T.Sort, a[0].T))
	case "frozen.(Map).IsEmpty":
		return one(Eq(g.App("card."+a[0].T.Sort, a[0].T), Int(0)))
	case "frozen.(Map).Update":
		s := a[0].T.Sort
		si := g.sorts[s]
		op := "mmerge." + s
		if _, ok := g.syms[op]; !ok {
			g.sym(op, s, s, s)
			m, n, x := bv("m", s), bv("n", s), bv("x", si.Key)
			mm := mk(op, s, m, n)
			dom := func(m *Term) *Term { return mk("dom."+s, "Bool", m, x) }
			val := func(m *Term) *Term { return mk("val."+s, si.Elem, m, x) }
			g.axiom(op+"1", Forall([]*Term{m, n, x}, mk("=", "Bool", dom(mm), Or(dom(m), dom(n))), []*Term{dom(mm)}), op)
			g.axiom(op+"2", Forall([]*Term{m, n, x}, mk("=", "Bool", val(mm), Ite(dom(n), val(n), val(m))), []*Term{val(mm)}), op)
		}
		return one(g.App(op, a[0].T, a[1].T))
	case "frozen.NewMap":
		if el, ok := g.seqLit(a[0].T); ok && len(el) == 0 {
			return one(g.ZeroSort(g.Sort(rt(0))))
		}
	case "frozen.(Map).Merge":
		s := a[0].T.Sort
		si := g.sorts[s]
		op := "mmergef." + s
		if _, ok := g.syms[op]; !ok {
			g.sym(op, s, s, s, "Func")
			m, n, x, f := bv("m", s), bv("n", s), bv("x", si.Key), bv("f", "Func")
			mm := mk(op, s, m, n, f)
			dom := func(m *Term) *Term { return mk("dom."+s, "Bool", m, x) }
			val := func(m *Term) *Term { return mk("val."+s, si.Elem, m, x) }
			el := a[2].Typ.Underlying().(*types.Signature).Results().At(0).Type()
			both := fv.v.pureApp("apply", 0, el, []*Term{f, x, val(m), val(n)})
			g.axiom(op+"1", Forall([]*Term{m, n, x, f}, mk("=", "Bool", dom(mm), Or(dom(m), dom(n))), []*Term{dom(mm)}), op)
			g.axiom(op+"2", Forall([]*Term{m, n, x, f}, mk("=", "Bool", val(mm), Ite(And(dom(m), dom(n)), both, Ite(dom(n), val(n), val(m)))), []*Term{val(mm)}), op)
		}
		return one(g.App(op, a[0].T, a[1].T, a[2].T))
	case "frozen.(Map).Where":
		s := a[0].T.Sort
		si := g.sorts[s]
		op := "mwhere." + s
		if _, ok := g.syms[op]; !ok {
			g.sym(op, s, s, "Func")
			m, x, f := bv("m", s), bv("x", si.Key), bv("f", "Func")
			mm := mk(op, s, m, f)
			dom := func(m *Term) *Term { return mk("dom."+s, "Bool", m, x) }
			val := func(m *Term) *Term { return mk("val."+s, si.Elem, m, x) }
			keep := fv.v.pureApp("apply", 0, tBool, []*Term{f, x, val(m)})
			g.axiom(op+"1", Forall([]*Term{m, x, f}, mk("=", "Bool", dom(mm), And(dom(m), keep)), []*Term{dom(mm)}), op)
			g.axiom(op+"2", Forall([]*Term{m, x, f}, mk("=", "Bool", val(mm), val(m)), []*Term{val(mm)}), op)
		}
		return one(g.App(op, a[0].T, a[1].T))
	case "frozen.(Map).Keys":
		s := a[0].T.Sort
		si := g.sorts[s]
		ss := g.Sort(rt(0))
		op := "mkeys." + s
		if _, ok := g.syms[op]; !ok {
			g.sym(op, ss, s)
			m, x := bv("m", s), bv("x", si.Key)
			mem := g.SetMem(mk(op, ss, m), x)
			g.axiom(op, Forall([]*Term{m, x}, mk("=", "Bool", mem, mk("dom."+s, "Bool", m, x)), []*Term{mem}), op)
		}
		return one(g.App(op, a[0].T))
	case "frozen.(Set).Elements": // in any order
		s := a[0].T.Sort
		si := g.sorts[s]
		qs := g.Sort(rt(0))
		op, at := "selems."+s, "selemat."+s
		if _, ok := g.syms[op]; !ok {
			g.sym(op, qs, s, "Int")
			g.sym(at, "Int", s, "Int", si.Key)
			m, n, x, i := bv("m", s), bv("n", "Int"), bv("x", si.Key), bv("i", "Int")
			e := mk(op, qs, m, n)
			el := func(i *Term) *Term { return mk("at."+qs, si.Key, e, i) }
			in := func(i *Term) *Term { return And(Le(Int(0), i), Lt(i, mk("len."+qs, "Int", e))) }
			g.axiom(op+"1", Forall([]*Term{m, n, i}, Imp(in(i), g.SetMem(m, el(i))), []*Term{el(i)}), op)
			w := mk(at, "Int", m, n, x)
			g.axiom(op+"2", Forall([]*Term{m, n, x}, Imp(g.SetMem(m, x), And(in(w), mk("=", "Bool", el(w), x))), []*Term{e, g.SetMem(m, x)}), op)
		}
		return one(g.App(op, a[0].T, g.Fresh("n", "Int")))
	case "frozen.(Set).Has":
		return one(g.SetMem(a[0].T, a[1].T))
	case "frozen.(Set).With", "frozen.(Set).Without":
		s := a[0].T
		op := "swith."
		if strings.HasSuffix(name, "Without") {
			op = "swithout."
		}
		if strings.HasPrefix(a[1].T.Sort, "Seq.") {
			el, ok := g.seqLit(a[1].T)
			if !ok {
				return Val{}, false
			}
			for _, x := range el {
				s = g.App(op+s.Sort, s, x)
			}
			return one(s)
		}
		return one(g.App(op+s.Sort, s, a[1].T))
	case "frozen.(Set).Union":
		return one(g.App("sunion."+a[0].T.Sort, a[0].T, a[1].T))
	case "frozen.(Set).IsEmpty":
		return one(Eq(a[0].T, g.ZeroSort(a[0].T.Sort)))
	case "frozen.(Set).Count":
		return one(g.App("scard."+a[0].T.Sort, a[0].T))
	case "frozen.NewSet":
		s := g.ZeroSort(g.Sort(rt(0)))
		el, ok := g.seqLit(a[0].T)
		if !ok {
			return one(fv.setOf(s.Sort, a[0].T))
		}
		for _, x := range el {
			s = g.App("swith."+s.Sort, s, x)
		}
		return one(s)
	}
	return Val{}, false
}

// setOf is the set of the elements of a list: it has as many as the list just if no two of these are equal.
func (fv *FV) setOf(ss string, l *Term) *Term {
	g := fv.v.g
	op, w1, w2 := "setof."+ss, "setof1."+ss, "setof2."+ss
	if _, ok := g.syms[op]; !ok {
		qs, el := l.Sort, g.sorts[ss].Key
		g.sym(op, ss, qs)
		g.sym(w1, "Int", qs)
		g.sym(w2, "Int", qs)
		q, i, j := bv("q", qs), bv("i", "Int"), bv("j", "Int")
		set := mk(op, ss, q)
		n := mk("len."+qs, "Int", q)
		at := func(i *Term) *Term { return mk("at."+qs, el, q, i) }
		same := mk("=", "Bool", mk("scard."+ss, "Int", set), n)
		a, b := mk(w1, "Int", q), mk(w2, "Int", q)
		g.axiom(op+"1", Forall([]*Term{q}, Or(same, And(Le(Int(0), a), Lt(a, b), Lt(b, n), mk("=", "Bool", at(a), at(b)))), []*Term{set}), op)
		g.axiom(op+"2", Forall([]*Term{q, i, j}, Imp(And(Le(Int(0), i), Lt(i, j), Lt(j, n), mk("=", "Bool", at(i), at(j))), Not(same)), []*Term{set, at(i), at(j)}), op)
		g.axiom(op+"3", Forall([]*Term{q, i}, Imp(And(Le(Int(0), i), Lt(i, n)), g.SetMem(set, at(i))), []*Term{set, at(i)}), op)
	}
	return g.App(op, l)
}

// builderCall models methods of mutable library values held in variables (strings.Builder, bytes.Buffer, frozen builders).
func (fv *FV) builderCall(fr *Frame, f *ast.SelectorExpr, fn *types.Func, x *ast.CallExpr, st *State, k func(*State, Val)) bool {
	g := fv.v.g
	name := funcName(fn)
	switch {
	case strings.HasPrefix(name, "strings.(*Builder)."), strings.HasPrefix(name, "bytes.(*Buffer)."):
	case strings.HasPrefix(name, "frozen.(*MapBuilder)."):
	case strings.HasPrefix(name, "frozen.(*SetBuilder)."):
	default:
		return false
	}
	sel := fr.info.Selections[f]
	withPlace := func(st *State, k func(*State, *Place)) {
		path := sel.Index()
		if len(path) > 1 {
			fv.unsup(x.Pos(), "embedded builder")
		}
		xt := fr.typ(fr.info.TypeOf(f.X))
		if el, isP := derefType(xt); isP {
			fv.eval(fr, f.X, st, func(st *State, p Val) { fv.ptrPlace(st, p, el, x.Pos(), k) })
			return
		}
		fv.place(fr, f.X, st, k)
	}
	withPlace(st, func(st *State, p *Place) {
		fv.evalList(fr, x.Args, st, func(st *State, as []Val) {
			cur := fv.load(st, p)
			cur.Cell = 0
			set := func(t *Term) { fv.store(fr, st, p, Val{T: t, Typ: cur.Typ}, x.Pos()) }
			fv.exts[name] = true
			nilErr := Val{T: g.NilIface(), Typ: types.Universe.Lookup("error").Type()}
			switch fn.Name() {
			case "WriteString":
				set(g.App("scat", cur.T, as[0].T))
				k(st, Val{Tup: []Val{{T: g.App("slen", as[0].T), Typ: tInt}, nilErr}})
			case "WriteByte":
				set(g.App("scat", cur.T, g.App("sbyte", as[0].T)))
				k(st, nilErr)
			case "WriteRune":
				r := fv.goConvert(st, as[0], tString, x.Pos())
				set(g.App("scat", cur.T, r.T))
				k(st, Val{Tup: []Val{{T: g.App("slen", r.T), Typ: tInt}, nilErr}})
			case "String":
				k(st, Val{T: cur.T, Typ: tString})
			case "Len":
				k(st, Val{T: g.App("slen", cur.T), Typ: tInt})
			case "Reset":
				set(g.Str(""))
				k(st, Val{})
			case "Grow":
				k(st, Val{})
			case "Put":
				set(g.MapUpd(cur.T, as[0].T, as[1].T))
				k(st, Val{})
			case "Add":
				set(g.App("swith."+cur.T.Sort, cur.T, as[0].T))
				k(st, Val{})
			case "Finish":
				k(st, Val{T: cur.T, Typ: fr.typ(fr.info.TypeOf(x))})
			default:
				fv.unsup(x.Pos(), "method %s", name)
			}
		})
	})
	return true
}

// extPlaceArgs models fmt.Fprint* into a builder variable.
func (fv *FV) extPlaceArgs(fr *Frame, fn *types.Func, x *ast.CallExpr, st *State, k func(*State, Val)) bool {
	name := funcName(fn)
	switch name {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
	default:
		return false
	}
	// writer must be (a pointer to) a strings.Builder or bytes.Buffer
	t := fr.typ(fr.info.TypeOf(x.Args[0]))
	el, isP := derefType(t)
	if !isP || fv.v.g.Sort(el) != "Str" {
		return false
	}
	sig := fn.Type().(*types.Signature)
	fv.eval(fr, x.Args[0], st, func(st *State, w Val) {
		fv.evalList(fr, x.Args[1:], st, func(st *State, vs []Val) {
			fixed := 0
			var ts []*Term
			if name == "fmt.Fprintf" {
				fixed = 1
				ts = append(ts, vs[0].T)
			}
			if x.Ellipsis.IsValid() {
				ts = append(ts, vs[fixed].T)
			} else {
				var els []*Term
				for _, v := range vs[fixed:] {
					els = append(els, fv.convert(st, v, tAny).T)
				}
				ts = append(ts, fv.v.g.SeqLit(fv.v.g.SeqSort("Iface"), els...))
			}
			s := fv.v.pureApp("fmt.S"+strings.TrimPrefix(name, "fmt.F"), 0, tString, ts)
			fv.ptrPlace(st, w, el, x.Pos(), func(st *State, p *Place) {
				cur := fv.load(st, p)
				fv.store(fr, st, p, Val{T: fv.v.g.App("scat", cur.T, s), Typ: cur.Typ}, x.Pos())
				k(st, Val{Tup: []Val{{T: fv.v.g.Fresh("n", "Int"), Typ: tInt}, {T: fv.v.g.Fresh("err", "Iface"), Typ: sig.Results().At(1).Type()}}})
			})
		})
	})
	return true
}

var _ = fmt.Sprint
