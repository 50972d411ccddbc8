package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (fv *FV) evalList(fr *Frame, xs []ast.Expr, st *State, k func(*State, []Val)) {
	if len(xs) == 0 {
		k(st, nil)
		return
	}
	fv.eval(fr, xs[0], st, func(st *State, v Val) {
		fv.evalList(fr, xs[1:], st, func(st *State, vs []Val) { k(st, append([]Val{v}, vs...)) })
	})
}

func (fv *FV) eval(fr *Frame, x ast.Expr, st *State, k func(*State, Val)) {
	if st.dead {
		return
	}
	fv.tick(x.Pos())
	g := fv.v.g
	if tv, ok := fr.info.Types[x]; ok {
		if tv.Value != nil {
			if t := fv.v.constTerm(tv.Value, tv.Type); t != nil {
				k(st, Val{T: t, Typ: fr.typ(types.Default(tv.Type))})
				return
			}
			s := g.Sort(types.Default(tv.Type))
			k(st, Val{T: g.Const("const$"+clean(tv.Value.ExactString()), s), Typ: types.Default(tv.Type)})
			return
		}
		if tv.IsNil() {
			k(st, Val{T: g.NilIface(), Typ: tNil})
			return
		}
	}
	switch x := x.(type) {
	case *ast.ParenExpr:
		fv.eval(fr, x.X, st, k)
	case *ast.Ident:
		o := fr.info.ObjectOf(x)
		if f, ok := o.(*types.Func); ok {
			k(st, fv.funcVal(f, nil, f.Type()))
			return
		}
		k(st, fv.readVar(fr, st, o, x.Pos()))
	case *ast.FuncLit:
		c := g.Fresh("closure", "Func")
		clo := &Closure{Lit: x, Fr: fr}
		fv.clos[c.Op] = clo
		if cc := fv.closureContract(fr, x); cc != nil {
			n := *cc
			n.Bound = map[string]STm{}
			for k, b := range fv.vars {
				n.Bound[k] = b
			}
			clo.C = &n
			cc.Used = true
		}
		st.assume(Not(mk("=", "Bool", c, &Term{Op: "nil$Func", Sort: "Func"})))
		k(st, Val{T: c, Typ: fr.typ(fr.info.TypeOf(x))})
	case *ast.CompositeLit:
		fv.compositeLit(fr, x, fr.typ(fr.info.TypeOf(x)), st, k)
	case *ast.SelectorExpr:
		fv.selector(fr, x, st, k)
	case *ast.StarExpr:
		fv.place(fr, x, st, func(st *State, p *Place) { k(st, fv.load(st, p)) })
	case *ast.UnaryExpr:
		fv.unary(fr, x, st, k)
	case *ast.BinaryExpr:
		if x.Op == token.LAND || x.Op == token.LOR {
			fv.cond(fr, x, st, func(st *State) { k(st, Val{T: True, Typ: tBool}) }, func(st *State) { k(st, Val{T: False, Typ: tBool}) })
			return
		}
		fv.eval(fr, x.X, st, func(st *State, a Val) {
			fv.eval(fr, x.Y, st, func(st *State, b Val) {
				k(st, fv.binop(fr, st, x.Op, a, b, fr.typ(fr.info.TypeOf(x)), x.Pos()))
			})
		})
	case *ast.IndexExpr:
		if _, ok := fr.info.TypeOf(x.X).(*types.Signature); ok { // explicit instantiation
			fv.eval(fr, x.X, st, k)
			return
		}
		fv.eval(fr, x.X, st, func(st *State, b Val) {
			fv.eval(fr, x.Index, st, func(st *State, i Val) {
				t := fr.typ(fr.info.TypeOf(x))
				if tup, ok := t.(*types.Tuple); ok {
					t = tup.At(0).Type()
				}
				bt := b.Typ
				if el, isP := derefType(bt); isP { // pointer to array
					b = fv.derefVal(st, b, el, x.Pos())
					bt = el
				}
				switch u := bt.Underlying().(type) {
				case *types.Map:
					i = fv.convert(st, i, fr.typ(u.Key()))
					r := Val{T: g.MapVal(b.T, i.T), Typ: fr.typ(u.Elem())}
					fv.typeAssume(st, r.T, r.Typ)
					k(st, r)
				case *types.Basic:
					c := And(Le(Int(0), i.T), Lt(i.T, g.App("slen", b.T)))
					fv.safe(st, "string index out of range", x.Pos(), c)
					st.assume(c)
					k(st, Val{T: g.App("sat", b.T, i.T), Typ: types.Typ[types.Byte]})
				case *types.Slice:
					fv.bounds(st, i.T, g.SeqLen(b.T), x.Pos())
					r := Val{T: g.SeqAt(b.T, i.T), Typ: fr.typ(u.Elem())}
					fv.typeAssume(st, r.T, r.Typ)
					k(st, r)
				case *types.Array:
					fv.bounds(st, i.T, g.SeqLen(b.T), x.Pos())
					k(st, Val{T: g.SeqAt(b.T, i.T), Typ: fr.typ(u.Elem())})
				default:
					fv.unsup(x.Pos(), "index of %s", b.Typ)
				}
			})
		})
	case *ast.SliceExpr:
		fv.sliceExpr(fr, x, st, k)
	case *ast.TypeAssertExpr:
		fv.eval(fr, x.X, st, func(st *State, v Val) {
			t := fr.typ(fr.info.TypeOf(x.Type))
			is := g.IsType(v.T, t)
			if b, ok := st.known(is); !ok || !b {
				fv.safe(st, "type assertion", x.Pos(), is)
			}
			st.assume(is)
			if st.dead {
				return
			}
			fv.assumeImpl(st, v.T, t)
			r := g.Unbox(t, v.T)
			if !isIface(t) {
				fv.typeAssume(st, r, t)
			}
			k(st, Val{T: r, Typ: t})
		})
	case *ast.CallExpr:
		fv.call(fr, x, st, k)
	default:
		fv.unsup(x.Pos(), "expression %T", x)
	}
}

func (fv *FV) funcVal(f *types.Func, recv *Val, typ types.Type) Val {
	name := "fun$" + funcName(f)
	if recv != nil {
		c := fv.v.g.Fresh("method$"+f.Name(), "Func")
		fv.clos[c.Op] = &Closure{Fn: f, Recv: recv}
		return Val{T: c, Typ: typ}
	}
	c := fv.v.g.Const(name, "Func")
	fv.clos[name] = &Closure{Fn: f}
	return Val{T: c, Typ: typ}
}

func (fv *FV) derefVal(st *State, p Val, el types.Type, pos token.Pos) Val {
	g := fv.v.g
	if strings.HasPrefix(p.T.Sort, "Ref.") {
		nn := Not(Eq(p.T, g.ZeroSort(p.T.Sort)))
		if b, ok := st.known(nn); !ok || !b {
			fv.safe(st, "nil dereference", pos, nn)
			st.assume(nn)
		}
		t := g.App("deref$"+p.T.Sort, p.T)
		fv.typeAssume(st, t, el)
		return Val{T: t, Typ: el}
	}
	fv.nonNil(st, p.T, pos)
	r := Val{T: g.Select(st.Heap(fv.v, el), p.T), Typ: el}
	fv.typeAssume(st, r.T, el)
	return r
}

func (fv *FV) selector(fr *Frame, x *ast.SelectorExpr, st *State, k func(*State, Val)) {
	sel, ok := fr.info.Selections[x]
	if !ok { // qualified identifier
		switch o := fr.info.Uses[x.Sel].(type) {
		case *types.Var:
			k(st, Val{T: fv.v.globalTerm(o), Typ: o.Type()})
		case *types.Func:
			k(st, fv.funcVal(o, nil, o.Type()))
		default:
			fv.unsup(x.Pos(), "selector %s", x.Sel.Name)
		}
		return
	}
	switch sel.Kind() {
	case types.FieldVal:
		fv.eval(fr, x.X, st, func(st *State, b Val) {
			k(st, fv.fieldPath(fr, st, b, sel.Index(), x.Pos()))
		})
	case types.MethodVal:
		fv.recv(fr, x, sel, st, func(st *State, r Val) {
			k(st, fv.funcVal(sel.Obj().(*types.Func), &r, fr.typ(sel.Type())))
		})
	default: // method expression
		k(st, fv.funcVal(sel.Obj().(*types.Func), nil, fr.typ(sel.Type())))
	}
}

func (fv *FV) fieldPath(fr *Frame, st *State, b Val, path []int, pos token.Pos) Val {
	for _, ix := range path {
		if el, isP := derefType(b.Typ); isP {
			b = fv.derefVal(st, b, el, pos)
		}
		su, ok := b.Typ.Underlying().(*types.Struct)
		if !ok || !strings.HasPrefix(b.T.Sort, "S.") {
			fv.unsup(pos, "field of %s", b.Typ)
		}
		b = Val{T: fv.v.g.Sel(b.T, fieldName(su, ix)), Typ: fr.typ(su.Field(ix).Type())}
		fv.typeAssume(st, b.T, b.Typ)
	}
	return b
}

func (fv *FV) unary(fr *Frame, x *ast.UnaryExpr, st *State, k func(*State, Val)) {
	g := fv.v.g
	switch x.Op {
	case token.AND:
		t := fr.typ(fr.info.TypeOf(x))
		if cl, ok := ast.Unparen(x.X).(*ast.CompositeLit); ok {
			el, _ := derefType(t)
			fv.compositeLit(fr, cl, el, st, func(st *State, v Val) { k(st, fv.alloc(st, v, t)) })
			return
		}
		if fv.refField(fr, x.X) {
			// address of a part of an immutable object or slice: only good for linking
			fv.assumed["addresses of fields of immutable objects are only used by the linking functions"] = true
			r := g.Fresh("fieldptr", "Int")
			st.assume(And(Lt(Int(0), r), Lt(r, st.alloc)))
			k(st, Val{T: r, Typ: t})
			return
		}
		fv.place(fr, x.X, st, func(st *State, p *Place) {
			switch p.kind {
			case "heap":
				if strings.HasPrefix(g.Sort(t), "Ref.") {
					// pointer to a local of immutable type: treated as a snapshot
					v := fv.load(st, p)
					k(st, Val{T: g.App("mkref$"+g.Sort(t), v.T), Typ: t})
					return
				}
				k(st, Val{T: p.ref, Typ: t})
			default:
				fv.unsup(x.Pos(), "address of %s", p.kind)
			}
		})
	case token.NOT:
		fv.eval(fr, x.X, st, func(st *State, v Val) { k(st, Val{T: Not(v.T), Typ: v.Typ}) })
	case token.SUB:
		fv.eval(fr, x.X, st, func(st *State, v Val) { k(st, Val{T: Sub(Int(0), v.T), Typ: v.Typ}) })
	case token.ADD:
		fv.eval(fr, x.X, st, k)
	default:
		fv.unsup(x.Pos(), "operator %s", x.Op)
	}
}

// refField tells whether an addressed expression is a field of an immutable object or a slice element.
func (fv *FV) refField(fr *Frame, x ast.Expr) bool {
	switch x := ast.Unparen(x).(type) {
	case *ast.SelectorExpr:
		t := fr.typ(fr.info.TypeOf(x.X))
		return isPtr(t) && strings.HasPrefix(fv.v.g.Sort(t), "Ref.")
	case *ast.IndexExpr:
		_, ok := fr.typ(fr.info.TypeOf(x.X)).Underlying().(*types.Slice)
		return ok
	}
	return false
}

// alloc creates an object and returns a pointer to it.
func (fv *FV) alloc(st *State, v Val, pt types.Type) Val {
	g := fv.v.g
	s := g.Sort(pt)
	fv.leak(st, v)
	if strings.HasPrefix(s, "Ref.") {
		r := g.App("mkref$"+s, v.T)
		for _, iv := range fv.v.invariant(r, pt) {
			if fv.mode == modeEmit {
				fv.emit(st, "invariant", "type invariant "+iv.name, iv.props, fv.curPos, iv.t, iv.spec)
			}
		}
		return Val{T: r, Typ: pt}
	}
	ref := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	st.assume(Lt(Int(0), ref))
	el, _ := derefType(pt)
	fv.heapStore(st, el, ref, v.T)
	return Val{T: ref, Typ: pt}
}

func (fv *FV) compositeLit(fr *Frame, x *ast.CompositeLit, t types.Type, st *State, k func(*State, Val)) {
	g := fv.v.g
	elt := func(e ast.Expr, et types.Type, st *State, k func(*State, Val)) {
		if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
			if el, isP := derefType(et); isP {
				fv.compositeLit(fr, cl, el, st, func(st *State, v Val) { k(st, fv.alloc(st, v, et)) })
				return
			}
			fv.compositeLit(fr, cl, et, st, k)
			return
		}
		fv.eval(fr, e, st, func(st *State, v Val) { fv.leak(st, v); k(st, fv.convert(st, v, et)) })
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := g.Sort(t)
		if !strings.HasPrefix(s, "S.") {
			if len(x.Elts) == 0 {
				k(st, Val{T: g.Zero(t), Typ: t})
				return
			}
			fv.unsup(x.Pos(), "literal of %s", t)
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = g.Zero(fr.typ(u.Field(i).Type()))
		}
		var rec func(st *State, i int)
		rec = func(st *State, i int) {
			if i == len(x.Elts) {
				a := append([]*Term{}, args...)
				k(st, Val{T: g.App("mk."+s, a...), Typ: t})
				return
			}
			fi, e := i, x.Elts[i]
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				e = kv.Value
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						fi = j
					}
				}
			}
			elt(e, fr.typ(u.Field(fi).Type()), st, func(st *State, v Val) {
				old := args[fi]
				args[fi] = v.T
				rec(st, i+1)
				args[fi] = old
			})
		}
		rec(st, 0)
	case *types.Slice, *types.Array:
		var et types.Type
		n := int64(-1)
		if sl, ok := u.(*types.Slice); ok {
			et = fr.typ(sl.Elem())
		} else {
			et = fr.typ(u.(*types.Array).Elem())
			n = u.(*types.Array).Len()
		}
		s := g.Sort(t)
		var rec func(st *State, i int, acc *Term)
		rec = func(st *State, i int, acc *Term) {
			if i == len(x.Elts) {
				if n > int64(len(x.Elts)) {
					for j := int64(len(x.Elts)); j < n; j++ {
						acc = g.SeqPush(acc, g.Zero(et))
					}
				}
				fv.litFacts(st, acc)
				k(st, Val{T: acc, Typ: t, Cell: fv.newCell(st, acc, true)})
				return
			}
			if _, ok := x.Elts[i].(*ast.KeyValueExpr); ok {
				fv.unsup(x.Pos(), "keyed slice literal")
			}
			elt(x.Elts[i], et, st, func(st *State, v Val) { rec(st, i+1, g.SeqPush(acc, v.T)) })
		}
		rec(st, 0, g.SeqLit(s))
	case *types.Map:
		s := g.Sort(t)
		var rec func(st *State, i int, acc *Term)
		rec = func(st *State, i int, acc *Term) {
			if i == len(x.Elts) {
				k(st, Val{T: acc, Typ: t, Cell: fv.newCell(st, acc, true)})
				return
			}
			kv := x.Elts[i].(*ast.KeyValueExpr)
			elt(kv.Key, fr.typ(u.Key()), st, func(st *State, kk Val) {
				elt(kv.Value, fr.typ(u.Elem()), st, func(st *State, v Val) { rec(st, i+1, g.MapUpd(acc, kk.T, v.T)) })
			})
		}
		rec(st, 0, g.Const("mempty."+s, s))
	default:
		fv.unsup(x.Pos(), "literal of %s", t)
	}
}

func (fv *FV) sliceExpr(fr *Frame, x *ast.SliceExpr, st *State, k func(*State, Val)) {
	g := fv.v.g
	finish := func(st *State, b Val) {
		one := func(e ast.Expr, def *Term, st *State, k func(*State, *Term)) {
			if e == nil {
				k(st, def)
				return
			}
			fv.eval(fr, e, st, func(st *State, v Val) { k(st, v.T) })
		}
		var n *Term
		if b.T.Sort == "Str" {
			n = g.App("slen", b.T)
		} else {
			n = g.SeqLen(b.T)
		}
		one(x.Low, Int(0), st, func(st *State, lo *Term) {
			one(x.High, n, st, func(st *State, hi *Term) {
				one(x.Max, hi, st, func(st *State, max *Term) {
					// (slicing up to the capacity is not modelled: hi is taken to be at most the length)
					c := And(Le(Int(0), lo), Le(lo, hi), Le(hi, max), Le(max, n))
					if kb, ok := st.known(c); !ok || !kb {
						fv.safe(st, "slice bounds out of range", x.Pos(), c)
					}
					st.assume(c)
					if b.T.Sort == "Str" {
						k(st, Val{T: g.App("ssub", b.T, lo, hi), Typ: b.Typ})
						return
					}
					t := fr.typ(fr.info.TypeOf(x))
					r := Val{T: g.SeqSub(b.T, lo, hi), Typ: t}
					if x.Low == nil && x.High == nil {
						r.T = b.T
					}
					if b.Cell != 0 {
						off := Int(0)
						if b.Off != nil {
							off = b.Off
						}
						r.Cell, r.Off, r.Len = b.Cell, Add(off, lo), Sub(hi, lo)
					}
					if x.High != nil && x.Max == nil && fv.v.prog.appendedViews()[x] && !(b.Cell != 0 && st.cells[b.Cell].Own) {
						fv.emit(st, "frame", "writes storage it does not own", nil, x.Pos(), Eq(hi, n), "append after the elements sliced off")
					}
					k(st, r)
				})
			})
		})
	}
	bt := fr.typ(fr.info.TypeOf(x.X))
	if _, ok := bt.Underlying().(*types.Array); ok {
		fv.place(fr, x.X, st, func(st *State, p *Place) {
			v := fv.load(st, p)
			if p.kind != "var" {
				v.Cell = 0
			} else if key, ok := fv.key(p.fr, st, p.obj); ok {
				v.Cell = st.vars[key].Cell
			}
			finish(st, v)
		})
		return
	}
	fv.eval(fr, x.X, st, func(st *State, b Val) {
		if el, isP := derefType(b.Typ); isP {
			b = fv.derefVal(st, b, el, x.Pos())
		}
		finish(st, b)
	})
}

func (fv *FV) equal(st *State, a, b Val, pos token.Pos) *Term {
	g := fv.v.g
	isNil := func(v Val) bool {
		bb, ok := v.Typ.(*types.Basic)
		return ok && bb.Kind() == types.UntypedNil
	}
	if isNil(b) {
		a, b = b, a
	}
	if isNil(a) {
		if isNil(b) {
			return True
		}
		switch b.Typ.Underlying().(type) {
		case *types.Slice, *types.Map:
			return fv.v.isNilOf(b.T, b.Typ)
		}
		if b.T.Sort == "Iface" {
			return Eq(g.App("typ", b.T), Int(0))
		}
		return Eq(b.T, g.Zero(b.Typ))
	}
	if isIface(a.Typ) != isIface(b.Typ) {
		if isIface(a.Typ) {
			b = fv.convert(st, b, a.Typ)
		} else {
			a = fv.convert(st, a, b.Typ)
		}
	}
	if a.T.Sort != b.T.Sort {
		fv.unsup(pos, "comparison of %s and %s", a.Typ, b.Typ)
	}
	return Eq(a.T, b.T)
}

func (fv *FV) binop(fr *Frame, st *State, op token.Token, a, b Val, t types.Type, pos token.Pos) Val {
	g := fv.v.g
	r := func(x *Term) Val {
		if untyped(t) {
			t = types.Default(t)
		}
		return Val{T: x, Typ: t}
	}
	switch op {
	case token.EQL:
		return r(fv.equal(st, a, b, pos))
	case token.NEQ:
		return r(Not(fv.equal(st, a, b, pos)))
	}
	if a.T.Sort == "Str" {
		switch op {
		case token.ADD:
			return r(g.App("scat", a.T, b.T))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			g.sym("slt", "Bool", "Str", "Str")
			lt := func(x, y *Term) *Term { return g.App("slt", x, y) }
			switch op {
			case token.LSS:
				return r(lt(a.T, b.T))
			case token.GTR:
				return r(lt(b.T, a.T))
			case token.LEQ:
				return r(Not(lt(b.T, a.T)))
			default:
				return r(Not(lt(a.T, b.T)))
			}
		}
	}
	if a.T.Sort != "Int" || b.T.Sort != "Int" {
		if a.T.Sort == "Bool" {
			switch op {
			case token.AND:
				return r(And(a.T, b.T))
			case token.OR:
				return r(Or(a.T, b.T))
			}
		}
		fv.unsup(pos, "operator %s on %s", op, a.Typ)
	}
	switch op {
	case token.ADD:
		return r(Add(a.T, b.T))
	case token.SUB:
		return r(Sub(a.T, b.T))
	case token.MUL:
		return r(Mul(a.T, b.T))
	case token.LSS:
		return r(Lt(a.T, b.T))
	case token.LEQ:
		return r(Le(a.T, b.T))
	case token.GTR:
		return r(Lt(b.T, a.T))
	case token.GEQ:
		return r(Le(b.T, a.T))
	case token.QUO, token.REM:
		// truncated division; exact for a non-negative dividend and a positive divisor
		fv.safe(st, "division by zero", pos, Not(Eq(b.T, Int(0))))
		d, m := mk("div", "Int", a.T, b.T), mk("mod", "Int", a.T, b.T)
		pos := And(Le(Int(0), a.T), Lt(Int(0), b.T))
		res, ex := d, "tdiv"
		if op == token.REM {
			res, ex = m, "trem"
		}
		if kb, ok := st.known(pos); ok && kb {
			return r(res)
		}
		g.sym(ex, "Int", "Int", "Int")
		return r(Ite(pos, res, g.App(ex, a.T, b.T)))
	case token.SHL:
		if n, ok := b.T.isInt(); ok && n >= 0 && n < 40 {
			return r(Mul(a.T, Int(1<<n)))
		}
	}
	// bit operations: uninterpreted
	g.sym("bitop$"+op.String(), "Int", "Int", "Int")
	fv.assumed["bit operation "+op.String()+" is uninterpreted"] = true
	return r(g.App("bitop$"+op.String(), a.T, b.T))
}

var _ = fmt.Sprint

// litFacts states the elements of a slice literal one by one, so that quantified facts about them apply.
func (fv *FV) litFacts(st *State, t *Term) {
	el, ok := fv.v.g.seqLit(t)
	if !ok || len(el) < 3 || len(el) > 32 {
		return
	}
	for i, e := range el {
		st.assume(mk("=", "Bool", mk("at."+t.Sort, e.Sort, t, Int(int64(i))), e))
	}
}
