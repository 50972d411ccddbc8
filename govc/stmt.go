package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// jump is a stack of break/continue targets.
type jump struct {
	label  string
	isLoop bool
	brk    func(*State)
	cont   func(*State)
	up     *jump
}

type retFn func(*State, []Val)
type nextFn func(*State)

const maxPaths = 4000
const maxSteps = 400000

func (fv *FV) tick(pos token.Pos) {
	fv.curPos = pos
	fv.steps++
	if fv.steps > maxSteps {
		fv.unsup(pos, "path limit exceeded")
	}
}

func (fv *FV) block(fr *Frame, list []ast.Stmt, st *State, j *jump, ret retFn, next nextFn) {
	if st.dead {
		return
	}
	if len(list) == 0 {
		next(st)
		return
	}
	fv.stmt(fr, list[0], st, j, ret, "", func(s *State) { fv.block(fr, list[1:], s, j, ret, next) })
}

func (fv *FV) stmt(fr *Frame, s ast.Stmt, st *State, j *jump, ret retFn, label string, next nextFn) {
	if st.dead {
		return
	}
	fv.tick(s.Pos())
	switch s := s.(type) {
	case *ast.EmptyStmt:
		next(st)
	case *ast.BlockStmt:
		fv.block(fr, s.List, st, j, ret, next)
	case *ast.ExprStmt:
		fv.eval(fr, s.X, st, func(st *State, _ Val) { next(st) })
	case *ast.AssignStmt:
		fv.assign(fr, s, st, next)
	case *ast.IncDecStmt:
		fv.place(fr, s.X, st, func(st *State, p *Place) {
			v := fv.load(st, p)
			one := Int(1)
			t := Add(v.T, one)
			if s.Tok == token.DEC {
				t = Sub(v.T, one)
			}
			fv.store(fr, st, p, Val{T: t, Typ: v.Typ}, s.Pos())
			next(st)
		})
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			next(st)
			return
		}
		var specs []*ast.ValueSpec
		for _, sp := range gd.Specs {
			specs = append(specs, sp.(*ast.ValueSpec))
		}
		fv.valueSpecs(fr, specs, st, next)
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			var rs []Val
			for _, r := range fv.fnFrame(fr).results {
				rs = append(rs, fv.readVar(fr, st, r, s.Pos()))
			}
			ret(st, rs)
			return
		}
		if len(s.Results) == 1 && len(fv.fnFrame(fr).results) > 1 {
			fv.eval(fr, s.Results[0], st, func(st *State, v Val) {
				rs := make([]Val, len(v.Tup))
				for i, x := range v.Tup {
					rs[i] = fv.convert(st, x, fr.typ(fv.fnFrame(fr).results[i].Type()))
				}
				ret(st, rs)
			})
			return
		}
		fv.evalList(fr, s.Results, st, func(st *State, vs []Val) {
			rs := make([]Val, len(vs))
			for i, x := range vs {
				rs[i] = fv.convert(st, x, fr.typ(fv.fnFrame(fr).results[i].Type()))
			}
			ret(st, rs)
		})
	case *ast.IfStmt:
		run := func(st *State) {
			fv.cond(fr, s.Cond, st, func(st *State) {
				fv.block(fr, s.Body.List, st, j, ret, next)
			}, func(st *State) {
				if s.Else == nil {
					next(st)
				} else {
					fv.stmt(fr, s.Else, st, j, ret, "", next)
				}
			})
		}
		if s.Init != nil {
			fv.stmt(fr, s.Init, st, j, ret, "", run)
		} else {
			run(st)
		}
	case *ast.LabeledStmt:
		fv.stmt(fr, s.Stmt, st, &jump{label: s.Label.Name, brk: next, up: j}, ret, s.Label.Name, next)
	case *ast.BranchStmt:
		switch s.Tok {
		case token.BREAK, token.CONTINUE:
			for t := j; t != nil; t = t.up {
				if s.Label != nil && t.label != s.Label.Name {
					continue
				}
				if s.Tok == token.BREAK {
					if s.Label == nil && t.brk == nil {
						continue
					}
					if s.Label == nil && t.label != "" && !t.isLoop && t.cont == nil {
						// a plain labelled statement is not the target of an unlabelled break
						continue
					}
					t.brk(st)
					return
				}
				if t.isLoop {
					t.cont(st)
					return
				}
			}
		}
		fv.unsup(s.Pos(), "branch statement %s", s.Tok)
	case *ast.SwitchStmt:
		fv.switchStmt(fr, s, st, j, ret, next)
	case *ast.TypeSwitchStmt:
		fv.typeSwitch(fr, s, st, j, ret, next)
	case *ast.ForStmt:
		fv.forStmt(fr, s, st, j, ret, label, next)
	case *ast.RangeStmt:
		fv.rangeStmt(fr, s, st, j, ret, label, next)
	case *ast.DeferStmt:
		ff := fv.fnFrame(fr)
		fv.deferCall(fr, ff, s.Call, st, next)
	default:
		fv.unsup(s.Pos(), "statement %T", s)
	}
}

func (fv *FV) fnFrame(fr *Frame) *Frame {
	for f := fr; f != nil; f = f.up {
		if f.results != nil || f.name != "" {
			return f
		}
	}
	return fr
}

func (fv *FV) deferCall(fr, ff *Frame, call *ast.CallExpr, st *State, next nextFn) {
	if lit, ok := ast.Unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 {
		st.defers[ff.id] = append(st.defers[ff.id], func(st *State, k func(*State)) {
			nf := fv.newFrame(fr, fr.pkg, "defer", fr.depth+1)
			nf.results = []*types.Var{}
			fv.block(nf, lit.Body.List, st, nil, func(st *State, _ []Val) { k(st) }, k)
		})
		next(st)
		return
	}
	fv.unsup(call.Pos(), "defer of a call")
}

func (fv *FV) valueSpecs(fr *Frame, specs []*ast.ValueSpec, st *State, next nextFn) {
	if len(specs) == 0 {
		next(st)
		return
	}
	s := specs[0]
	rest := func(st *State) { fv.valueSpecs(fr, specs[1:], st, next) }
	if len(s.Values) == 0 {
		for _, n := range s.Names {
			o := fr.info.Defs[n]
			if o == nil {
				continue
			}
			t := fr.typ(o.Type())
			fv.declare(fr, st, o, fv.zeroVal(st, t))
		}
		rest(st)
		return
	}
	fv.rhs(fr, s.Values, len(s.Names), st, func(st *State, vs []Val) {
		for i, n := range s.Names {
			if o := fr.info.Defs[n]; o != nil {
				fv.declare(fr, st, o, vs[i])
			}
		}
		rest(st)
	})
}

func (fv *FV) zeroVal(st *State, t types.Type) Val {
	v := Val{T: fv.v.g.Zero(t), Typ: t}
	return v
}

// rhs evaluates the right-hand side of an assignment to n variables.
func (fv *FV) rhs(fr *Frame, xs []ast.Expr, n int, st *State, k func(*State, []Val)) {
	if len(xs) == n {
		fv.evalList(fr, xs, st, k)
		return
	}
	// multi-value forms
	switch x := ast.Unparen(xs[0]).(type) {
	case *ast.TypeAssertExpr:
		fv.eval(fr, x.X, st, func(st *State, v Val) {
			t := fr.typ(fr.info.TypeOf(x.Type))
			is := fv.v.g.IsType(v.T, t)
			fv.fork(st, is, func(st *State) {
				fv.assumeImpl(st, v.T, t)
				k(st, []Val{{T: fv.v.g.Unbox(t, v.T), Typ: t}, {T: True, Typ: tBool}})
			}, func(st *State) {
				k(st, []Val{fv.zeroVal(st, t), {T: False, Typ: tBool}})
			})
		})
		return
	case *ast.IndexExpr:
		if _, ok := fr.info.TypeOf(x.X).Underlying().(*types.Map); ok {
			fv.eval(fr, x.X, st, func(st *State, m Val) {
				fv.eval(fr, x.Index, st, func(st *State, key Val) {
					mt := m.Typ.Underlying().(*types.Map)
					key = fv.convert(st, key, fr.typ(mt.Key()))
					el := fr.typ(mt.Elem())
					r := Val{T: fv.v.g.MapVal(m.T, key.T), Typ: el}
					fv.typeAssume(st, r.T, el)
					k(st, []Val{r, {T: fv.v.g.MapDom(m.T, key.T), Typ: tBool}})
				})
			})
			return
		}
	}
	fv.eval(fr, xs[0], st, func(st *State, v Val) {
		if len(v.Tup) != n {
			fv.unsup(xs[0].Pos(), "multi-value expression")
		}
		k(st, v.Tup)
	})
}

// assumeImpl: after a successful assertion to an interface, nothing more is known than the method set.
func (fv *FV) assumeImpl(st *State, t *Term, typ types.Type) {
	if isIface(typ) {
		fv.typeAssume(st, t, typ)
	}
}

func (fv *FV) assign(fr *Frame, s *ast.AssignStmt, st *State, next nextFn) {
	if s.Tok == token.DEFINE || s.Tok == token.ASSIGN {
		// places first (index operands), then values
		fv.places(fr, s.Lhs, s.Tok == token.DEFINE, st, func(st *State, ps []*Place) {
			fv.rhs(fr, s.Rhs, len(s.Lhs), st, func(st *State, vs []Val) {
				for i, p := range ps {
					if p == nil {
						continue
					}
					fv.store(fr, st, p, vs[i], s.Pos())
				}
				next(st)
			})
		})
		return
	}
	op := assignOps[s.Tok]
	fv.place(fr, s.Lhs[0], st, func(st *State, p *Place) {
		fv.eval(fr, s.Rhs[0], st, func(st *State, r Val) {
			l := fv.load(st, p)
			fv.store(fr, st, p, fv.binop(fr, st, op, l, r, l.Typ, s.Pos()), s.Pos())
			next(st)
		})
	})
}

var assignOps = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// Place is an assignable location.
type Place struct {
	kind  string // var heap field index mapidx define blank
	fr    *Frame
	obj   types.Object
	ref   *Term
	base  *Place
	idx   *Term
	field string
	typ   types.Type
	pos   token.Pos
}

func (fv *FV) places(fr *Frame, xs []ast.Expr, define bool, st *State, k func(*State, []*Place)) {
	if len(xs) == 0 {
		k(st, nil)
		return
	}
	cont := func(st *State, p *Place) {
		fv.places(fr, xs[1:], define, st, func(st *State, ps []*Place) { k(st, append([]*Place{p}, ps...)) })
	}
	if id, ok := xs[0].(*ast.Ident); ok {
		if id.Name == "_" {
			cont(st, &Place{kind: "blank"})
			return
		}
		if define {
			if o := fr.info.Defs[id]; o != nil {
				cont(st, &Place{kind: "define", obj: o, fr: fr, typ: fr.typ(o.Type()), pos: id.Pos()})
				return
			}
		}
	}
	fv.place(fr, xs[0], st, cont)
}

func (fv *FV) place(fr *Frame, x ast.Expr, st *State, k func(*State, *Place)) {
	x = ast.Unparen(x)
	typ := fr.typ(fr.info.TypeOf(x))
	switch x := x.(type) {
	case *ast.Ident:
		if x.Name == "_" {
			k(st, &Place{kind: "blank"})
			return
		}
		o := fr.info.ObjectOf(x)
		if fr.isBoxed(o) {
			key, ok := fv.key(fr, st, o)
			if !ok {
				fv.unsup(x.Pos(), "boxed variable %s", x.Name)
			}
			k(st, &Place{kind: "heap", ref: st.vars[key].T, typ: typ, pos: x.Pos()})
			return
		}
		if vr, ok := o.(*types.Var); ok && vr.Pkg() != nil && vr.Parent() == vr.Pkg().Scope() {
			k(st, &Place{kind: "global", obj: o, typ: typ, pos: x.Pos()})
			return
		}
		k(st, &Place{kind: "var", fr: fr, obj: o, typ: typ, pos: x.Pos()})
	case *ast.StarExpr:
		fv.eval(fr, x.X, st, func(st *State, p Val) {
			fv.ptrPlace(st, p, typ, x.Pos(), k)
		})
	case *ast.SelectorExpr:
		sel, ok := fr.info.Selections[x]
		if !ok { // package variable
			k(st, &Place{kind: "global", obj: fr.info.Uses[x.Sel], typ: typ, pos: x.Pos()})
			return
		}
		bt := fr.typ(fr.info.TypeOf(x.X))
		path := sel.Index()
		step := func(st *State, b *Place) {
			cur := b
			ct := b.typ
			for i, ix := range path {
				if el, isP := derefType(ct); isP {
					pv := fv.load(st, cur)
					var np *Place
					fv.ptrPlace(st, pv, el, x.Pos(), func(_ *State, p *Place) { np = p })
					if np == nil {
						return
					}
					cur, ct = np, el
				}
				su := ct.Underlying().(*types.Struct)
				ft := fr.typ(su.Field(ix).Type())
				cur = &Place{kind: "field", base: cur, field: fieldName(su, ix), typ: ft, pos: x.Pos()}
				ct = ft
				_ = i
			}
			k(st, cur)
		}
		if isPtr(bt) {
			fv.eval(fr, x.X, st, func(st *State, p Val) {
				el, _ := derefType(bt)
				fv.ptrPlace(st, p, el, x.Pos(), step)
			})
			return
		}
		fv.place(fr, x.X, st, step)
	case *ast.IndexExpr:
		bt := fr.typ(fr.info.TypeOf(x.X))
		if el, isP := derefType(bt); isP {
			bt = el
		}
		inner := func(st *State, b *Place) {
			fv.eval(fr, x.Index, st, func(st *State, i Val) {
				switch u := bt.Underlying().(type) {
				case *types.Map:
					i = fv.convert(st, i, fr.typ(u.Key()))
					k(st, &Place{kind: "mapidx", base: b, idx: i.T, typ: typ, pos: x.Pos()})
				default:
					k(st, &Place{kind: "index", base: b, idx: i.T, typ: typ, pos: x.Pos()})
				}
			})
		}
		switch ast.Unparen(x.X).(type) {
		case *ast.CallExpr, *ast.TypeAssertExpr:
			fv.eval(fr, x.X, st, func(st *State, b Val) {
				inner(st, &Place{kind: "temp", typ: bt, ref: b.T, pos: x.Pos()})
			})
			return
		}
		fv.place(fr, x.X, st, inner)
	case *ast.CallExpr, *ast.TypeAssertExpr, *ast.CompositeLit:
		fv.eval(fr, x.(ast.Expr), st, func(st *State, b Val) {
			k(st, &Place{kind: "temp", typ: typ, ref: b.T, pos: x.Pos()})
		})
	default:
		fv.unsup(x.Pos(), "assignment to %T", x)
	}
}

func (fv *FV) ptrPlace(st *State, p Val, el types.Type, pos token.Pos, k func(*State, *Place)) {
	if strings.HasPrefix(p.T.Sort, "Ref.") {
		nn := Not(Eq(p.T, fv.v.g.ZeroSort(p.T.Sort)))
		if b, ok := st.known(nn); !ok || !b {
			fv.safe(st, "nil dereference", pos, nn)
			st.assume(nn)
		}
		if st.dead {
			return
		}
		k(st, &Place{kind: "immut", ref: p.T, typ: el, pos: pos})
		return
	}
	fv.nonNil(st, p.T, pos)
	if st.dead {
		return
	}
	k(st, &Place{kind: "heap", ref: p.T, typ: el, pos: pos})
}

func (fv *FV) nonNil(st *State, ref *Term, pos token.Pos) {
	c := Lt(Int(0), ref)
	if ref.Sort != "Int" {
		return
	}
	if b, ok := st.known(c); ok && b {
		return
	}
	fv.safe(st, "nil dereference", pos, c)
	st.assume(c)
}

// safe emits a panic-freedom obligation if the contract asks for it.
func (fv *FV) safe(st *State, what string, pos token.Pos, goal *Term) {
	if fv.c != nil && len(fv.c.Safe) > 0 {
		fv.emit(st, "safe", "no panic: "+what, fv.c.Safe, pos, Imp(fv.safeIf, goal), what)
	}
}

// load reads a place.
func (fv *FV) load(st *State, p *Place) Val {
	g := fv.v.g
	switch p.kind {
	case "var":
		k, ok := fv.key(p.fr, st, p.obj)
		if !ok {
			fv.unsup(p.pos, "variable %s", p.obj.Name())
		}
		return fv.cur(st, st.vars[k])
	case "heap":
		return Val{T: g.Select(st.Heap(fv.v, p.typ), p.ref), Typ: p.typ}
	case "immut":
		return Val{T: g.App("deref$"+p.ref.Sort, p.ref), Typ: p.typ}
	case "temp":
		return Val{T: p.ref, Typ: p.typ}
	case "global":
		return Val{T: fv.v.globalTerm(p.obj.(*types.Var)), Typ: p.typ}
	case "field":
		b := fv.load(st, p.base)
		return Val{T: g.Sel(b.T, p.field), Typ: p.typ}
	case "index":
		b := fv.load(st, p.base)
		if b.T.Sort == "Str" {
			fv.bounds(st, p.idx, g.App("slen", b.T), p.pos)
			return Val{T: g.App("sat", b.T, p.idx), Typ: p.typ}
		}
		fv.bounds(st, p.idx, g.SeqLen(b.T), p.pos)
		return Val{T: g.SeqAt(b.T, p.idx), Typ: p.typ}
	case "mapidx":
		b := fv.load(st, p.base)
		return Val{T: g.MapVal(b.T, p.idx), Typ: p.typ}
	}
	fv.unsup(p.pos, "load of %s", p.kind)
	return Val{}
}

func (fv *FV) bounds(st *State, i, n *Term, pos token.Pos) {
	c := And(Le(Int(0), i), Lt(i, n))
	if b, ok := st.known(c); ok && b {
		return
	}
	fv.safe(st, "index out of range", pos, c)
	st.assume(c)
}

// storage finds the cell behind the value held in a place.
func (fv *FV) storage(st *State, p *Place) (Val, bool) {
	if p.kind == "var" {
		if k, ok := fv.key(p.fr, st, p.obj); ok {
			v := st.vars[k]
			if v.Cell == 0 {
				switch v.Typ.Underlying().(type) {
				case *types.Map, *types.Slice:
					v.Cell = fv.newCell(st, v.T, false)
					st.vars[k] = v
				default:
					return v, false
				}
			}
			return v, true
		}
	}
	return Val{}, false
}

// store writes a place.
func (fv *FV) store(fr *Frame, st *State, p *Place, v Val, pos token.Pos) {
	g := fv.v.g
	switch p.kind {
	case "blank":
		return
	case "define":
		fv.declare(fr, st, p.obj, v)
		return
	}
	v = fv.convert(st, v, p.typ)
	switch p.kind {
	case "var":
		k, ok := fv.key(p.fr, st, p.obj)
		if !ok {
			fv.unsup(p.pos, "variable %s", p.obj.Name())
		}
		if _, isArr := p.typ.Underlying().(*types.Array); isArr {
			if c := st.vars[k].Cell; c != 0 {
				st.cells[c].T = v.T
				return
			}
		}
		v.Typ = p.typ
		st.vars[k] = v
	case "heap":
		fv.leak(st, v)
		fv.heapStore(st, p.typ, p.ref, v.T)
	case "immut":
		fv.emit(st, "frame", "writes an immutable object", nil, pos, False, "write to "+p.typ.String())
		fv.unsup(pos, "write to an object of immutable type %s", p.typ)
	case "field":
		fv.leak(st, v)
		b := fv.load(st, p.base)
		si := g.sorts[b.T.Sort]
		args := make([]*Term, len(si.Fields))
		for i, f := range si.Fields {
			if f == p.field {
				args[i] = v.T
			} else {
				args[i] = g.Sel(b.T, f)
			}
		}
		fv.storeRaw(fr, st, p.base, Val{T: g.App("mk."+b.T.Sort, args...), Typ: b.Typ}, pos)
	case "index", "mapidx":
		fv.leak(st, v)
		b := fv.load(st, p.base)
		if p.kind == "index" {
			fv.bounds(st, p.idx, g.SeqLen(b.T), pos)
		}
		if _, isArr := p.base.typ.Underlying().(*types.Array); isArr {
			nt := g.SeqUpd(b.T, p.idx, v.T)
			fv.storeRaw(fr, st, p.base, Val{T: nt, Typ: b.Typ}, pos)
			return
		}
		sv, ok := fv.storage(st, p.base)
		if !ok {
			switch p.base.kind {
			case "heap", "field":
				// storage reached through an object: updated in place (assumed not to be shared with other objects)
				fv.assumed["maps and slices stored in distinct objects are not shared"] = true
				var nt *Term
				if p.kind == "index" {
					nt = g.SeqUpd(b.T, p.idx, v.T)
				} else {
					nt = g.MapUpd(b.T, p.idx, v.T)
				}
				if fv.c.Opts["noframe"] != "" {
					fv.assumed["maps in the fields of local variables are not shared"] = true
				} else if !fv.rootedInHeap(p.base) {
					fv.emit(st, "frame", "writes storage it does not own", nil, pos, False, "element write through a field")
				}
				fv.storeRaw(fr, st, p.base, Val{T: nt, Typ: b.Typ}, pos)
				return
			}
			fv.unsup(pos, "element write through %s", p.base.kind)
		}
		c := st.cells[sv.Cell]
		if c.Leak && c.Own {
			fv.unsup(pos, "element write after the storage escaped")
		}
		if !c.Own {
			fv.emit(st, "frame", "writes storage it does not own", nil, pos, False, "element write to storage owned by the caller")
		} else {
			fv.emit(st, "frame", "writes only storage it owns", nil, pos, True, "element write")
		}
		idx := p.idx
		if sv.Off != nil {
			idx = Add(sv.Off, idx)
		}
		if p.kind == "index" {
			c.T = g.SeqUpd(c.T, idx, v.T)
		} else {
			c.T = g.MapUpd(c.T, idx, v.T)
		}
	case "global":
		fv.emit(st, "frame", "writes a package variable", nil, pos, False, "assignment to "+p.obj.Name())
		fv.unsup(pos, "assignment to package variable %s", p.obj.Name())
	default:
		fv.unsup(pos, "store to %s", p.kind)
	}
}

func (fv *FV) rootedInHeap(p *Place) bool {
	for ; p != nil; p = p.base {
		if p.kind == "heap" {
			return true
		}
	}
	return false
}

func (fv *FV) storeRaw(fr *Frame, st *State, p *Place, v Val, pos token.Pos) {
	fv.store(fr, st, p, v, pos)
}

// fork splits a path on a condition.
func (fv *FV) fork(st *State, c *Term, yes, no nextFn) {
	if st.dead {
		return
	}
	if b, ok := st.known(c); ok {
		if b {
			yes(st)
		} else {
			no(st)
		}
		return
	}
	fv.paths++
	if fv.paths > maxPaths*10 {
		fv.unsup(token.NoPos, "too many paths")
	}
	a := st.clone()
	a.assume(c)
	if !a.dead {
		yes(a)
	}
	st.assume(Not(c))
	if !st.dead {
		no(st)
	}
}

// cond evaluates a condition with short-circuit forks.
func (fv *FV) cond(fr *Frame, x ast.Expr, st *State, yes, no nextFn) {
	x = ast.Unparen(x)
	switch e := x.(type) {
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			fv.cond(fr, e.X, st, func(st *State) { fv.cond(fr, e.Y, st, yes, no) }, no)
			return
		case token.LOR:
			fv.cond(fr, e.X, st, yes, func(st *State) { fv.cond(fr, e.Y, st, yes, no) })
			return
		}
	case *ast.UnaryExpr:
		if e.Op == token.NOT {
			fv.cond(fr, e.X, st, no, yes)
			return
		}
	}
	fv.eval(fr, x, st, func(st *State, v Val) { fv.fork(st, v.T, yes, no) })
}

func (fv *FV) switchStmt(fr *Frame, s *ast.SwitchStmt, st *State, j *jump, ret retFn, next nextFn) {
	nj := &jump{brk: next, up: j}
	run := func(st *State, tag *Val) {
		var clauses []*ast.CaseClause
		for _, c := range s.Body.List {
			clauses = append(clauses, c.(*ast.CaseClause))
		}
		var exec func(st *State, i int)
		exec = func(st *State, i int) {
			body := clauses[i].Body
			if n := len(body); n > 0 {
				if b, ok := body[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
					fv.block(fr, body[:n-1], st, nj, ret, func(st *State) { exec(st, i+1) })
					return
				}
			}
			fv.block(fr, body, st, nj, ret, next)
		}
		var def = -1
		var try func(st *State, i, e int)
		try = func(st *State, i, e int) {
			for i < len(clauses) && (clauses[i].List == nil || e >= len(clauses[i].List)) {
				if clauses[i].List == nil {
					def = i
				}
				i, e = i+1, 0
			}
			if i == len(clauses) {
				if def >= 0 {
					exec(st, def)
				} else {
					next(st)
				}
				return
			}
			x := clauses[i].List[e]
			yes := func(st *State) { exec(st, i) }
			no := func(st *State) { try(st, i, e+1) }
			if tag == nil {
				fv.cond(fr, x, st, yes, no)
				return
			}
			fv.eval(fr, x, st, func(st *State, v Val) {
				fv.fork(st, fv.equal(st, *tag, v, x.Pos()), yes, no)
			})
		}
		for i, c := range clauses {
			if c.List == nil {
				def = i
			}
		}
		try(st, 0, 0)
	}
	start := func(st *State) {
		if s.Tag == nil {
			run(st, nil)
			return
		}
		fv.eval(fr, s.Tag, st, func(st *State, v Val) { run(st, &v) })
	}
	if s.Init != nil {
		fv.stmt(fr, s.Init, st, j, ret, "", start)
		return
	}
	start(st)
}

func (fv *FV) typeSwitch(fr *Frame, s *ast.TypeSwitchStmt, st *State, j *jump, ret retFn, next nextFn) {
	nj := &jump{brk: next, up: j}
	var x ast.Expr
	switch a := s.Assign.(type) {
	case *ast.AssignStmt:
		x = a.Rhs[0].(*ast.TypeAssertExpr).X
	case *ast.ExprStmt:
		x = a.X.(*ast.TypeAssertExpr).X
	}
	run := func(st *State) {
		fv.eval(fr, x, st, func(st *State, v Val) {
			var clauses []*ast.CaseClause
			for _, c := range s.Body.List {
				clauses = append(clauses, c.(*ast.CaseClause))
			}
			body := func(st *State, c *ast.CaseClause, t types.Type) {
				if o := fr.info.Implicits[c]; o != nil {
					if t != nil && len(c.List) == 1 {
						fv.declare(fr, st, o, Val{T: fv.v.g.Unbox(t, v.T), Typ: t, Cell: 0})
					} else {
						fv.declare(fr, st, o, v)
					}
				}
				fv.block(fr, c.Body, st, nj, ret, next)
			}
			var try func(st *State, i, e int)
			try = func(st *State, i, e int) {
				for i < len(clauses) && (clauses[i].List == nil || e >= len(clauses[i].List)) {
					i, e = i+1, 0
				}
				if i == len(clauses) {
					for _, c := range clauses {
						if c.List == nil {
							body(st, c, nil)
							return
						}
					}
					next(st)
					return
				}
				tx := clauses[i].List[e]
				tv := fr.info.Types[tx]
				var is *Term
				var t types.Type
				if tv.IsNil() {
					is = Eq(fv.v.g.App("typ", v.T), Int(0))
				} else {
					t = fr.typ(tv.Type)
					is = fv.v.g.IsType(v.T, t)
				}
				fv.fork(st, is, func(st *State) {
					if t != nil {
						fv.assumeImpl(st, v.T, t)
					}
					body(st, clauses[i], t)
				}, func(st *State) { try(st, i, e+1) })
			}
			try(st, 0, 0)
		})
	}
	if s.Init != nil {
		fv.stmt(fr, s.Init, st, j, ret, "", run)
		return
	}
	run(st)
}
