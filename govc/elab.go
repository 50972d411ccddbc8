package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strconv"
	"strings"
)

// STm is a specification term with its Go type.
type STm struct {
	T   *Term
	Typ types.Type
}

// Env is the environment in which specification expressions are evaluated.
type Env struct {
	v       *Verifier
	pkg     *types.Package
	vars    map[string]STm
	oldVars map[string]STm
	st      *State
	old     *State
	lets    []SParam2
	fuelOf  map[string]string // rec function -> symbol suffix to use
	heaps   map[string]*Term  // values behind mutable pointers, for functions and lemmas that read them
}

// heapFor gives the values behind pointers to t.
func (e *Env) heapFor(t types.Type) *Term {
	if h, ok := e.heaps[heapKey(e.v, t)]; ok {
		return h
	}
	if e.st == nil {
		panic(elabErr(fmt.Sprintf("dereference of *%s outside of a state", t)))
	}
	return e.st.Heap(e.v, t)
}

// heapVars binds a variable for each of the types read.
func (v *Verifier) heapVars(pkg *types.Package, reads []*SType, fresh bool) (map[string]*Term, []*Term) {
	m := map[string]*Term{}
	var bs []*Term
	for _, r := range reads {
		t := v.GoType(pkg, r)
		srt := heapSort(v, t)
		var b *Term
		if fresh {
			b = v.g.Fresh("l$heap", srt)
		} else {
			b = bv("heap", srt)
		}
		m[heapKey(v, t)] = b
		bs = append(bs, b)
	}
	return m, bs
}

type elabErr string

func (e *Env) fail(x *SExpr, f string, a ...any) {
	panic(elabErr(fmt.Sprintf("%s:%d: %s", x.File, x.Line, fmt.Sprintf(f, a...))))
}

func (e *Env) with(name string, t STm) *Env {
	n := *e
	n.vars = map[string]STm{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	n.vars[name] = t
	return &n
}

var (
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
	tNil    = types.Typ[types.UntypedNil]
	tAny    = types.NewInterfaceType(nil, nil)
)

// GoType resolves a specification type.
func (v *Verifier) GoType(pkg *types.Package, t *SType) types.Type {
	switch t.Kind {
	case "ptr":
		return types.NewPointer(v.GoType(pkg, t.Elem))
	case "slice":
		return v.canon(types.NewSlice(v.GoType(pkg, t.Elem)))
	case "array":
		return types.NewArray(v.GoType(pkg, t.Elem), int64(t.N))
	case "map":
		return v.canon(types.NewMap(v.GoType(pkg, t.Key), v.GoType(pkg, t.Elem)))
	case "func":
		var ps []*types.Var
		for _, a := range t.Args {
			ps = append(ps, types.NewVar(0, nil, "", v.GoType(pkg, a)))
		}
		var rs []*types.Var
		if t.Elem != nil {
			rs = append(rs, types.NewVar(0, nil, "", v.GoType(pkg, t.Elem)))
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), false)
	}
	if t.Pkg == "" {
		switch t.Name {
		case "any":
			return tAny
		case "idx":
			return tInt
		}
		if o := types.Universe.Lookup(t.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if gt, ok := v.ghostTypes[t.Name]; ok {
			return gt
		}
		if pkg != nil {
			if tn, ok := pkg.Scope().Lookup(t.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if t.Name == "set" {
			panic(elabErr("use frozen.Set[K]"))
		}
		panic(elabErr("unknown type " + t.Name))
	}
	p := v.pkgByName(pkg, t.Pkg)
	if p == nil {
		panic(elabErr("unknown package " + t.Pkg))
	}
	tn, ok := p.Scope().Lookup(t.Name).(*types.TypeName)
	if !ok {
		panic(elabErr("unknown type " + t.String()))
	}
	if len(t.Args) > 0 {
		var args []types.Type
		for _, a := range t.Args {
			args = append(args, v.GoType(pkg, a))
		}
		in, err := types.Instantiate(nil, tn.Type(), args, false)
		if err != nil {
			panic(elabErr(err.Error()))
		}
		return in
	}
	return tn.Type()
}

func (v *Verifier) canon(t types.Type) types.Type { return t }

func (v *Verifier) pkgByName(from *types.Package, name string) *types.Package {
	if p, ok := v.prog.Short[name]; ok {
		return p.Types
	}
	seen := map[*types.Package]bool{}
	var find func(p *types.Package, d int) *types.Package
	find = func(p *types.Package, d int) *types.Package {
		if p == nil || seen[p] || d > 3 {
			return nil
		}
		seen[p] = true
		for _, i := range p.Imports() {
			if i.Name() == name {
				return i
			}
		}
		for _, i := range p.Imports() {
			if r := find(i, d+1); r != nil {
				return r
			}
		}
		return nil
	}
	if r := find(from, 0); r != nil {
		return r
	}
	for _, p := range v.prog.Std {
		if p.Name() == name {
			return p
		}
	}
	for _, p := range v.prog.Pkgs {
		if r := find(p.Types, 0); r != nil {
			return r
		}
	}
	return nil
}

func isIface(t types.Type) bool { return types.IsInterface(t) }

// coerce adapts a specification term to a type.
func (e *Env) coerce(x STm, t types.Type) STm {
	g := e.v.g
	if t == nil {
		return x
	}
	if b, ok := x.Typ.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return STm{g.Zero(t), t}
	}
	if isIface(t) && !isIface(x.Typ) {
		return STm{g.Box(x.Typ, x.T), t}
	}
	if g.Sort(t) != x.T.Sort {
		panic(elabErr(fmt.Sprintf("type mismatch: have %s (%s), want %s", x.Typ, x.T.Sort, t)))
	}
	return STm{x.T, t}
}

func untyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func (e *Env) unify(a, b STm) (STm, STm) {
	isNil := func(x STm) bool {
		bb, ok := x.Typ.(*types.Basic)
		return ok && bb.Kind() == types.UntypedNil
	}
	switch {
	case isNil(a) && isNil(b):
		return a, b
	case isNil(a):
		return e.coerce(a, b.Typ), b
	case isNil(b):
		return a, e.coerce(b, a.Typ)
	case isIface(a.Typ) && !isIface(b.Typ):
		return a, e.coerce(b, a.Typ)
	case isIface(b.Typ) && !isIface(a.Typ):
		return e.coerce(a, b.Typ), b
	}
	if a.T.Sort != b.T.Sort {
		panic(elabErr(fmt.Sprintf("comparison of %s (%s) and %s (%s)", a.Typ, a.T.Sort, b.Typ, b.T.Sort)))
	}
	return a, b
}

func (e *Env) Bool(x *SExpr) *Term {
	r := e.Elab(x)
	if r.T.Sort != "Bool" {
		e.fail(x, "boolean expected, have %s", r.Typ)
	}
	return r.T
}

func (e *Env) Elab(x *SExpr) (res STm) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(elabErr); ok && !strings.Contains(string(s), ".spec:") {
				panic(elabErr(fmt.Sprintf("%s:%d: %s", x.File, x.Line, string(s))))
			}
			panic(r)
		}
	}()
	return e.elab(x)
}

func derefType(t types.Type) (types.Type, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return t, false
}

// deref reads *p in the environment's state.
func (e *Env) deref(p STm) STm {
	el, ok := derefType(p.Typ)
	if !ok {
		panic(elabErr(fmt.Sprintf("%s is not a pointer", p.Typ)))
	}
	g := e.v.g
	if strings.HasPrefix(p.T.Sort, "Ref.") {
		return STm{g.App("deref$"+p.T.Sort, p.T), el}
	}
	return STm{g.Select(e.heapFor(el), p.T), el}
}

// ghostRef gives the address of a ghost variable: the first addresses are theirs.
func (v *Verifier) ghostRef(name string) (STm, bool) {
	for i, d := range v.spec.Ghosts {
		if d.Name == name {
			return STm{Int(int64(i + 1)), types.NewPointer(v.GoType(v.typesPkg(d.Pkg), d.Type))}, true
		}
	}
	return STm{}, false
}

func (e *Env) field(b STm, name string) (STm, bool) {
	obj, path, _ := types.LookupFieldOrMethod(b.Typ, true, e.fieldPkg(b.Typ), name)
	if _, ok := obj.(*types.Var); !ok {
		return STm{}, false
	}
	for _, i := range path {
		if _, ok := derefType(b.Typ); ok {
			b = e.deref(b)
		}
		st := b.Typ.Underlying().(*types.Struct)
		b = STm{e.v.g.Sel(b.T, st.Field(i).Name()), st.Field(i).Type()}
	}
	return b, true
}

func (e *Env) fieldPkg(t types.Type) *types.Package {
	t, _ = derefType(t)
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	return e.pkg
}

func (e *Env) constant(o types.Object) (STm, bool) {
	c, ok := o.(*types.Const)
	if !ok {
		return STm{}, false
	}
	return STm{e.v.constTerm(c.Val(), c.Type()), types.Default(c.Type())}, true
}

func (v *Verifier) constTerm(c constant.Value, t types.Type) *Term {
	switch c.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(c))
	case constant.String:
		return v.g.Str(constant.StringVal(c))
	case constant.Int:
		return BigInt(c.ExactString())
	}
	return nil
}

func (e *Env) lookup(x *SExpr, name string) STm {
	if r, ok := e.vars[name]; ok {
		return r
	}
	for i := len(e.lets) - 1; i >= 0; i-- {
		if e.lets[i].Name == name {
			return e.Elab(e.lets[i].E)
		}
	}
	switch name {
	case "true":
		return STm{True, tBool}
	case "false":
		return STm{False, tBool}
	case "nil":
		return STm{e.v.g.NilIface(), tNil}
	}
	if tr, ok := e.v.traces[name]; ok && e.st != nil {
		return STm{e.st.Trace(e.v, name), types.NewSlice(tr.typ)}
	}
	if p, ok := e.v.ghostRef(name); ok {
		return e.deref(p)
	}
	if f, ok := e.v.spec.Fns[name]; ok && len(f.Params) == 0 {
		return e.callFn(x, f, nil)
	}
	if e.pkg != nil {
		if o := e.pkg.Scope().Lookup(name); o != nil {
			if c, ok := e.constant(o); ok {
				return c
			}
			if vr, ok := o.(*types.Var); ok {
				return STm{e.v.globalTerm(vr), vr.Type()}
			}
		}
	}
	e.fail(x, "unknown name %s", name)
	return STm{}
}

func (e *Env) typeOfIdent(x *SExpr) types.Type {
	switch x.Kind {
	case "ident":
		if _, ok := e.vars[x.Name]; ok {
			return nil
		}
		if gt, ok := e.v.ghostTypes[x.Name]; ok {
			return gt
		}
		if o := types.Universe.Lookup(x.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if e.pkg != nil {
			if tn, ok := e.pkg.Scope().Lookup(x.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case "field":
		if x.Args[0].Kind == "ident" {
			if _, ok := e.vars[x.Args[0].Name]; ok {
				return nil
			}
			if p := e.v.pkgByName(e.pkg, x.Args[0].Name); p != nil {
				if tn, ok := p.Scope().Lookup(x.Name).(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	return nil
}

func (e *Env) elab(x *SExpr) STm {
	g := e.v.g
	switch x.Kind {
	case "int":
		return STm{BigInt(x.Name), types.Typ[types.UntypedInt]}
	case "str":
		return STm{g.Str(x.Name), types.Typ[types.UntypedString]}
	case "ident":
		return e.lookup(x, x.Name)
	case "un":
		switch x.Name {
		case "!":
			return STm{Not(e.Bool(x.Args[0])), tBool}
		case "-":
			return STm{Sub(Int(0), e.Elab(x.Args[0]).T), tInt}
		case "*":
			return e.deref(e.Elab(x.Args[0]))
		case "&":
			b := e.Elab(x.Args[0])
			pt := types.NewPointer(b.Typ)
			s := g.Sort(pt)
			if !strings.HasPrefix(s, "Ref.") {
				e.fail(x, "& of a mutable type %s", b.Typ)
			}
			return STm{g.App("mkref$"+s, b.T), pt}
		}
	case "bin":
		return e.binary(x)
	case "if":
		c := e.Bool(x.Args[0])
		a, b := e.unify(e.Elab(x.Args[1]), e.Elab(x.Args[2]))
		t := a.Typ
		if untyped(t) {
			t = b.Typ
		}
		return STm{Ite(c, a.T, b.T), t}
	case "let":
		val := e.Elab(x.Args[0])
		return e.with(x.Name, val).Elab(x.Args[1])
	case "old":
		if e.old == nil {
			e.fail(x, "old without a pre-state")
		}
		n := *e
		n.st = e.old
		return n.Elab(x.Args[0])
	case "quant":
		return e.quant(x)
	case "seq":
		return e.comprehension(x)
	case "is":
		b := e.Elab(x.Args[0])
		t := e.v.GoType(e.pkg, x.Type)
		if !isIface(b.Typ) {
			return STm{boolT(types.Identical(b.Typ, t)), tBool}
		}
		return STm{g.IsType(b.T, t), tBool}
	case "assert":
		b := e.Elab(x.Args[0])
		t := e.v.GoType(e.pkg, x.Type)
		if !isIface(b.Typ) {
			return STm{b.T, t}
		}
		return STm{g.Unbox(t, b.T), t}
	case "field":
		// package-qualified constant or type
		if x.Args[0].Kind == "ident" {
			if _, ok := e.vars[x.Args[0].Name]; !ok && !e.isLet(x.Args[0].Name) {
				if _, isTrace := e.v.traces[x.Args[0].Name]; !isTrace {
					if p := e.v.pkgByName(e.pkg, x.Args[0].Name); p != nil {
						if o := p.Scope().Lookup(x.Name); o != nil {
							if c, ok := e.constant(o); ok {
								return c
							}
							if vr, ok := o.(*types.Var); ok {
								return STm{e.v.globalTerm(vr), vr.Type()}
							}
						}
					}
				}
			}
		}
		b := e.Elab(x.Args[0])
		if f, ok := e.field(b, x.Name); ok {
			return f
		}
		e.fail(x, "no field %s in %s", x.Name, b.Typ)
	case "index":
		b := e.Elab(x.Args[0])
		i := e.Elab(x.Args[1])
		switch u := b.Typ.Underlying().(type) {
		case *types.Slice:
			return STm{g.SeqAt(b.T, i.T), u.Elem()}
		case *types.Array:
			return STm{g.SeqAt(b.T, i.T), u.Elem()}
		case *types.Map:
			return STm{g.MapVal(b.T, e.coerce(i, u.Key()).T), u.Elem()}
		case *types.Basic:
			return STm{g.App("sat", b.T, i.T), types.Typ[types.Byte]}
		}
		if k, el, ok := frozenMap(b.Typ); ok {
			return STm{g.MapVal(b.T, e.coerce(i, k).T), el}
		}
		e.fail(x, "cannot index %s", b.Typ)
	case "slice":
		b := e.Elab(x.Args[0])
		lo, hi := Int(0), (*Term)(nil)
		if x.Args[1] != nil {
			lo = e.Elab(x.Args[1]).T
		}
		if x.Args[2] != nil {
			hi = e.Elab(x.Args[2]).T
		}
		if b.T.Sort == "Str" {
			if hi == nil {
				hi = g.App("slen", b.T)
			}
			return STm{g.App("ssub", b.T, lo, hi), b.Typ}
		}
		if hi == nil {
			hi = g.SeqLen(b.T)
		}
		return STm{g.SeqSub(b.T, lo, hi), b.Typ}
	case "upd":
		b := e.Elab(x.Args[0])
		i, v := e.Elab(x.Args[1]), e.Elab(x.Args[2])
		switch u := b.Typ.Underlying().(type) {
		case *types.Slice:
			return STm{g.SeqUpd(b.T, i.T, e.coerce(v, u.Elem()).T), b.Typ}
		case *types.Map:
			return STm{g.MapUpd(b.T, e.coerce(i, u.Key()).T, e.coerce(v, u.Elem()).T), b.Typ}
		}
		if k, el, ok := frozenMap(b.Typ); ok {
			return STm{g.MapUpd(b.T, e.coerce(i, k).T, e.coerce(v, el).T), b.Typ}
		}
	case "lit":
		t := e.v.GoType(e.pkg, x.Type)
		return e.literal(x, t)
	case "call":
		return e.call(x)
	}
	e.fail(x, "cannot elaborate %s %s", x.Kind, x.Name)
	return STm{}
}

func (e *Env) isLet(n string) bool {
	for _, l := range e.lets {
		if l.Name == n {
			return true
		}
	}
	return false
}

func frozenMap(t types.Type) (k, v types.Type, ok bool) {
	if n, isN := types.Unalias(t).(*types.Named); isN {
		switch qualName(n) {
		case "frozen.Map", "frozen.MapBuilder":
			return n.TypeArgs().At(0), n.TypeArgs().At(1), true
		}
	}
	return nil, nil, false
}

func frozenSet(t types.Type) (k types.Type, ok bool) {
	if n, isN := types.Unalias(t).(*types.Named); isN {
		switch qualName(n) {
		case "frozen.Set", "frozen.SetBuilder":
			return n.TypeArgs().At(0), true
		}
	}
	return nil, false
}

func (e *Env) literal(x *SExpr, t types.Type) STm {
	g := e.v.g
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if _, ok := frozenSet(t); ok {
			if len(x.Args) > 0 {
				e.fail(x, "set literal")
			}
			return STm{g.Zero(t), t}
		}
		if _, _, ok := frozenMap(t); ok {
			return STm{g.Zero(t), t}
		}
		s := g.Sort(t)
		args := make([]*Term, u.NumFields())
		for i := 0; i < u.NumFields(); i++ {
			args[i] = g.Zero(u.Field(i).Type())
		}
		for i, a := range x.Args {
			k := i
			if x.Keys[i] != "" {
				k = -1
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == x.Keys[i] {
						k = j
					}
				}
				if k < 0 {
					e.fail(x, "no field %s", x.Keys[i])
				}
			}
			args[k] = e.coerce(e.Elab(a), u.Field(k).Type()).T
		}
		return STm{g.App("mk."+s, args...), t}
	case *types.Slice:
		s := g.Sort(t)
		var el []*Term
		for _, a := range x.Args {
			el = append(el, e.coerce(e.Elab(a), u.Elem()).T)
		}
		return STm{g.SeqLit(s, el...), t}
	case *types.Map:
		if len(x.Args) == 0 {
			return STm{g.Zero(t), t}
		}
	}
	if len(x.Args) == 0 {
		return STm{g.Zero(t), t}
	}
	e.fail(x, "literal of %s", t)
	return STm{}
}

func (e *Env) binary(x *SExpr) STm {
	g := e.v.g
	switch x.Name {
	case "&&":
		return STm{And(e.Bool(x.Args[0]), e.Bool(x.Args[1])), tBool}
	case "||":
		return STm{Or(e.Bool(x.Args[0]), e.Bool(x.Args[1])), tBool}
	case "==>":
		return STm{Imp(e.Bool(x.Args[0]), e.Bool(x.Args[1])), tBool}
	case "<==>":
		return STm{Eq(e.Bool(x.Args[0]), e.Bool(x.Args[1])), tBool}
	}
	a, b := e.Elab(x.Args[0]), e.Elab(x.Args[1])
	switch x.Name {
	case "==", "!=":
		a, b = e.unify(a, b)
		t := Eq(a.T, b.T)
		if x.Name == "!=" {
			t = Not(t)
		}
		return STm{t, tBool}
	case "<":
		return STm{Lt(a.T, b.T), tBool}
	case "<=":
		return STm{Le(a.T, b.T), tBool}
	case ">":
		return STm{Lt(b.T, a.T), tBool}
	case ">=":
		return STm{Le(b.T, a.T), tBool}
	case "in":
		if vt, ok := b.Typ.(visitedType); ok && g.sorts[vt.sort].Key == a.T.Sort {
			return STm{g.SetMem(b.T, a.T), tBool}
		}
		switch u := b.Typ.Underlying().(type) {
		case *types.Map:
			return STm{g.MapDom(b.T, e.coerce(a, u.Key()).T), tBool}
		case *types.Slice:
			i := bv("i", "Int")
			return STm{Exists([]*Term{i}, And(Le(Int(0), i), Lt(i, g.SeqLen(b.T)), Eq(g.SeqAt(b.T, i), e.coerce(a, u.Elem()).T))), tBool}
		}
		if k, _, ok := frozenMap(b.Typ); ok {
			return STm{g.MapDom(b.T, e.coerce(a, k).T), tBool}
		}
		if k, ok := frozenSet(b.Typ); ok {
			return STm{g.SetMem(b.T, e.coerce(a, k).T), tBool}
		}
	case "++":
		if a.T.Sort == "Str" {
			return STm{g.App("scat", a.T, b.T), tString}
		}
		if a.T.Sort == b.T.Sort {
			return STm{g.SeqCat(a.T, b.T), a.Typ}
		}
	case "+":
		if a.T.Sort == "Str" {
			return STm{g.App("scat", a.T, b.T), a.Typ}
		}
		return STm{Add(a.T, b.T), tInt}
	case "-":
		return STm{Sub(a.T, b.T), tInt}
	case "*":
		return STm{Mul(a.T, b.T), tInt}
	case "/":
		return STm{mk("div", "Int", a.T, b.T), tInt}
	case "%":
		return STm{mk("mod", "Int", a.T, b.T), tInt}
	}
	e.fail(x, "operator %s on %s and %s", x.Name, a.Typ, b.Typ)
	return STm{}
}

func (e *Env) quant(x *SExpr) STm {
	n := e
	var bound []*Term
	for _, p := range x.Vars {
		t := e.v.GoType(e.pkg, p.Type)
		b := bv(p.Name, e.v.g.Sort(t))
		bound = append(bound, b)
		n = n.with(p.Name, STm{b, t})
	}
	body := n.Bool(x.Args[0])
	var trigs [][]*Term
	for _, tr := range x.Trigs {
		var ts []*Term
		for _, t := range tr {
			ts = append(ts, n.Elab(t).T)
		}
		trigs = append(trigs, ts)
	}
	if x.Name == "forall" {
		return STm{Forall(bound, body, trigs...), tBool}
	}
	ex := Exists(bound, body)
	if ex.Op == "exists" {
		ex.Trig = trigs
	}
	return STm{ex, tBool}
}

var bvRE = regexp.MustCompile(`\?[A-Za-z_]+[0-9]+`)

// comprehension seq(i, n, e)
func (e *Env) comprehension(x *SExpr) STm {
	g := e.v.g
	n := e.Elab(x.Args[0]).T
	i := bv("i", "Int")
	body := e.with(x.Name, STm{i, tInt}).Elab(x.Args[1])
	return STm{e.v.mkComp(n, i, body.T), types.NewSlice(types.Default(body.Typ))}.chk(g)
}

func (s STm) chk(g *Gen) STm { return s }

func (v *Verifier) mkComp(n, i, body *Term) *Term {
	g := v.g
	srt := g.SeqSort(body.Sort)
	fv := map[string]*Term{}
	body.freeBV(fv, map[string]bool{i.Op: true})
	n.freeBV(fv, map[string]bool{})
	var ps []*Term
	for _, k := range sortedKeys(fv) {
		ps = append(ps, fv[k])
	}
	// canonical key
	key := n.Key() + "#" + body.Key()
	ren := map[string]string{}
	key = bvRE.ReplaceAllStringFunc(key, func(s string) string {
		if r, ok := ren[s]; ok {
			return r
		}
		ren[s] = "?" + strconv.Itoa(len(ren))
		return ren[s]
	})
	// parameters ordered by first occurrence in the key for stability
	name, ok := v.comps[key]
	if !ok {
		g.comps++
		name = fmt.Sprintf("comp$%d", g.comps)
		v.comps[key] = name
		var as []string
		for _, p := range ps {
			as = append(as, p.Sort)
		}
		g.sym(name, srt, as...)
		c := mk(name, srt, ps...)
		if len(ps) == 0 {
			c = &Term{Op: name, Sort: srt}
		}
		ln := Eq(mk("len."+srt, "Int", c), Ite(Le(Int(0), n), n, Int(0)))
		at := mk("at."+srt, body.Sort, c, i)
		el := Forall(append(append([]*Term{}, ps...), i), Imp(And(Le(Int(0), i), Lt(i, n)), mk("=", "Bool", at, body)), []*Term{at})
		if len(ps) > 0 {
			ln = Forall(ps, ln, []*Term{c})
		}
		g.axiom(name+" len", ln, name)
		g.axiom(name+" at", el, name)
	}
	if len(ps) == 0 {
		return &Term{Op: name, Sort: srt}
	}
	return mk(name, srt, ps...)
}

func (e *Env) call(x *SExpr) STm {
	g := e.v.g
	f := x.Args[0]
	args := x.Args[1:]
	if f.Kind == "ident" {
		if fd, ok := e.v.spec.Fns[f.Name]; ok {
			var as []STm
			for _, a := range args {
				as = append(as, e.Elab(a))
			}
			return e.callFn(x, fd, as)
		}
		switch f.Name {
		case "len":
			a := e.Elab(args[0])
			switch k, _ := sortOfOp(a.T.Sort); k {
			case "Str":
				return STm{g.App("slen", a.T), tInt}
			case "Seq":
				return STm{g.SeqLen(a.T), tInt}
			case "Map":
				return STm{g.App("card."+a.T.Sort, a.T), tInt}
			case "Set":
				return STm{g.App("scard."+a.T.Sort, a.T), tInt}
			}
			e.fail(x, "len of %s", a.Typ)
		case "old":
			if e.old == nil {
				e.fail(x, "old without a pre-state")
			}
			n := *e
			n.st = e.old
			if e.oldVars != nil {
				n.vars = map[string]STm{}
				for k, v := range e.vars {
					n.vars[k] = v
				}
				for k, v := range e.oldVars {
					n.vars[k] = v
				}
			}
			return n.Elab(args[0])
		case "typ":
			return STm{g.App("typ", e.Elab(args[0]).T), tInt}
		case "sametype":
			return STm{Eq(g.App("typ", e.Elab(args[0]).T), g.App("typ", e.Elab(args[1]).T)), tBool}
		case "isnew": // allocated by the call
			a := e.Elab(args[0])
			if e.old == nil || a.T.Sort != "Int" {
				e.fail(x, "isnew is about mutable pointers in postconditions")
			}
			return STm{And(Le(e.old.alloc, a.T), Lt(a.T, e.st.alloc)), tBool}
		case "rank":
			return STm{g.App("rank", e.coerce(e.Elab(args[0]), tAny).T), tInt}
		case "push":
			s := e.Elab(args[0])
			return STm{g.SeqPush(s.T, e.coerce(e.Elab(args[1]), s.Typ.Underlying().(*types.Slice).Elem()).T), s.Typ}
		case "put":
			s := e.Elab(args[0])
			if m, ok := s.Typ.Underlying().(*types.Map); ok {
				return STm{g.MapUpd(s.T, e.coerce(e.Elab(args[1]), m.Key()).T, e.coerce(e.Elab(args[2]), m.Elem()).T), s.Typ}
			}
		case "del":
			s := e.Elab(args[0])
			return STm{g.MapDel(s.T, e.coerce(e.Elab(args[1]), s.Typ.Underlying().(*types.Map).Key()).T), s.Typ}
		case "sprefix":
			return STm{g.App("sprefix", e.Elab(args[0]).T, e.Elab(args[1]).T), tBool}
		case "runestr":
			return STm{e.v.runeStr(e.Elab(args[0]).T), tString}
		case "bytestr":
			return STm{g.App("sbyte", e.Elab(args[0]).T), tString}
		case "with", "without":
			s := e.Elab(args[0])
			if k, ok := frozenSet(s.Typ); ok {
				return STm{g.App("s"+f.Name+"."+s.T.Sort, s.T, e.coerce(e.Elab(args[1]), k).T), s.Typ}
			}
		case "union":
			a, b := e.Elab(args[0]), e.Elab(args[1])
			return STm{g.App("sunion."+a.T.Sort, a.T, b.T), a.Typ}
		case "pure": // pure("strings.Replace", T, args...): the uninterpreted function of an external pure function
		case "isnilslice":
			a := e.Elab(args[0])
			return STm{e.v.isNilOf(a.T, a.Typ), tBool}
		}
	}
	if f.Kind == "ident" {
		if fn, ok := e.vars[f.Name]; ok && fn.T.Sort == "Func" {
			if sig, ok := fn.Typ.Underlying().(*types.Signature); ok && sig.Params().Len() == len(args) && sig.Results().Len() == 1 {
				as := []*Term{fn.T}
				for i, a := range args {
					as = append(as, e.coerce(e.Elab(a), sig.Params().At(i).Type()).T)
				}
				rt := sig.Results().At(0).Type()
				return STm{e.v.pureApp("apply", 0, rt, as), rt}
			}
		}
	}
	if t := e.typeOfIdent(f); t != nil && len(args) == 1 {
		a := e.Elab(args[0])
		if isIface(t) && !isIface(a.Typ) {
			return e.coerce(a, t)
		}
		if g.Sort(t) != a.T.Sort {
			if c, ok := g.ConvStruct(a.T, g.Sort(t)); ok {
				return STm{c, t}
			}
			if g.Sort(t) == "Str" && a.T.Sort == "Seq.Int" {
				if el, ok := a.Typ.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && el.Kind() == types.Uint8 {
					g.sym("bytes$str", "Str", a.T.Sort)
					return STm{g.App("bytes$str", a.T), t}
				}
			}
			e.fail(x, "conversion of %s to %s", a.Typ, t)
		}
		return STm{a.T, t}
	}
	// external or repository pure function:  pkg.F(args)
	if f.Kind == "field" && f.Args[0].Kind == "ident" {
		if p := e.v.pkgByName(e.pkg, f.Args[0].Name); p != nil {
			if fo, ok := p.Scope().Lookup(f.Name).(*types.Func); ok {
				sig := fo.Type().(*types.Signature)
				var as []*Term
				for i, a := range args {
					var pt types.Type
					if i < sig.Params().Len() {
						pt = sig.Params().At(i).Type()
					}
					as = append(as, e.coerce(e.Elab(a), pt).T)
				}
				return STm{e.v.pureApp(e.v.extName(fo), 0, sig.Results().At(0).Type(), as), sig.Results().At(0).Type()}
			}
		}
	}
	// external method modelled as a pure function: x.M(args)
	if f.Kind == "field" {
		b := e.Elab(f.Args[0])
		obj, _, _ := types.LookupFieldOrMethod(b.Typ, true, e.pkg, f.Name)
		if fo, ok := obj.(*types.Func); ok && !isRepoPkg(fo.Pkg()) {
			sig := fo.Type().(*types.Signature)
			as := []*Term{b.T}
			for i, a := range args {
				as = append(as, e.coerce(e.Elab(a), sig.Params().At(i).Type()).T)
			}
			return STm{e.v.pureApp(e.v.extName(fo), 0, sig.Results().At(0).Type(), as), sig.Results().At(0).Type()}
		}
	}
	e.fail(x, "unknown function %s", f.Name)
	return STm{}
}

// pureApp applies the uninterpreted function standing for result i of a pure external function.
func (v *Verifier) pureApp(name string, i int, rt types.Type, args []*Term) *Term {
	if name == "fmt.Sprintf" && len(args) == 2 {
		if t := v.sprintf(args[0], args[1]); t != nil {
			return t
		}
	}
	if name == "strings.Join" && len(args) == 2 {
		if sep, ok := v.g.litVal[args[1].Op]; ok {
			if els, ok := v.g.seqLit(args[0]); ok {
				t := v.g.Str("")
				for i, e := range els {
					if i > 0 {
						t = v.g.App("scat", t, v.g.Str(sep))
					}
					t = v.g.App("scat", t, e)
				}
				return t
			}
		}
	}
	op := "ext$" + name
	if i > 0 {
		op += fmt.Sprintf("$%d", i)
	}
	var as []string
	for _, a := range args {
		as = append(as, a.Sort)
		op += ":" + a.Sort
	}
	rs := v.g.Sort(rt)
	if name == "apply" {
		op += ">" + rs
	}
	v.g.sym(op, rs, as...)
	v.extUsed(name)
	v.extAxiom(name, args)
	if len(args) == 0 {
		return &Term{Op: op, Sort: rs}
	}
	return v.g.App(op, args...)
}

// extAxiom states the assumed contract of a pure external function for all arguments.
func (v *Verifier) extAxiom(name string, args []*Term) {
	c := v.byFunc[name]
	if c == nil || c.Kind != "extern" || c.Opts["nondet"] != "" || len(c.Modifies) > 0 || len(c.Mutates) > 0 || len(c.Requires) > 0 || len(c.Ensures) == 0 {
		return
	}
	key := name
	for _, a := range args {
		key += ":" + a.Sort
	}
	if v.extAx == nil {
		v.extAx = map[string]bool{}
	}
	if v.extAx[key] {
		return
	}
	v.extAx[key] = true
	fo := v.extObj(name)
	if fo == nil {
		return
	}
	sig := fo.Type().(*types.Signature)
	var pts []types.Type
	if sig.Recv() != nil {
		pts = append(pts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		pts = append(pts, sig.Params().At(i).Type())
	}
	if len(pts) != len(args) || len(c.Params) != len(pts) {
		return
	}
	vars := map[string]STm{}
	var bs []*Term
	for i, p := range c.Params {
		b := bv(p, args[i].Sort)
		bs = append(bs, b)
		vars[p] = STm{b, pts[i]}
	}
	var apps []*Term
	for i := 0; i < sig.Results().Len() && i < len(c.Results); i++ {
		rt := sig.Results().At(i).Type()
		a := v.pureApp(name, i, rt, bs)
		apps = append(apps, a)
		vars[c.Results[i]] = STm{a, rt}
	}
	env := &Env{v: v, pkg: v.typesPkg(c.Pkg), vars: vars, lets: c.Lets}
	for ci, cl := range c.Ensures {
		body := env.Bool(cl.E)
		for i, a := range apps {
			v.g.axiom(fmt.Sprintf("contract of %s %d/%d", key, ci, i), Forall(bs, body, []*Term{a}), a.Op)
		}
	}
}

func (v *Verifier) isNilOf(s *Term, t types.Type) *Term {
	if nilSlice(t, v.spec.NilSlice) {
		return Eq(v.g.SeqLen(s), Int(0))
	}
	return v.isNil(s)
}

func (v *Verifier) isNil(s *Term) *Term {
	op := "isnil$" + s.Sort
	v.g.sym(op, "Bool", s.Sort)
	k, _ := sortOfOp(s.Sort)
	e := "empty." + s.Sort
	switch k {
	case "Map":
		e = "mempty." + s.Sort
	}
	x := bv("x", s.Sort)
	v.g.axiom(op, Forall([]*Term{x}, Imp(mk(op, "Bool", x), mk("=", "Bool", x, &Term{Op: e, Sort: s.Sort})), []*Term{mk(op, "Bool", x)}), op)
	return v.g.App(op, s)
}

func (e *Env) callFn(x *SExpr, f *FnDecl, args []STm) STm {
	v := e.v
	if len(args) != len(f.Params) {
		e.fail(x, "%s wants %d arguments", f.Name, len(f.Params))
	}
	fpkg := v.typesPkg(f.Pkg)
	rt := v.GoType(fpkg, f.Result)
	var ts []*Term
	for i, p := range f.Params {
		pt := v.GoType(fpkg, p.Type)
		args[i] = e.coerce(args[i], pt)
		ts = append(ts, args[i].T)
	}
	var hs []*Term
	hm := map[string]*Term{}
	for _, r := range f.Reads {
		t := v.GoType(fpkg, r)
		h := e.heapFor(t)
		hm[heapKey(v, t)] = h
		hs = append(hs, h)
	}
	ts = append(hs, ts...)
	if f.Body != nil && !f.Rec && !f.Opaque {
		n := &Env{v: v, pkg: fpkg, vars: map[string]STm{}, fuelOf: e.fuelOf, heaps: hm}
		for i, p := range f.Params {
			n.vars[p.Name] = args[i]
		}
		return n.coerce(n.Elab(f.Body), rt)
	}
	v.defineFn(f)
	op := "fn$" + f.Name
	if s, ok := e.fuelOf[f.Name]; ok {
		op += s
	}
	if len(ts) == 0 {
		return STm{&Term{Op: op, Sort: v.g.Sort(rt)}, rt}
	}
	return STm{v.g.App(op, ts...), rt}
}

func (v *Verifier) typesPkg(name string) *types.Package {
	if p, ok := v.prog.Short[name]; ok {
		return p.Types
	}
	return nil
}

// reachable recursive functions from the body of f
func (v *Verifier) fnCalls(x *SExpr, out map[string]bool) {
	if x == nil {
		return
	}
	if x.Kind == "call" && x.Args[0].Kind == "ident" {
		n := x.Args[0].Name
		if f, ok := v.spec.Fns[n]; ok && !out[n] {
			out[n] = true
			v.fnCalls(f.Body, out)
		}
	}
	for _, a := range x.Args {
		v.fnCalls(a, out)
	}
}

func (v *Verifier) defineFn(f *FnDecl) {
	if f.defined {
		return
	}
	f.defined = true
	fpkg := v.typesPkg(f.Pkg)
	rs := v.g.Sort(v.GoType(fpkg, f.Result))
	var as []string
	hm, ps := v.heapVars(fpkg, f.Reads, false)
	for _, p := range ps {
		as = append(as, p.Sort)
	}
	vars := map[string]STm{}
	for _, p := range f.Params {
		t := v.GoType(fpkg, p.Type)
		s := v.g.Sort(t)
		as = append(as, s)
		b := bv(p.Name, s)
		ps = append(ps, b)
		vars[p.Name] = STm{b, t}
	}
	op := "fn$" + f.Name
	v.g.sym(op, rs, as...)
	if f.Body == nil {
		return
	}
	app := func(suffix string) *Term {
		v.g.sym(op+suffix, rs, as...)
		if len(ps) == 0 {
			return &Term{Op: op + suffix, Sort: rs}
		}
		return mk(op+suffix, rs, ps...)
	}
	if !f.Rec { // opaque: definition as an axiom
		n := &Env{v: v, pkg: fpkg, vars: vars, heaps: hm}
		body := n.coerce(n.Elab(f.Body), v.GoType(fpkg, f.Result))
		v.g.axiom("def "+f.Name, Forall(ps, mk("=", "Bool", app(""), body.T), []*Term{app("")}), op)
		return
	}
	calls := map[string]bool{}
	v.fnCalls(f.Body, calls)
	var scc []string
	for n := range calls {
		h := v.spec.Fns[n]
		if !h.Rec {
			continue
		}
		back := map[string]bool{}
		v.fnCalls(h.Body, back)
		if n == f.Name || back[f.Name] {
			scc = append(scc, n)
		}
	}
	lev := func(k int) string {
		if k == 0 {
			return ""
		}
		return fmt.Sprintf("!%d", k)
	}
	for k := 0; k < f.Fuel; k++ {
		fo := map[string]string{}
		for _, n := range scc {
			fo[n] = lev(k + 1)
		}
		// declare lower-level symbols
		for _, n := range scc {
			h := v.spec.Fns[n]
			v.defineFn(h)
			hp := v.typesPkg(h.Pkg)
			var has []string
			for _, r := range h.Reads {
				has = append(has, heapSort(v, v.GoType(hp, r)))
			}
			for _, p := range h.Params {
				has = append(has, v.g.Sort(v.GoType(hp, p.Type)))
			}
			v.g.sym("fn$"+n+lev(k+1), v.g.Sort(v.GoType(hp, h.Result)), has...)
		}
		n := &Env{v: v, pkg: fpkg, vars: vars, fuelOf: fo, heaps: hm}
		body := n.coerce(n.Elab(f.Body), v.GoType(fpkg, f.Result))
		a := app(lev(k))
		v.g.axiom("def "+f.Name+lev(k), Forall(ps, mk("=", "Bool", a, body.T), []*Term{a}), op+lev(k))
		v.g.axiom("syn "+f.Name+lev(k), Forall(ps, mk("=", "Bool", a, app(lev(k+1))), []*Term{a}), op+lev(k))
	}
}
