package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"
)

type traceInfo struct {
	decl *TraceDecl
	typ  types.Type
}

type Verifier struct {
	prog       *Program
	g          *Gen
	spec       *Spec
	traces     map[string]*traceInfo
	ghostTypes map[string]types.Type
	comps      map[string]string
	byFunc     map[string]*Contract
	detached   map[*types.TypeName]*types.Interface // types never used as this interface
	byIface    map[string]*Contract
	byFType    map[string]*Contract
	byClosure  map[string][]*Contract
	globals    map[*types.Var]*Term
	exts       map[string]bool
	extAx      map[string]bool
	extObjs    map[string]*types.Func
	cur        *FV
}

func (v *Verifier) extObj(n string) *types.Func { return v.extObjs[n] }

// extName is funcName for an external function, remembering the object.
func (v *Verifier) extName(f *types.Func) string {
	n := funcName(f)
	if v.extObjs == nil {
		v.extObjs = map[string]*types.Func{}
	}
	v.extObjs[n] = f.Origin()
	return n
}

func (v *Verifier) extUsed(n string) {
	if v.cur != nil {
		v.cur.exts[n] = true
	}
}

// Obligation is one verification condition.
type Obligation struct {
	Func   string
	Label  string
	Kind   string // ensures requires frame safe terminates lemma
	Props  []string
	Pos    string
	PC     []*Term
	Goal   *Term
	Spec   string
	Result Result
	OK     bool
	Lemma  int
}

func (o *Obligation) Name() string { return o.Func + "/" + o.Label }

const (
	modeEmit = iota
	modeDry
	modeHoudini
)

// FV verifies one function against its contract.
type FV struct {
	curPos       token.Pos
	v            *Verifier
	fi           *FuncInfo
	name         string
	c            *Contract
	obls         []*Obligation
	mode         int
	entry        *State
	vars         map[string]STm // contract parameter names -> entry values
	clos         map[string]*Closure
	frames       int
	cellN        int
	top          *Frame
	paths        int
	steps        int
	exts         map[string]bool
	callees      map[string]bool // contracts relied upon
	inlined      map[string]bool
	assumed      map[string]bool // other assumptions made
	tmpl         int
	loopInv      map[string]int // surviving invariants per loop (reporting)
	deadline     time.Time
	paramCells   map[string]int
	houdiniRuns  int
	memos        map[ast.Node]*loopMemo
	stack        []string
	entryMeasure *Term
	safeIf       *Term
	when         [2]int // where the path conditions hold the when clauses
	returns      int
	retPCs       [][]*Term
}

func (v *Verifier) NewFV(name string, fi *FuncInfo, c *Contract) *FV {
	return &FV{v: v, fi: fi, name: name, c: c, clos: map[string]*Closure{}, exts: map[string]bool{}, callees: map[string]bool{},
		inlined: map[string]bool{}, assumed: map[string]bool{}, loopInv: map[string]int{}, paramCells: map[string]int{}}
}

func (fv *FV) newFrame(up *Frame, pkg *Package, name string, depth int) *Frame {
	fv.frames++
	return &Frame{id: fv.frames, up: up, info: pkg.Info, pkg: pkg, boxed: map[types.Object]bool{}, name: name, depth: depth}
}

func (fv *FV) newCell(st *State, t *Term, own bool) int {
	fv.cellN++
	st.cells[fv.cellN] = &Cell{T: t, Own: own}
	return fv.cellN
}

func (fr *Frame) typ(t types.Type) types.Type {
	if t == nil || len(fr.allSub()) == 0 {
		return t
	}
	return substType(t, fr.allSub())
}

func (fr *Frame) allSub() map[*types.TypeParam]types.Type {
	for f := fr; f != nil; f = f.up {
		if len(f.tsub) > 0 {
			return f.tsub
		}
	}
	return nil
}

func substType(t types.Type, m map[*types.TypeParam]types.Type) types.Type {
	switch t := t.(type) {
	case *types.TypeParam:
		if r, ok := m[t]; ok {
			return r
		}
	case *types.Slice:
		return types.NewSlice(substType(t.Elem(), m))
	case *types.Pointer:
		return types.NewPointer(substType(t.Elem(), m))
	case *types.Map:
		return types.NewMap(substType(t.Key(), m), substType(t.Elem(), m))
	case *types.Array:
		return types.NewArray(substType(t.Elem(), m), t.Len())
	case *types.Signature:
		sub := func(tp *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < tp.Len(); i++ {
				vs = append(vs, types.NewVar(0, nil, tp.At(i).Name(), substType(tp.At(i).Type(), m)))
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, sub(t.Params()), sub(t.Results()), t.Variadic())
	case *types.Named:
		if t.TypeArgs().Len() > 0 {
			var args []types.Type
			for i := 0; i < t.TypeArgs().Len(); i++ {
				args = append(args, substType(t.TypeArgs().At(i), m))
			}
			if in, err := types.Instantiate(nil, t.Origin(), args, false); err == nil {
				return in
			}
		}
	}
	return t
}

// scanBoxed finds the local variables whose address is taken.
func (fv *FV) scanBoxed(fr *Frame, body ast.Node) {
	base := func(e ast.Expr) types.Object {
		for {
			switch x := ast.Unparen(e).(type) {
			case *ast.Ident:
				if v, ok := fr.info.ObjectOf(x).(*types.Var); ok && !v.IsField() {
					return v
				}
				return nil
			case *ast.SelectorExpr:
				if s, ok := fr.info.Selections[x]; ok && s.Kind() == types.FieldVal {
					if _, isPtr := fr.info.TypeOf(x.X).Underlying().(*types.Pointer); isPtr {
						return nil
					}
					e = x.X
					continue
				}
				return nil
			case *ast.IndexExpr:
				if _, ok := fr.info.TypeOf(x.X).Underlying().(*types.Array); ok {
					e = x.X
					continue
				}
				return nil
			default:
				return nil
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if o := base(x.X); o != nil {
					if _, lit := ast.Unparen(x.X).(*ast.CompositeLit); !lit {
						fr.boxed[o] = true
					}
				}
			}
		case *ast.SelectorExpr:
			if s, ok := fr.info.Selections[x]; ok && (s.Kind() == types.MethodVal) {
				f := s.Obj().(*types.Func)
				rt := f.Type().(*types.Signature).Recv().Type()
				if _, isPtr := rt.(*types.Pointer); isPtr {
					if _, xp := fr.info.TypeOf(x.X).Underlying().(*types.Pointer); !xp && isRepoPkg(f.Pkg()) {
						if o := base(x.X); o != nil {
							fr.boxed[o] = true
						}
					}
				}
			}
		}
		return true
	})
}

func (fr *Frame) isBoxed(o types.Object) bool {
	for f := fr; f != nil; f = f.up {
		if f.boxed[o] {
			return true
		}
	}
	return false
}

// key finds the variable key of an object visible from a frame.
func (fv *FV) key(fr *Frame, st *State, o types.Object) (VarKey, bool) {
	for f := fr; f != nil; f = f.up {
		k := VarKey{Fr: f.id, Obj: o}
		if _, ok := st.vars[k]; ok {
			return k, true
		}
	}
	return VarKey{}, false
}

// readVal gives the current value of a variable's slot.
func (fv *FV) cur(st *State, v Val) Val {
	if v.Cell == 0 {
		return v
	}
	c := st.cells[v.Cell]
	if c == nil {
		return v
	}
	t := c.T
	if v.Off != nil {
		t = fv.v.g.SeqSub(t, v.Off, Add(v.Off, v.Len))
	}
	v.T = t
	return v
}

// declare creates a local variable.
func (fv *FV) declare(fr *Frame, st *State, o types.Object, val Val) {
	if o == nil || o.Name() == "_" {
		return
	}
	typ := fr.typ(o.Type())
	val = fv.convert(st, val, typ)
	k := VarKey{Fr: fr.id, Obj: o}
	if fr.isBoxed(o) {
		ref := st.alloc
		st.alloc = Add(st.alloc, Int(1))
		st.assume(Lt(Int(0), ref))
		fv.heapStore(st, typ, ref, val.T)
		st.vars[k] = Val{T: ref, Typ: types.NewPointer(typ)}
		return
	}
	if _, ok := typ.Underlying().(*types.Array); ok {
		val = Val{T: val.T, Typ: typ, Cell: fv.newCell(st, val.T, true)}
	}
	val.Typ = typ
	st.vars[k] = val
}

func (fv *FV) heapStore(st *State, t types.Type, ref, val *Term) {
	h := st.Heap(fv.v, t)
	st.heap[heapKey(fv.v, t)] = fv.v.g.Store(h, ref, val)
}

func (fv *FV) readVar(fr *Frame, st *State, o types.Object, pos token.Pos) Val {
	k, ok := fv.key(fr, st, o)
	if !ok {
		if vr, isv := o.(*types.Var); isv && vr.Parent() == vr.Pkg().Scope() {
			return Val{T: fv.v.globalTerm(vr), Typ: vr.Type()}
		}
		fv.unsup(pos, "variable %s is not in scope", o.Name())
	}
	v := st.vars[k]
	if fr.isBoxed(o) {
		el := fr.typ(o.Type())
		return Val{T: fv.v.g.Select(st.Heap(fv.v, el), v.T), Typ: el}
	}
	return fv.cur(st, v)
}

// globalTerm models a package variable.
func (v *Verifier) globalTerm(o *types.Var) *Term {
	if t, ok := v.globals[o]; ok {
		return t
	}
	name := "glob$" + o.Pkg().Name() + "." + o.Name()
	t := v.g.Const(name, v.g.Sort(o.Type()))
	v.globals[o] = t
	// errors and regexps initialised by a constructor are non-nil
	if p, ok := v.prog.Pkgs[o.Pkg().Path()]; ok {
		if init := v.initExpr(p, o); init != nil && !v.assigned(p, o) {
			if call, ok := init.(*ast.CallExpr); ok {
				if fn := calleeFunc(p.Info, call); fn != nil {
					switch funcName(fn) {
					case "regexp.MustCompile":
						if tv := p.Info.Types[call.Args[0]]; tv.Value != nil {
							if c := v.constTerm(tv.Value, tv.Type); c != nil {
								t = v.pureApp(v.extName(fn), 0, o.Type(), []*Term{c})
								v.globals[o] = t
								return t
							}
						}
					case "errors.New", "fmt.Errorf":
						v.g.axiom(name, Not(Eq(v.g.App("typ", t), Int(0))), name)
					}
				}
			}
			if tv, ok := p.Info.Types[init]; ok && tv.Value != nil {
				if c := v.constTerm(tv.Value, tv.Type); c != nil {
					v.globals[o] = c
					return c
				}
			}
			if u, ok := init.(*ast.UnaryExpr); ok {
				if l, ok := u.X.(*ast.BasicLit); ok && l.Kind == token.INT {
					_ = l
				}
			}
		}
	}
	return t
}

func calleeFunc(info *types.Info, call *ast.CallExpr) *types.Func {
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		fn, _ := info.Uses[f].(*types.Func)
		return fn
	case *ast.SelectorExpr:
		fn, _ := info.Uses[f.Sel].(*types.Func)
		return fn
	}
	return nil
}

func (v *Verifier) initExpr(p *Package, o *types.Var) ast.Expr {
	for _, f := range p.Files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if p.Info.Defs[n] == o && i < len(vs.Values) && len(vs.Values) == len(vs.Names) {
						return vs.Values[i]
					}
				}
			}
		}
	}
	return nil
}

func (v *Verifier) assigned(p *Package, o *types.Var) bool {
	if o.Exported() {
		return true
	}
	found := false
	for _, f := range p.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if id, ok := ast.Unparen(l).(*ast.Ident); ok && p.Info.Uses[id] == o {
						found = true
					}
				}
			case *ast.UnaryExpr:
				if id, ok := ast.Unparen(x.X).(*ast.Ident); ok && x.Op == token.AND && p.Info.Uses[id] == o {
					found = true
				}
			}
			return true
		})
	}
	return found
}

// leak marks storage that becomes reachable from a container.
func (fv *FV) leak(st *State, v Val) {
	if v.Cell != 0 {
		if c := st.cells[v.Cell]; c != nil {
			c.Leak = true
		}
	}
}

// convert adapts a value to a static type (boxing into interfaces).
func (fv *FV) convert(st *State, v Val, t types.Type) Val {
	g := fv.v.g
	if v.T == nil {
		return v
	}
	if b, ok := v.Typ.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return Val{T: g.Zero(t), Typ: t}
	}
	if isIface(t) && !isIface(v.Typ) {
		if n, ok := types.Unalias(v.Typ).(*types.Named); ok {
			if it := fv.v.detached[n.Obj()]; it != nil && types.Implements(t, it) {
				panic(unsupported{fmt.Sprintf("a value of detached type %s is used as %s", n, t), token.NoPos})
			}
		}
		fv.leak(st, v)
		return Val{T: g.Box(v.Typ, v.T), Typ: t}
	}
	if s := g.Sort(t); s != v.T.Sort {
		panic(unsupported{fmt.Sprintf("conversion from %s to %s", v.Typ, t), token.NoPos})
	}
	v.Typ = t
	return v
}

func (fv *FV) emit(st *State, kind, label string, props []string, pos token.Pos, goal *Term, spec string) {
	if fv.mode != modeEmit || st.dead {
		return
	}
	if b, ok := st.known(goal); ok && b {
		goal = True
	}
	pc := st.pc[:len(st.pc):len(st.pc)]
	if a, b := fv.when[0], fv.when[1]; kind == "frame" && a < b && b <= len(pc) { // the frame holds in every case
		pc = append(append([]*Term{}, pc[:a]...), pc[b:]...)
	}
	fv.obls = append(fv.obls, &Obligation{Func: fv.name, Label: label, Kind: kind, Props: props, Pos: fv.v.prog.RelPos(pos),
		PC: pc, Goal: goal, Spec: spec})
}

// typeAssume adds what the type system guarantees about a value.
func (fv *FV) typeAssume(st *State, t *Term, typ types.Type) {
	v := fv.v
	g := v.g
	if isIface(typ) {
		if n, ok := types.Unalias(typ).(*types.Named); ok && n.Obj().Pkg() != nil {
			if ts, ok := v.spec.Closed[qualName(n)]; ok {
				alts := []*Term{Eq(g.App("typ", t), Int(0))}
				for _, s := range ts {
					alts = append(alts, g.IsType(t, v.GoType(v.typesPkg(v.spec.ClosedPkg[qualName(n)]), s)))
				}
				st.assume(Or(alts...))
			} else if it := n.Underlying().(*types.Interface); it.NumMethods() > 0 {
				st.assume(Or(Eq(g.App("typ", t), Int(0)), g.IsType(t, typ)))
			}
		}
		return
	}
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		st.assume(Le(Int(0), t))
		if b.Kind() == types.Uint8 {
			st.assume(Lt(t, Int(256)))
		}
		return
	}
	if strings.HasPrefix(t.Sort, "Ref.") {
		for _, iv := range v.invariant(t, typ) {
			st.assume(Imp(Not(Eq(t, g.ZeroSort(t.Sort))), iv.t))
		}
		return
	}
	if p, ok := typ.Underlying().(*types.Pointer); ok && t.Sort == "Int" {
		_ = p
		st.assume(And(Le(Int(0), t), Lt(t, st.alloc)))
		return
	}
	if s, ok := typ.Underlying().(*types.Struct); ok && strings.HasPrefix(t.Sort, "S.") {
		for i := 0; i < s.NumFields(); i++ {
			if isIface(s.Field(i).Type()) || isPtr(s.Field(i).Type()) {
				fv.typeAssume(st, g.Sel(t, fieldName(s, i)), s.Field(i).Type())
			}
		}
	}
	if a, ok := typ.Underlying().(*types.Array); ok {
		st.assume(Eq(g.SeqLen(t), Int(a.Len())))
	}
}

func fieldName(s *types.Struct, i int) string {
	if n := s.Field(i).Name(); n != "_" {
		return n
	}
	return fmt.Sprintf("_%d", i)
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func sortedVarKeys(m map[VarKey]Val) []VarKey {
	var ks []VarKey
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := ks[i], ks[j]
		if a.Fr != b.Fr {
			return a.Fr < b.Fr
		}
		if a.Obj != nil && b.Obj != nil && a.Obj != b.Obj {
			if a.Obj.Pos() != b.Obj.Pos() {
				return a.Obj.Pos() < b.Obj.Pos()
			}
			return a.Obj.Name() < b.Obj.Name()
		}
		if (a.Obj == nil) != (b.Obj == nil) {
			return a.Obj == nil
		}
		return a.Aux < b.Aux
	})
	return ks
}
