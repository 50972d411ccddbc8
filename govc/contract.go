package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"time"
)

func (c *Contract) props() []string {
	seen := map[string]bool{}
	var out []string
	add := func(ps []string) {
		for _, p := range ps {
			if p != "" && !seen[p] {
				seen[p] = true
				out = append(out, p)
			}
		}
	}
	for _, l := range [][]Clause{c.Ensures, c.Requires, c.Witness} {
		for _, cl := range l {
			add(cl.Props)
		}
	}
	add(c.Safe)
	add(c.Term)
	add(c.Frame)
	add(strings.Split(c.Opts["props"], ","))
	return out
}

func clauseName(cl Clause, i int, kind string) string {
	if cl.Label != "" {
		return cl.Label
	}
	return fmt.Sprintf("%s#%d", kind, i+1)
}

// bindParams makes the environment of a contract.
func (fv *FV) bindParams(c *Contract, name string, args []Val, self *Val) map[string]STm {
	vars := map[string]STm{}
	if len(c.Params) != len(args) {
		panic(elabErr(fmt.Sprintf("%s:%d: contract of %s has %d parameters, the code has %d", c.File, c.Line, name, len(c.Params), len(args))))
	}
	for i, p := range c.Params {
		vars[p] = STm{args[i].T, args[i].Typ}
	}
	for i, p := range c.AltParams {
		if _, dup := vars[p]; dup {
			continue
		}
		if i == 0 {
			vars[p] = STm{fv.v.g.Box(args[0].Typ, args[0].T), c.AltIface}
		} else {
			vars[p] = STm{args[i].T, args[i].Typ}
		}
	}
	if self != nil {
		vars["self"] = STm{self.T, self.Typ}
	}
	for k, b := range c.Bound {
		if _, dup := vars[k]; !dup {
			vars[k] = b
		}
	}
	return vars
}

func (c *Contract) bindResults(vars map[string]STm, i int, r STm) {
	if i < len(c.AltResults) {
		vars[c.AltResults[i]] = r
	}
	if i < len(c.Results) {
		vars[c.Results[i]] = r
	}
}

// applyContract replaces a call by its contract.
func (fv *FV) applyContract(fr *Frame, c *Contract, name string, args []Val, sig *types.Signature, self *Val, pos token.Pos, st *State, k func(*State, Val)) {
	v := fv.v
	g := v.g
	c.Used = true
	fv.callees[name] = true
	for _, a := range args {
		fv.expose(st, a, pos)
	}
	vars := fv.bindParams(c, name, args, self)
	pkg := v.typesPkg(c.Pkg)
	env := &Env{v: v, pkg: pkg, vars: vars, st: st, lets: c.Lets}
	for i, cl := range c.Requires {
		t := env.Bool(cl.E)
		if b, ok := st.known(t); !ok || !b {
			fv.emit(st, "requires", "precondition "+clauseName(cl, i, "requires")+" of "+name, nil, pos, t, exprString(cl.E))
		}
		st.assume(t)
	}
	if st.dead {
		return
	}
	when := True
	for _, cl := range c.Whens {
		when = And(when, env.Bool(cl.E))
	}
	// termination of recursion
	if fv.c != nil && len(fv.c.Term) > 0 && fv.sameFunc(name) && len(c.Decreases) > 0 && fv.entryMeasure != nil {
		m := env.Elab(c.Decreases[0].E).T
		fv.emit(st, "terminates", "recursion decreases", fv.c.Term, pos, And(Le(Int(0), m), Lt(m, fv.entryMeasure)), exprString(c.Decreases[0].E))
	}
	// panics of the callee
	if fv.c != nil && len(fv.c.Safe) > 0 {
		switch {
		case len(c.Safe) > 0:
			for _, x := range c.SafeIf {
				fv.safe(st, name+" may panic", pos, env.Bool(x))
			}
		case c.Kind != "extern":
			fv.assumed[name+" does not panic (its panic freedom is not an obligation)"] = true
		}
	}
	pre := st.clone()
	for _, m := range c.Modifies {
		me := env
		p := fv.modTarget(me, m)
		h := st.Heap(v, p.typ)
		nv := g.Fresh("mod$"+fieldOr(m), g.Sort(p.typ))
		st.heap[heapKey(v, p.typ)] = g.Store(h, p.ref, nv)
		fv.typeAssume(st, nv, p.typ)
	}
	postVars := map[string]STm{}
	for kk, x := range vars {
		postVars[kk] = x
	}
	for _, mn := range c.Mutates {
		for i, pn := range c.Params {
			if pn != mn {
				continue
			}
			a := args[i]
			nv := g.Fresh("mut$"+mn, a.T.Sort)
			if strings.HasPrefix(a.T.Sort, "Seq.") {
				st.assume(Eq(g.SeqLen(nv), g.SeqLen(a.T)))
			}
			postVars[mn] = STm{nv, a.Typ}
			if a.Cell != 0 {
				cell := st.cells[a.Cell]
				if !cell.Own {
					fv.emit(st, "frame", "writes storage it does not own", nil, pos, False, "passes caller-owned storage to "+name+", which mutates it")
				} else {
					fv.emit(st, "frame", "writes only storage it owns", nil, pos, True, "call of "+name)
				}
				if a.Off == nil {
					cell.T = nv
				} else {
					nc := g.Fresh("cell", cell.T.Sort)
					j := bv("j", "Int")
					st.assume(Eq(g.SeqLen(nc), g.SeqLen(cell.T)))
					st.assume(Forall([]*Term{j}, Imp(And(Le(a.Off, j), Lt(j, Add(a.Off, a.Len))), Eq(g.SeqAt(nc, j), g.SeqAt(nv, Sub(j, a.Off)))), []*Term{g.SeqAt(nc, j)}))
					st.assume(Forall([]*Term{j}, Imp(And(Le(Int(0), j), Lt(j, g.SeqLen(nc)), Or(Lt(j, a.Off), Le(Add(a.Off, a.Len), j))), Eq(g.SeqAt(nc, j), g.SeqAt(cell.T, j))), []*Term{g.SeqAt(nc, j)}))
					cell.T = nc
				}
			} else if el, ok := g.seqLit(a.T); !(ok && len(el) == 0) {
				// storage of unknown origin
				fv.unknownMut(st, a, nv, name, pos)
			}
		}
	}
	var rs []Val
	rts := resTypes(sig)
	havocAlloc := false
	for _, rt := range rts {
		if isPtr(rt) && g.Sort(rt) == "Int" {
			havocAlloc = true
		}
	}
	if havocAlloc || c.Opts["allocates"] != "" {
		na := g.Fresh("alloc", "Int")
		st.assume(Le(st.alloc, na))
		st.alloc = na
	}
	for i, rt := range rts {
		rt = fr.typ(rt)
		hint := "res"
		if i < len(c.Results) {
			hint = c.Results[i]
		}
		var t *Term
		if c.Kind == "closure" {
			ts := []*Term{self.T}
			for _, a := range args {
				ts = append(ts, a.T)
			}
			t = v.pureApp("apply", i, rt, ts)
		} else if c.Kind == "extern" && c.Opts["nondet"] == "" || c.Opts["pure"] != "" {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, a.T)
			}
			t = v.pureApp(name, i, rt, ts)
		} else {
			t = g.Fresh(hint, g.Sort(rt))
		}
		r := Val{T: t, Typ: rt}
		fv.typeAssume(st, t, rt)
		if c.Fresh {
			switch rt.Underlying().(type) {
			case *types.Map, *types.Slice:
				r.Cell = fv.newCell(st, t, true)
			}
		}
		rs = append(rs, r)
		c.bindResults(postVars, i, STm{t, rt})
	}
	post := &Env{v: v, pkg: pkg, vars: postVars, oldVars: vars, st: st, old: pre, lets: c.Lets}
	for _, l := range [][]Clause{c.Ensures, c.Assumes} {
		for _, cl := range l {
			if v.mentionsTrace(cl.E, c.Lets) {
				continue // about the calls the body makes
			}
			st.assume(Imp(when, post.Bool(cl.E)))
		}
	}
	fv.appendTraces(c, name, postVars, st, pre)
	if st.dead {
		return
	}
	k(st, pack(rs))
}

func (fv *FV) unknownMut(st *State, a Val, nv *Term, name string, pos token.Pos) {
	if fv.c.Opts["noframe"] != "" {
		return
	}
	fv.emit(st, "frame", "writes storage it does not own", nil, pos, False, "passes storage of unknown origin to "+name)
}

func fieldOr(x *SExpr) string {
	for x.Kind == "un" || x.Kind == "field" {
		if x.Kind == "un" {
			x = x.Args[0]
		} else {
			return x.Name
		}
	}
	return x.Name
}

// modTarget resolves a modifies target *p.
func (fv *FV) modTarget(env *Env, m *SExpr) *Place {
	if p, ok := fv.v.ghostRef(m.Name); ok && m.Kind == "ident" {
		el, _ := derefType(p.Typ)
		return &Place{kind: "heap", ref: p.T, typ: el}
	}
	if m.Kind == "un" && m.Name == "*" {
		p := env.Elab(m.Args[0])
		el, ok := derefType(p.Typ)
		if !ok {
			env.fail(m, "modifies of a non-pointer")
		}
		return &Place{kind: "heap", ref: p.T, typ: el}
	}
	env.fail(m, "modifies target")
	return nil
}

func (fv *FV) sameFunc(name string) bool { return name == fv.name }

func (fv *FV) appendTraces(c *Contract, name string, vars map[string]STm, st, pre *State) {
	v := fv.v
	if c.Iface != "" {
		name = c.Iface
	} else if c.Kind != "iface" {
		return
	}
	ps, rs := c.Params, c.Results
	if c.Iface != "" && c.AltParams != nil {
		ps, rs = c.AltParams, c.AltResults
	}
	for tn, tr := range v.traces {
		if tr.decl.Pkg+"."+tr.decl.Iface+"."+tr.decl.Method != name {
			continue
		}
		tv := map[string]STm{}
		for i, p := range tr.decl.Params {
			tv[p] = vars[ps[i]]
		}
		for i, r := range tr.decl.Results {
			tv[r] = vars[rs[i]]
		}
		env := &Env{v: v, pkg: v.typesPkg(tr.decl.Pkg), vars: tv, oldVars: tv, st: st, old: pre}
		s := v.g.Sort(tr.typ)
		su := tr.typ.Underlying().(*types.Struct)
		var fs []*Term
		for i, e := range tr.decl.Exprs {
			fs = append(fs, env.coerce(env.Elab(e), su.Field(i).Type()).T)
		}
		rec := v.g.App("mk."+s, fs...)
		st.trace[tn] = v.g.SeqPush(st.Trace(v, tn), rec)
	}
}

// Verify generates the obligations of the function.
func (fv *FV) Verify() (err error) {
	v := fv.v
	v.cur = fv
	defer func() {
		v.cur = nil
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				p := ""
				if r.pos.IsValid() {
					p = v.prog.RelPos(r.pos) + ": "
				}
				err = fmt.Errorf("%sunsupported: %s", p, r.msg)
			case elabErr:
				err = fmt.Errorf("contract: %s", string(r))
			default:
				panic(r)
			}
		}
	}()
	if fv.deadline.IsZero() {
		fv.deadline = time.Now().Add(300 * time.Second)
	}
	c := fv.c
	g := v.g
	st := &State{vars: map[VarKey]Val{}, heap: map[string]*Term{}, trace: map[string]*Term{}, facts: map[string]bool{}, typ: map[string]int{},
		cells: map[int]*Cell{}, defers: map[int][]func(*State, func(*State)){}}
	st.alloc = g.Const("alloc0", "Int")
	st.assume(Le(Int(int64(1+len(v.spec.Ghosts))), st.alloc))
	for _, d := range v.spec.Ghosts {
		st.Heap(v, v.GoType(v.typesPkg(d.Pkg), d.Type))
	}
	nf := fv.newFrame(nil, fv.fi.Pkg, fv.fi.Name, 0)
	fv.top = nf
	fv.scanBoxed(nf, fv.fi.Decl.Body)
	sig := fv.fi.Obj.Type().(*types.Signature)
	var ps []*types.Var
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	if len(c.Params) != len(ps) {
		return fmt.Errorf("contract: %s has %d parameters in the contract and %d in the code", fv.name, len(c.Params), len(ps))
	}
	var args []Val
	for i, p := range ps {
		t := g.Const("in$"+fv.name+"$"+c.Params[i], g.Sort(p.Type()))
		val := Val{T: t, Typ: p.Type()}
		fv.typeAssume(st, t, p.Type())
		mut := false
		for _, m := range c.Mutates {
			if m == c.Params[i] {
				mut = true
			}
		}
		switch p.Type().Underlying().(type) {
		case *types.Map, *types.Slice:
			val.Cell = fv.newCell(st, t, mut)
			st.cells[val.Cell].Param = c.Params[i]
			fv.paramCells[c.Params[i]] = val.Cell
		}
		args = append(args, val)
		if p.Name() != "" && p.Name() != "_" {
			fv.declare(nf, st, p, val)
		}
	}
	fv.vars = fv.bindParams(c, fv.name, args, nil)
	for _, a := range args { // contents of parameters
		if el, isP := derefType(a.Typ); isP && a.T.Sort == "Int" {
			if isIface(el) {
				continue
			}
		}
	}
	fv.assumeInvariants(st)
	env := &Env{v: v, pkg: v.typesPkg(c.Pkg), vars: fv.vars, st: st, lets: c.Lets}
	for _, cl := range c.Requires {
		st.assume(env.Bool(cl.E))
	}
	fv.when[0] = len(st.pc)
	for _, cl := range c.Whens {
		if len(c.Modifies) > 0 || len(c.Mutates) > 0 {
			fv.unsup(fv.fi.Decl.Pos(), "when together with modifies or mutates")
		}
		st.assume(env.Bool(cl.E))
	}
	fv.when[1] = len(st.pc)
	fv.safeIf = True
	for _, x := range c.SafeIf {
		fv.safeIf = And(fv.safeIf, env.Bool(x))
	}
	if len(c.Decreases) > 0 && len(c.Decreases[0].Metas) == 0 {
		fv.entryMeasure = env.Elab(c.Decreases[0].E).T
	}
	fv.entry = st.clone()
	fv.push(fv.name)
	fv.runBody(nf, fv.fi.Decl.Body, sig, st, func(st *State, vs []Val) { fv.atReturn(st, vs) })
	return nil
}

func (fv *FV) assumeInvariants(st *State) {}

// mentionsTrace tells whether an expression refers to a call trace.
func (v *Verifier) mentionsTrace(x *SExpr, lets []SParam2) bool {
	if x == nil {
		return false
	}
	if x.Kind == "ident" {
		if _, ok := v.traces[x.Name]; ok {
			return true
		}
		for i, l := range lets {
			if l.Name == x.Name {
				return v.mentionsTrace(l.E, lets[:i])
			}
		}
	}
	for _, a := range x.Args {
		if v.mentionsTrace(a, lets) {
			return true
		}
	}
	return false
}

// invariant gives the declared invariant of an immutable heap type, of a reference p to it.
func (v *Verifier) invariant(p *Term, pt types.Type) []invClause {
	el, ok := derefType(pt)
	if !ok || !strings.HasPrefix(p.Sort, "Ref.") {
		return nil
	}
	n, ok := types.Unalias(el).(*types.Named)
	if !ok {
		return nil
	}
	var out []invClause
	for _, c := range v.spec.Invs {
		if c.Pkg+"."+strings.TrimPrefix(c.Target, "*") != qualName(n) {
			continue
		}
		env := &Env{v: v, pkg: v.typesPkg(c.Pkg), vars: map[string]STm{c.Params[0]: {p, pt}}, lets: c.Lets}
		for i, cl := range c.Requires {
			out = append(out, invClause{env.Bool(cl.E), clauseName(cl, i, "invariant"), cl.Props, exprString(cl.E)})
		}
	}
	return out
}

type invClause struct {
	t     *Term
	name  string
	props []string
	spec  string
}

func (fv *FV) atReturn(st *State, vs []Val) {
	if fv.mode != modeEmit || st.dead {
		return
	}
	fv.returns++
	fv.retPCs = append(fv.retPCs, st.pc)
	v := fv.v
	c := fv.c
	vars := map[string]STm{}
	for k, x := range fv.vars {
		vars[k] = x
	}
	for pn, id := range fv.paramCells {
		for _, m := range c.Mutates {
			if m == pn {
				vars[pn] = STm{st.cells[id].T, vars[pn].Typ}
			}
		}
	}
	for i := range vs {
		c.bindResults(vars, i, STm{vs[i].T, vs[i].Typ})
	}
	pos := fv.curPos
	env := &Env{v: v, pkg: v.typesPkg(c.Pkg), vars: vars, oldVars: fv.vars, st: st, old: fv.entry, lets: c.Lets}
	// closures returned under a function-type contract
	for i, r := range vs {
		fv.checkFuncType(st, r, i, env, pos)
	}
	for i, cl := range c.Ensures {
		t := env.Bool(cl.E)
		props := cl.Props
		fv.emit(st, "ensures", clauseName(cl, i, "ensures"), props, pos, t, exprString(cl.E))
	}
	if c.Fresh {
		for _, r := range vs {
			if r.Cell != 0 {
				fv.emit(st, "frame", "result is fresh storage", nil, pos, boolT(st.cells[r.Cell].Own && !st.cells[r.Cell].Leak), "fresh")
			} else if r.T.Sort != "Iface" && r.T.Op != "empty."+r.T.Sort {
				switch r.Typ.Underlying().(type) {
				case *types.Map, *types.Slice:
					fv.emit(st, "frame", "result is fresh storage", nil, pos, False, "fresh")
				}
			}
		}
	}
	fv.frame(st, env, pos)
}

// frame checks that only the declared objects changed.
func (fv *FV) frame(st *State, env *Env, pos token.Pos) {
	v := fv.v
	g := v.g
	c := fv.c
	for _, p := range sortedKeys(fv.paramCells) {
		if a, b := st.cells[fv.paramCells[p]], fv.entry.cells[fv.paramCells[p]]; a != nil && b != nil && !b.Own {
			fv.emit(st, "frame", "parameters keep their elements", nil, pos, Eq(a.T, b.T), p)
		}
	}
	if c.Opts["noframe"] != "" {
		return
	}
	envEntry := &Env{v: v, pkg: env.pkg, vars: fv.vars, st: fv.entry, lets: c.Lets}
	mods := map[string][]*Term{}
	for _, m := range c.Modifies {
		p := fv.modTarget(envEntry, m)
		mods[heapKey(v, p.typ)] = append(mods[heapKey(v, p.typ)], p.ref)
	}
	for _, hk := range sortedKeys(st.heap) {
		h := st.heap[hk]
		h0, ok := fv.entry.heap[hk]
		if !ok {
			h0 = &Term{Op: "H0$" + hk, Sort: h.Sort}
		}
		if same(h, h0) {
			continue
		}
		var idx []*Term
		b := h
		for b.Op == "store" {
			idx = append(idx, b.Args[1])
			b = b.Args[0]
		}
		alloc0 := fv.entry.alloc
		excl := func(r *Term) *Term {
			ds := []*Term{Le(alloc0, r)}
			for _, m := range mods[hk] {
				ds = append(ds, Eq(r, m))
			}
			return Or(ds...)
		}
		if !same(b, h0) {
			r := bv("r", "Int")
			fv.emit(st, "frame", "nothing outside the modifies clause changes", nil, pos,
				Forall([]*Term{r}, Imp(And(Lt(Int(0), r), Not(excl(r))), Eq(g.Select(h, r), g.Select(h0, r))), []*Term{g.Select(h, r)}), hk)
			continue
		}
		for _, r := range idx {
			if d, ok := Sub(r, alloc0).isInt(); ok && d >= 0 {
				continue
			}
			isMod := false
			for _, m := range mods[hk] {
				if same(m, r) {
					isMod = true
				}
			}
			if isMod {
				continue
			}
			fv.emit(st, "frame", "nothing outside the modifies clause changes", nil, pos,
				Or(excl(r), Eq(g.Select(h, r), g.Select(h0, r))), hk)
		}
	}
}

// checkFuncType verifies a returned closure against the contract of its function type.
func (fv *FV) checkFuncType(st *State, r Val, ri int, env *Env, pos token.Pos) {
	v := fv.v
	n, ok := types.Unalias(r.Typ).(*types.Named)
	if !ok {
		return
	}
	c, ok := v.byFType[qualName(n)]
	if !ok {
		return
	}
	// witness equations define the ghost functions of the fresh closure
	for _, cl := range fv.c.Witness {
		st.assume(env.Bool(cl.E))
	}
	clo, ok := fv.clos[r.T.Op]
	if !ok || clo.Lit == nil {
		return
	}
	fv.VerifyClosure(st.clone(), r, clo, c)
}

// VerifyClosure checks a function literal against a function-type contract.
func (fv *FV) VerifyClosure(st *State, f Val, clo *Closure, c *Contract) {
	v := fv.v
	g := v.g
	csig := clo.Fr.info.TypeOf(clo.Lit).(*types.Signature)
	nf := fv.newFrame(clo.Fr, clo.Fr.pkg, "closure", 1)
	fv.scanBoxed(nf, clo.Lit.Body)
	var args []Val
	na := g.Fresh("alloc", "Int")
	st.assume(Le(st.alloc, na))
	st.alloc = na
	for hk, h := range st.heap {
		st.heap[hk] = g.Fresh("H$"+hk, h.Sort)
	}
	for i := 0; i < csig.Params().Len(); i++ {
		p := csig.Params().At(i)
		t := g.Fresh("arg$"+p.Name(), g.Sort(p.Type()))
		fv.typeAssume(st, t, p.Type())
		a := Val{T: t, Typ: p.Type()}
		args = append(args, a)
		if p.Name() != "" && p.Name() != "_" {
			fv.declare(nf, st, p, a)
		}
	}
	vars := fv.bindParams(c, c.Target, args, &f)
	env := &Env{v: v, pkg: v.typesPkg(c.Pkg), vars: vars, st: st, lets: c.Lets}
	for _, cl := range c.Requires {
		st.assume(env.Bool(cl.E))
	}
	pre := st.clone()
	saveC, saveVars, saveEntry, saveCells := fv.c, fv.vars, fv.entry, fv.paramCells
	fv.paramCells = map[string]int{}
	if c.Kind == "closure" {
		n := *c
		if saveC != nil {
			n.Invs = append(append([]Clause{}, c.Invs...), saveC.Invs...)
		}
		fv.c, fv.vars, fv.entry = &n, vars, pre
	}
	fv.runBody(nf, clo.Lit.Body, csig, st, func(st *State, vs []Val) {
		pv := map[string]STm{}
		for k, x := range vars {
			pv[k] = x
		}
		for i := range vs {
			c.bindResults(pv, i, STm{vs[i].T, vs[i].Typ})
		}
		curC, curVars, curEntry := fv.c, fv.vars, fv.entry
		fv.c, fv.vars, fv.entry = c, vars, pre
		penv := &Env{v: v, pkg: v.typesPkg(c.Pkg), vars: pv, oldVars: vars, st: st, old: pre, lets: c.Lets}
		for i, cl := range c.Ensures {
			fv.emit(st, "ensures", c.Target+": "+clauseName(cl, i, "ensures"), cl.Props, clo.Lit.Pos(), penv.Bool(cl.E), exprString(cl.E))
		}
		fv.frame(st, penv, clo.Lit.Pos())
		fv.c, fv.vars, fv.entry = curC, curVars, curEntry
	})
	fv.c, fv.vars, fv.entry, fv.paramCells = saveC, saveVars, saveEntry, saveCells
}

func exprString(x *SExpr) string {
	if x == nil {
		return ""
	}
	a := func(i int) string { return exprString(x.Args[i]) }
	list := func(xs []*SExpr) string {
		var s []string
		for _, y := range xs {
			s = append(s, exprString(y))
		}
		return strings.Join(s, ", ")
	}
	switch x.Kind {
	case "ident", "int":
		return x.Name
	case "str":
		return fmt.Sprintf("%q", x.Name)
	case "un":
		return x.Name + a(0)
	case "bin":
		return "(" + a(0) + " " + x.Name + " " + a(1) + ")"
	case "if":
		return "(if " + a(0) + " then " + a(1) + " else " + a(2) + ")"
	case "let":
		return "let " + x.Name + " = " + a(0) + " in " + a(1)
	case "old":
		return "old(" + a(0) + ")"
	case "quant":
		var vs []string
		for _, p := range x.Vars {
			vs = append(vs, p.Name+" "+p.Type.String())
		}
		return "(" + x.Name + " " + strings.Join(vs, ", ") + " :: " + a(0) + ")"
	case "seq":
		return "seq(" + x.Name + ", " + a(0) + ", " + a(1) + ")"
	case "is":
		return a(0) + " is " + x.Type.String()
	case "assert":
		return a(0) + ".(" + x.Type.String() + ")"
	case "field":
		return a(0) + "." + x.Name
	case "index":
		return a(0) + "[" + a(1) + "]"
	case "slice":
		return a(0) + "[" + exprString(x.Args[1]) + ":" + exprString(x.Args[2]) + "]"
	case "upd":
		return a(0) + "[" + a(1) + " := " + a(2) + "]"
	case "call":
		return a(0) + "(" + list(x.Args[1:]) + ")"
	case "lit":
		return x.Type.String() + "{" + list(x.Args) + "}"
	}
	return x.Kind
}
