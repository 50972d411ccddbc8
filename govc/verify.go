package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func NewVerifier(p *Program, sp *Spec) (v *Verifier, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(elabErr); ok {
				v, err = nil, fmt.Errorf("%s", string(e))
				return
			}
			panic(r)
		}
	}()
	g := NewGen(p)
	v = &Verifier{prog: p, g: g, spec: sp, traces: map[string]*traceInfo{}, ghostTypes: map[string]types.Type{}, comps: map[string]string{},
		byFunc: map[string]*Contract{}, detached: map[*types.TypeName]*types.Interface{}, byIface: map[string]*Contract{}, byFType: map[string]*Contract{}, byClosure: map[string][]*Contract{}, globals: map[*types.Var]*Term{}, exts: map[string]bool{}}
	for _, n := range sp.Immutable {
		g.immut[n] = true
	}
	gp := types.NewPackage("govc", "govc")
	for _, t := range sp.Traces {
		var fs []*types.Var
		for _, f := range t.Fields {
			fs = append(fs, types.NewField(token.NoPos, gp, strings.ToUpper(f.Name[:1])+f.Name[1:], v.GoType(v.typesPkg(t.Pkg), f.Type), false))
		}
		n := strings.ToUpper(t.Name[:1]) + t.Name[1:]
		nt := types.NewNamed(types.NewTypeName(token.NoPos, gp, n, nil), types.NewStruct(fs, nil), nil)
		gp.Scope().Insert(nt.Obj())
		v.ghostTypes[n] = nt
		v.traces[t.Name] = &traceInfo{t, nt}
	}
	for _, c := range sp.Contracts {
		name := c.Pkg + "." + c.Target
		if c.Kind == "extern" {
			name = c.Target
		}
		switch c.Kind {
		case "func", "extern":
			if v.byFunc[name] != nil {
				return nil, fmt.Errorf("%s:%d: duplicate contract for %s", c.File, c.Line, name)
			}
			v.byFunc[name] = c
		case "iface":
			if strings.Count(c.Target, ".") == 2 { // an interface of another package: an assumed contract
				name = c.Target
			}
			v.byIface[name] = c
		case "closure":
			v.byClosure[c.Pkg+"."+c.Target] = append(v.byClosure[c.Pkg+"."+c.Target], c)
		case "functype":
			v.byFType[name] = c
		}
	}
	// interface contracts bind every implementation
	for _, in := range sortedKeys(v.byIface) {
		ic := v.byIface[in]
		i := strings.LastIndexByte(in, '.')
		j := strings.IndexByte(in, '.')
		if ic.Target == in {
			continue
		}
		tn, ok := v.typesPkg(in[:j]).Scope().Lookup(in[j+1 : i]).(*types.TypeName)
		if !ok {
			return nil, fmt.Errorf("%s:%d: no interface %s", ic.File, ic.Line, in[:i])
		}
		it := tn.Type().Underlying().(*types.Interface)
		for _, t := range p.Implementors(it) {
			obj, path, _ := types.LookupFieldOrMethod(t, true, tn.Pkg(), in[i+1:])
			m, ok := obj.(*types.Func)
			if !ok || len(path) != 1 {
				continue
			}
			fn := funcName(m)
			c := v.byFunc[fn]
			if c != nil && c.Opts["detached"] != "" {
				if n, ok := types.Unalias(t).(*types.Named); ok {
					v.detached[n.Obj()] = it
				}
				continue
			}
			if c == nil {
				n := *ic
				n.Kind = "func"
				n.Iface = in
				n.AltIface = tn.Type()
				n.AltParams, n.AltResults = nil, nil
				n.AltParams = append([]string{}, ic.Params...)
				n.AltResults = append([]string{}, ic.Results...)
				n.Params = append([]string{}, ic.Params...)
				n.Params[0] = "self·"
				n.Results = nil
				n.Opts = map[string]string{}
				for k, x := range ic.Opts {
					n.Opts[k] = x
				}
				n.Pkg = ic.Pkg
				v.byFunc[fn] = &n
				continue
			}
			if len(c.Requires) > 0 {
				return nil, fmt.Errorf("%s:%d: %s strengthens the precondition of %s", c.File, c.Line, fn, in)
			}
			if c.Pkg != ic.Pkg {
				return nil, fmt.Errorf("%s: packages of %s and %s differ", c.File, fn, in)
			}
			c.Iface, c.AltIface = in, tn.Type()
			c.AltParams, c.AltResults = ic.Params, ic.Results
			c.Requires = append(c.Requires, ic.Requires...)
			if len(c.Whens) > 0 {
				return nil, fmt.Errorf("%s:%d: %s restricts %s", c.File, c.Line, fn, in)
			}
			c.Whens = append(c.Whens, ic.Whens...)
			c.Ensures = append(append([]Clause{}, ic.Ensures...), c.Ensures...)
			c.Assumes = append(append([]Clause{}, ic.Assumes...), c.Assumes...)
			c.Modifies = append(append([]*SExpr{}, ic.Modifies...), c.Modifies...)
			c.Lets = append(append([]SParam2{}, ic.Lets...), c.Lets...)
			c.Invs = append(append([]Clause{}, ic.Invs...), c.Invs...)
			c.Safe = append(c.Safe, ic.Safe...)
			c.SafeIf = append(c.SafeIf, ic.SafeIf...)
			c.Frame = append(c.Frame, ic.Frame...)
			c.Term = append(c.Term, ic.Term...)
			if len(c.Decreases) == 0 {
				c.Decreases = ic.Decreases
			}
		}
	}
	return v, nil
}

// axiomTerm elaborates an axiom or lemma as a closed formula.
func (v *Verifier) quantified(a *AxiomDecl) (bound []*Term, body *Term, trigs [][]*Term) {
	env := &Env{v: v, pkg: v.typesPkg(a.Pkg), vars: map[string]STm{}}
	for _, p := range a.Vars {
		t := v.GoType(env.pkg, p.Type)
		b := bv(p.Name, v.g.Sort(t))
		bound = append(bound, b)
		env = env.with(p.Name, STm{b, t})
	}
	hm, hb := v.heapVars(env.pkg, a.Reads, false)
	env.heaps = hm
	bound = append(bound, hb...)
	body = env.Bool(a.E)
	for _, tr := range a.Trigs {
		var ts []*Term
		for _, t := range tr {
			ts = append(ts, env.Elab(t).T)
		}
		trigs = append(trigs, ts)
	}
	return
}

func needsOf(body *Term, trigs [][]*Term) []string {
	seen := map[string]bool{}
	var out []string
	coll := func(t *Term) {
		t.walk(func(x *Term) {
			if strings.HasPrefix(x.Op, "fn$") || strings.HasPrefix(x.Op, "ext$") {
				if !seen[x.Op] {
					seen[x.Op] = true
					out = append(out, x.Op)
				}
			}
		})
	}
	if len(trigs) > 0 {
		for _, t := range trigs[0] {
			coll(t)
		}
	} else {
		coll(body)
	}
	return out
}

// lowFuel restates a lemma over the lowest unfolding level of the recursive functions in its triggers, so that it
// also applies to the terms that unfolding a definition produces.
func (v *Verifier) lowFuel(t *Term, trigs [][]*Term) *Term {
	low := map[string]string{}
	for _, tr := range trigs {
		for _, x := range tr {
			x.walk(func(y *Term) {
				if n := strings.TrimPrefix(y.Op, "fn$"); n != y.Op {
					if f := v.spec.Fns[n]; f != nil && f.Rec && f.Fuel > 0 {
						low[y.Op] = fmt.Sprintf("%s!%d", y.Op, f.Fuel)
					}
				}
			})
		}
	}
	if len(low) == 0 {
		return t
	}
	return t.renameOps(low)
}

// Lemmas generates the obligations of all lemmas and makes them (and the axioms) available.
func (v *Verifier) Lemmas() (obls []*Obligation, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(elabErr); ok {
				err = fmt.Errorf("%s", string(e))
				return
			}
			panic(r)
		}
	}()
	g := v.g
	ord := 0
	for _, a := range v.spec.Axioms {
		bound, body, trigs := v.quantified(a)
		ord++
		var t *Term
		if len(bound) > 0 {
			t = Forall(bound, body, trigs...)
		} else {
			t = body
		}
		ax := &Axiom{Name: a.Name, T: t, Needs: needsOf(body, trigs), Lemma: ord}
		if !a.Lemma {
			ax.Assumed = true
			ax.Lemma = 0
			g.axioms = append(g.axioms, ax)
			continue
		}
		ax.T = v.lowFuel(ax.T, trigs)
		// proof obligation: arbitrary values, induction hypothesis on smaller ones
		env := &Env{v: v, pkg: v.typesPkg(a.Pkg), vars: map[string]STm{}}
		var ind *Term
		env.heaps, _ = v.heapVars(env.pkg, a.Reads, true)
		for _, p := range a.Vars {
			t := v.GoType(env.pkg, p.Type)
			c := g.Fresh("l$"+p.Name, g.Sort(t))
			env.vars[p.Name] = STm{c, t}
			if p.Name == a.Induct {
				ind = c
			}
		}
		var pc []*Term
		if a.Induct != "" {
			b2, body2, tr2 := v.quantified(a)
			var bi *Term
			for i, p := range a.Vars {
				if p.Name == a.Induct {
					bi = b2[i]
				}
			}
			if bi == nil {
				return nil, fmt.Errorf("%s:%d: no variable %s", a.File, a.Line, a.Induct)
			}
			ms := func(x *Term) *Term {
				k, _ := sortOfOp(x.Sort)
				switch {
				case x.Sort == "Int":
					return x
				case x.Sort == "Iface":
					return g.App("rank", x)
				case k == "Seq":
					return g.SeqLen(x)
				case x.Sort == "Str":
					return g.App("slen", x)
				}
				panic(elabErr("induction on " + x.Sort))
			}
			ih := Forall(b2, Imp(And(Le(Int(0), ms(bi)), Lt(ms(bi), ms(ind))), body2), tr2...)
			pc = append(pc, v.lowFuel(ih, tr2))
		}
		// premises are assumed, the conclusion proved
		x := a.E
		for x.Kind == "bin" && x.Name == "==>" {
			pc = append(pc, env.Bool(x.Args[0]))
			x = x.Args[1]
		}
		goal := env.Bool(x)
		obls = append(obls, &Obligation{Func: "lemma " + a.Name, Label: a.Name, Kind: "lemma", Props: a.Props, Pos: fmt.Sprintf("%s:%d", filepath.Base(a.File), a.Line),
			PC: pc, Goal: goal, Spec: exprString(a.E), Lemma: ord})
		g.axioms = append(g.axioms, ax)
	}
	return obls, nil
}

// Scan checks the syntactic conditions behind the immutability declarations: fields of immutable types
// are assigned nowhere except in the listed linking functions.
func (v *Verifier) Scan() []string {
	return append(v.prog.scanImmutable(v.g.immut, v.spec.LinkOK), v.prog.scanNilSlices(v.spec.NilSlice)...)
}

type FuncResult struct {
	Name    string
	Err     string
	Obls    []*Obligation
	Returns int
	Loops   map[string]int
	Callees []string
	Inlined []string
	Exts    []string
	Assumed []string
	Trusted string
	Vacuous bool
	Seconds float64
	Missing bool
	fv      *FV
}

// VerifyFunc generates the obligations of one function under contract.
func (v *Verifier) VerifyFunc(name string) *FuncResult {
	c := v.byFunc[name]
	r := &FuncResult{Name: name}
	t0 := time.Now()
	if c.Trusted != "" {
		r.Trusted = c.Trusted
		return r
	}
	fi := v.prog.Funcs[name]
	if fi == nil {
		r.Missing = true
		r.Err = "no such function in the current source"
		return r
	}
	fv := v.NewFV(name, fi, c)
	r.fv = fv
	if err := fv.Verify(); err != nil {
		r.Err = err.Error()
	}
	r.Obls = fv.obls
	r.Returns = fv.returns
	r.Loops = fv.loopInv
	r.Callees = keysOf(fv.callees)
	r.Inlined = keysOf(fv.inlined)
	r.Exts = keysOf(fv.exts)
	r.Assumed = keysOf(fv.assumed)
	r.Seconds = time.Since(t0).Seconds()
	return r
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Discharge proves obligations in parallel.
func (v *Verifier) Discharge(obls []*Obligation, timeout time.Duration, thorough bool) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 10)
	for _, o := range obls {
		if o.OK || o.Result.Status != "" {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Obligation) {
			defer wg.Done()
			defer func() { <-sem }()
			o.Result = v.g.Prove(Query{PC: o.PC, Goal: o.Goal, Lemma: o.Lemma}, timeout, thorough)
			o.OK = o.Result.Status == "unsat"
		}(o)
	}
	wg.Wait()
}

// Vacuous reports whether the assumptions at function entry, or at every return, are contradictory.
func (v *Verifier) Vacuous(r *FuncResult) bool {
	if r.fv == nil || r.fv.entry == nil {
		return false
	}
	if v.g.Prove(Query{PC: r.fv.entry.pc, Goal: False}, 2*time.Second, false).Status == "unsat" {
		return true
	}
	if len(r.fv.retPCs) == 0 {
		return r.Err == "" && r.Returns == 0 && r.fv.c.Opts["panics"] == ""
	}
	for _, pc := range r.fv.retPCs {
		if v.g.Prove(Query{PC: pc, Goal: False}, 2*time.Second, false).Status != "unsat" {
			return false
		}
	}
	return true
}

func readSpecs(dir string) (*Spec, error) {
	sp := NewSpec()
	fs, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := ParseSpec(sp, filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return sp, nil
}
