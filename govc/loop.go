package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

// loopDef is the common form of all loops.
type loopDef struct {
	node    ast.Node
	fr      *Frame
	label   string
	kind    string
	test    func(st *State, body, exit nextFn)
	body    []ast.Stmt
	post    func(st *State, next nextFn)
	cond    ast.Expr
	idx     *VarKey
	visited *VarKey
	ranged  *Val
	builtin []func(s *State) *Term // facts that hold at the head by construction, relative to the head state
	always  bool                   // terminates by construction
}

type cand struct {
	name string
	at   func(s *State) *Term
	key  string
}

// modset describes what a loop may change.
type modset struct {
	vars   map[VarKey]bool
	noOwn  map[VarKey]bool
	cells  map[int]bool
	leak   map[int]bool
	heap   map[string][]*Term // nil entry in allHeap: only these references
	all    map[string]bool
	traces map[string]bool
	alloc  bool
}

func newModset() *modset {
	return &modset{vars: map[VarKey]bool{}, noOwn: map[VarKey]bool{}, cells: map[int]bool{}, leak: map[int]bool{}, heap: map[string][]*Term{}, all: map[string]bool{}, traces: map[string]bool{}}
}

func deadJumps(j *jump) *jump {
	if j == nil {
		return nil
	}
	n := &jump{label: j.label, isLoop: j.isLoop, up: deadJumps(j.up)}
	if j.brk != nil {
		n.brk = func(*State) {}
	}
	if j.cont != nil {
		n.cont = func(*State) {}
	}
	return n
}

func freshNo(op string) int {
	i := strings.LastIndexByte(op, '!')
	if i < 0 {
		return -1
	}
	n := 0
	for _, c := range op[i+1:] {
		if c < '0' || c > '9' {
			return -1
		}
		n = n*10 + int(c-'0')
	}
	return n
}

func (fv *FV) forStmt(fr *Frame, s *ast.ForStmt, st *State, j *jump, ret retFn, label string, next nextFn) {
	run := func(st *State) {
		L := &loopDef{node: s, fr: fr, label: label, kind: "for", body: s.Body.List, cond: s.Cond}
		L.test = func(st *State, body, exit nextFn) {
			if s.Cond == nil {
				body(st)
				return
			}
			fv.cond(fr, s.Cond, st, body, exit)
		}
		L.post = func(st *State, next nextFn) {
			if s.Post == nil {
				next(st)
				return
			}
			fv.stmt(fr, s.Post, st, nil, ret, "", next)
		}
		fv.loop(L, st, j, ret, next)
	}
	if s.Init != nil {
		fv.stmt(fr, s.Init, st, j, ret, "", run)
		return
	}
	run(st)
}

func (fv *FV) rangeVars(fr *Frame, s *ast.RangeStmt, st *State, key, val *Val) {
	set := func(x ast.Expr, v *Val) {
		if x == nil || v == nil {
			return
		}
		if id, ok := x.(*ast.Ident); ok {
			if id.Name == "_" {
				return
			}
			if s.Tok == token.DEFINE {
				if o := fr.info.Defs[id]; o != nil {
					fv.declare(fr, st, o, *v)
					return
				}
			}
		}
		fv.place(fr, x, st, func(_ *State, p *Place) { fv.store(fr, st, p, *v, x.Pos()) })
	}
	set(s.Key, key)
	set(s.Value, val)
}

func (fv *FV) rangeStmt(fr *Frame, s *ast.RangeStmt, st *State, j *jump, ret retFn, label string, next nextFn) {
	g := fv.v.g
	fv.eval(fr, s.X, st, func(st *State, x Val) {
		if el, isP := derefType(x.Typ); isP {
			x = fv.derefVal(st, x, el, s.Pos())
		}
		hid := VarKey{Fr: fr.id, Aux: fmt.Sprintf("idx@%d", s.Pos())}
		L := &loopDef{node: s, fr: fr, label: label, kind: "range", body: s.Body.List, idx: &hid, ranged: &x, always: true}
		bump := func(st *State, n *Term) { st.vars[hid] = Val{T: n, Typ: tInt} }
		switch u := x.Typ.Underlying().(type) {
		case *types.Slice, *types.Array:
			var et types.Type
			if sl, ok := u.(*types.Slice); ok {
				et = fr.typ(sl.Elem())
			} else {
				et = fr.typ(u.(*types.Array).Elem())
				x.Cell = 0 // the array is copied
			}
			n := g.SeqLen(x.T)
			elem := func(st *State, i *Term) Val {
				e := Val{T: g.SeqAt(fv.cur(st, x).T, i), Typ: et}
				fv.typeAssume(st, e.T, et)
				return e
			}
			if c, ok := n.isInt(); ok && c <= 6 {
				var it func(st *State, i int64)
				it = func(st *State, i int64) {
					if st.dead {
						return
					}
					if i == c {
						next(st)
						return
					}
					e := elem(st, Int(i))
					fv.rangeVars(fr, s, st, &Val{T: Int(i), Typ: tInt}, &e)
					nj := &jump{label: label, isLoop: true, brk: next, cont: func(st *State) { it(st, i+1) }, up: j}
					fv.block(fr, s.Body.List, st, nj, ret, func(st *State) { it(st, i+1) })
				}
				it(st, 0)
				return
			}
			L.test = func(st *State, body, exit nextFn) {
				i := st.vars[hid].T
				fv.fork(st, Lt(i, n), func(st *State) {
					e := elem(st, i)
					fv.rangeVars(fr, s, st, &Val{T: i, Typ: tInt}, &e)
					body(st)
				}, exit)
			}
			L.post = func(st *State, next nextFn) { bump(st, Add(st.vars[hid].T, Int(1))); next(st) }
			L.builtin = append(L.builtin, func(s *State) *Term { i := s.vars[hid].T; return And(Le(Int(0), i), Le(i, n)) })
			bump(st, Int(0))
			fv.loop(L, st, j, ret, next)
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				n := g.App("slen", x.T)
				L.test = func(st *State, body, exit nextFn) {
					i := st.vars[hid].T
					fv.fork(st, Lt(i, n), func(st *State) {
						b := g.App("sat", x.T, i)
						r := g.Fresh("rune", "Int")
						w := g.Fresh("width", "Int")
						st.assume(Imp(Lt(b, Int(128)), And(Eq(r, b), Eq(w, Int(1)))))
						st.assume(Imp(Le(Int(128), b), Le(Int(128), r)))
						st.assume(And(Le(Int(1), w), Le(w, Int(4)), Le(Add(i, w), n)))
						st.vars[VarKey{Fr: hid.Fr, Aux: "w" + hid.Aux}] = Val{T: w, Typ: tInt}
						fv.rangeVars(fr, s, st, &Val{T: i, Typ: tInt}, &Val{T: r, Typ: types.Typ[types.Rune]})
						body(st)
					}, exit)
				}
				L.post = func(st *State, next nextFn) {
					bump(st, Add(st.vars[hid].T, st.vars[VarKey{Fr: hid.Fr, Aux: "w" + hid.Aux}].T))
					next(st)
				}
				L.builtin = append(L.builtin, func(s *State) *Term { i := s.vars[hid].T; return And(Le(Int(0), i), Le(i, n)) })
				bump(st, Int(0))
				fv.loop(L, st, j, ret, next)
				return
			}
			L.test = func(st *State, body, exit nextFn) {
				i := st.vars[hid].T
				fv.fork(st, Lt(i, x.T), func(st *State) {
					fv.rangeVars(fr, s, st, &Val{T: i, Typ: x.Typ}, nil)
					body(st)
				}, exit)
			}
			L.post = func(st *State, next nextFn) { bump(st, Add(st.vars[hid].T, Int(1))); next(st) }
			L.builtin = append(L.builtin, func(s *State) *Term {
				i := s.vars[hid].T
				return And(Le(Int(0), i), Or(Le(i, x.T), Eq(i, Int(0))))
			})
			bump(st, Int(0))
			fv.loop(L, st, j, ret, next)
		case *types.Map:
			kt, vt := fr.typ(u.Key()), fr.typ(u.Elem())
			ks := g.Sort(kt)
			ss := g.SetSort(ks)
			vis := VarKey{Fr: fr.id, Aux: fmt.Sprintf("visited@%d", s.Pos())}
			kk := VarKey{Fr: fr.id, Aux: fmt.Sprintf("key@%d", s.Pos())}
			L.idx = nil
			L.visited = &vis
			m0 := x.T
			L.test = func(st *State, body, exit nextFn) {
				vs := st.vars[vis].T
				cur := fv.cur(st, x).T
				other := st.clone()
				k := g.Fresh("key", ks)
				st.assume(g.MapDom(cur, k))
				st.assume(Not(g.SetMem(vs, k)))
				if !st.dead {
					fv.typeAssume(st, k, kt)
					st.vars[kk] = Val{T: k, Typ: kt}
					e := Val{T: g.MapVal(cur, k), Typ: vt}
					fv.typeAssume(st, e.T, vt)
					fv.rangeVars(fr, s, st, &Val{T: k, Typ: kt}, &e)
					body(st)
				}
				q := bv("k", ks)
				c2 := fv.cur(other, x).T
				other.assume(Forall([]*Term{q}, Imp(And(g.MapDom(m0, q), g.MapDom(c2, q)), g.SetMem(vs, q)), []*Term{g.SetMem(vs, q)}, []*Term{g.MapDom(m0, q)}))
				if !other.dead {
					exit(other)
				}
			}
			L.post = func(st *State, next nextFn) {
				st.vars[vis] = Val{T: g.App("swith."+ss, st.vars[vis].T, st.vars[kk].T), Typ: types.Typ[types.Invalid]}
				next(st)
			}
			st.vars[vis] = Val{T: g.App("sempty." + ss), Typ: types.Typ[types.Invalid]}
			fv.loop(L, st, j, ret, next)
		default:
			fv.unsup(s.Pos(), "range over %s", x.Typ)
		}
	})
}

// backEdges runs the loop body once from a head state and collects the states at the back edge.
func (fv *FV) backEdges(L *loopDef, head *State, j *jump, mode int) []*State {
	save := fv.mode
	fv.mode = mode
	defer func() { fv.mode = save }()
	var out []*State
	collect := func(s *State) {
		if !s.dead {
			out = append(out, s)
		}
	}
	back := func(s *State) { L.post(s, collect) }
	nj := &jump{label: L.label, isLoop: true, brk: func(*State) {}, cont: back, up: deadJumps(j)}
	L.test(head, func(s *State) {
		fv.block(L.fr, L.body, s, nj, func(*State, []Val) {}, back)
	}, func(*State) {})
	return out
}

func (fv *FV) analyse(L *loopDef, st *State, j *jump) *modset {
	m := newModset()
	for round := 0; ; round++ {
		if round > 12 {
			fv.unsup(L.node.Pos(), "loop effects do not stabilise")
		}
		mark := fv.v.g.fresh
		head := fv.havoc(L, st.clone(), m)
		h := head.clone()
		bes := fv.backEdges(L, head, j, modeDry)
		changed := false
		for _, b := range bes {
			for k, v := range h.vars {
				w, ok := b.vars[k]
				if !ok {
					continue
				}
				if !m.vars[k] && (!same(v.T, w.T) || v.Cell != w.Cell) {
					m.vars[k] = true
					changed = true
				}
				if m.vars[k] && v.Cell != 0 && !m.noOwn[k] {
					hc := h.cells[v.Cell]
					if hc != nil && hc.Own {
						bc := b.cells[w.Cell]
						bad := w.Cell == 0 || bc == nil || !bc.Own || bc.Leak
						if w.Cell != 0 {
							for k2, w2 := range b.vars {
								if k2 != k && w2.Cell == w.Cell {
									if _, live := h.vars[k2]; live {
										bad = true
									}
								}
							}
						}
						if bad {
							m.noOwn[k] = true
							changed = true
						}
					}
				}
			}
			for id, c := range h.cells {
				bc := b.cells[id]
				if bc == nil {
					continue
				}
				if !m.cells[id] && !same(c.T, bc.T) {
					m.cells[id] = true
					changed = true
				}
				if bc.Leak && !c.Leak && !m.leak[id] {
					m.leak[id] = true
					changed = true
				}
			}
			for hk, ht := range b.heap {
				h0, ok := h.heap[hk]
				if !ok {
					h0 = &Term{Op: "H0$" + hk, Sort: ht.Sort}
				}
				if m.all[hk] || same(h0, ht) {
					continue
				}
				x := ht
				b0 := h0
				for b0.Op == "store" {
					b0 = b0.Args[0]
				}
				for x.Op == "store" {
					ref := x.Args[1]
					if same(fv.v.g.Select(h0, ref), x.Args[2]) {
						x = x.Args[0]
						continue
					}
					inv := true
					isNew := false
					if d, ok := Sub(ref, h.alloc).isInt(); ok && d >= 0 {
						isNew = true
					}
					ref.walk(func(t *Term) {
						if freshNo(t.Op) > mark {
							inv = false
						}
					})
					if isNew {
						// an object allocated in this iteration: arbitrary at the head
					} else if inv {
						dup := false
						for _, r := range m.heap[hk] {
							if same(r, ref) {
								dup = true
							}
						}
						if !dup {
							m.heap[hk] = append(m.heap[hk], ref)
							changed = true
						}
					} else {
						m.all[hk] = true
						changed = true
					}
					x = x.Args[0]
				}
				if !same(x, b0) && !m.all[hk] {
					m.all[hk] = true
					changed = true
				}
			}
			for tn, tt := range b.trace {
				t0, ok := h.trace[tn]
				if !ok {
					t0 = h.Trace(fv.v, tn)
				}
				if !m.traces[tn] && !same(t0, tt) {
					m.traces[tn] = true
					changed = true
				}
			}
			if !m.alloc && !same(h.alloc, b.alloc) {
				m.alloc = true
				changed = true
			}
		}
		if !changed {
			return m
		}
	}
}

// havoc forgets what the loop may change.
func (fv *FV) havoc(L *loopDef, st *State, m *modset) *State {
	v := fv.v
	g := v.g
	if m.alloc {
		na := g.Fresh("alloc", "Int")
		st.assume(Le(st.alloc, na))
		st.alloc = na
	}
	var ids []int
	for id := range st.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		c := st.cells[id]
		if m.cells[id] {
			n := g.Fresh("cell", c.T.Sort)
			if strings.HasPrefix(c.T.Sort, "Seq.") {
				st.assume(Eq(g.SeqLen(n), g.SeqLen(c.T)))
			}
			c.T = n
		}
		if m.leak[id] {
			c.Leak = true
		}
	}
	for _, k := range sortedVarKeys(st.vars) {
		if !m.vars[k] {
			continue
		}
		o := st.vars[k]
		hint := k.Aux
		if k.Obj != nil {
			hint = k.Obj.Name()
		}
		if i := strings.IndexByte(hint, '@'); i >= 0 {
			hint = hint[:i]
		}
		n := Val{T: g.Fresh(hint, o.T.Sort), Typ: o.Typ}
		if o.Cell != 0 {
			oc := st.cells[o.Cell]
			_, isArr := o.Typ.Underlying().(*types.Array)
			own := oc.Own && !oc.Leak && !m.noOwn[k]
			if own && !isArr {
				for k2, o2 := range st.vars {
					if k2 != k && o2.Cell == o.Cell {
						own = false
					}
				}
			}
			n.Cell = fv.newCell(st, n.T, own)
		} else if el, ok := g.seqLit(o.T); ok && len(el) == 0 && !m.noOwn[k] {
			// a nil slice that the loop grows
			n.Cell = fv.newCell(st, n.T, true)
		}
		if o.Typ != nil && o.Typ != types.Typ[types.Invalid] {
			fv.typeAssume(st, n.T, o.Typ)
		}
		st.vars[k] = n
	}
	for _, hk := range sortedKeys(m.all) {
		srt := ""
		if h, ok := st.heap[hk]; ok {
			srt = h.Sort
		} else {
			srt = g.syms["H0$"+hk].Res
		}
		st.heap[hk] = g.Fresh("H$"+hk, srt)
	}
	for _, hk := range sortedKeys(m.heap) {
		if m.all[hk] {
			continue
		}
		h, ok := st.heap[hk]
		if !ok {
			h = &Term{Op: "H0$" + hk, Sort: g.syms["H0$"+hk].Res}
		}
		es := strings.TrimSuffix(strings.TrimPrefix(h.Sort, "(Array Int "), ")")
		es = strings.Trim(es, "|")
		for _, r := range m.heap[hk] {
			nv := g.Fresh("h", es)
			h = g.Store(h, r, nv)
		}
		st.heap[hk] = h
	}
	for _, tn := range sortedKeys(m.traces) {
		st.trace[tn] = g.Fresh("trace$"+tn, st.Trace(v, tn).Sort)
	}
	for _, b := range L.builtin {
		st.assume(b(st))
	}
	if L.visited != nil {
		stable := true
		if L.ranged.Cell != 0 && m.cells[L.ranged.Cell] {
			stable = false
		}
		if stable {
			q := bv("k", "")
			vs := st.vars[*L.visited].T
			q.Sort = g.sorts[vs.Sort].Key
			st.assume(Forall([]*Term{q}, Imp(g.SetMem(vs, q), g.MapDom(L.ranged.T, q)), []*Term{g.SetMem(vs, q)}))
		}
	}
	return st
}

func keyName(k VarKey) string {
	if k.Obj != nil {
		return k.Obj.Name()
	}
	if i := strings.IndexByte(k.Aux, '@'); i >= 0 {
		return k.Aux[:i]
	}
	return k.Aux
}

// valueAt reads a variable slot in a state.
func (fv *FV) valueAt(k VarKey, boxed bool, el types.Type) func(s *State) (STm, bool) {
	return func(s *State) (STm, bool) {
		v, ok := s.vars[k]
		if !ok || v.T == nil {
			return STm{}, false
		}
		if boxed {
			return STm{fv.v.g.Select(s.Heap(fv.v, el), v.T), el}, true
		}
		return STm{fv.cur(s, v).T, v.Typ}, true
	}
}

type local struct {
	name string
	typ  types.Type
	get  func(s *State) (STm, bool)
	kind string // "", idx, visited
	mod  bool
}

func (fv *FV) locals(L *loopDef, st *State, m *modset) []local {
	var out []local
	chain := map[int]*Frame{}
	for f := L.fr; f != nil; f = f.up {
		chain[f.id] = f
	}
	chain[fv.top.id] = fv.top
	seen := map[string]bool{}
	for _, k := range sortedVarKeys(st.vars) {
		fr, ok := chain[k.Fr]
		if !ok {
			continue
		}
		v := st.vars[k]
		if k.Obj == nil {
			if strings.HasPrefix(k.Aux, "idx@") {
				out = append(out, local{"idx", tInt, fv.valueAt(k, false, nil), "idx", m.vars[k]})
			} else if strings.HasPrefix(k.Aux, "visited@") {
				out = append(out, local{"visited", nil, fv.valueAt(k, false, nil), "visited", m.vars[k]})
			}
			continue
		}
		if fr.isBoxed(k.Obj) {
			el, _ := derefType(v.Typ)
			mod := m.all[heapKey(fv.v, el)]
			for _, r := range m.heap[heapKey(fv.v, el)] {
				if same(r, v.T) {
					mod = true
				}
			}
			out = append(out, local{k.Obj.Name(), el, fv.valueAt(k, true, el), "", mod})
		} else {
			out = append(out, local{k.Obj.Name(), v.Typ, fv.valueAt(k, false, nil), "", m.vars[k] || v.Cell != 0 && m.cells[v.Cell]})
		}
	}
	_ = seen
	if L.ranged != nil && L.idx != nil && strings.HasPrefix(L.ranged.T.Sort, "Seq.") { // what an unnamed slice that is ranged over holds
		if rs, ok := L.node.(*ast.RangeStmt); ok {
			if _, named := ast.Unparen(rs.X).(*ast.Ident); !named {
				r := *L.ranged
				out = append(out, local{"ranged", r.Typ, func(s *State) (STm, bool) { return STm{fv.cur(s, r).T, r.Typ}, true }, "ranged", false})
			}
		}
	}
	// the storage a mutated slice parameter came with, however the variable was re-sliced since
	for _, pn := range sortedKeys(fv.paramCells) {
		id := fv.paramCells[pn]
		c := st.cells[id]
		if c == nil || !c.Own {
			continue
		}
		typ := fv.vars[pn].Typ
		out = append(out, local{pn + "·storage", typ, func(s *State) (STm, bool) {
			c := s.cells[id]
			if c == nil {
				return STm{}, false
			}
			return STm{c.T, typ}, true
		}, "", m.cells[id]})
	}
	return out
}

func (fv *FV) candidates(L *loopDef, st *State, m *modset) []cand {
	g := fv.v.g
	var out []cand
	ls := fv.locals(L, st, m)
	add := func(n string, at func(s *State) *Term) { out = append(out, cand{name: n, at: at}) }
	var seqs []local
	for _, l := range ls {
		if l.typ != nil {
			if _, ok := l.typ.Underlying().(*types.Slice); ok {
				seqs = append(seqs, l)
			}
		}
	}
	for _, l := range ls {
		l := l
		if !l.mod || l.kind == "visited" {
			continue
		}
		e, ok := l.get(st)
		if !ok {
			continue
		}
		val := func(s *State) *Term { x, _ := l.get(s); return x.T }
		add(l.name+" unchanged", func(s *State) *Term { return Eq(val(s), e.T) })
		switch {
		case e.T.Sort == "Int":
			if l.kind == "" && isPtr(l.typ) {
				add(l.name+" allocated", func(s *State) *Term { return Lt(val(s), s.alloc) })
			}
			add(l.name+" >= entry", func(s *State) *Term { return Le(e.T, val(s)) })
			add(l.name+" >= 0", func(s *State) *Term { return Le(Int(0), val(s)) })
			for _, o := range ls {
				o := o
				if o.kind == "idx" && l.kind != "idx" {
					add(l.name+" = idx", func(s *State) *Term { x, _ := o.get(s); return Eq(val(s), x.T) })
					add(l.name+" <= idx", func(s *State) *Term { x, _ := o.get(s); return Le(val(s), x.T) })
				}
			}
			for _, o := range seqs {
				o := o
				add(l.name+" <= len "+o.name, func(s *State) *Term { x, _ := o.get(s); return Le(val(s), g.SeqLen(x.T)) })
				if o.mod {
					add(l.name+" = len "+o.name, func(s *State) *Term { x, _ := o.get(s); return Eq(val(s), g.SeqLen(x.T)) })
				}
			}
		case strings.HasPrefix(e.T.Sort, "Seq."):
			for _, o := range ls {
				o := o
				if o.kind == "idx" {
					add("len "+l.name+" = idx", func(s *State) *Term { x, _ := o.get(s); return Eq(g.SeqLen(val(s)), x.T) })
				}
			}
			add("len "+l.name+" unchanged", func(s *State) *Term { return Eq(g.SeqLen(val(s)), g.SeqLen(e.T)) })
		case e.T.Sort == "Iface":
			add(l.name+" non-nil", func(s *State) *Term { return Not(Eq(g.App("typ", val(s)), Int(0))) })
		}
	}
	// heap cells
	for hk, refs := range m.heap {
		if m.all[hk] {
			continue
		}
		for _, r := range refs {
			hk, r := hk, r
			h0 := st.heap[hk]
			if h0 == nil {
				h0 = &Term{Op: "H0$" + hk, Sort: g.syms["H0$"+hk].Res}
			}
			e := g.Select(h0, r)
			add("*"+hk+" unchanged", func(s *State) *Term {
				h := s.heap[hk]
				if h == nil {
					return True
				}
				return Eq(g.Select(h, r), e)
			})
		}
	}
	// loop condition bounds
	if b, ok := L.cond.(*ast.BinaryExpr); ok {
		side := func(x ast.Expr) func(s *State) *Term {
			return func(s *State) *Term {
				v, ok := fv.pureEval(L.fr, x, s)
				if !ok {
					return nil
				}
				return v.T
			}
		}
		l, r := side(b.X), side(b.Y)
		mk := func(n string, f func(a, b *Term) *Term) {
			add(n, func(s *State) *Term {
				a, b := l(s), r(s)
				if a == nil || b == nil || a.Sort != "Int" || b.Sort != "Int" {
					return nil
				}
				return f(a, b)
			})
		}
		switch b.Op {
		case token.LSS, token.NEQ:
			mk("bound", func(a, b *Term) *Term { return Le(a, b) })
		case token.GTR:
			mk("bound", func(a, b *Term) *Term { return Le(b, a) })
		case token.LEQ:
			mk("bound", func(a, b *Term) *Term { return Le(a, Add(b, Int(1))) })
		case token.GEQ:
			mk("bound", func(a, b *Term) *Term { return Le(b, Add(a, Int(1))) })
		}
	}
	// templates
	for ti, cl := range fv.c.Invs {
		name := cl.Label
		if name == "" {
			name = fmt.Sprintf("inv#%d", ti+1)
		}
		fv.instances(cl.Metas, ls, 400, func(bind map[string]local, desc string) {
			cl := cl
			add(name+"("+desc+")", func(s *State) *Term { return fv.evalInv(cl.E, bind, s) })
		})
	}
	// evaluate once to drop those that make no sense here
	var ok []cand
	for _, c := range out {
		t := c.at(st)
		if t == nil {
			continue
		}
		ok = append(ok, c)
	}
	return ok
}

// instances enumerates the bindings of template variables to program variables.
func (fv *FV) instances(metas []SParam, ls []local, limit int, f func(map[string]local, string)) {
	pkg := fv.v.typesPkg(fv.c.Pkg)
	n := 0
	var rec func(i int, bind map[string]local, desc []string)
	rec = func(i int, bind map[string]local, desc []string) {
		if n >= limit {
			return
		}
		if i == len(metas) {
			b := map[string]local{}
			for k, v := range bind {
				b[k] = v
			}
			n++
			f(b, strings.Join(desc, ","))
			return
		}
		mt := metas[i]
		for _, l := range ls {
			used := false
			for _, o := range bind {
				if o.name == l.name && o.kind == l.kind {
					used = true
				}
			}
			if used {
				continue
			}
			switch {
			case mt.Type.Kind == "name" && mt.Type.Name == "idx" && mt.Type.Pkg == "":
				if l.kind != "idx" {
					continue
				}
			case mt.Type.Kind == "name" && mt.Type.Name == "visited" && mt.Type.Pkg == "":
				if l.kind != "visited" {
					continue
				}
			default:
				if l.typ == nil || l.kind == "visited" {
					continue
				}
				t := fv.v.GoType(pkg, mt.Type)
				if !types.Identical(t, l.typ) {
					continue
				}
			}
			bind[mt.Name] = l
			rec(i+1, bind, append(desc[:len(desc):len(desc)], mt.Name+"="+l.name))
			delete(bind, mt.Name)
		}
	}
	rec(0, map[string]local{}, nil)
}

func (fv *FV) evalInv(x *SExpr, bind map[string]local, s *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(elabErr); ok {
				if debugInv {
					fmt.Fprintln(os.Stderr, "inv:", string(e))
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	vars := map[string]STm{}
	for k, v := range fv.vars {
		vars[k] = v
	}
	for _, pn := range fv.c.Mutates { // a parameter the function changes denotes its current contents
		if id, ok := fv.paramCells[pn]; ok && s.cells[id] != nil {
			vars[pn] = STm{s.cells[id].T, vars[pn].Typ}
		}
	}
	for n, l := range bind {
		v, ok := l.get(s)
		if !ok {
			return nil
		}
		if l.kind == "visited" {
			v.Typ = visitedType{v.T.Sort}
		}
		vars[n] = v
	}
	env := &Env{v: fv.v, pkg: fv.v.typesPkg(fv.c.Pkg), vars: vars, oldVars: fv.vars, st: s, old: fv.entry, lets: fv.c.Lets}
	return env.Bool(x)
}

// visitedType is the type of the ghost set of visited keys.
type visitedType struct{ sort string }

func (visitedType) Underlying() types.Type { return types.Typ[types.Invalid] }
func (visitedType) String() string         { return "visited" }

var debugInv = os.Getenv("GOVC_INV") != ""

// pureEval evaluates an expression without effects.
func (fv *FV) pureEval(fr *Frame, x ast.Expr, st *State) (res Val, ok bool) {
	save := fv.mode
	fv.mode = modeDry
	defer func() {
		fv.mode = save
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	n := 0
	fv.eval(fr, x, st.clone(), func(s *State, v Val) { n++; res = v })
	return res, n == 1
}

// A nested loop is analysed again whenever the enclosing loop loses a candidate invariant. Candidates of the nested loop
// that failed at every visit before (under stronger assumptions) are not tried again.
type loopMemo struct {
	visits int
	drops  map[string]int
	skip   map[string]bool
}

func (fv *FV) memo(n ast.Node) *loopMemo {
	if fv.memos == nil {
		fv.memos = map[ast.Node]*loopMemo{}
	}
	m := fv.memos[n]
	if m == nil {
		m = &loopMemo{drops: map[string]int{}, skip: map[string]bool{}}
		fv.memos[n] = m
	}
	return m
}

func (fv *FV) inner(L *loopDef, f func(*loopMemo)) {
	for n, m := range fv.memos {
		if n != L.node && L.node.Pos() <= n.Pos() && n.End() <= L.node.End() {
			f(m)
		}
	}
}

func (fv *FV) forgetInner(L *loopDef) {
	fv.inner(L, func(m *loopMemo) { *m = loopMemo{drops: map[string]int{}, skip: map[string]bool{}} })
}

func (fv *FV) learnInner(L *loopDef) {
	fv.inner(L, func(m *loopMemo) {
		for n, k := range m.drops {
			if k == m.visits {
				m.skip[n] = true
			}
		}
		m.visits, m.drops = 0, map[string]int{}
	})
}

func candKeys(cs []cand) []string {
	seen := map[string]int{}
	var ks []string
	for _, c := range cs {
		seen[c.name]++
		ks = append(ks, fmt.Sprintf("%s/%d", c.name, seen[c.name]))
	}
	return ks
}

func (fv *FV) withoutHopeless(L *loopDef, cs []cand) []cand {
	m := fv.memo(L.node)
	var out []cand
	for i, k := range candKeys(cs) {
		cs[i].key = k
		if !m.skip[k] {
			out = append(out, cs[i])
		}
	}
	return out
}

func (fv *FV) noteDropped(L *loopDef, before, after []cand) {
	m := fv.memo(L.node)
	m.visits++
	kept := map[string]bool{}
	for _, c := range after {
		kept[c.key] = true
	}
	for _, c := range before {
		if !kept[c.key] {
			m.drops[c.key]++
		}
	}
}

const invTimeout = 2500 * time.Millisecond

func (fv *FV) loop(L *loopDef, st *State, j *jump, ret retFn, next nextFn) {
	if st.dead {
		return
	}
	fv.tick(L.node.Pos())
	if !fv.deadline.IsZero() && time.Now().After(fv.deadline) {
		fv.unsup(L.node.Pos(), "time limit for the function")
	}
	m := fv.analyse(L, st, j)
	var cs []cand
	if fv.mode != modeDry {
		fv.forgetInner(L)
		cs = fv.withoutHopeless(L, fv.candidates(L, st, m))
		first := cs
		var goals []*Term
		for _, c := range cs {
			goals = append(goals, c.at(st))
		}
		res := fv.v.g.ProveMany(st.pc, goals, invTimeout)
		cs = keep(cs, res)
		for round := 0; round < 30; round++ {
			head := fv.havoc(L, st.clone(), m)
			for _, c := range cs {
				head.assume(c.at(head))
			}
			fv.houdiniRuns++
			bes := fv.backEdges(L, head, j, modeHoudini)
			fv.learnInner(L)
			before := len(cs)
			for _, b := range bes {
				goals = goals[:0]
				for _, c := range cs {
					t := c.at(b)
					if t == nil {
						t = False
					}
					goals = append(goals, t)
				}
				res := fv.v.g.ProveMany(b.pc, append([]*Term{}, goals...), invTimeout)
				if debugInv {
					for i, r := range res {
						if !r {
							fmt.Fprintf(os.Stderr, "loop %s: drop %s\n", fv.v.prog.RelPos(L.node.Pos()), cs[i].name)
						}
					}
				}
				cs = keep(cs, res)
			}
			if len(cs) == before {
				break
			}
			if round == 29 {
				cs = nil
			}
		}
		fv.noteDropped(L, first, cs)
		if debugInv {
			var ns []string
			for _, c := range cs {
				ns = append(ns, c.name)
			}
			fmt.Fprintf(os.Stderr, "loop %s: invariants %v\n", fv.v.prog.RelPos(L.node.Pos()), ns)
		}
	}
	if fv.mode == modeEmit {
		pos := fv.v.prog.RelPos(L.node.Pos())
		fv.loopInv[pos] = len(cs)
		for _, c := range cs {
			fv.obls = append(fv.obls, &Obligation{Func: fv.name, Label: "loop invariant " + c.name, Kind: "invariant", Pos: pos, Goal: True, OK: true,
				Result: Result{Status: "unsat", Solver: "z3-5.3.2"}})
		}
	}
	head := fv.havoc(L, st, m)
	for _, c := range cs {
		if t := c.at(head); t != nil {
			head.assume(t)
		}
	}
	var bes []*State
	headSnap := head.clone()
	collect := func(s *State) {
		if !s.dead {
			bes = append(bes, s)
		}
	}
	back := func(s *State) { L.post(s, collect) }
	nj := &jump{label: L.label, isLoop: true, brk: next, cont: back, up: j}
	L.test(head, func(s *State) {
		fv.block(L.fr, L.body, s, nj, ret, back)
	}, next)
	if fv.mode == modeEmit && !L.always && len(fv.c.Term) > 0 {
		fv.loopTerminates(L, headSnap, bes, m)
	}
}

// loopTerminates looks for a (lexicographic) measure that decreases on every back edge.
func (fv *FV) loopTerminates(L *loopDef, head *State, bes []*State, m *modset) {
	g := fv.v.g
	ls := fv.locals(L, head, m)
	var ms []cand
	add := func(n string, at func(s *State) *Term) { ms = append(ms, cand{name: n, at: at}) }
	if b, ok := L.cond.(*ast.BinaryExpr); ok {
		d := func(x, y ast.Expr) func(s *State) *Term {
			return func(s *State) *Term {
				a, ok1 := fv.pureEval(L.fr, x, s)
				b, ok2 := fv.pureEval(L.fr, y, s)
				if !ok1 || !ok2 || a.T.Sort != "Int" || b.T.Sort != "Int" {
					return nil
				}
				return Sub(a.T, b.T)
			}
		}
		switch b.Op {
		case token.LSS, token.LEQ, token.NEQ:
			add("bound - counter", d(b.Y, b.X))
		case token.GTR, token.GEQ:
			add("counter - bound", d(b.X, b.Y))
		}
	}
	for _, cl := range fv.c.Decreases {
		cl := cl
		if cl.Label == "recursion" {
			continue
		}
		fv.instances(cl.Metas, ls, 60, func(bind map[string]local, desc string) {
			add(exprString(cl.E)+" with "+desc, func(s *State) *Term {
				t := fv.evalInt(cl.E, bind, s)
				return t
			})
		})
	}
	for _, l := range ls {
		l := l
		if !l.mod || l.typ == nil {
			continue
		}
		if l.kind == "" {
			if e, ok := l.get(head); ok && strings.HasPrefix(e.T.Sort, "Seq.") {
				add("len "+l.name, func(s *State) *Term { x, _ := l.get(s); return g.SeqLen(x.T) })
			}
		}
	}
	pos := L.node.Pos()
	ok := make([]cand, 0)
	var h []*Term
	for _, c := range ms {
		if t := c.at(head); t != nil && t.Sort == "Int" {
			ok = append(ok, c)
			h = append(h, t)
		}
	}
	if len(bes) == 0 {
		fv.emit(head, "terminates", "loop terminates", fv.c.Term, pos, True, "no back edge")
		return
	}
	n := len(ok)
	dec := make([][]bool, len(bes)) // strictly decreasing and bounded
	le := make([][]bool, len(bes))
	for bi, b := range bes {
		var goals []*Term
		for i, c := range ok {
			t := c.at(b)
			if t == nil {
				goals = append(goals, False, False)
				continue
			}
			goals = append(goals, And(Le(Int(0), h[i]), Lt(t, h[i])), Le(t, h[i]))
		}
		r := g.ProveMany(b.pc, goals, invTimeout)
		dec[bi] = make([]bool, n)
		le[bi] = make([]bool, n)
		for i := 0; i < n; i++ {
			dec[bi][i], le[bi][i] = r[2*i], r[2*i+1]
		}
	}
	good := func(a, b int) bool {
		for bi := range bes {
			if !(dec[bi][a] || le[bi][a] && dec[bi][b]) {
				return false
			}
		}
		return true
	}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if good(a, b) {
				fv.obls = append(fv.obls, &Obligation{Func: fv.name, Label: "loop terminates", Kind: "terminates", Props: fv.c.Term, Pos: fv.v.prog.RelPos(pos),
					Goal: True, OK: true, Spec: ok[a].name + "; " + ok[b].name, Result: Result{Status: "unsat", Solver: "z3-5.3.2"}})
				return
			}
		}
	}
	// not shown: report against every measure, lexicographic on the first two
	for _, b := range bes {
		goal := False
		spec := "no measure"
		for i, c := range ok {
			if t := c.at(b); t != nil {
				goal = Or(goal, And(Le(Int(0), h[i]), Lt(t, h[i])))
				spec = c.name
			}
		}
		fv.emit(b, "terminates", "loop terminates", fv.c.Term, pos, goal, spec)
	}
}

func (fv *FV) evalInt(x *SExpr, bind map[string]local, s *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(elabErr); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	vars := map[string]STm{}
	for k, v := range fv.vars {
		vars[k] = v
	}
	for n, l := range bind {
		v, ok := l.get(s)
		if !ok {
			return nil
		}
		vars[n] = v
	}
	env := &Env{v: fv.v, pkg: fv.v.typesPkg(fv.c.Pkg), vars: vars, oldVars: fv.vars, st: s, old: fv.entry, lets: fv.c.Lets}
	return env.Elab(x).T
}

func keep(cs []cand, res []bool) []cand {
	var out []cand
	for i, c := range cs {
		if res[i] {
			out = append(out, c)
		}
	}
	return out
}
