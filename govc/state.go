package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Val is a symbolic Go value.
type Val struct {
	T    *Term
	Typ  types.Type
	Tup  []Val
	Cell int   // storage identity of a map or slice (0: unknown storage)
	Off  *Term // view offset into the cell (slices)
	Len  *Term
}

// Closure describes a statically known function value.
type Closure struct {
	Lit  *ast.FuncLit
	Fr   *Frame
	Fn   *types.Func
	Recv *Val
	C    *Contract // declared for literals of this signature here
}

type Cell struct {
	T     *Term
	Own   bool
	Leak  bool
	Param string
}

type VarKey struct {
	Fr  int
	Obj types.Object
	Aux string
}

type Frame struct {
	id      int
	up      *Frame // lexical parent
	info    *types.Info
	pkg     *Package
	boxed   map[types.Object]bool
	tsub    map[*types.TypeParam]types.Type
	results []*types.Var
	name    string
	depth   int
	loops   map[ast.Node]int
}

type State struct {
	vars   map[VarKey]Val
	heap   map[string]*Term
	alloc  *Term
	trace  map[string]*Term
	pc     []*Term
	facts  map[string]bool
	typ    map[string]int
	cells  map[int]*Cell
	defers map[int][]func(*State, func(*State))
	dead   bool
}

func (s *State) clone() *State {
	n := &State{alloc: s.alloc, dead: s.dead, pc: s.pc[:len(s.pc):len(s.pc)]}
	n.vars = make(map[VarKey]Val, len(s.vars)+4)
	for k, v := range s.vars {
		n.vars[k] = v
	}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.trace = make(map[string]*Term, len(s.trace))
	for k, v := range s.trace {
		n.trace[k] = v
	}
	n.facts = make(map[string]bool, len(s.facts)+8)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.typ = make(map[string]int, len(s.typ))
	for k, v := range s.typ {
		n.typ[k] = v
	}
	n.cells = make(map[int]*Cell, len(s.cells))
	for k, v := range s.cells {
		c := *v
		n.cells[k] = &c
	}
	n.defers = map[int][]func(*State, func(*State)){}
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	return n
}

// assume adds a fact to the path condition.
func (s *State) assume(t *Term) {
	switch t.Op {
	case "true":
		return
	case "false":
		s.dead = true
	case "and":
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	case "not":
		if t.Args[0].Op == "or" {
			for _, a := range t.Args[0].Args {
				s.assume(Not(a))
			}
			return
		}
		if t.Args[0].Op == "=>" {
			s.assume(t.Args[0].Args[0])
			s.assume(Not(t.Args[0].Args[1]))
			return
		}
		if s.facts[t.Args[0].Key()] {
			s.dead = true
		}
	case "=":
		a, b := t.Args[0], t.Args[1]
		if b.Op == "typ" {
			a, b = b, a
		}
		if a.Op == "typ" {
			if n, ok := b.isInt(); ok {
				if m, ok := s.typ[a.Args[0].Key()]; ok && m != int(n) {
					s.dead = true
				}
				s.typ[a.Args[0].Key()] = int(n)
			}
		}
	}
	if s.facts[Not(t).Key()] {
		s.dead = true
	}
	if s.facts[t.Key()] {
		return
	}
	s.facts[t.Key()] = true
	s.pc = append(s.pc, t)
}

// known decides a condition from the recorded facts.
func (s *State) known(t *Term) (bool, bool) {
	if t.IsTrue() {
		return true, true
	}
	if t.IsFalse() {
		return false, true
	}
	if s.facts[t.Key()] {
		return true, true
	}
	if s.facts[Not(t).Key()] {
		return false, true
	}
	switch t.Op {
	case "not":
		b, ok := s.known(t.Args[0])
		return !b, ok
	case "and":
		all := true
		for _, a := range t.Args {
			b, ok := s.known(a)
			if ok && !b {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	case "or":
		all := true
		for _, a := range t.Args {
			b, ok := s.known(a)
			if ok && b {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	case "=":
		a, b := t.Args[0], t.Args[1]
		if b.Op == "typ" {
			a, b = b, a
		}
		if a.Op == "typ" {
			if n, ok := b.isInt(); ok {
				if m, ok := s.typ[a.Args[0].Key()]; ok {
					return int(n) == m, true
				}
			}
		}
		// interface compared with nil
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0].Op == "nil$Iface" {
				if m, ok := s.typ[p[1].Key()]; ok && m != 0 {
					return false, true
				}
			}
		}
	default:
		if strings.HasPrefix(t.Op, "impl$") && len(t.Args) == 1 && t.Args[0].Op == "typ" {
			if m, ok := s.typ[t.Args[0].Args[0].Key()]; ok && m != 0 {
				return types.Implements(theGen.typeOf[m], theGen.implIfs[t.Op]), true
			}
		}
	}
	return false, false
}

// knownType returns the dynamic type id of an interface term if known.
func (s *State) knownType(t *Term) (int, bool) {
	if n, ok := theGen.App("typ", t).isInt(); ok {
		return int(n), true
	}
	n, ok := s.typ[t.Key()]
	return n, ok
}

func heapKey(v *Verifier, t types.Type) string { return v.g.Mangle(types.Unalias(t)) }

func heapSort(v *Verifier, t types.Type) string { return "(Array Int " + symName(v.g.Sort(t)) + ")" }

// Heap gives the heap array holding values of type t.
func (s *State) Heap(v *Verifier, t types.Type) *Term {
	k := heapKey(v, t)
	h, ok := s.heap[k]
	if !ok {
		h = v.g.Const("H0$"+k, heapSort(v, t))
		s.heap[k] = h
	}
	return h
}

func (s *State) Trace(v *Verifier, name string) *Term {
	if t, ok := s.trace[name]; ok {
		return t
	}
	tr := v.traces[name]
	t := v.g.Const("empty."+v.g.SeqSort(v.g.Sort(tr.typ)), v.g.SeqSort(v.g.Sort(tr.typ)))
	s.trace[name] = t
	return t
}

type unsupported struct {
	msg string
	pos token.Pos
}

func (fv *FV) unsup(pos token.Pos, f string, a ...any) {
	panic(unsupported{fmt.Sprintf(f, a...), pos})
}
