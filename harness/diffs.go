package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
)

// T2, G2 and P2 are pairs to compare.
type T2 struct {
	A *T `json:"a"`
	B *T `json:"b"`
}
type G2 struct {
	A    map[string]*T `json:"a"`
	B    map[string]*T `json:"b"`
	NilA bool          `json:"nila,omitempty"` // an empty grammar is a nil map
}
type P2 struct {
	A *P `json:"a"`
	B *P `json:"b"`
}

// P is a parse tree.
type P struct {
	K string `json:"k"` // node leaf empty extra
	S string `json:"s,omitempty"`
	X string `json:"x,omitempty"` // the extra: "", "c1", "a1", "v..."
	A []*P   `json:"a,omitempty"`
}

type xVal string
type xList []string

func (xVal) IsExtra()  {}
func (xList) IsExtra() {}

func extraOf(x string) parser.Extra {
	switch {
	case x == "":
		return nil
	case x[0] == 'c':
		return parser.Choice(len(x) - 1)
	case x[0] == 'a':
		return parser.Associativity(len(x) - 2)
	case x[0] == 'l':
		return xList{x}
	}
	return xVal(x)
}

func (p *P) elem() parser.TreeElement {
	switch p.K {
	case "leaf": // in the middle of its text, so that equal pieces have different surroundings
		return *parser.NewScanner("<"+p.X+p.S+">").Slice(1+len(p.X), 1+len(p.X)+len(p.S))
	case "empty":
		return parser.Empty{}
	}
	return *p.node()
}

func (p *P) node() *parser.Node {
	n := parser.NewNode(p.S, extraOf(p.X))
	for _, a := range p.A {
		n.Children = append(n.Children, a.elem())
	}
	return n
}

func (p *P) key() string {
	x := p.X
	if p.K == "leaf" {
		x = ""
	}
	s := fmt.Sprintf("%s(%q %q", p.K, p.S, x)
	for _, a := range p.A {
		s += " " + a.key()
	}
	return s + ")"
}

func (p *P) clone() *P {
	c := *p
	c.A = nil
	for _, a := range p.A {
		c.A = append(c.A, a.clone())
	}
	return &c
}

func (p *P) all() []*P {
	out := []*P{p}
	for _, a := range p.A {
		out = append(out, a.all()...)
	}
	return out
}

func twice(what string, want bool, f, g func() bool) string {
	if got := f(); got != want {
		return fmt.Sprintf("%s: want equal = %v, got %v", what, want, got)
	}
	if got := g(); got != want {
		return fmt.Sprintf("%s, the other way round: want equal = %v, got %v", what, want, got)
	}
	return ""
}

func runDiffTerms(_ string, v any) (bool, string) {
	c := v.(T2)
	a, b := c.A.Term(), c.B.Term()
	return true, twice("terms", fromTerm(a).key() == fromTerm(b).key(),
		func() bool { return diff.Terms(a, b).Equal() }, func() bool { return diff.Terms(b, a).Equal() })
}

func runDiffGrammars(_ string, v any) (bool, string) {
	c := v.(G2)
	a, b := grammarOf(c.A), grammarOf(c.B)
	if c.NilA && len(a) == 0 {
		a = nil
	}
	return true, twice("grammars", gkey(fromGrammar(a)) == gkey(fromGrammar(b)),
		func() bool { return diff.Grammars(a, b).Equal() }, func() bool { return diff.Grammars(b, a).Equal() })
}

func runDiffTrees(_ string, v any) (bool, string) {
	c := v.(P2)
	a, b := c.A.node(), c.B.node()
	d := diff.NewNodeDiff(a, b)
	if d.Equal() && d.String() != "" {
		return true, "the report of equal trees is " + d.String()
	}
	return true, twice("trees", c.A.key() == c.B.key(),
		func() bool { return d.Equal() }, func() bool { return diff.NewNodeDiff(b, a).Equal() })
}

// nudge changes one attribute somewhere in a term.
func nudge(h *H, t *T, other *T) {
	var all []*T
	t.walk(func(x *T) { all = append(all, x) })
	x := pick(h, all...)
	switch h.rng.Intn(9) {
	case 0:
		x.S += "x"
	case 1:
		*x = *other
	case 2:
		if x.K == "quant" {
			x.Min++
		} else if x.K == "delim" {
			x.Start = !x.Start
		} else if len(x.A) > 0 && (x.K == "seq" || x.K == "oneof" || x.K == "stack") {
			x.A = x.A[:len(x.A)-1]
		}
	case 3:
		if x.K == "quant" {
			x.Max++
		} else if x.K == "delim" {
			x.End = !x.End
		} else if x.K == "seq" || x.K == "oneof" || x.K == "stack" {
			x.A = append(x.A, other)
		}
	case 4:
		if x.K == "delim" {
			x.Assoc = (x.Assoc+2)%3 - 1
		} else if x.K == "ref" {
			if len(x.A) > 0 {
				x.A = nil
			} else {
				x.A = []*T{other}
			}
		} else if x.K == "scoped" {
			x.G["zz"] = other
		}
	case 5:
		if len(x.A) > 1 {
			i := h.rng.Intn(len(x.A))
			x.A[0], x.A[i] = x.A[i], x.A[0]
		} else if x.K == "scoped" && len(x.G) > 0 {
			for k := range x.G {
				delete(x.G, k)
				break
			}
		}
	case 6:
		*x = T{K: pick(h, "cut", "look"), A: []*T{x.clone()}}
	case 7:
		switch x.K {
		case "s", "re", "rule", "ext":
			x.K = pick(h, "s", "re", "rule", "ext")
		case "seq", "oneof", "stack":
			x.K = pick(h, "seq", "oneof", "stack")
		case "cut", "look":
			x.K = pick(h, "cut", "look")
		}
	}
}

// dress adds nested grammars and rules with levels to a term.
func dress(h *H, g *tokGen, t *T) *T {
	switch h.rng.Intn(6) {
	case 0:
		gr := map[string]*T{}
		for _, r := range []string{"p", "q"}[:h.rng.Intn(3)] {
			gr[r] = g.term(2, false)
		}
		return &T{K: "scoped", A: []*T{t}, G: gr}
	case 1:
		return tSeq(t, dress(h, g, g.term(1, false)))
	case 2:
		s := &T{K: "stack"}
		for n := h.rng.Intn(3); n > 0; n-- {
			s.A = append(s.A, g.term(2, false))
		}
		return s
	case 3:
		r := &T{K: "ref", S: pick(h, "a", "b")}
		if h.rng.Intn(2) == 0 {
			r.A = []*T{g.term(1, false)}
		}
		return tSeq(r, t)
	}
	return t
}

func genTree(h *H, depth int) *P {
	p := &P{K: "node", S: pick(h, "", "a", "b", "_"), X: pick(h, "", "", "c", "cc", "a", "aa", "aaa", "v", "vv", "l", "ll")}
	for n := h.rng.Intn(4); n > 0; n-- {
		switch r := h.rng.Intn(6); {
		case r < 2 && depth > 0:
			p.A = append(p.A, genTree(h, depth-1))
		case r == 5:
			p.A = append(p.A, &P{K: "empty"})
		default:
			p.A = append(p.A, &P{K: "leaf", S: pick(h, "", "x", "y", "xy"), X: pick(h, "", "u")})
		}
	}
	return p
}

func nudgeTree(h *H, p *P) {
	x := pick(h, p.all()...)
	switch h.rng.Intn(5) {
	case 0:
		if x.K != "empty" {
			x.S += "x"
		}
	case 1:
		x.X = pick(h, "", "c", "cc", "a", "aaa", "v", "vv", "l", "ll")
		if x.K == "empty" {
			x.X = ""
		}
	case 2:
		if len(x.A) > 0 {
			i := h.rng.Intn(len(x.A))
			x.A = append(x.A[:i:i], x.A[i+1:]...)
		}
	case 3:
		if x.K == "node" {
			x.A = append(x.A, genTree(h, 0))
		}
	case 4:
		if x != p {
			*x = *pick(h, &P{K: "empty"}, &P{K: "leaf"}, &P{K: "node"}, &P{K: "leaf", S: "x"})
		}
	}
}

func genDiff(h *H) {
	g := &tokGen{h: h, w: map[string]int{"tok": 4, "seq": 3, "oneof": 3, "quant": 2, "delim": 3, "named": 2, "look": 1, "ref": 2, "rule": 3, "cut": 1, "ext": 2}}
	some := func() *T {
		g.names, g.rules, g.all = nil, []string{"a", "b"}, []string{"a", "b"}
		return dress(h, g, g.term(h.rng.Intn(4), false))
	}
	for !h.done() {
		for i := 0; i < 10; i++ {
			a := some()
			b := a.clone()
			for n := h.rng.Intn(3); n > 0; n-- {
				nudge(h, b, g.term(1, false))
			}
			h.Try("diffterms", T2{a, b}, "")
			if i == 0 {
				h.Try("diffterms", T2{a, some()}, "")
			}
		}
		gr := map[string]*T{}
		for _, r := range []string{"a", "b", "c"}[:h.rng.Intn(4)] {
			gr[r] = some()
		}
		o := (&T{K: "scoped", G: gr}).clone().G
		for k := range o {
			if h.rng.Intn(3) == 0 {
				nudge(h, o[k], g.term(1, false))
			}
		}
		switch h.rng.Intn(5) {
		case 0:
			o[pick(h, "a", "b", "z")] = some()
		case 1:
			delete(o, pick(h, "a", "b"))
		}
		h.Try("diffgrammars", G2{A: gr, B: o, NilA: h.rng.Intn(2) == 0}, "")
		for i := 0; i < 10; i++ {
			a := genTree(h, h.rng.Intn(3))
			b := a.clone()
			for _, x := range b.all() {
				if x.K == "leaf" { // the same pieces elsewhere
					x.X = strings.Repeat("u", h.rng.Intn(2))
				}
			}
			for n := h.rng.Intn(3); n > 0; n-- {
				nudgeTree(h, b)
			}
			h.Try("difftrees", P2{a, b}, "")
		}
	}
}

func init() {
	kinds["diffterms"] = kind{decodeAs[T2], runDiffTerms}
	kinds["diffgrammars"] = kind{decodeAs[G2], runDiffGrammars}
	kinds["difftrees"] = kind{decodeAs[P2], runDiffTrees}
	props["C13"] = propDef{"generated terms, grammars and trees against copies with small changes; an injective rendering decides equality", genDiff}
}
