package main

import (
	"fmt"

	"github.com/arr-ai/wbnf/parser"
)

// subst is the substitution of a rule name, written from the property; commit-point marks are left out.
func subst(t *T, from, to string) *T {
	if t.K == "cut" {
		return subst(t.A[0], from, to)
	}
	c := *t
	c.A = nil
	if t.K == "rule" && t.S == from {
		c.S = to
	}
	for _, a := range t.A {
		if t.K == "ref" {
			c.A = append(c.A, a.clone())
		} else {
			c.A = append(c.A, subst(a, from, to))
		}
	}
	return &c
}

func uncut(t *T) *T {
	if t.K == "cut" {
		return uncut(t.A[0])
	}
	c := *t
	c.A = nil
	for _, a := range t.A {
		c.A = append(c.A, uncut(a))
	}
	return &c
}

// spread replaces rules with levels by one rule per level.
func spread(g map[string]*T) map[string]*T {
	out := map[string]*T{}
	for r, t := range g {
		if t.K != "stack" {
			out[r] = t
			continue
		}
		if len(t.A) == 0 {
			out[r] = t
		}
		name := func(i int) string {
			if i = i % len(t.A); i == 0 {
				return r
			}
			return fmt.Sprintf("%s@%d", r, i)
		}
		for i, l := range t.A {
			out[name(i)] = subst(l, "@", name(i+1))
		}
	}
	return out
}

// RC is a term and a renaming.
type RC struct {
	T    *T     `json:"t"`
	From string `json:"from"`
	To   string `json:"to"`
}

func runResolve(_ string, v any) (bool, string) {
	c := v.(RC)
	t := c.T.Term()
	r := t.Resolve(parser.Rule(c.From), parser.Rule(c.To))
	if k := fromTerm(t).key(); k != c.T.key() {
		return true, "the original became " + k
	}
	want, got := subst(c.T, c.From, c.To), uncut(fromTerm(r))
	if want.key() != got.key() {
		return true, fmt.Sprintf("want %s, got %s", want.key(), got.key())
	}
	return c.T.has("rule"), ""
}

func runLevels(_ string, v any) (bool, string) {
	c := v.(PC)
	g := grammarOf(c.G)
	ps := g.Compile(nil)
	if k := gkey(fromGrammar(g)); k != gkey(c.G) {
		return true, "the given grammar became " + k
	}
	want := spread(c.G)
	got := fromGrammar(ps.Grammar())
	for r, t := range got {
		if w := want[r]; w == nil || uncut(w).key() != uncut(t).key() {
			return true, fmt.Sprintf("rule %q: want %s, got %s", r, w.key(), t.key())
		}
		if !ps.HasRule(parser.Rule(r)) {
			return true, fmt.Sprintf("rule %q has no parser", r)
		}
	}
	for r := range want {
		if got[r] == nil {
			return true, fmt.Sprintf("rule %q is missing", r)
		}
	}
	// and the levels read like the spread-out rules
	w, ok := expected(PC{G: want, Start: c.Start, In: c.In})
	if !ok {
		return false, ""
	}
	o, _, p := classify(ps.ParseWithExternals(parser.Rule(c.Start), parser.NewScanner(c.In), externals))
	if w.kind == "final" {
		w.kind = "fail"
	}
	if o.kind == "final" {
		o.kind = "fail"
	}
	if p != "" || w != o {
		return true, fmt.Sprintf("want %s, got %s %s", w, o, p)
	}
	return true, ""
}

// level makes one level over the next.
func (g *tokGen) level(last bool) *T {
	at := func() *T { return tRule("@") }
	h := g.h
	op := func() *T { return tS(pick(h, "+", "*", "-", "^")) }
	if last {
		alts := []*T{tRE(`[xy]`), tSeq(tS("("), at(), tS(")"))}
		if h.rng.Intn(3) == 0 {
			alts = append(alts, tNamed("n", tSeq(tS("["), tNamed("v", at()), tS("]"))))
		}
		return tOneof(alts...)
	}
	switch h.rng.Intn(8) {
	case 0:
		return tSeq(at(), tQuant(tSeq(op(), at()), 0, h.rng.Intn(2)))
	case 1:
		return tOneof(tSeq(op(), tNamed("v", at())), at())
	case 2:
		return tSeq(tQuant(op(), 0, 1), tNamed("o", at()))
	case 3:
		return tSeq(tLook(tOneof(tRE(`[xy(\[]`), op())), at())
	case 4:
		return tDelim(tNamed("v", at()), tOneof(op(), tNamed("m", op())), h.rng.Intn(3)-1, h.rng.Intn(2) == 0, h.rng.Intn(2) == 0)
	}
	return tDelim(at(), op(), h.rng.Intn(3)-1, h.rng.Intn(3) == 0, h.rng.Intn(3) == 0)
}

func genLevels(h *H) {
	scoped := &T{K: "stack", A: []*T{tDelim(tRule("@"), tS("+"), 0, false, false), {K: "scoped", A: []*T{tRule("d")}, G: map[string]*T{"d": tRE(`[0-9]+`)}}}}
	h.Try("levels", PC{G: map[string]*T{"e": scoped}, Start: "e", In: "1+2"}, "nested-grammar-level")
	g := &tokGen{h: h, w: map[string]int{"tok": 4, "seq": 3, "oneof": 3, "quant": 2, "delim": 2, "named": 2, "look": 1, "ref": 1, "rule": 5, "cut": 1, "ext": 1}}
	for !h.done() {
		g.rules, g.all = []string{"@", "a", "b"}, []string{"@", "a"}
		for i := 0; i < 20 && !h.done(); i++ {
			h.Try("resolve", RC{T: g.term(4, false), From: pick(h, "@", "a", "zz", ""), To: pick(h, "b", "a@1", "@")}, "")
		}
		gr := map[string]*T{}
		for _, r := range []string{"e", "f"}[:1+h.rng.Intn(2)] {
			t := &T{K: "stack"}
			for n := h.rng.Intn(3); n > 0; n-- {
				t.A = append(t.A, g.level(false))
			}
			t.A = append(t.A, g.level(true))
			gr[r] = t
		}
		if h.rng.Intn(2) == 0 {
			gr["a"] = tSeq(tRule("e"), tQuant(tS(";"), 0, 1))
		}
		if h.rng.Intn(20) == 0 {
			gr["z"] = &T{K: "stack", A: []*T{tS("x")}}
		}
		for i := 0; i < 6 && !h.done(); i++ {
			s := ""
			for n := 1 + h.rng.Intn(7); n > 0; n-- {
				s += pick(h, "x", "y", "+", "*", "-", "^", "(x)", "[y]", "x+y", "x*y", "(x+y)", "(", ")", "+x")
			}
			start := "e"
			if gr["a"] != nil && h.rng.Intn(2) == 0 {
				start = "a"
			}
			h.Try("levels", PC{G: gr, Start: start, In: s}, "")
		}
	}
}

func init() {
	kinds["resolve"] = kind{decodeAs[RC], runResolve}
	kinds["levels"] = kind{decodeAs[PC], runLevels}
	props["C11"] = propDef{"generated terms renamed and generated grammars with precedence levels, against an independent substitution and reading", genLevels}
}
