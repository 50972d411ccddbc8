package main

import (
	"fmt"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// deep renders a value with everything it holds (maps in key order).
func deep(v any) string { return fmt.Sprintf("%#v", v) }

func showBranch(n ast.Node) string {
	switch n := n.(type) {
	case ast.Leaf:
		return show(parser.Scanner(n))
	case ast.Branch:
		s := "{"
		for _, k := range sortedKeys(n) {
			s += fmt.Sprintf("%q:", k)
			switch c := n[k].(type) {
			case ast.One:
				s += showBranch(c.Node)
			case ast.Many:
				s += "["
				for _, m := range c {
					s += showBranch(m) + " "
				}
				s += "]"
			}
			s += ","
		}
		return s + "}"
	case ast.Extra:
		return fmt.Sprintf("<%T %v>", n.Data, n.Data)
	}
	return "<nil>"
}

// quiet runs f, which may panic: whether it does is another matter.
func quiet(f func()) (ok bool) {
	defer func() { ok = recover() == nil }()
	f()
	return
}

func runUnchanged(_ string, v any) (bool, string) {
	c := v.(PC)
	g := grammarOf(c.G)
	var changed string
	same := func(what, before, after string) {
		if before != after && changed == "" {
			changed = what + ": " + apart(before, after, "became")
		}
	}
	g0 := deep(g)
	ps := g.Compile(nil)
	same("compiling changed the grammar", g0, deep(g))
	p0 := deep(ps.Grammar())
	parse := func(ps parser.Parsers) (string, parser.TreeElement) {
		in := parser.NewScanner(c.In)
		e, err := ps.ParseWithExternals(parser.Rule(c.Start), in, externals)
		if u, ok := err.(parser.UnconsumedInputError); ok {
			return fmt.Sprintf("%s, left %d", show(u.Result()), len(u.Residue().String())), u.Result()
		} else if err != nil {
			return "fails", nil
		}
		return show(e), e
	}
	first, e := parse(ps)
	same("parsing changed the grammar", g0, deep(g))
	same("parsing changed the compiled grammar", p0, deep(ps.Grammar()))
	second, _ := parse(ps)
	same("parsing again", first, second)
	if e != nil && externalFree(c.G) {
		t0 := show(e)
		var b ast.Branch
		if quiet(func() { b = ast.FromParserNode(ps.Grammar(), e) }) {
			same("converting changed the parse tree", t0, show(e))
			same("converting changed the grammar", p0, deep(ps.Grammar()))
			b0 := showBranch(b)
			if !loops(c.G) {
				quiet(func() { ast.ToParserNode(ps.Grammar(), b) })
			}
			same("converting back changed the syntax tree", b0, showBranch(b))
			same("converting back changed the grammar", p0, deep(ps.Grammar()))
			var b2 ast.Branch
			if !quiet(func() { b2 = ast.FromParserNode(ps.Grammar(), e) }) {
				return true, "converting again panics"
			}
			same("converting again", b0, showBranch(b2))
		}
	}
	third, _ := parse(g.Compile(nil))
	same("compiling and parsing again", first, third)
	return first != "fails", changed
}

// needsNothing tells whether converting back finds one more of a term without taking anything; loops, whether it
// would find endlessly many somewhere.
func needsNothing(t *T) bool {
	switch t.K {
	case "quant":
		return true
	case "seq":
		for _, a := range t.A {
			if !needsNothing(a) {
				return false
			}
		}
		return true
	case "cut", "look", "scoped", "delim":
		return needsNothing(t.A[0])
	}
	return false
}

func loops(g map[string]*T) (found bool) {
	for _, t := range g {
		t.walk(func(x *T) {
			found = found || x.K == "quant" && needsNothing(x.A[0]) || x.K == "delim" && needsNothing(x.A[0]) && needsNothing(x.A[1]) || x.G != nil && loops(x.G)
		})
	}
	return
}

func externalFree(g map[string]*T) bool {
	for _, t := range g {
		if hasKind(t, "ext") {
			return false
		}
	}
	return true
}

func hasKind(t *T, k string) (found bool) {
	t.walk(func(x *T) { found = found || x.K == k })
	return
}

// runTextUnchanged: making a grammar from its syntax tree leaves that as it was.
func runTextUnchanged(_ string, v any) (bool, string) {
	text := v.(GT).Text
	node, err := wbnf.Parse(parser.NewScanner(text))
	if err != nil {
		return false, ""
	}
	before, core := showBranch(node.Node), deep(wbnf.Core().Grammar())
	g1 := wbnf.NewFromAst(node.Node)
	if after := showBranch(node.Node); after != before {
		return true, "making the grammar changed its syntax tree: " + apart(before, after, "became")
	}
	k := deep(g1)
	if g2 := wbnf.NewFromAst(node.Node); deep(g2) == "" || len(g1) != len(g2) {
		return true, "making the grammar again gives another"
	}
	if deep(g1) != k {
		return true, "the grammar made first changed"
	}
	if deep(wbnf.Core().Grammar()) != core {
		return true, "the core grammar changed"
	}
	return true, ""
}

func genUnchanged(h *H) {
	h.Try("unchanged", PC{G: map[string]*T{".wrapRE": tRE(`\s*()\s*`), "a": {K: "scoped", A: []*T{tRule("n")}, G: map[string]*T{"n": tS("x")}}}, Start: "a", In: " x"}, "nested-wrap")
	g := &tokGen{h: h, w: map[string]int{"tok": 8, "seq": 5, "oneof": 4, "quant": 4, "delim": 5, "named": 6, "ref": 2, "rule": 4, "cut": 1, "look": 1}}
	for !h.done() {
		g.wrap = h.rng.Intn(2) == 0
		gr := g.grammar()
		switch h.rng.Intn(4) {
		case 0: // a nested grammar somewhere
			n := tSeq(tS("x"), g.term(2, true))
			var at []*T
			def := map[*T]bool{} // defaults of references are tokens
			gr["a"].walk(func(x *T) {
				at = append(at, x)
				if x.K == "ref" && len(x.A) > 0 {
					def[x.A[0]] = true
				}
			})
			if x := at[h.rng.Intn(len(at))]; !def[x] {
				in := map[string]*T{"n": n}
				if w := gr[".wrapRE"]; w != nil {
					in[".wrapRE"] = w
				}
				*x = T{K: "scoped", A: []*T{tRule("n")}, G: in}
			}
		case 1: // levels
			lg := &tokGen{h: h, w: map[string]int{"tok": 4, "seq": 3, "oneof": 3, "quant": 2, "delim": 2, "named": 2, "rule": 5}}
			lg.rules, lg.all = []string{"@"}, []string{"@"}
			gr = map[string]*T{"a": {K: "stack", A: []*T{lg.level(false), lg.level(true)}}}
		}
		for i := 0; i < 4 && !h.done(); i++ {
			h.Try("unchanged", PC{G: gr, Start: "a", In: g.text(gr, "a")}, "")
		}
		if h.rng.Intn(20) == 0 {
			w := &gwriter{h: h, depth: 2, nested: true, macros: true}
			h.Try("tree-unchanged", w.write(), "")
		}
	}
}

func init() {
	kinds["unchanged"] = kind{decodeAs[PC], runUnchanged}
	kinds["tree-unchanged"] = kind{decodeAs[GT], runTextUnchanged}
	props["C12"] = propDef{"generated grammars compiled and used twice, trees converted there and back: grammars, trees and syntax trees compared before and after", genUnchanged}
}
