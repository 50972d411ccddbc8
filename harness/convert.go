package main

import (
	"fmt"
	"sort"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
)

func branchLeaves(n ast.Node, f func(parser.Scanner)) {
	switch n := n.(type) {
	case ast.Leaf:
		f(parser.Scanner(n))
	case ast.Branch:
		for _, c := range n {
			switch c := c.(type) {
			case ast.One:
				branchLeaves(c.Node, f)
			case ast.Many:
				for _, m := range c {
					branchLeaves(m, f)
				}
			}
		}
	}
}

func counts(each func(f func(parser.Scanner))) string {
	var out []string
	each(func(s parser.Scanner) { out = append(out, fmt.Sprintf("%q@%d", s.String(), s.Offset())) })
	sort.Strings(out)
	return fmt.Sprint(out)
}

// runConvert parses and converts the tree to a syntax tree, which must have the same leaves. That the conversion
// panics for some grammars is another matter.
func runConvert(_ string, v any) (nontrivial bool, problem string) {
	c := v.(PC)
	ps := grammarOf(c.G).Compile(nil)
	e, err := ps.Parse(parser.Rule(c.Start), parser.NewScanner(c.In))
	if u, ok := err.(parser.UnconsumedInputError); ok {
		e = u.Result()
	} else if err != nil {
		return false, ""
	}
	want := counts(func(f func(parser.Scanner)) { leavesOf(e, f) })
	defer func() {
		if recover() != nil {
			nontrivial, problem = false, ""
		}
	}()
	b := ast.FromParserNode(ps.Grammar(), e)
	if got := counts(func(f func(parser.Scanner)) { branchLeaves(b, f) }); got != want {
		return true, fmt.Sprintf("leaves %s became %s", want, got)
	}
	return want != "[]", ""
}

func genConvert(h *H) {
	g := &tokGen{h: h, w: map[string]int{"tok": 8, "seq": 5, "oneof": 4, "quant": 4, "delim": 5, "named": 4, "ref": 2, "rule": 4, "cut": 1, "look": 1}}
	for !h.done() {
		g.wrap = h.rng.Intn(2) == 0
		gr := g.grammar()
		for i := 0; i < 6 && !h.done(); i++ {
			h.Try("convert", PC{G: gr, Start: "a", In: g.text(gr, "a")}, "")
		}
	}
}

func init() {
	kinds["convert"] = kind{decodeAs[PC], runConvert}
	props["C18"] = propDef{"generated grammars and texts parsed and converted to syntax trees; the leaves of both trees counted", genConvert}
}
