package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/gotree"
)

// OT is a tree of texts to print; How says how the node was put below its parent.
type OT struct {
	Text string
	How  int
	Kids []*OT
}

func (o *OT) build(t gotree.Tree) {
	for _, k := range o.Kids {
		switch k.How {
		case 0: // added as a text, filled afterwards
			k.build(t.Add(k.Text))
		case 1: // filled, then added
			n := gotree.New(k.Text)
			k.build(n)
			t.AddTree(n)
		default: // added, then filled
			n := gotree.New(k.Text)
			t.AddTree(n)
			k.build(n)
		}
	}
}

// rows are the lines of an outline: walked from the root, each node knowing the siblings still to come on every level.
func (o *OT) rows() string {
	var sb strings.Builder
	sb.WriteString(o.Text + "\n")
	type item struct {
		n    *OT
		lead string
		last bool
	}
	var stack []item
	put := func(n *OT, lead string) {
		for i := len(n.Kids) - 1; i >= 0; i-- {
			stack = append(stack, item{n.Kids[i], lead, i == len(n.Kids)-1})
		}
	}
	put(o, "")
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		first, rest := "├── ", "│   "
		if x.last {
			first, rest = "└── ", "    "
		}
		sb.WriteString(x.lead + first + strings.ReplaceAll(x.n.Text, "\n", "\n"+x.lead+rest) + "\n")
		put(x.n, x.lead+rest)
	}
	return sb.String()
}

func runOutline(_ string, v any) (bool, string) {
	x := v.(*OT)
	t := gotree.New(x.Text)
	x.build(t)
	want := x.rows()
	for i := 0; i < 2; i++ { // printing changes nothing
		if got := t.Print(); got != want {
			return true, fmt.Sprintf("print %d gives\n%s\nwanted\n%s", i+1, got, want)
		}
	}
	var same func(t gotree.Tree, x *OT) bool
	same = func(t gotree.Tree, x *OT) bool {
		if t.Text() != x.Text || len(t.Items()) != len(x.Kids) {
			return false
		}
		for i, k := range x.Kids {
			if !same(t.Items()[i], k) {
				return false
			}
		}
		return true
	}
	if !same(t, x) {
		return true, "the tree built has other texts or children than\n" + want
	}
	return len(x.Kids) > 0, ""
}

func genOutline(h *H) {
	texts := []string{"a", "", "b\nc", "\n", "x\n\ny", "└── z", "d\n", "é\n│   f", "1. g", "\r\n", "a\tb"}
	var gen func(d int) *OT
	gen = func(d int) *OT {
		x := &OT{Text: texts[h.rng.Intn(len(texts))], How: h.rng.Intn(3)}
		if d > 0 {
			for n := h.rng.Intn(4); n > 0; n-- {
				x.Kids = append(x.Kids, gen(h.rng.Intn(d)))
			}
		}
		return x
	}
	for !h.done() {
		h.Try("outline", gen(h.rng.Intn(9)), "")
	}
}

func init() {
	kinds["outline"] = kind{decodeAs[*OT], runOutline}
	props["C26"] = propDef{"generated trees of texts (several lines, up to eight levels, built in three ways) against an independent printer", genOutline}
}
