package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// T is a grammar term in a form that can be stored and replayed.
type T struct {
	K     string        `json:"k"` // rule s re ref ext seq oneof stack delim quant named scoped cut look
	S     string        `json:"s,omitempty"`
	A     []*T          `json:"a,omitempty"`
	Min   int           `json:"min,omitempty"`
	Max   int           `json:"max,omitempty"`
	Assoc int           `json:"assoc,omitempty"`
	Start bool          `json:"start,omitempty"`
	End   bool          `json:"end,omitempty"`
	G     map[string]*T `json:"g,omitempty"`
	Raw   []byte        `json:"raw,omitempty"` // a literal's text where it is not valid UTF-8
}

func tS(s string) *T             { return &T{K: "s", S: s} }
func tRE(s string) *T            { return &T{K: "re", S: s} }
func tRule(s string) *T          { return &T{K: "rule", S: s} }
func tSeq(a ...*T) *T            { return &T{K: "seq", A: a} }
func tOneof(a ...*T) *T          { return &T{K: "oneof", A: a} }
func tNamed(n string, t *T) *T   { return &T{K: "named", S: n, A: []*T{t}} }
func tQuant(t *T, lo, hi int) *T { return &T{K: "quant", A: []*T{t}, Min: lo, Max: hi} }
func tCut(t *T) *T               { return &T{K: "cut", A: []*T{t}} }
func tLook(t *T) *T              { return &T{K: "look", A: []*T{t}} }
func tDelim(t, sep *T, assoc int, start, end bool) *T {
	return &T{K: "delim", A: []*T{t, sep}, Assoc: assoc, Start: start, End: end}
}

func terms(a []*T) []parser.Term {
	out := make([]parser.Term, len(a))
	for i, x := range a {
		out[i] = x.Term()
	}
	return out
}

// Term builds the real term.
func (t *T) Term() parser.Term {
	if t == nil {
		return nil
	}
	switch t.K {
	case "rule":
		return parser.Rule(t.S)
	case "s":
		if t.Raw != nil {
			return parser.S(t.Raw)
		}
		return parser.S(t.S)
	case "re":
		return parser.RE(t.S)
	case "ref":
		r := parser.REF{Ident: t.S}
		if len(t.A) > 0 {
			r.Default = t.A[0].Term()
		}
		return r
	case "ext":
		return parser.ExtRef(t.S)
	case "seq":
		return parser.Seq(terms(t.A))
	case "oneof":
		return parser.Oneof(terms(t.A))
	case "stack":
		return parser.Stack(terms(t.A))
	case "delim":
		return parser.Delim{Term: t.A[0].Term(), Sep: t.A[1].Term(), Assoc: parser.Associativity(t.Assoc), CanStartWithSep: t.Start, CanEndWithSep: t.End}
	case "quant":
		return parser.Quant{Term: t.A[0].Term(), Min: t.Min, Max: t.Max}
	case "named":
		return parser.Named{Name: t.S, Term: t.A[0].Term()}
	case "scoped":
		return parser.ScopedGrammar{Term: t.A[0].Term(), Grammar: grammarOf(t.G)}
	case "cut":
		return parser.CutPoint{Term: t.A[0].Term()}
	case "look":
		return parser.LookAhead{Term: t.A[0].Term()}
	}
	panic("unknown kind " + t.K)
}

func grammarOf(g map[string]*T) parser.Grammar {
	out := parser.Grammar{}
	for r, t := range g {
		out[parser.Rule(r)] = t.Term()
	}
	return out
}

// fromTerm reads a real term back; it is the inverse of Term.
func fromTerm(x parser.Term) *T {
	list := func(k string, a []parser.Term) *T {
		t := &T{K: k}
		for _, y := range a {
			t.A = append(t.A, fromTerm(y))
		}
		return t
	}
	one := func(k string, y parser.Term) *T { return list(k, []parser.Term{y}) }
	switch x := x.(type) {
	case nil:
		return &T{K: "nil"}
	case parser.Rule:
		return tRule(string(x))
	case parser.S:
		return tS(string(x))
	case parser.RE:
		return tRE(string(x))
	case parser.REF:
		if x.Default != nil {
			t := one("ref", x.Default)
			t.S = x.Ident
			return t
		}
		return &T{K: "ref", S: x.Ident}
	case parser.ExtRef:
		return &T{K: "ext", S: string(x)}
	case parser.Seq:
		return list("seq", x)
	case parser.Oneof:
		return list("oneof", x)
	case parser.Stack:
		return list("stack", x)
	case parser.Delim:
		return tDelim(fromTerm(x.Term), fromTerm(x.Sep), int(x.Assoc), x.CanStartWithSep, x.CanEndWithSep)
	case parser.Quant:
		return tQuant(fromTerm(x.Term), x.Min, x.Max)
	case parser.Named:
		return tNamed(x.Name, fromTerm(x.Term))
	case parser.ScopedGrammar:
		t := one("scoped", x.Term)
		t.G = fromGrammar(x.Grammar)
		return t
	case parser.CutPoint:
		return tCut(fromTerm(x.Term))
	case parser.LookAhead:
		return tLook(fromTerm(x.Term))
	}
	return &T{K: fmt.Sprintf("%T", x)}
}

func fromGrammar(g parser.Grammar) map[string]*T {
	out := map[string]*T{}
	for r, t := range g {
		out[string(r)] = fromTerm(t)
	}
	return out
}

// key is an injective rendering.
func (t *T) key() string {
	if t == nil {
		return "-"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s(%q %d %d %d %v %v", t.K, t.S, t.Min, t.Max, t.Assoc, t.Start, t.End)
	for _, a := range t.A {
		sb.WriteString(" " + a.key())
	}
	if t.K == "scoped" {
		sb.WriteString(" {" + gkey(t.G) + "}")
	}
	sb.WriteString(")")
	return sb.String()
}

func gkey(g map[string]*T) string {
	var ks []string
	for k := range g {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q:%s;", k, g[k].key())
	}
	return sb.String()
}

func (t *T) clone() *T {
	if t == nil {
		return nil
	}
	c := *t
	c.A = nil
	for _, a := range t.A {
		c.A = append(c.A, a.clone())
	}
	if t.G != nil {
		c.G = map[string]*T{}
		for k, v := range t.G {
			c.G[k] = v.clone()
		}
	}
	return &c
}

// walk visits the term and its parts (nested grammars included).
func (t *T) walk(f func(*T)) {
	if t == nil {
		return
	}
	f(t)
	for _, a := range t.A {
		a.walk(f)
	}
	for _, a := range t.G {
		a.walk(f)
	}
}

func (t *T) has(kinds ...string) bool {
	found := false
	t.walk(func(x *T) {
		for _, k := range kinds {
			found = found || x.K == k
		}
	})
	return found
}

// ---------------------------------------------------------------- trees

// show renders a tree element injectively: tags, extras, texts and offsets.
func show(e any) string {
	switch e := e.(type) {
	case parser.Node:
		return showNode(e)
	case *parser.Node:
		return showNode(*e)
	case parser.Scanner:
		return fmt.Sprintf("%d:%q", e.Offset(), e.String())
	case *parser.Scanner:
		return fmt.Sprintf("%d:%q", e.Offset(), e.String())
	case parser.Empty:
		return "<empty>"
	case nil:
		return "<nil>"
	}
	return fmt.Sprintf("<%T %v>", e, e)
}

func showNode(n parser.Node) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%q", n.Tag)
	switch x := n.Extra.(type) {
	case nil:
	case parser.Choice:
		fmt.Fprintf(&sb, "#%d", int(x))
	case parser.Associativity:
		fmt.Fprintf(&sb, "~%d", int(x))
	default:
		fmt.Fprintf(&sb, "<%T>", x)
	}
	sb.WriteString("[")
	for i, c := range n.Children {
		if i > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString(show(c))
	}
	sb.WriteString("]")
	return sb.String()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
