package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// N is a syntax tree: a leaf over a piece of text, a leaf without source, a value, or a branch.
type N struct {
	K    string        `json:"k"`
	A    int           `json:"a,omitempty"`
	B    int           `json:"b,omitempty"`
	S    string        `json:"s,omitempty"`
	Kids map[string]*C `json:"kids,omitempty"`
}

// C is what is stored under a name.
type C struct {
	Many bool `json:"many,omitempty"`
	A    []*N `json:"a"`
}

func (n *N) node(src parser.Scanner) ast.Node {
	switch n.K {
	case "leaf":
		return ast.Leaf(*src.Slice(n.A, n.B))
	case "none":
		return ast.Leaf(parser.Scanner{})
	case "choice":
		return ast.Extra{Data: parser.Choice(n.A)}
	case "value":
		return ast.Extra{Data: n.S}
	case "rule":
		return ast.Extra{Data: parser.Rule(n.S)}
	}
	b := ast.Branch{}
	for k, c := range n.Kids {
		if !c.Many {
			b[k] = ast.One{Node: c.A[0].node(src)}
			continue
		}
		m := make(ast.Many, 0, len(c.A))
		for _, x := range c.A {
			m = append(m, x.node(src))
		}
		b[k] = m
	}
	return b
}

// text spells out what content equality compares.
func (n *N) text(src string) string {
	switch n.K {
	case "leaf":
		return fmt.Sprintf("%q", src[n.A:n.B])
	case "none":
		return `""`
	case "choice", "value", "rule":
		return fmt.Sprintf("<%s %d %q>", n.K, n.A, n.S)
	}
	var sb strings.Builder
	names := make([]string, 0)
	for k := range n.Kids {
		names = append(names, k)
	}
	sort.Strings(names)
	sb.WriteString("(")
	for _, k := range names {
		c := n.Kids[k]
		fmt.Fprintf(&sb, "%q:%v[", k, c.Many)
		for _, x := range c.A {
			sb.WriteString(x.text(src) + ",")
		}
		sb.WriteString("]")
	}
	sb.WriteString(")")
	return sb.String()
}

// cover is the smallest stretch with all leaves outside the @-names; plain tells whether no values are among them.
func (n *N) cover() (a, b int, some, plain bool) {
	plain = true
	switch n.K {
	case "leaf":
		return n.A, n.B, true, true
	case "none":
		return 0, 0, false, true
	case "choice", "value", "rule":
		return 0, 0, false, false
	}
	for k, c := range n.Kids {
		if strings.HasPrefix(k, "@") {
			continue
		}
		for _, x := range c.A {
			xa, xb, s, p := x.cover()
			plain = plain && p
			if !s {
				continue
			}
			if !some || xa < a {
				a = xa
			}
			if !some || xb > b {
				b = xb
			}
			some = true
		}
	}
	return a, b, some, plain
}

func (n *N) names(m map[string]bool) {
	for k, c := range n.Kids {
		m[k] = true
		for _, x := range c.A {
			x.names(m)
		}
	}
}

// SN is a syntax tree over a text.
type SN struct {
	Text string `json:"text"`
	T    *N     `json:"t"`
}

// S2 is a pair of syntax trees, each over its own text.
type S2 struct {
	A SN `json:"a"`
	B SN `json:"b"`
}

func sameNodes(a, b []ast.Node) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !reflect.DeepEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

func lookups(t *N, n ast.Node, src parser.Scanner, names []string) string {
	for _, name := range names {
		var want []ast.Node
		var one ast.Node
		var many []ast.Node
		c := t.Kids[name]
		if c != nil {
			for _, x := range c.A {
				want = append(want, x.node(src))
			}
			if c.Many {
				many = want
			} else {
				one = want[0]
			}
		}
		if got := n.One(name); !reflect.DeepEqual(got, one) {
			return fmt.Sprintf("One(%q) of %s is %v", name, t.text(src.String()), got)
		}
		if got := n.Many(name); !sameNodes(got, many) {
			return fmt.Sprintf("Many(%q) of %s is %v", name, t.text(src.String()), got)
		}
		if got := ast.All(n, name); !sameNodes(got, want) {
			return fmt.Sprintf("All(%q) of %s is %v", name, t.text(src.String()), got)
		}
		got := ast.First(n, name)
		if len(want) == 0 && got != nil || len(want) > 0 && !reflect.DeepEqual(got, want[0]) {
			return fmt.Sprintf("First(%q) of %s is %v", name, t.text(src.String()), got)
		}
		if b, ok := n.(ast.Branch); ok {
			for _, other := range names {
				k, kids := ast.Which(b, name, other)
				wk, wkids := "", ast.Children(nil)
				if t.Kids[name] != nil {
					wk, wkids = name, b[name]
				} else if t.Kids[other] != nil {
					wk, wkids = other, b[other]
				}
				if k != wk || !reflect.DeepEqual(kids, wkids) {
					return fmt.Sprintf("Which(%q, %q) of %s is %q", name, other, t.text(src.String()), k)
				}
			}
		}
	}
	want := -1
	if c := t.Kids["@choice"]; c != nil && len(c.A) > 0 {
		want = c.A[0].A
	}
	if got := ast.Choice(n); got != want {
		return fmt.Sprintf("Choice of %s is %d", t.text(src.String()), got)
	}
	if a, b, some, plain := t.cover(); plain {
		got := n.Scanner()
		if got.IsNil() == some || some && (got.Offset() != a || got.String() != cutOut(src, a, b)) {
			return fmt.Sprintf("the extent of %s is %#v, leaves cover %d-%d (%v)", t.text(src.String()), got, a, b, some)
		}
	}
	for k, c := range t.Kids {
		for i, x := range c.A {
			y := n.(ast.Branch)[k]
			var kid ast.Node
			if c.Many {
				kid = y.(ast.Many)[i]
			} else {
				kid = y.(ast.One).Node
			}
			if p := lookups(x, kid, src, names); p != "" {
				return p
			}
		}
	}
	return ""
}

func runSyn(_ string, v any) (bool, string) {
	c := v.(SN)
	m := map[string]bool{"absent": true, "@choice": true}
	c.T.names(m)
	names := make([]string, 0)
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	src := *parser.NewScanner(c.Text)
	return len(c.T.Kids) > 0, lookups(c.T, c.T.node(src), src, names)
}

func runSyn2(_ string, v any) (bool, string) {
	c := v.(S2)
	sa, sb := *parser.NewScanner(c.A.Text), *parser.NewScannerWithFilename(c.B.Text, "b")
	a, b := c.A.T.node(sa), c.B.T.node(sb)
	ta, tb := c.A.T.text(c.A.Text), c.B.T.text(c.B.Text)
	if got := a.ContentEquals(b); got != (ta == tb) {
		return true, fmt.Sprintf("content equality is %v for %s and %s", got, ta, tb)
	}
	if got := b.ContentEquals(a); got != (ta == tb) {
		return true, fmt.Sprintf("content equality is %v for %s and %s", got, tb, ta)
	}
	return true, ""
}

// nodeOf reads a real tree.
func nodeOf(n ast.Node) *N {
	switch n := n.(type) {
	case ast.Leaf:
		s := parser.Scanner(n)
		if s.IsNil() {
			return &N{K: "none"}
		}
		return &N{K: "leaf", A: s.Offset(), B: s.Offset() + len(s.String())}
	case ast.Extra:
		switch d := n.Data.(type) {
		case parser.Choice:
			return &N{K: "choice", A: int(d)}
		case parser.Rule:
			return &N{K: "rule", S: string(d)}
		case string:
			return &N{K: "value", S: d}
		}
		panic(fmt.Sprintf("a value of type %T", n.Data))
	}
	out := &N{K: "branch", Kids: map[string]*C{}}
	for k, c := range n.(ast.Branch) {
		switch c := c.(type) {
		case ast.One:
			out.Kids[k] = &C{A: []*N{nodeOf(c.Node)}}
		case ast.Many:
			x := &C{Many: true}
			for _, y := range c {
				x.A = append(x.A, nodeOf(y))
			}
			out.Kids[k] = x
		}
	}
	return out
}

func genSyn(h *H, text string, depth int) *N {
	n := &N{K: "branch", Kids: map[string]*C{}}
	names := []string{"", "a", "b", "@skip", "x@", "c"}
	for i := h.rng.Intn(4); i > 0; i-- {
		k := pick(h, names...)
		c := &C{Many: h.rng.Intn(2) == 0}
		m := 1
		if c.Many {
			m = h.rng.Intn(4)
		}
		for ; m > 0; m-- {
			switch r := h.rng.Intn(10); {
			case r < 3 && depth > 0:
				c.A = append(c.A, genSyn(h, text, depth-1))
			case r < 8:
				a := h.rng.Intn(len(text) + 1)
				c.A = append(c.A, &N{K: "leaf", A: a, B: a + h.rng.Intn(len(text)-a+1)})
			case r < 9 && (h.rng.Intn(3) == 0 || strings.HasPrefix(k, "@")):
				c.A = append(c.A, &N{K: "value", S: pick(h, "v", "w")})
			default:
				c.A = append(c.A, &N{K: "none"})
			}
		}
		n.Kids[k] = c
	}
	if h.rng.Intn(2) == 0 {
		c := &C{Many: true}
		for i := h.rng.Intn(3); i >= 0; i-- {
			c.A = append(c.A, &N{K: "choice", A: h.rng.Intn(3)})
		}
		n.Kids["@choice"] = c
	}
	if h.rng.Intn(3) == 0 {
		n.Kids["@rule"] = &C{A: []*N{{K: "rule", S: pick(h, "a", "b")}}}
	}
	return n
}

func (n *N) copy(f func(*N) *N) *N {
	c := *n
	if n.Kids != nil {
		c.Kids = map[string]*C{}
		for k, x := range n.Kids {
			y := &C{Many: x.Many, A: []*N{}}
			for _, z := range x.A {
				y.A = append(y.A, z.copy(f))
			}
			c.Kids[k] = y
		}
	}
	return f(&c)
}

// moved is the tree over a longer text, its pieces taken from elsewhere.
func (n *N) moved(by int) *N {
	return n.copy(func(x *N) *N {
		if x.K == "leaf" {
			x.A, x.B = x.A+by, x.B+by
		}
		return x
	})
}

// tweaked changes one thing, if it can.
func (n *N) tweaked(h *H, text string) *N {
	at := 0
	n.copy(func(x *N) *N { at++; return x })
	at = h.rng.Intn(at)
	return n.copy(func(x *N) *N {
		at--
		if at != -1 {
			return x
		}
		switch x.K {
		case "leaf":
			if h.rng.Intn(3) == 0 {
				return &N{K: "none"}
			}
			a := h.rng.Intn(len(text) + 1)
			x.A, x.B = a, a+h.rng.Intn(len(text)-a+1)
		case "branch":
			var ks []string
			for k := range x.Kids {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			if len(ks) == 0 {
				x.Kids["a"] = &C{Many: h.rng.Intn(2) == 0, A: []*N{{K: "none"}}}
				break
			}
			k := ks[h.rng.Intn(len(ks))]
			c := x.Kids[k]
			switch h.rng.Intn(5) {
			case 0:
				delete(x.Kids, k)
			case 1:
				delete(x.Kids, k)
				x.Kids["z"] = c
			case 2:
				x.Kids["z"] = &C{Many: true, A: []*N{}}
			case 3:
				if len(c.A) == 1 {
					c.Many = !c.Many
				}
			case 4:
				if c.Many && len(c.A) > 0 {
					if h.rng.Intn(2) == 0 {
						c.A = c.A[:len(c.A)-1]
					} else {
						c.A = append(c.A, c.A[0])
					}
				}
			}
		case "choice":
			x.A++
		default:
			x.S += "'"
		}
		return x
	})
}

func init() {
	kinds["syn"] = kind{decodeAs[SN], runSyn}
	kinds["syn2"] = kind{decodeAs[S2], runSyn2}
	props["C19"] = propDef{"generated syntax trees and those of parsed grammars: every lookup, content equality with moved, changed and unrelated trees both ways, and the extent of every node against a walk over the tree", func(h *H) {
		texts := []string{"abcab", "aXbXa", "", "x", "aaaaaaaa", "ab\ncd é"}
		w := &gwriter{h: h, nested: true, macros: true, look: true}
		for i := 0; !h.done(); i++ {
			text := texts[h.rng.Intn(len(texts)-1)]
			t := genSyn(h, text, 1+i%3)
			if i%40 == 39 {
				w = &gwriter{h: h, nested: true, macros: i%3 == 0, look: true, depth: h.rng.Intn(3)}
				text = w.write().Text
				node, err := wbnf.Parse(parser.NewScanner(text))
				if err != nil {
					continue
				}
				t = nodeOf(node.Node)
			}
			h.Try("syn", SN{text, t}, "")
			h.Try("syn2", S2{SN{text, t}, SN{"zz" + text + "y", t.moved(2)}}, "")
			u := t.tweaked(h, text)
			h.Try("syn2", S2{SN{text, t}, SN{text, u}}, "")
			if h.rng.Intn(4) == 0 {
				u = u.tweaked(h, text)
				h.Try("syn2", S2{SN{text, t}, SN{text, u}}, "")
			}
		}
	}}
}

func cutOut(src parser.Scanner, a, b int) string { return src.String()[a:b] }
