package main

import (
	"bytes"
	"fmt"
	goast "go/ast"
	"go/format"
	goparser "go/parser"
	"go/token"
	"strconv"

	"github.com/arr-ai/wbnf/cmd/codegen"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// goSource reads Go source of the generator: the few constructs it needs, by the rules of Go.
type goSource struct{ problem string }

func (r *goSource) bad(f string, args ...any) {
	if r.problem == "" {
		r.problem = fmt.Sprintf(f, args...)
	}
}

// sel gives the name x of parser.x
func sel(e goast.Expr) string {
	if s, ok := e.(*goast.SelectorExpr); ok {
		if p, ok := s.X.(*goast.Ident); ok && p.Name == "parser" {
			return s.Sel.Name
		}
	}
	return ""
}

func (r *goSource) str(e goast.Expr) string {
	switch e := e.(type) {
	case *goast.BasicLit:
		if e.Kind == token.STRING {
			if s, err := strconv.Unquote(e.Value); err == nil {
				return s
			}
		}
	case *goast.ParenExpr:
		return r.str(e.X)
	case *goast.BinaryExpr:
		if e.Op == token.ADD {
			return r.str(e.X) + r.str(e.Y)
		}
	}
	r.bad("not a string: %T", e)
	return ""
}

func (r *goSource) num(e goast.Expr) int {
	if u, ok := e.(*goast.UnaryExpr); ok && u.Op == token.SUB {
		return -r.num(u.X)
	}
	if b, ok := e.(*goast.BasicLit); ok && b.Kind == token.INT {
		if n, err := strconv.ParseInt(b.Value, 0, 64); err == nil {
			return int(n)
		}
	}
	r.bad("not a number: %T", e)
	return 0
}

func (r *goSource) flag(e goast.Expr) bool {
	if i, ok := e.(*goast.Ident); ok && (i.Name == "true" || i.Name == "false") {
		return i.Name == "true"
	}
	r.bad("not a bool: %T", e)
	return false
}

// fields gives the fields of a composite literal by name; bare elements go by the names of order.
func (r *goSource) fields(c *goast.CompositeLit, order ...string) map[string]goast.Expr {
	m := map[string]goast.Expr{}
	bare := 0
	for i, e := range c.Elts {
		if kv, ok := e.(*goast.KeyValueExpr); ok {
			k, ok := kv.Key.(*goast.Ident)
			if !ok {
				r.bad("field %T", kv.Key)
				continue
			}
			if _, has := m[k.Name]; has {
				r.bad("field %s twice", k.Name)
			}
			known := false
			for _, o := range order {
				known = known || o == k.Name
			}
			if !known {
				r.bad("unknown field %s", k.Name)
			}
			m[k.Name] = kv.Value
			continue
		}
		bare++
		if i < len(order) {
			m[order[i]] = e
		}
	}
	if bare > 0 && (bare != len(c.Elts) || bare != len(order)) {
		r.bad("a literal with %d of %d fields and %d names", bare, len(order), len(c.Elts)-bare)
	}
	return m
}

func (r *goSource) terms(es []goast.Expr) []parser.Term {
	var ts []parser.Term
	for _, e := range es {
		ts = append(ts, r.term(e))
	}
	return ts
}

func (r *goSource) term(e goast.Expr) parser.Term {
	switch e := e.(type) {
	case *goast.ParenExpr:
		return r.term(e.X)
	case *goast.SelectorExpr:
		if sel(e) == "At" {
			return parser.At
		}
	case *goast.CallExpr:
		want := 1
		if sel(e.Fun) == "Eq" {
			want = 2
		}
		if len(e.Args) != want {
			r.bad("%s with %d arguments", sel(e.Fun), len(e.Args))
			return parser.S("")
		}
		switch sel(e.Fun) {
		case "S":
			return parser.S(r.str(e.Args[0]))
		case "RE":
			return parser.RE(r.str(e.Args[0]))
		case "Rule":
			return parser.Rule(r.str(e.Args[0]))
		case "ExtRef":
			return parser.ExtRef(r.str(e.Args[0]))
		case "Any":
			return parser.Any(r.term(e.Args[0]))
		case "Some":
			return parser.Some(r.term(e.Args[0]))
		case "Opt":
			return parser.Opt(r.term(e.Args[0]))
		case "Eq":
			return parser.Eq(r.str(e.Args[0]), r.term(e.Args[1]))
		}
	case *goast.CompositeLit:
		switch sel(e.Type) {
		case "Seq":
			return parser.Seq(r.terms(e.Elts))
		case "Oneof":
			return parser.Oneof(r.terms(e.Elts))
		case "Stack":
			return parser.Stack(r.terms(e.Elts))
		case "Delim":
			m := r.fields(e, "Term", "Sep", "Assoc", "CanStartWithSep", "CanEndWithSep")
			d := parser.Delim{Term: r.opt(m["Term"]), Sep: r.opt(m["Sep"])}
			if a := m["Assoc"]; a != nil {
				switch sel(a) {
				case "LeftToRight":
					d.Assoc = parser.LeftToRight
				case "RightToLeft":
					d.Assoc = parser.RightToLeft
				case "NonAssociative":
				default:
					r.bad("associativity %s", sel(a))
				}
			}
			if a := m["CanStartWithSep"]; a != nil {
				d.CanStartWithSep = r.flag(a)
			}
			if a := m["CanEndWithSep"]; a != nil {
				d.CanEndWithSep = r.flag(a)
			}
			return d
		case "Quant":
			m := r.fields(e, "Term", "Min", "Max")
			q := parser.Quant{Term: r.opt(m["Term"])}
			if a := m["Min"]; a != nil {
				q.Min = r.num(a)
			}
			if a := m["Max"]; a != nil {
				q.Max = r.num(a)
			}
			return q
		case "Named":
			m := r.fields(e, "Name", "Term")
			n := parser.Named{Term: r.opt(m["Term"])}
			if a := m["Name"]; a != nil {
				n.Name = r.str(a)
			}
			return n
		case "REF":
			m := r.fields(e, "Ident", "Default")
			f := parser.REF{Default: r.opt(m["Default"])}
			if a := m["Ident"]; a != nil {
				f.Ident = r.str(a)
			}
			return f
		case "ScopedGrammar":
			m := r.fields(e, "Term", "Grammar")
			return parser.ScopedGrammar{Term: r.opt(m["Term"]), Grammar: r.grammar(m["Grammar"])}
		case "CutPoint":
			return parser.CutPoint{Term: r.opt(r.fields(e, "Term")["Term"])}
		case "LookAhead":
			return parser.LookAhead{Term: r.opt(r.fields(e, "Term")["Term"])}
		}
		r.bad("literal of %s", sel(e.Type))
		return parser.S("")
	}
	r.bad("not a term: %T", e)
	return parser.S("")
}

func (r *goSource) opt(e goast.Expr) parser.Term {
	if e == nil {
		return nil
	}
	return r.term(e)
}

func (r *goSource) grammar(e goast.Expr) parser.Grammar {
	c, ok := e.(*goast.CompositeLit)
	if !ok || sel(c.Type) != "Grammar" {
		r.bad("not a grammar: %T", e)
		return nil
	}
	g := parser.Grammar{}
	for _, x := range c.Elts {
		kv, ok := x.(*goast.KeyValueExpr)
		if !ok {
			r.bad("a rule without a name")
			continue
		}
		k := parser.Rule(r.str(kv.Key))
		if _, has := g[k]; has {
			r.bad("rule %s twice", k)
		}
		g[k] = r.term(kv.Value)
	}
	return g
}

// sourceOf gives the grammar that the generated source holds.
func sourceOf(g parser.Grammar) (parser.Grammar, string) {
	var buf bytes.Buffer
	if err := codegen.Write(&buf, codegen.TemplateData{CommandLine: "x", PackageName: "x", StartRule: `"a"`, StartRuleTypeName: "X",
		Grammar: codegen.MakeGrammarString(g)}); err != nil {
		return nil, err.Error()
	}
	out, err := format.Source(buf.Bytes())
	if err != nil {
		return nil, "not Go source: " + err.Error()
	}
	f, err := goparser.ParseFile(token.NewFileSet(), "x.go", out, 0)
	if err != nil {
		return nil, "not Go source: " + err.Error()
	}
	for _, d := range f.Decls {
		fd, ok := d.(*goast.FuncDecl)
		if !ok || fd.Name.Name != "Grammar" || fd.Recv != nil || len(fd.Body.List) != 1 {
			continue
		}
		if ret, ok := fd.Body.List[0].(*goast.ReturnStmt); ok && len(ret.Results) == 1 {
			if c, ok := ret.Results[0].(*goast.CallExpr); ok {
				if s, ok := c.Fun.(*goast.SelectorExpr); ok && s.Sel.Name == "Compile" {
					r := &goSource{}
					return r.grammar(s.X), r.problem
				}
			}
		}
	}
	return nil, "no grammar in the source"
}

func deeper(g map[string]*T, f func(*T)) {
	for _, t := range g {
		t.walk(func(x *T) {
			f(x)
			if x.G != nil {
				deeper(x.G, f)
			}
		})
	}
}

func likeSource(want, g parser.Grammar, compile bool) string {
	got, problem := sourceOf(g)
	if problem != "" {
		return problem
	}
	if compile {
		got = got.Compile(nil).Grammar()
	}
	if a, b := gkey(fromGrammar(want)), gkey(fromGrammar(got)); a != b {
		return "the source of " + apart(a, b, "is that of")
	}
	return ""
}

func runSource(_ string, v any) (bool, string) {
	c := v.(PC)
	return true, likeSource(grammarOf(c.G).Compile(nil).Grammar(), grammarOf(c.G).Compile(nil).Grammar(), true)
}

func runTextSource(_ string, v any) (bool, string) {
	node, err := wbnf.Parse(parser.NewScanner(v.(GT).Text))
	if err != nil {
		return false, ""
	}
	return true, likeSource(wbnf.NewFromAst(node.Node), wbnf.NewFromAst(node.Node), false)
}

// renamed gives the rules a and b of a grammar other names.
func renamed(g map[string]*T, a, b string) map[string]*T {
	to := map[string]string{"a": a, "b": b, "ab": a + b}
	out := map[string]*T{}
	for r, t := range g {
		if n, ok := to[r]; ok {
			r = n
		}
		out[r] = t.clone()
		out[r].walk(func(x *T) {
			if n, ok := to[x.S]; ok && x.K == "rule" {
				x.S = n
			}
		})
	}
	return out
}

func genSource(h *H) {
	odd := []string{"`", "``", "\r", "\r\n", "\n", "\\", `\n`, `"`, "\x00", "\ufeff", "é", " ", "%s", "%", "'", "`\r`", "\t", "{{.}}", "//", "/*", ""}
	for i := 0; i < len(odd); i++ {
		h.Try("source", PC{G: map[string]*T{"a": tSeq(tS(odd[i]+"x"), tRule("b")), "b": tQuant(tS("y"+odd[i]), 2, 3)}, Start: "a"}, "")
	}
	g := &tokGen{h: h, w: map[string]int{"tok": 8, "seq": 5, "oneof": 4, "quant": 4, "delim": 5, "named": 6, "ref": 2, "rule": 4, "cut": 1, "look": 1}}
	for !h.done() {
		g.wrap = h.rng.Intn(3) == 0
		gr := g.grammar()
		switch h.rng.Intn(4) {
		case 0: // levels, of one rule or two
			lg := &tokGen{h: h, w: map[string]int{"tok": 4, "seq": 3, "oneof": 3, "quant": 2, "delim": 2, "named": 2, "rule": 5}}
			for _, r := range []string{"a", "ab", "lev"} {
				if r != "a" && h.rng.Intn(2) == 0 {
					continue
				}
				lg.rules, lg.all = []string{"@"}, []string{"@"}
				st := &T{K: "stack", A: []*T{lg.level(false)}}
				for n := h.rng.Intn(3); n > 0; n-- {
					st.A = append(st.A, lg.level(false))
				}
				if h.rng.Intn(20) == 0 {
					for len(st.A) < 12 {
						st.A = append(st.A, lg.level(false))
					}
				}
				st.A = append(st.A, lg.level(true))
				gr[r] = st
			}
		case 1: // a nested grammar
			in := map[string]*T{"n": tSeq(tS("x"), g.term(2, true)), "m": g.term(1, true)}
			if h.rng.Intn(2) == 0 {
				in["n"] = &T{K: "stack", A: []*T{tDelim(tRule("@"), tS("+"), h.rng.Intn(3)-1, false, false), tS("y")}}
			}
			in[".wrapRE"] = tRE(`\s*()\s*`)
			gr["a"] = tSeq(gr["a"], &T{K: "scoped", A: []*T{tRule("n")}, G: in})
		}
		deeper(gr, func(x *T) {
			switch {
			case x.K == "s" && h.rng.Intn(3) == 0:
				x.S += pick(h, odd...)
			case x.K == "s" && h.rng.Intn(8) == 0:
				*x = T{K: "ref", S: pick(h, "p", "q", "a", "x_1"), A: []*T{tS(pick(h, "", "", "z", "`"))}}
				if h.rng.Intn(3) == 0 {
					x.A = nil
				}
			case x.K == "re" && h.rng.Intn(6) == 0:
				x.S += pick(h, "`", "\r", "\n", `\r`, "é", " ", `"`, "``?")
			case x.K == "quant" && h.rng.Intn(3) == 0:
				x.Min, x.Max = h.rng.Intn(4), 0
				if h.rng.Intn(2) == 0 {
					x.Max = x.Min + h.rng.Intn(3)
				}
			}
		})
		if h.rng.Intn(2) == 0 {
			gr = renamed(gr, pick(h, "e_", "_", "A", "x1", "e_e"), pick(h, "e_f", "a_", "Aa", "x10", "lev_"))
		}
		h.Try("source", PC{G: gr, Start: "a"}, "")
		if h.rng.Intn(10) == 0 {
			w := &gwriter{h: h, depth: 2, nested: true, macros: true}
			h.Try("text-source", w.write(), "")
		}
	}
}

func init() {
	kinds["source"] = kind{decodeAs[PC], runSource}
	kinds["text-source"] = kind{decodeAs[GT], runTextSource}
	props["C20"] = propDef{"generated grammars (odd strings, bounds, levels, nested grammars): the Go source of the generator is parsed, evaluated by the rules of Go and compared with the grammar it came from", genSource}
}
