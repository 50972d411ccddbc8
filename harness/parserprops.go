package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/arr-ai/wbnf/parser"
)

// tokGen produces grammars over a small alphabet, weighted towards some constructs.
type tokGen struct {
	h     *H
	w     map[string]int
	names []string // names bound so far on the way, for references
	rules []string // rules that may be referred to
	all   []string // rules that may be referred to once a character was read
	wrap  bool
	utf   bool
}

// patterns and a few texts each of them matches
var patterns = []struct {
	re    string
	texts []string
}{
	{`[xy]`, []string{"x", "y"}},
	{`x*`, []string{"", "x", "xx"}},
	{`[yz]+`, []string{"y", "zy"}},
	{`x(y)z`, []string{"xyz"}},
	{`(x)|y`, []string{"x", "y"}},
	{`(?:(x)|(y))z?`, []string{"xz", "y", "yz"}},
	{`y(x)?`, []string{"y", "yx"}},
	{`((x)y)+`, []string{"xy", "xyxy"}},
	{`x??`, []string{"", "x"}},
	{`$`, []string{"", "\n"}},
	{`\s+`, []string{" ", "\n"}},
	{`é|.`, []string{"é", "z"}},
	{``, []string{""}},
}

var literals = []string{"x", "y", "z", "xy", ",", "+", "xx", "(", "*", "é"}

func (g *tokGen) token() *T {
	if g.h.rng.Intn(3) == 0 {
		return tRE(patterns[g.h.rng.Intn(len(patterns))].re)
	}
	return tS(literals[g.h.rng.Intn(len(literals))])
}

func (g *tokGen) kind() string {
	n := 0
	for _, k := range genKinds {
		n += g.w[k]
	}
	i := g.h.rng.Intn(n)
	for _, k := range genKinds {
		if i -= g.w[k]; i < 0 {
			return k
		}
	}
	return "tok"
}

var genKinds = []string{"tok", "seq", "oneof", "quant", "delim", "named", "look", "ref", "rule", "cut", "ext"}

func (g *tokGen) term(depth int, read bool) *T {
	k := g.kind()
	if depth <= 0 && k != "rule" && k != "ref" && k != "ext" {
		k = "tok"
	}
	r := g.h.rng
	switch k {
	case "seq":
		t := &T{K: "seq"}
		keep := len(g.names)
		for n := r.Intn(4); n >= 0; n-- {
			x := g.term(depth-1, read)
			read = read || x.K == "s" && x.S != "" || x.K == "cut"
			t.A = append(t.A, x)
			if id := ident(x); id != "" {
				g.names = append(g.names, id)
			}
		}
		g.names = g.names[:keep]
		return t
	case "oneof":
		t := &T{K: "oneof"}
		for n := 1 + r.Intn(3); n >= 0; n-- {
			t.A = append(t.A, g.term(depth-1, read))
		}
		return t
	case "quant":
		lo := r.Intn(3)
		hi := 0
		if r.Intn(2) == 0 {
			hi = lo + r.Intn(3)
		}
		if hi == 0 {
			lo = r.Intn(2) * r.Intn(3)
		}
		return tQuant(g.term(depth-1, read), lo, hi)
	case "delim":
		return tDelim(g.term(depth-1, read), g.term(depth-2, read), r.Intn(3)-1, r.Intn(3) == 0, r.Intn(3) == 0)
	case "named":
		return tNamed(pick(g.h, "p", "q", "p"), g.term(depth-1, read))
	case "look":
		return tLook(g.term(depth-1, read))
	case "ref":
		id := pick(g.h, "p", "q")
		if len(g.names) > 0 && r.Intn(4) > 0 {
			id = g.names[r.Intn(len(g.names))]
		}
		t := &T{K: "ref", S: id}
		if r.Intn(3) == 0 {
			t.A = []*T{g.token()}
		}
		return t
	case "rule":
		rs := g.rules
		if read && r.Intn(3) == 0 {
			rs = g.all
		}
		if len(rs) > 0 {
			return tRule(rs[r.Intn(len(rs))])
		}
	case "cut":
		return tCut(tS(literals[r.Intn(len(literals))]))
	case "ext":
		return &T{K: "ext", S: pick(g.h, "one", "one", "one", "no", "stop")}
	}
	return g.token()
}

func (g *tokGen) grammar() map[string]*T {
	names := []string{"a", "b", "c"}[:1+g.h.rng.Intn(3)]
	out := map[string]*T{}
	g.all = names
	for i, n := range names {
		g.rules = names[i+1:]
		g.names = nil
		depth := 3
		if i > 0 {
			depth = 2
		}
		t := g.term(depth, false)
		for t.K == "rule" || t.K == "named" && t.A[0].K == "rule" || t.K == "cut" || t.K == "named" && t.A[0].K == "named" {
			t = g.term(depth, false)
		}
		out[n] = t
	}
	if g.wrap {
		switch g.h.rng.Intn(4) {
		case 0:
			out[".wrapRE"] = tOneof(tRE(`[xy]`), tS("x"), tRE(`\s*()\s*`))
		case 1:
			out[".wrapRE"] = tRE(`()\s*`)
		default:
			out[".wrapRE"] = tRE(`\s*()\s*`)
		}
	}
	return out
}

// sample writes a text that the term may match.
func (g *tokGen) sample(gr map[string]*T, t *T, env map[string]string, fuel *int) string {
	*fuel--
	if t == nil || *fuel < 0 {
		return ""
	}
	r := g.h.rng
	sp := ""
	if g.wrap && r.Intn(3) == 0 {
		sp = " "
	}
	switch t.K {
	case "s":
		return sp + t.S
	case "re":
		for _, p := range patterns {
			if p.re == t.S {
				return sp + p.texts[r.Intn(len(p.texts))]
			}
		}
	case "rule":
		return g.sample(gr, gr[t.S], env, fuel)
	case "named", "cut":
		return g.sample(gr, t.A[0], env, fuel)
	case "scoped":
		in := map[string]*T{}
		for k, v := range gr {
			in[k] = v
		}
		for k, v := range t.G {
			in[k] = v
		}
		return g.sample(in, t.A[0], env, fuel)
	case "seq":
		var sb strings.Builder
		e := map[string]string{}
		for k, v := range env {
			e[k] = v
		}
		for _, x := range t.A {
			s := g.sample(gr, x, e, fuel)
			if id := ident(x); id != "" {
				e[id] = s
			}
			sb.WriteString(s)
		}
		return sb.String()
	case "oneof", "stack":
		return g.sample(gr, t.A[r.Intn(len(t.A))], env, fuel)
	case "quant":
		n := t.Min + r.Intn(3)
		if t.Max > 0 && n > t.Max {
			n = t.Max
		}
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(g.sample(gr, t.A[0], env, fuel))
		}
		return sb.String()
	case "delim":
		var sb strings.Builder
		if t.Start && r.Intn(2) == 0 {
			sb.WriteString(g.sample(gr, t.A[1], env, fuel))
		}
		for i, n := 0, r.Intn(4); i <= n; i++ {
			if i > 0 {
				sb.WriteString(g.sample(gr, t.A[1], env, fuel))
			}
			sb.WriteString(g.sample(gr, t.A[0], env, fuel))
		}
		if t.End && r.Intn(2) == 0 {
			sb.WriteString(g.sample(gr, t.A[1], env, fuel))
		}
		return sb.String()
	case "ref":
		if s, ok := env[t.S]; ok {
			return s
		}
		if len(t.A) > 0 {
			return g.sample(gr, t.A[0], env, fuel)
		}
	case "ext":
		return pick(g.h, "x", "y")
	}
	return ""
}

func (g *tokGen) text(gr map[string]*T, start string) string {
	r := g.h.rng
	fuel := 60
	s := g.sample(gr, gr[start], nil, &fuel)
	if len(s) > 40 {
		s = strings.ToValidUTF8(s[:40], "")
	}
	switch r.Intn(5) {
	case 0: // change one place
		if len(s) > 0 {
			i := r.Intn(len(s))
			for !utf8.RuneStart(s[i]) {
				i--
			}
			_, n := utf8.DecodeRuneInString(s[i:])
			s = s[:i] + pick(g.h, "", "x", "y", ",", " ") + s[i+n:]
		}
	case 1:
		s += pick(g.h, "x", "y", "z", ",", "+", " ")
	case 2:
		if r.Intn(3) == 0 {
			s = ""
			for n := r.Intn(6); n > 0; n-- {
				s += pick(g.h, "x", "y", "z", ",", "+", "xy", "é", " ")
			}
		}
	}
	return s
}

// reaches: the term contains one of the kinds, following rules
func reaches(g map[string]*T, t *T, kinds []string, seen map[string]bool) bool {
	found := t.has(kinds...)
	t.walk(func(x *T) {
		if !found && x.K == "rule" && !seen[x.S] {
			seen[x.S] = true
			if y := g[x.S]; y != nil && reaches(g, y, kinds, seen) {
				found = true
			}
		}
	})
	return found
}

// foreign says whether the disagreement is already there for a part without any of the kinds.
func foreign(c PC, kinds []string) bool {
	var parts []*T
	for _, t := range c.G {
		t.walk(func(x *T) {
			if x.K != "rule" && !reaches(c.G, x, kinds, map[string]bool{}) {
				parts = append(parts, x)
			}
		})
	}
	for _, x := range parts {
		for i := 0; i <= len(c.In); i++ {
			g := map[string]*T{}
			for k, v := range c.G {
				g[k] = v
			}
			g["zz"] = x
			if _, p := compare(PC{G: g, Start: "zz", In: c.In[i:]}, false); p != "" {
				return true
			}
		}
	}
	return false
}

var propKinds = map[string][]string{
	"C03": {"seq", "delim"},
	"C04": {"oneof"},
	"C05": {"quant", "delim"},
	"C06": {"delim"},
	"C07": {"look", "ref"},
	"C08": {"cut", "ext"},
}

func runParse(prop string, v any) (bool, string) {
	c := v.(PC)
	if c.Raw != nil {
		c.In = string(c.Raw)
	}
	nt, p := compare(c, prop == "C08")
	if o := (&oracle{g: c.G}).follow(c.G[c.Start]); p == "" && prop == "C07" && o != nil && o.K == "look" {
		in := parser.NewScanner(c.In)
		_, _ = grammarOf(c.G).Compile(nil).ParseWithExternals(parser.Rule(c.Start), in, externals)
		if in.Offset() != 0 || in.String() != c.In {
			return true, fmt.Sprintf("the lookahead left the read position at %d", in.Offset())
		}
	}
	if p == "" && prop == "C05" && len(c.In) <= 12 { // the failure can be reported: its text comes to an end
		in := parser.NewScanner(c.In)
		if _, err := grammarOf(c.G).Compile(nil).ParseWithExternals(parser.Rule(c.Start), in, externals); err != nil {
			_ = err.Error()
		}
	}
	if p != "" {
		if ks := propKinds[prop]; ks != nil && foreign(c, ks) {
			return false, ""
		}
		if prop == "C11" {
			return nt, "levels: " + p
		}
	}
	return nt, p
}

func genParse(w map[string]int, wrap bool) func(h *H) {
	return func(h *H) {
		g := &tokGen{h: h, w: w}
		need := propKinds[h.prop]
		if h.prop == "C05" {
			h.Try("parse", PC{G: map[string]*T{"a": tQuant(tS("x"), 2, 3)}, Start: "a", In: "x"}, "")
		}
		if h.prop == "C07" {
			ref := map[string]*T{"a": tSeq(tNamed("p", tRE(`.`)), &T{K: "ref", S: "p"})}
			h.Try("parse", PC{G: ref, Start: "a", Raw: []byte("\xff\xff")}, "ref-invalid-utf8")
		}
		for !h.done() {
			g.wrap = wrap && h.rng.Intn(3) > 0
			gr := g.grammar()
			if len(need) > 0 && !reaches(gr, tRule("a"), need, map[string]bool{}) {
				continue
			}
			for i := 0; i < 8 && !h.done(); i++ {
				h.Try("parse", PC{G: gr, Start: "a", In: g.text(gr, "a")}, "")
			}
		}
	}
}

// leavesOf lists the leaves in order.
func leavesOf(e parser.TreeElement, f func(parser.Scanner)) {
	switch e := e.(type) {
	case parser.Node:
		for _, c := range e.Children {
			leavesOf(c, f)
		}
	case parser.Scanner:
		f(e)
	}
}

func runLeaves(_ string, v any) (bool, string) {
	c := v.(PC)
	ps := grammarOf(c.G).Compile(nil)
	// the text is a piece of a longer one
	src := parser.NewScanner("ab" + c.In + "cd")
	in := src.Slice(2, 2+len(c.In))
	e, err := ps.ParseWithExternals(parser.Rule(c.Start), in, externals)
	if in.Offset() < 2 || in.Offset()+len(in.String()) != 2+len(c.In) || in.String() != c.In[in.Offset()-2:] {
		return true, fmt.Sprintf("the rest of the input is %d:%q", in.Offset(), in.String())
	}
	if u, ok := err.(parser.UnconsumedInputError); ok {
		e = u.Result()
		if r := u.Residue(); r.String() != in.String() || r.Offset() != in.Offset() {
			return true, "the rest in the error is not the rest of the input"
		}
	}
	ordered := true
	for _, t := range c.G {
		ordered = ordered && !t.has("look")
	}
	problem, last, n := "", 2, 0
	leavesOf(e, func(s parser.Scanner) {
		n++
		o, t := s.Offset(), s.String()
		switch {
		case problem != "":
		case !src.Contains(s):
			problem = fmt.Sprintf("leaf %d:%q is not a piece of the source", o, t)
		case o < 2 || o+len(t) > 2+len(c.In) || c.In[o-2:o-2+len(t)] != t:
			problem = fmt.Sprintf("leaf %d:%q is not in place", o, t)
		case ordered && o < last:
			problem = fmt.Sprintf("leaf %d:%q starts before its construct, at %d", o, t, last)
		case ordered && o+len(t) > in.Offset():
			problem = fmt.Sprintf("leaf %d:%q lies beyond the read position %d", o, t, in.Offset())
		}
		if ordered {
			last = o + len(t)
		}
	})
	return n > 0, problem
}

// C2 is a scripted external rule: how much it reads and how it ends.
type C2 struct {
	In     string `json:"in"`
	Read   int    `json:"read"`
	Err    string `json:"err"` // "", "plain", "stop"
	Nil    bool   `json:"nil"`
	Direct bool   `json:"direct"`
}

func runWhole(_ string, v any) (bool, string) {
	c := v.(C2)
	failed := fmt.Errorf("scripted")
	var fail error = failed
	if c.Err == "stop" {
		fail = stopErr{}
	}
	calls := 0
	var piece parser.Scanner
	ext := parser.ExternalRefs{"e": func(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
		calls++
		in.Eat(c.Read, &piece)
		if c.Err != "" {
			return nil, fail
		}
		return piece, nil
	}}
	ps := parser.Grammar{"a": parser.ExtRef("e"), "b": parser.S(c.In)}.Compile(nil)
	in := parser.NewScanner(c.In)
	e, err := ps.ParseWithExternals("a", in, ext)
	if calls != 1 {
		return true, fmt.Sprintf("the rule ran %d times", calls)
	}
	if in.String() != c.In[c.Read:] || in.Offset() != c.Read {
		return true, fmt.Sprintf("the input is left at %d", in.Offset())
	}
	switch {
	case c.Err != "":
		if e != nil || err != fail {
			return true, fmt.Sprintf("the rule failed, got %v, %v", e, err)
		}
	case c.Read == len(c.In):
		if err != nil || show(e) != show(piece) {
			return true, fmt.Sprintf("all was read, got %v, %v", e, err)
		}
	default:
		u, ok := err.(parser.UnconsumedInputError)
		if !ok || e != nil {
			return true, fmt.Sprintf("text was left, got %v, %v", e, err)
		}
		if u.Residue().Offset() != c.Read || u.Residue().String() != c.In[c.Read:] || show(u.Result()) != show(piece) {
			return true, fmt.Sprintf("text was left, got the rest %s and the tree %s", show(*u.Residue()), show(u.Result()))
		}
	}
	return true, ""
}

func genWhole(h *H) {
	words("x \n\té", 4, func(w string) bool {
		for i := 0; i <= len(w); i++ {
			for _, e := range []string{"", "plain", "stop"} {
				h.Try("whole", C2{In: w, Read: i, Err: e}, "")
			}
		}
		return !h.done()
	})
	genParse(map[string]int{"tok": 6, "seq": 4, "oneof": 1, "quant": 1, "rule": 1}, false)(h)
}

// TC is a single token against a text.
func genTokens(h *H) {
	g := &tokGen{h: h}
	wraps := []*T{nil, tRE(`\s*()\s*`), tRE(`()\s*`), tOneof(tS("x"), tRE(`[xy]`), tRE(`\s*()\s*`)), tRE(`(?:#[^\n]*\n|\s)*()`)}
	toks := []*T{}
	for _, s := range append(literals, "", ".", "[", "a b", "\n", "\\", "$", "^x", "x|y", "(?i)x", "()", "\x00", "漢字") {
		toks = append(toks, tS(s))
	}
	for _, p := range patterns {
		toks = append(toks, tRE(p.re))
	}
	for _, p := range []string{`(x)(y)`, `(x)?(y)`, `a|(b)|(c)`, `(?P<n>x)y`, `^x`, `x$`, `\bx`, `()`, `(x*)(y*)z`, `x{0,2}`, `(?i)x`, `(a)|b`, `[^x]*`} {
		if _, err := regexp.Compile(p); err == nil {
			toks = append(toks, tRE(p))
		}
	}
	try := func(t, w *T, in string) {
		gr := map[string]*T{"a": t}
		if w != nil {
			gr[".wrapRE"] = w
		}
		h.Try("parse", PC{G: gr, Start: "a", In: in}, "")
	}
	h.Try("parse", PC{G: map[string]*T{"a": {K: "s", Raw: []byte("\xff")}}, Start: "a", Raw: []byte("\xff")}, "literal-invalid-utf8")
	for _, w := range wraps {
		for _, t := range toks {
			for _, in := range []string{"", "x", "y", " x", "x ", " x y", "xy", "yx", "xyz", "zy", "b", "a b", t.S, " " + t.S, t.S + " ", t.S + t.S, t.S + "x", strings.ToUpper(t.S), "x\n", "\nx"} {
				try(t, w, in)
				if h.done() {
					return
				}
			}
		}
	}
	for !h.done() {
		w, t := wraps[h.rng.Intn(len(wraps))], toks[h.rng.Intn(len(toks))]
		s := ""
		for n := h.rng.Intn(5); n > 0; n-- {
			s += pick(h, "x", "y", "z", " ", "\n", "a", "b", "é", t.S, "X")
		}
		try(t, w, s)
		_ = g
	}
}

func init() {
	kinds["parse"] = kind{decodeAs[PC], runParse}
	kinds["leaves"] = kind{decodeAs[PC], runLeaves}
	kinds["whole"] = kind{decodeAs[C2], runWhole}
	props["C01"] = propDef{"generated grammars and texts, the text being a piece of a longer one; every leaf compared with the source", func(h *H) {
		g := &tokGen{h: h, w: map[string]int{"tok": 8, "seq": 4, "oneof": 3, "quant": 3, "delim": 3, "named": 2, "look": 1, "ref": 1, "rule": 2, "cut": 1, "ext": 1}}
		for !h.done() {
			g.wrap = h.rng.Intn(2) == 0
			gr := g.grammar()
			for i := 0; i < 8 && !h.done(); i++ {
				h.Try("leaves", PC{G: gr, Start: "a", In: g.text(gr, "a")}, "")
			}
		}
	}}
	props["C02"] = propDef{"scripted external rules that read any prefix and end in any way; generated grammars against an independent reading", genWhole}
	props["C03"] = propDef{"generated grammars with sequences, names and references, against an independent reading", genParse(map[string]int{"tok": 6, "seq": 6, "oneof": 1, "quant": 1, "named": 3, "ref": 3, "rule": 2, "cut": 1}, false)}
	props["C04"] = propDef{"generated grammars with choices, against an independent reading", genParse(map[string]int{"tok": 6, "seq": 3, "oneof": 6, "quant": 1, "rule": 2, "cut": 1, "named": 1, "ref": 1}, false)}
	props["C05"] = propDef{"generated grammars with repetitions, against an independent reading", genParse(map[string]int{"tok": 6, "seq": 3, "oneof": 2, "quant": 6, "rule": 2, "look": 1, "cut": 1}, false)}
	props["C06"] = propDef{"generated grammars with delimited lists, against an independent reading", genParse(map[string]int{"tok": 8, "seq": 2, "oneof": 2, "quant": 1, "delim": 6, "rule": 2}, false)}
	props["C07"] = propDef{"generated grammars with lookahead and back references, against an independent reading", genParse(map[string]int{"tok": 5, "seq": 6, "oneof": 1, "quant": 2, "delim": 1, "named": 5, "look": 3, "ref": 5, "rule": 1, "cut": 1}, false)}
	props["C08"] = propDef{"generated grammars with commit points and stopping external rules, against an independent reading that tells committed failures from others", genParse(map[string]int{"tok": 5, "seq": 6, "oneof": 4, "quant": 3, "delim": 2, "cut": 4, "rule": 2, "ext": 1, "look": 1, "ref": 1}, false)}
	props["C10"] = propDef{"single tokens with and without wrapping against texts, compared with an independent reading", genTokens}
}
