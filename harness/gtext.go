package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// GT is a grammar in the documented notation together with the terms it is documented to mean.
type GT struct {
	Text string        `json:"text"`
	G    map[string]*T `json:"g"`
}

// gwriter writes random grammars in the notation and the terms they mean, side by side.
type gwriter struct {
	h      *H
	rules  []string
	lits   []string
	depth  int
	nested bool // nested grammars wanted
	macros bool // macro calls wanted
	args   []string
	mac    []macroDef
	quotes bool // many escapes in literals
	look   bool
}

type macroDef struct {
	name string
	args []string
	body *T
}

func (w *gwriter) n(k int) int { return w.h.rng.Intn(k) }

func (w *gwriter) ws() string {
	return pick(w.h, "", " ", " ", "\n", "  ")
}

// lit writes a quoted literal that denotes s.
func (w *gwriter) lit(s string) string {
	if w.n(4) == 0 {
		return "`" + strings.ReplaceAll(s, "`", "``") + "`"
	}
	q := pick(w.h, `"`, `'`)
	var sb strings.Builder
	sb.WriteString(q)
	for i := 0; i < len(s); {
		r, size := rune(s[i]), 1
		for j, c := range s[i:] {
			if j == 0 {
				r = c
			} else {
				size = j
				break
			}
		}
		if i+size < len(s) && size == 1 && r >= 0x80 || r >= 0x80 {
			size = len(string(r))
		}
		raw := s[i : i+size]
		esc := map[rune]string{'\a': `\a`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '\v': `\v`, '\\': `\\`}[r]
		must := r == '\\' || raw == q
		style := w.n(12)
		if !w.quotes && style > 4 {
			style = 11
		}
		hex := func(f string, v any) string {
			x := fmt.Sprintf(f, v)
			if w.n(2) == 0 {
				x = strings.ToUpper(x)
			}
			return x
		}
		switch {
		case style == 0 && r < 0x10000:
			sb.WriteString(`\u` + hex("%04x", r))
		case style <= 1:
			sb.WriteString(`\U` + hex("%08x", r))
		case style == 2:
			for k := 0; k < len(raw); k++ {
				sb.WriteString(`\x` + hex("%02x", raw[k]))
			}
		case style == 3:
			for k := 0; k < len(raw); k++ {
				sb.WriteString(fmt.Sprintf(`\%03o`, raw[k]))
			}
		case raw == `'` || raw == `"`:
			if must || style < 6 {
				sb.WriteString(`\`)
			}
			sb.WriteString(raw)
		case esc != "" && (must || style < 8):
			sb.WriteString(esc)
		default:
			sb.WriteString(raw)
		}
		i += size
	}
	sb.WriteString(q)
	return sb.String()
}

var litPool = []string{"x", "y", "+", "->", "\\", "'", "\"", "`", "a b", "\n", "\t\r", "é", "日本", "\a\b\f\v", "//", "/*", "\x00", "(", ";", "}", "x\\n", "``", "7", "A1", "\u00ff", "\U0001F600z", "\u0100", "op"}

func (w *gwriter) litText() string {
	if len(w.lits) > 0 && w.n(3) > 0 {
		return w.lits[w.n(len(w.lits))]
	}
	s := litPool[w.n(len(litPool))]
	if w.quotes {
		for w.n(2) == 0 {
			s += litPool[w.n(len(litPool))]
		}
	}
	return s
}

var rePool = []struct{ text, re string }{
	{`[a-z]+`, `[a-z]+`}, {`\d`, `\d`}, {`.`, `.`}, {`\w*`, `\w*`}, {`/{x+}`, `x+`}, {`/{ x | y }`, `x|y`}, {`/{a\_b}`, `a b`}, {`/{\_\_}`, `  `},
	{`[ab]{1,2}`, `[ab]{1,2}`}, {`/{a{2}\}}`, `a{2}\}`}, {`/{()}`, `()`}, {`[[:alpha:]]`, `[[:alpha:]]`}, {`\pl?`, `\pl?`}, {"/{a\n b}", `ab`}, {`/{\\\_}`, `\\ `}, {`/{\\_}`, `\\_`},
	{`/{}`, ``}, {`^`, `^`},
}

func (w *gwriter) atom(d int) (string, *T) {
	k := w.n(14)
	if d <= 0 && k >= 8 {
		k = w.n(8)
	}
	switch k {
	case 0, 1:
		ids := append(append([]string{}, w.rules...), w.args...)
		id := ids[w.n(len(ids))]
		return id, tRule(id)
	case 2, 3, 4:
		s := w.litText()
		return w.lit(s), &T{K: "s", S: s}
	case 5:
		r := rePool[w.n(len(rePool))]
		if r.text[0] != '/' { // a repetition sign next to it would belong to the pattern
			return r.text + " ", tRE(r.re)
		}
		return r.text, tRE(r.re)
	case 6:
		id := pick(w.h, "n1", "n2", "x")
		if w.n(2) == 0 {
			return "%" + id, &T{K: "ref", S: id}
		}
		s := w.litText()
		return "%" + id + w.ws() + "=" + w.ws() + w.lit(s), &T{K: "ref", S: id, A: []*T{tS(s)}}
	case 7:
		if w.n(3) == 0 {
			return "()", &T{K: "seq"}
		}
		id := pick(w.h, "e1", "e2")
		return "%%" + id, &T{K: "ext", S: id}
	case 8:
		if w.look {
			s, t := w.term(d-1, false)
			return "(?=" + w.ws() + s + w.ws() + ")", tLook(t)
		}
	case 9:
		if w.macros && len(w.mac) > 0 {
			m := w.mac[w.n(len(w.mac))]
			var as []string
			sub := map[string]*T{}
			for _, a := range m.args {
				s, t := w.term(d-2, false)
				as = append(as, "("+s+")")
				sub[a] = t
			}
			return "%!" + m.name + "(" + strings.Join(as, w.ws()+","+w.ws()) + ")", substArgs(m.body, sub)
		}
	}
	s, t := w.term(d-1, w.nested)
	return "(" + w.ws() + s + w.ws() + ")", t
}

// substArgs replaces argument names by the terms given.
func substArgs(t *T, sub map[string]*T) *T {
	if t.K == "rule" && sub[t.S] != nil {
		return sub[t.S].clone()
	}
	c := *t
	c.A = nil
	for _, a := range t.A {
		c.A = append(c.A, substArgs(a, sub))
	}
	if t.G != nil {
		c.G = map[string]*T{}
		for k, a := range t.G {
			c.G[k] = substArgs(a, sub)
		}
	}
	return &c
}

func (w *gwriter) named(d int) (string, *T) {
	s, t := w.atom(d)
	if w.n(4) == 0 {
		id := pick(w.h, "n1", "n2", "x", "op")
		return id + w.ws() + "=" + w.ws() + s, tNamed(id, t)
	}
	return s, t
}

func (w *gwriter) suffixed(d int) (string, *T) {
	s, t := w.named(d)
	var suf []string
	var app []func(*T) *T
	for n := []int{0, 0, 0, 1, 1, 1, 2, 3}[w.n(8)]; n > 0; n-- {
		switch w.n(6) {
		case 0:
			suf, app = append(suf, "*"), append(app, func(t *T) *T { return tQuant(t, 0, 0) })
		case 1:
			suf, app = append(suf, "+"), append(app, func(t *T) *T { return tQuant(t, 1, 0) })
		case 2:
			suf, app = append(suf, "?"), append(app, func(t *T) *T { return tQuant(t, 0, 1) })
		case 3:
			lo, hi := w.n(13), 0
			if w.n(2) == 0 {
				hi = lo + w.n(12)
			}
			ls, hs := strconv.Itoa(lo), strconv.Itoa(hi)
			if lo == 0 && w.n(2) == 0 {
				ls = ""
			}
			if hi == 0 && w.n(2) == 0 {
				hs = ""
			}
			suf = append(suf, "{"+w.ws()+ls+w.ws()+","+w.ws()+hs+"}")
			app = append(app, func(t *T) *T { return tQuant(t, lo, hi) })
		default:
			op := w.n(3) - 1
			st, en := w.n(3) == 0, w.n(3) == 0
			ss, sep := w.named(d - 1)
			x := []string{"<:", ":", ":>"}[op+1]
			if st {
				x += w.ws() + ","
			}
			if sep.K == "re" && strings.HasPrefix(ss, ".") {
				ss = "(" + ss + ")"
			}
			x += w.ws() + ss
			if en {
				x += w.ws() + ","
			}
			suf = append(suf, x)
			app = append(app, func(t *T) *T { return tDelim(t, sep, op, st, en) })
		}
	}
	for i := len(app) - 1; i >= 0; i-- {
		t = app[i](t)
	}
	for _, x := range suf {
		s += w.ws() + x
	}
	return s, t
}

func (w *gwriter) seq(d int) (string, *T) {
	n := 1 + []int{0, 0, 1, 1, 2, 3}[w.n(6)]
	var ss []string
	var ts []*T
	for i := 0; i < n; i++ {
		s, t := w.suffixed(d)
		ss, ts = append(ss, s), append(ts, t)
	}
	if n == 1 {
		return ss[0], ts[0]
	}
	return strings.Join(ss, " "), tSeq(ts...)
}

func (w *gwriter) alt(d int) (string, *T) {
	n := 1 + []int{0, 0, 0, 1, 2}[w.n(5)]
	var ss []string
	var ts []*T
	for i := 0; i < n; i++ {
		s, t := w.seq(d)
		ss, ts = append(ss, s), append(ts, t)
	}
	if n == 1 {
		return ss[0], ts[0]
	}
	return strings.Join(ss, w.ws()+"|"+w.ws()), tOneof(ts...)
}

func (w *gwriter) term(d int, nested bool) (string, *T) {
	n := 1
	if w.n(6) == 0 {
		n = 2 + w.n(2)
	}
	if nested && w.n(5) == 0 {
		s, t := w.alt(d)
		sub := *w
		sub.nested, sub.rules = d > 1, []string{"r1", "r2", "a"}
		txt, g := sub.grammar(1+w.n(2), d-1, "r")
		return s + w.ws() + "{" + w.ws() + txt + w.ws() + "}", &T{K: "scoped", A: []*T{t}, G: g}
	}
	var ss []string
	var ts []*T
	for i := 0; i < n; i++ {
		s, t := w.alt(d)
		ss, ts = append(ss, s), append(ts, t)
	}
	if n == 1 {
		return ss[0], ts[0]
	}
	return strings.Join(ss, w.ws()+">"+w.ws()), &T{K: "stack", A: ts}
}

func (w *gwriter) grammar(n, d int, pre string) (string, map[string]*T) {
	g := map[string]*T{}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		r := pre + strconv.Itoa(i+1)
		s, t := w.term(d, w.nested)
		g[r] = t
		sb.WriteString(r + w.ws() + "->" + w.ws() + s + w.ws() + ";" + pick(w.h, "", " ", "\n", "\n// note \"x\" -> y;\n", " /*x*/ "))
	}
	return sb.String(), g
}

func (w *gwriter) write() GT {
	w.rules = []string{"a1", "a2", "a3"}
	w.args, w.mac = nil, nil
	var head string
	if w.macros {
		for i, n := 0, w.n(3); i < n; i++ {
			m := macroDef{name: "M" + strconv.Itoa(i)}
			m.args = pick(w.h, []string{"p", "q", "pq"}, []string{"p", "P", "q"}, []string{"A1", "p", "p_"})[:1+w.n(3)]
			w.args = m.args
			keep := w.mac
			w.mac = nil
			s, t := w.term(2, w.nested)
			w.mac = keep
			w.args = nil
			m.body = t
			w.mac = append(w.mac, m)
			head += ".macro " + m.name + "(" + strings.Join(m.args, ", ") + ") { " + s + " }" + pick(w.h, "", ";") + "\n"
		}
	}
	s, g := w.grammar(1+w.n(3), w.depth, "a")
	return GT{Text: head + s, G: g}
}

func written(text string) (map[string]*T, error) {
	node, err := wbnf.Parse(parser.NewScanner(text))
	if err != nil {
		return nil, err
	}
	return fromGrammar(wbnf.NewFromAst(node.Node)), nil
}

// noCuts removes the commit points.
func noCuts(t *T) *T {
	if t == nil {
		return nil
	}
	if t.K == "cut" {
		return noCuts(t.A[0])
	}
	c := *t
	c.A, c.G = nil, nil
	for _, a := range t.A {
		c.A = append(c.A, noCuts(a))
	}
	if t.G != nil {
		c.G = noCutsG(t.G)
	}
	return &c
}

func noCutsG(g map[string]*T) map[string]*T {
	out := map[string]*T{}
	for k, v := range g {
		out[k] = noCuts(v)
	}
	return out
}

// apart shows where two texts differ.
func apart(a, b, word string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		j := i - 60
		if j < 0 {
			j = 0
		}
		e := i + 200
		if e > len(s) {
			e = len(s)
		}
		return "…" + s[j:e] + "…"
	}
	return cut(a) + ", " + word + " " + cut(b)
}

func runGText(prop string, v any) (bool, string) {
	c := v.(GT)
	got, err := written(c.Text)
	if err != nil {
		return true, fmt.Sprintf("the grammar is not accepted: %v", err)
	}
	want := gkey(c.G)
	switch prop {
	case "C15":
		if a, b := litsOf(got), litsOf(c.G); a != b {
			return true, fmt.Sprintf("literals %s, should be %s", a, b)
		}
	case "C16":
		if a := gkey(noCutsG(got)); a != want {
			return true, "means " + apart(a, want, "should mean")
		}
	case "C14":
		if a := gkey(noCutsG(got)); a != want {
			return true, "the grammar became " + apart(a, want, "was")
		}
		if a, b := gkey(got), gkey(withCuts(c.G)); a != b {
			return true, "commit points: got " + apart(a, b, "should be")
		}
	}
	return true, ""
}

// litsOf lists literals in a fixed order (parts in order, rules by name).
func litsOf(g map[string]*T) string {
	var sb strings.Builder
	var one func(t *T)
	var all func(g map[string]*T)
	one = func(t *T) {
		if t == nil {
			return
		}
		if t.K == "s" {
			fmt.Fprintf(&sb, "%q ", t.S)
		}
		for _, a := range t.A {
			one(a)
		}
		all(t.G)
	}
	all = func(g map[string]*T) {
		for _, k := range sortedKeys(g) {
			sb.WriteString(k + ":")
			one(g[k])
		}
	}
	all(g)
	return sb.String()
}

// ---------------------------------------------------------------- commit points

// counts of literal texts in a grammar, nested grammars included; the separator of a list that may lead or trail counts twice
func countLits(g map[string]*T) map[string]int {
	n := map[string]int{}
	var one func(t *T)
	one = func(t *T) {
		if t == nil {
			return
		}
		switch t.K {
		case "s":
			n[t.S]++
		case "scoped":
			for _, x := range t.G {
				one(x)
			}
		case "delim":
			if t.Start || t.End {
				one(t.A[1])
			}
		}
		for _, a := range t.A {
			one(a)
		}
	}
	for _, t := range g {
		one(t)
	}
	return n
}

func withCuts(g map[string]*T) map[string]*T {
	n := countLits(g)
	var one func(t *T) *T
	one = func(t *T) *T {
		if t.K == "s" && n[t.S] == 1 {
			return tCut(t)
		}
		if t.K == "look" || t.K == "ref" {
			return t
		}
		c := *t
		c.A = nil
		for _, a := range t.A {
			c.A = append(c.A, one(a))
		}
		if t.G != nil {
			c.G = map[string]*T{}
			for k, x := range t.G {
				c.G[k] = one(x)
			}
		}
		return &c
	}
	out := map[string]*T{}
	for k, t := range g {
		out[k] = one(t)
	}
	return out
}

func init() {
	kinds["gtext"] = kind{decodeAs[GT], runGText}
	gen := func(set func(w *gwriter, i int)) func(h *H) {
		return func(h *H) {
			for i := 0; !h.done(); i++ {
				w := &gwriter{h: h, depth: h.rng.Intn(1 + (i/100)%4)}
				set(w, i)
				h.Try("gtext", w.write(), "")
			}
		}
	}
	props["C15"] = propDef{"a grammar with generated quoted literals: the literal terms of the grammar built against the texts the escapes spell", func(h *H) {
		for i := 0; i < 256; i++ { // every byte by hex and octal, every two-byte neighbourhood start
			for _, f := range []string{`"\x%02x"`, `'\x%02X'`, `"\%03o"`, `'z\%03o1'`, `"\x%02x0"`} {
				s := fmt.Sprintf(f, i)
				u := string([]byte{byte(i)})
				if strings.HasPrefix(s, "'z") {
					u = "z" + u + "1"
				} else if strings.HasSuffix(s, `0"`) && strings.HasPrefix(f, `"\x`) && len(f) > len(`"\x%02x"`) {
					u += "0"
				}
				h.Try("lit", LT{s, []byte(u)}, "")
			}
		}
		for r := rune(0); r < 0x10ffff; r += 1 + rune(h.rng.Intn(997)) {
			if r < 0xd800 || r > 0xdfff {
				h.Try("lit", LT{fmt.Sprintf(`"\U%08x"`, r), []byte(string(r))}, "")
				if r < 0x10000 {
					h.Try("lit", LT{fmt.Sprintf(`'a\u%04Xb'`, r), []byte("a" + string(r) + "b")}, "")
				}
			}
			if h.done() {
				return
			}
		}
		gen(func(w *gwriter, i int) { w.quotes = true })(h)
	}}
	props["C16"] = propDef{"a grammar written in the notation next to the terms it means: the grammar built (commit points aside) against them", func(h *H) {
		h.Try("gtext", GT{`a -> b { b -> "x"; } > "y";`, map[string]*T{"a": {K: "stack", A: []*T{
			{K: "scoped", A: []*T{tRule("b")}, G: map[string]*T{"b": tS("x")}}, tS("y")}}}}, "nested-grammar-level")
		gen(func(w *gwriter, i int) {
			w.nested, w.macros, w.look = i%3 == 0, i%3 > 0, true
			w.nested = w.nested || i%2 == 0
		})(h)
	}}
	props["C14"] = propDef{"a grammar with few different literals, each used 1-3 times: the grammar prepared against one wrapped by an independent count", gen(func(w *gwriter, i int) {
		w.nested = i%2 == 0
		w.look = i%4 < 2
		w.lits = []string{"x", "y", "z", "+", "op", "w", "{", "v"}[:4+w.n(5)]
	})}
	kinds["lit"] = kind{decodeAs[LT], runLit}
}

// LT is one quoted literal and its text.
type LT struct {
	Lit  string `json:"lit"`
	Text []byte `json:"text"`
}

func runLit(prop string, v any) (bool, string) {
	c := v.(LT)
	got, err := written("a -> " + c.Lit + ";")
	if err != nil {
		return true, fmt.Sprintf("not accepted: %v", err)
	}
	if t := noCuts(got["a"]); t.K != "s" || t.S != string(c.Text) {
		return true, fmt.Sprintf("denotes %s, should denote %q", t.key(), c.Text)
	}
	return true, ""
}
