package main

import (
	"errors"
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/arr-ai/wbnf/parser"
)

// An independent reading of the notation, written from the properties: a tree-walking recogniser over T.

type otree struct {
	leaf     bool
	empty    bool
	off      int
	text     string
	tag      string
	extra    string
	children []*otree
}

func (t *otree) show() string {
	switch {
	case t == nil:
		return "<nil>"
	case t.empty:
		return "<empty>"
	case t.leaf:
		return fmt.Sprintf("%d:%q", t.off, t.text)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%q%s[", t.tag, t.extra)
	for i, c := range t.children {
		if i > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString(c.show())
	}
	sb.WriteString("]")
	return sb.String()
}

type bind struct {
	name string
	val  *otree
	next *bind
}

func (b *bind) get(n string) (*otree, bool) {
	for ; b != nil; b = b.next {
		if b.name == n {
			return b.val, true
		}
	}
	return nil, false
}

// failing: nil is success; commit 0 is an ordinary failure, stop is final everywhere
type ofail struct {
	commit int
	stop   bool
}

func (f *ofail) final() bool { return f.stop || f.commit > 0 }

type oracle struct {
	g     map[string]*T
	up    *scopes // the grammars around g
	in    string
	steps int
	cps   int
}

// scopes are grammars, the inner ones first.
type scopes struct {
	g  map[string]*T
	up *scopes
}

type tooMuch struct{}

var reCache = map[string]*regexp.Regexp{}

func reOf(s string) *regexp.Regexp {
	if r, ok := reCache[s]; ok {
		return r
	}
	r := regexp.MustCompile(s)
	reCache[s] = r
	return r
}

func ident(t *T) string {
	switch t.K {
	case "named":
		if t.S != "" {
			return t.S
		}
		return ident(t.A[0])
	case "rule":
		return t.S
	case "quant":
		return ident(t.A[0])
	}
	return ""
}

func (o *oracle) follow(t *T) *T {
	x, _, _, _ := o.lookup(t)
	return x
}

// lookup finds what a reference to a rule stands for, where, and the name of the rule whose label its trees get.
func (o *oracle) lookup(t *T) (x *T, g map[string]*T, up *scopes, tag string) {
	g, up = o.g, o.up
	for t != nil && t.K == "rule" {
		for g[t.S] == nil && up != nil {
			g, up = up.g, up.up
		}
		tag = t.S
		for n := 0; t != nil && t.K == "rule" && g[t.S] != nil; n++ {
			if n > 100 {
				panic(tooMuch{})
			}
			t = g[t.S]
		}
		if up == nil && t.K == "rule" {
			return nil, g, up, tag
		}
	}
	return t, g, up, tag
}

// wrap is the wrapping in force.
func (o *oracle) wrap() map[string]*T {
	g, up := o.g, o.up
	for g[".wrapRE"] == nil && up != nil {
		g, up = up.g, up.up
	}
	return g
}

// commits: passing this part of a sequence commits the sequence
func (o *oracle) commits(t *T) bool {
	switch t.K {
	case "cut":
		return true
	case "named":
		return o.commits(t.A[0])
	case "rule", "scoped":
		defer o.within(o.g, o.up)
		t = o.enter(t)
		return o.commits(t)
	}
	return false
}

func (o *oracle) within(g map[string]*T, up *scopes) { o.g, o.up = g, up }

// enter goes to where the meaning of a reference or of a term with a grammar of its own is to be read.
func (o *oracle) enter(t *T) *T {
	if t.K == "scoped" {
		o.within(t.G, &scopes{o.g, o.up})
		return t.A[0]
	}
	x, g, up, _ := o.lookup(t)
	o.within(g, up)
	return x
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

// wrapped returns the pattern of a token; own is the pattern text of the token itself, raw its text in the grammar.
func wrapped(g map[string]*T, raw, own string) string {
	w, ok := g[".wrapRE"]
	if !ok {
		return own
	}
	if w.K == "oneof" {
		for _, x := range w.A[:len(w.A)-1] {
			if (x.K == "s" || x.K == "re") && x.S == raw {
				return own
			}
		}
		w = w.A[len(w.A)-1]
	}
	i := strings.Index(w.S, "()")
	if i < 0 {
		return w.S
	}
	return w.S[:i] + "(?:" + own + ")" + w.S[i+2:]
}

func (o *oracle) token(raw, own string, pos int) (*otree, int, bool) {
	m := reOf(`(?m)\A(?:` + wrapped(o.wrap(), raw, `(?P<whole>`+own+`)`) + `)`).FindStringSubmatchIndex(o.in[pos:])
	if m == nil {
		return nil, pos, false
	}
	// the groups before "whole" belong to the wrapping, which has none here
	a, b := m[2], m[3]
	if a < 0 { // the wrapping dropped the token
		a, b = m[0], m[1]
	}
	if len(m) > 4 && m[4] >= 0 {
		a, b = m[4], m[5]
	}
	return &otree{leaf: true, off: pos + a, text: o.in[pos+a : pos+b]}, pos + m[1], true
}

// parse reads t at pos. tag labels the result, cp is the commit point in force (0: none).
func (o *oracle) parse(t *T, tag string, b *bind, cp, pos int) (*otree, int, *ofail) {
	o.steps++
	if o.steps > 20000 {
		panic(tooMuch{})
	}
	switch t.K {
	case "s":
		if t.Raw != nil {
			t = tS(string(t.Raw))
		}
		if len(o.wrap()[".wrapRE"].key()) == 1 { // no wrapping
			if strings.HasPrefix(o.in[pos:], t.S) {
				return &otree{leaf: true, off: pos, text: t.S}, pos + len(t.S), nil
			}
			return nil, pos, &ofail{commit: cp}
		}
		if x, p, ok := o.token(t.S, regexp.QuoteMeta(t.S), pos); ok {
			return x, p, nil
		}
		return nil, pos, &ofail{commit: cp}
	case "re":
		if x, p, ok := o.token(t.S, t.S, pos); ok {
			return x, p, nil
		}
		return nil, pos, &ofail{commit: cp}
	case "rule":
		defer o.within(o.g, o.up)
		_, _, _, label := o.lookup(t)
		return o.parse(o.enter(t), label, b, cp, pos)
	case "scoped":
		defer o.within(o.g, o.up)
		return o.parse(o.enter(t), tag, b, cp, pos)
	case "named":
		return o.parse(t.A[0], t.S, b, cp, pos)
	case "cut":
		return o.parse(t.A[0], tag, b, cp, pos)
	case "seq":
		n := &otree{tag: or(tag, "_")}
		p := pos
		for _, x := range t.A {
			v, q, f := o.parse(x, "", b, cp, p)
			if f != nil {
				if f.final() {
					return nil, pos, f
				}
				return nil, pos, &ofail{commit: cp}
			}
			if o.commits(x) {
				o.cps++
				cp = o.cps
			}
			if id := ident(x); id != "" {
				b = &bind{id, v, b}
			}
			n.children = append(n.children, v)
			p = q
		}
		return n, p, nil
	case "oneof":
		prev, mine := cp, 0
		if cp > 0 {
			o.cps++
			mine = o.cps
		}
		for i, x := range t.A {
			v, q, f := o.parse(x, "", b, mine, pos)
			if f == nil {
				return &otree{tag: or(tag, "|"), extra: fmt.Sprintf("#%d", i), children: []*otree{v}}, q, nil
			}
			if f.stop || f.commit > 0 && f.commit != mine {
				return nil, pos, f
			}
		}
		return nil, pos, &ofail{commit: prev}
	case "quant":
		prev, mine := cp, 0
		if cp > 0 {
			o.cps++
			mine = o.cps
		}
		n := &otree{tag: or(tag, "?")}
		p := pos
		for t.Max == 0 || len(n.children) < t.Max {
			v, q, f := o.parse(t.A[0], "", b, mine, p)
			if f != nil {
				if f.stop || f.commit > 0 && f.commit != mine {
					return nil, pos, f
				}
				break
			}
			n.children = append(n.children, v)
			nothing := q == p
			p = q
			if nothing && t.Max == 0 && len(n.children) >= t.Min {
				break
			}
		}
		if len(n.children) >= t.Min {
			return n, p, nil
		}
		return nil, pos, &ofail{commit: prev}
	case "look":
		v, _, f := o.parse(t.A[0], "", b, cp, pos)
		if f != nil {
			return nil, pos, f
		}
		return &otree{tag: or(tag, "?="), children: []*otree{v}}, pos, nil
	case "ref":
		v, bound := b.get(t.S)
		if bound {
			p := pos
			out, ok, f := o.again(v, t.S, cp, &p)
			if !ok {
				return nil, pos, f
			}
			return out, p, nil
		}
		if len(t.A) == 1 {
			defer o.within(o.g, o.up)
			o.within(map[string]*T{}, nil)
			return o.parse(t.A[0], t.S, b, cp, pos)
		}
		return nil, pos, &ofail{}
	case "delim":
		return o.delim(t, tag, b, cp, pos)
	case "ext":
		switch t.S {
		case "one":
			if pos == len(o.in) {
				return nil, pos, &ofail{}
			}
			_, n := utf8.DecodeRuneInString(o.in[pos:])
			return &otree{leaf: true, off: pos, text: o.in[pos : pos+n]}, pos + n, nil
		case "stop":
			return nil, pos, &ofail{stop: true}
		case "no":
			return nil, pos, &ofail{}
		}
		return nil, pos, &ofail{stop: true}
	}
	panic("unknown kind " + t.K)
}

// again reads the texts of a bound value once more.
func (o *oracle) again(v *otree, tag string, cp int, p *int) (*otree, bool, *ofail) {
	switch {
	case v.empty:
		return &otree{tag: or(tag, "_")}, true, nil
	case v.leaf:
		if !strings.HasPrefix(o.in[*p:], v.text) {
			return nil, false, &ofail{commit: cp}
		}
		x := &otree{leaf: true, off: *p, text: v.text}
		*p += len(v.text)
		return x, true, nil
	}
	n := &otree{tag: or(tag, "_")}
	for _, c := range v.children {
		x, ok, f := o.again(c, "", cp, p)
		if !ok {
			return nil, false, f
		}
		n.children = append(n.children, x)
	}
	return n, true, nil
}

// delim: the list reads as  sep? term (sep term)* sep?  with the optional parts as allowed.
func (o *oracle) delim(t *T, tag string, b *bind, cp, pos int) (*otree, int, *ofail) {
	term, sep := t.A[0], t.A[1]
	list := tSeq(term, tQuant(tSeq(sep, term), 0, 0))
	outer := tSeq()
	if t.Start {
		outer.A = append(outer.A, tQuant(sep, 0, 1))
	}
	outer.A = append(outer.A, list)
	if t.End {
		outer.A = append(outer.A, tQuant(sep, 0, 1))
	}
	n, p, f := o.parse(outer, "", b, cp, pos)
	if f != nil {
		return nil, pos, f
	}
	var items []*otree
	k := 0
	if t.Start {
		if lead := n.children[0]; len(lead.children) == 1 {
			items = append(items, &otree{empty: true}, lead.children[0])
		}
		k = 1
	}
	items = append(items, n.children[k].children[0])
	for _, c := range n.children[k].children[1].children {
		items = append(items, c.children[0], c.children[1])
	}
	if t.End {
		if trail := n.children[len(n.children)-1]; len(trail.children) == 1 {
			items = append(items, trail.children[0], &otree{empty: true})
		}
	}
	tg := or(tag, ":")
	if len(items) == 1 || t.Assoc == 0 {
		return &otree{tag: tg, extra: "~0", children: items}, p, nil
	}
	ex := fmt.Sprintf("~%d", t.Assoc)
	var v *otree
	if t.Assoc > 0 {
		v = items[0]
		for i := 1; i < len(items); i += 2 {
			v = &otree{tag: tg, extra: ex, children: []*otree{v, items[i], items[i+1]}}
		}
	} else {
		v = items[len(items)-1]
		for i := len(items) - 3; i >= 0; i -= 2 {
			v = &otree{tag: tg, extra: ex, children: []*otree{items[i], items[i+1], v}}
		}
	}
	return v, p, nil
}

// ---------------------------------------------------------------- running both

// PC is a grammar, a start rule and a text.
type PC struct {
	G     map[string]*T `json:"g"`
	Start string        `json:"start"`
	In    string        `json:"in"`
	Raw   []byte        `json:"raw,omitempty"` // the text where it is not valid UTF-8
}

type stopErr struct{}

func (stopErr) Error() string { return "stop" }
func (stopErr) IsStopError()  {}

var externals = parser.ExternalRefs{
	"one": func(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
		var s parser.Scanner
		if in.String() == "" {
			return nil, errors.New("at the end")
		}
		_, n := utf8.DecodeRuneInString(in.String())
		in.Eat(n, &s)
		return s, nil
	},
	"stop": func(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) { return nil, stopErr{} },
	"no":   func(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) { return nil, errors.New("no") },
}

type outcome struct {
	kind string // "tree", "rest", "fail", "final"
	tree string
	rest string
}

func (o outcome) String() string {
	switch o.kind {
	case "tree":
		return "the tree " + o.tree
	case "rest":
		return fmt.Sprintf("left over %s with the tree %s", o.rest, o.tree)
	case "final":
		return "a committed failure"
	}
	return "a failure"
}

// expected says what the properties require; ok is false if the case is too big.
func expected(c PC) (res outcome, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(tooMuch); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	o := &oracle{g: c.G, in: c.In}
	t, p, f := o.parse(tRule(c.Start), c.Start, nil, 0, 0)
	switch {
	case f != nil && f.final():
		return outcome{kind: "final"}, true
	case f != nil:
		return outcome{kind: "fail"}, true
	case p == len(c.In):
		return outcome{kind: "tree", tree: t.show()}, true
	}
	return outcome{kind: "rest", tree: t.show(), rest: fmt.Sprintf("%d:%q", p, c.In[p:])}, true
}

func actual(c PC) (res outcome, tree parser.TreeElement, problem string) {
	defer func() {
		if r := recover(); r != nil {
			problem = fmt.Sprintf("panic: %v", r)
		}
	}()
	ps := grammarOf(c.G).Compile(nil)
	in := parser.NewScanner(c.In)
	e, err := ps.ParseWithExternals(parser.Rule(c.Start), in, externals)
	return classify(e, err)
}

func classify(e parser.TreeElement, err error) (res outcome, tree parser.TreeElement, problem string) {
	if err == nil {
		return outcome{kind: "tree", tree: show(e)}, e, ""
	}
	if e != nil {
		return res, nil, "both a tree and an error"
	}
	switch err := err.(type) {
	case parser.UnconsumedInputError:
		return outcome{kind: "rest", tree: show(err.Result()), rest: show(*err.Residue())}, err.Result(), ""
	case parser.FatalError, parser.StopError:
		return outcome{kind: "final"}, nil, ""
	}
	return outcome{kind: "fail"}, nil, ""
}

// compare runs both; committed failures are told apart from others only if final is set.
func compare(c PC, final bool) (nontrivial bool, problem string) {
	want, ok := expected(c)
	if !ok {
		return false, ""
	}
	got, _, p := actual(c)
	if p != "" {
		return true, p
	}
	if !final {
		if want.kind == "final" {
			want.kind = "fail"
		}
		if got.kind == "final" {
			got.kind = "fail"
		}
	}
	if want != got {
		return true, fmt.Sprintf("want %s, got %s", want, got)
	}
	return want.kind != "fail" || len(c.In) > 0, ""
}
