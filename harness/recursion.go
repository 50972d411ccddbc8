package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/wbnf"
)

// RT is a piece of a rule's definition: "alt", "seq", "stack" (levels), or an item: "ref", "tok", "empty", "look",
// "group", with its suffixes.
type RT struct {
	Op    string   `json:"op"`
	Name  string   `json:"name,omitempty"`  // the text of a token, the rule referred to
	Label string   `json:"label,omitempty"` // name=
	Subs  []*RT    `json:"subs,omitempty"`
	Sufs  []string `json:"sufs,omitempty"`
}

// RG is a grammar: rules in order, and statements that don't matter (macros, comments).
type RG struct {
	Names []string       `json:"names"`
	Rules map[string]*RT `json:"rules"`
	Extra []string       `json:"extra"`
}

func (t *RT) text() string {
	join := func(sep string) string {
		var parts []string
		for _, s := range t.Subs {
			parts = append(parts, s.text())
		}
		return strings.Join(parts, sep)
	}
	switch t.Op {
	case "alt":
		return join(" | ")
	case "seq":
		return join(" ")
	case "stack":
		return join(" > ")
	}
	s := t.Label
	switch t.Op {
	case "ref", "tok":
		s += t.Name
	case "empty":
		s += "()"
	case "look":
		s += "(?=" + join("") + ")"
	case "group":
		s += "(" + join("") + ")"
	}
	return s + strings.Join(t.Sufs, "")
}

// leads gives the rules that t is seen to begin with, and whether what follows t in a sequence counts as well.
func (t *RT) leads() (map[string]bool, bool) {
	out := map[string]bool{}
	switch t.Op {
	case "alt":
		for _, s := range t.Subs {
			r, _ := s.leads()
			for k := range r {
				out[k] = true
			}
		}
		return out, len(out) > 0
	case "seq", "stack":
		for _, s := range t.Subs {
			r, on := s.leads()
			if t.Op == "stack" {
				on = len(r) > 0
			}
			if !on {
				break
			}
			for k := range r {
				out[k] = true
			}
		}
		return out, len(out) > 0
	}
	for _, s := range t.Sufs {
		if s != "?" && s != "*" && !strings.HasPrefix(s, "{,") && !strings.HasPrefix(s, "{0,") {
			return out, false
		}
	}
	switch t.Op {
	case "group":
		r, _ := t.Subs[0].leads()
		return r, len(r) > 0
	case "ref":
		out[t.Name] = true
		return out, true
	}
	return out, len(t.Sufs) > 0
}

func (g *RG) text() string {
	var sb strings.Builder
	for i, n := range g.Names {
		if i < len(g.Extra) && g.Extra[i] != "" {
			sb.WriteString(g.Extra[i] + "\n")
		}
		sb.WriteString(n + " -> " + g.Rules[n].text() + ";\n")
	}
	if len(g.Extra) > len(g.Names) {
		sb.WriteString(g.Extra[len(g.Names)] + "\n")
	}
	return sb.String()
}

func (g *RG) cycle() string {
	for _, n := range g.Names {
		seen := map[string]bool{}
		todo := []string{n}
		for len(todo) > 0 {
			k := todo[0]
			todo = todo[1:]
			if g.Rules[k] == nil {
				continue
			}
			r, _ := g.Rules[k].leads()
			for t := range r {
				if t == n {
					return n
				}
				if !seen[t] {
					seen[t] = true
					todo = append(todo, t)
				}
			}
		}
	}
	return ""
}

// compiles gives what compiling reports; a panic comes after the search for cycles, whose verdict is what matters here.
func compiles(text string) (err error) {
	defer func() { _ = recover() }()
	_, err = wbnf.Compile(text, nil)
	return err
}

func runCycles(_ string, v any) (bool, string) {
	g := v.(RG)
	text, k := g.text(), g.cycle()
	for i := 0; i < 4; i++ {
		err := compiles(text)
		reported := err != nil && strings.Contains(err.Error(), "Possible cycle")
		if k != "" && !reported {
			return true, fmt.Sprintf("rule %s leads back to itself, but that is not reported (%v):\n%s", k, err, text)
		}
		if k == "" && reported {
			return true, fmt.Sprintf("no rule leads back to itself, but %v:\n%s", err, text)
		}
		if err != nil && !reported {
			return false, ""
		}
	}
	return true, ""
}

// runEmpty expects a grammar in which a rule comes back to itself with nothing before it that must occur to be reported.
func runEmpty(_ string, v any) (bool, string) {
	text := v.(string)
	err := compiles(text)
	if err == nil || !strings.Contains(err.Error(), "Possible cycle") {
		return true, fmt.Sprintf("%s comes back to itself with nothing before it that must occur, but is accepted (%v)", text, err)
	}
	return true, ""
}

func genCycles(h *H) {
	for _, g := range []string{`a -> ("x")? a;`, `a -> ("x"?) a;`} {
		h.Try("empty", g, "empty-before")
	}
	for !h.done() {
		n := 1 + h.rng.Intn(6)
		g := RG{Rules: map[string]*RT{}}
		for i := 0; i < n; i++ {
			g.Names = append(g.Names, string(rune('a'+i)))
		}
		order := append([]string{}, g.Names...)
		sort.Strings(order)
		h.rng.Shuffle(n, func(i, j int) { g.Names[i], g.Names[j] = g.Names[j], g.Names[i] })
		refs := 20 + h.rng.Intn(60)
		rising := h.rng.Intn(3) > 0
		var item func(at, depth int) *RT
		var body func(at, depth int) *RT
		item = func(at, depth int) *RT {
			t := &RT{Op: pick(h, "tok", "tok", "tok", "tok", "tok", "tok", "empty", "look")}
			switch {
			case depth > 0 && h.rng.Intn(4) == 0:
				t.Op = "group"
				t.Subs = []*RT{body(at, depth-1)}
			case h.rng.Intn(100) < refs:
				t.Op = "ref"
				t.Name = order[h.rng.Intn(n)]
				if rising && h.rng.Intn(8) > 0 {
					if at+1 < n {
						t.Name = order[at+1+h.rng.Intn(n-at-1)]
					} else {
						t.Op, t.Name = "tok", `"z"`
					}
				}
			case t.Op == "tok":
				t.Name = pick(h, `"x"`, `'y'`, `/{[a-z]+}`, `/{[0-9]}`, "`q`")
			case t.Op == "look":
				t.Subs = []*RT{{Op: "tok", Name: `"l"`}}
			}
			if h.rng.Intn(6) == 0 {
				t.Label = pick(h, "m=", "op=", "n=")
			}
			for h.rng.Intn(3) == 0 && t.Op != "look" && t.Op != "empty" {
				t.Sufs = append(t.Sufs, pick(h, "?", "?", "*", "*", "+", "{,3}", "{0,2}", "{1,}", "{2,5}", `:","`, `:>"+"`, `{0,}`, `:(";"),`))
			}
			return t
		}
		body = func(at, depth int) *RT {
			many := func(op string, f func() *RT) *RT {
				k := 1
				for k < 4 && h.rng.Intn(5) < 2 {
					k++
				}
				if k == 1 {
					return f()
				}
				t := &RT{Op: op}
				for ; k > 0; k-- {
					t.Subs = append(t.Subs, f())
				}
				return t
			}
			seq := func() *RT { return many("seq", func() *RT { return item(at, depth) }) }
			alt := func() *RT { return many("alt", seq) }
			if h.rng.Intn(6) > 0 {
				return alt()
			}
			return many("stack", alt)
		}
		plain := h.rng.Intn(3) == 0 // alternatives of nothing but references, and one way out
		for i, name := range order {
			if plain {
				t := &RT{Op: "alt"}
				for _, k := range h.rng.Perm(n)[:h.rng.Intn(1+(n+1)/2)] {
					t.Subs = append(t.Subs, &RT{Op: "ref", Name: order[k]})
				}
				if len(t.Subs) == 0 || h.rng.Intn(2) == 0 {
					t.Subs = append(t.Subs, &RT{Op: "tok", Name: `"x"`})
				}
				g.Rules[name] = t
				continue
			}
			g.Rules[name] = body(i, 2)
		}
		if h.rng.Intn(4) == 0 {
			a, b := order[h.rng.Intn(n)], order[h.rng.Intn(n)]
			g.Extra = make([]string, n+1)
			g.Extra[h.rng.Intn(n+1)] = pick(h, `// none`,
				fmt.Sprintf(`n -> "q" { %s -> %q; };`, a, "w"),
				fmt.Sprintf(`n -> "q" { %s -> "w" %s; };`, a, b),
				fmt.Sprintf(`.macro M(p) { x { %s -> %q; x -> 'v'; } }`, a, "w"),
				fmt.Sprintf(`.macro M(p) { x { %s -> %s; %s -> 'v'; x -> 'v'; } }`, a, "p", b+"q"),
				fmt.Sprintf(`.macro M(p) { x { %s -> x; x -> 'v'; } }`, a))
		}
		h.Try("cycles", g, "")
	}
}

func init() {
	kinds["empty"] = kind{decodeAs[string], runEmpty}
	kinds["cycles"] = kind{decodeAs[RG], runCycles}
	props["C24"] = propDef{"generated grammars (up to six rules; alternatives, sequences, stacks, groups, references, tokens, suffixes; macros with rules of the same names): a possible cycle is reported, each of four times, just when the grammar written down has a rule that leads back to itself", genCycles}
}
