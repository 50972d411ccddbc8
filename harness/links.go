package main

// Rule references: in every place, through other names of rules, and across nested grammars.

var ruleNames = []string{"a", "b", "c", "d", "p"}

// linkGen writes grammars in which rules are mostly other rules in some wrapping.
type linkGen struct {
	tokGen
}

func (g *linkGen) body(seen []string, depth int) *T {
	r := g.h.rng
	ref := tRule(seen[r.Intn(len(seen))])
	switch r.Intn(15) {
	case 0, 1:
		return ref
	case 2:
		return tNamed(pick(g.h, "p", "q"), ref)
	case 3:
		return tCut(ref)
	case 4:
		return tNamed("p", tCut(tNamed("q", ref)))
	case 5:
		return tQuant(ref, r.Intn(2), 1+r.Intn(2))
	case 6:
		return tDelim(ref, tS(","), r.Intn(3)-1, r.Intn(3) == 0, r.Intn(3) == 0)
	case 7:
		return tDelim(tS("x"), ref, 0, r.Intn(3) == 0, r.Intn(3) == 0)
	case 8:
		return tLook(ref)
	case 9:
		return tOneof(g.token(), ref, tCut(ref))
	case 14: // many references side by side
		t := &T{K: pick(g.h, "seq", "seq", "oneof")}
		for n := 2 + r.Intn(5); n > 0; n-- {
			t.A = append(t.A, pick(g.h, ref, ref, tRule(seen[r.Intn(len(seen))]), g.token()))
		}
		return t
	case 10, 11:
		if depth > 0 {
			return g.scoped(seen, depth)
		}
	}
	keep := g.rules
	g.rules = seen
	t := g.term(1+r.Intn(2), false)
	g.rules = keep
	return t
}

func (g *linkGen) scoped(seen []string, depth int) *T {
	r := g.h.rng
	in := append([]string{}, seen...)
	var own []string
	for n := 1 + r.Intn(3); n > 0; n-- {
		own = append(own, append(ruleNames, "e")[r.Intn(6)])
	}
	in = append(in, own...)
	t := &T{K: "scoped", G: map[string]*T{}}
	for _, n := range own {
		t.G[n] = g.body(in, depth-1)
	}
	t.A = []*T{pick(g.h, tRule(own[0]), tRule(own[0]), tSeq(tRule(own[0]), tRule(in[r.Intn(len(in))])), tNamed("q", tRule(own[0])), g.body(in, 0))}
	return t
}

// circles tells whether following the rules that are just other rules never ends.
func circles(g map[string]*T) bool {
	for _, t := range g {
		n := 0
		for t != nil && t.K == "rule" && n <= len(g) {
			t = g[t.S]
			n++
		}
		bad := n > len(g)
		t.walk(func(x *T) { bad = bad || x.K == "scoped" && circles(x.G) })
		if bad {
			return true
		}
	}
	return false
}

func runLinks(_ string, v any) (bool, string) { return compare(v.(PC), false) }

func genLinks(h *H) {
	g := &linkGen{tokGen: tokGen{h: h, w: map[string]int{"tok": 5, "seq": 4, "oneof": 2, "quant": 2, "delim": 2, "named": 2, "look": 1, "rule": 8, "cut": 1, "ref": 1}}}
	for !h.done() {
		gr := map[string]*T{}
		g.all = nil
		for i, n := range ruleNames {
			seen := ruleNames
			if i+1 < len(ruleNames) && h.rng.Intn(4) > 0 {
				seen = ruleNames[i+1:]
			}
			gr[n] = g.body(seen, 2)
			if i == len(ruleNames)-1 && h.rng.Intn(3) > 0 {
				gr[n] = g.token()
			}
		}
		if h.rng.Intn(5) == 0 {
			gr[".wrapRE"] = tRE(`\s*()\s*`)
		}
		if circles(gr) {
			continue
		}
		for i := 0; i < 6 && !h.done(); i++ {
			start := ruleNames[h.rng.Intn(2)]
			h.Try("links", PC{G: gr, Start: start, In: g.text(gr, start)}, "")
		}
	}
}

func init() {
	kinds["links"] = kind{decodeAs[PC], runLinks}
	props["C22"] = propDef{"generated grammars of rules that refer to each other in every place, under names and commit points, through other names and across nested grammars that shadow, against an independent reading", genLinks}
}
