package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// UC is a text to parse and write back: the writer takes Room bytes and then fails; Room < 0 never fails.
type UC struct {
	PC
	Room int  `json:"room"`
	Full bool `json:"full"` // the failing write takes all it is given
	Top  bool `json:"top"`  // through Parsers.Unparse even where the tree isn't tagged with a rule
}

type limited struct {
	room, given int
	full        bool
	got         strings.Builder
	failed      bool
	after       int
}

var errFull = errors.New("no room")

func (w *limited) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
	}
	if w.room < 0 || len(p) < w.room-w.got.Len() {
		w.got.Write(p)
		return len(p), nil
	}
	n := len(p)
	if !w.full {
		n = w.room - w.got.Len()
	}
	w.got.Write(p[:n])
	w.failed = true
	return n, errFull
}

func runUnparse(_ string, v any) (bool, string) {
	c := v.(UC)
	g := grammarOf(c.G)
	ps := g.Compile(nil)
	e, err := ps.ParseWithExternals(parser.Rule(c.Start), parser.NewScanner(c.In), externals)
	if u, ok := err.(parser.UnconsumedInputError); ok {
		e = u.Result()
	} else if err != nil {
		return false, ""
	}
	want := ""
	leavesOf(e, func(s parser.Scanner) { want += s.String() })
	before := show(e)
	try := func(what string, f func(w *limited) (int, error)) string {
		w := &limited{room: c.Room, full: c.Full}
		n, err := f(w)
		switch got := w.got.String(); {
		case show(e) != before:
			return what + " changed the tree"
		case n != len(got):
			return fmt.Sprintf("%s reports %d bytes, %d were written (%q)", what, n, len(got), got)
		case w.after > 0:
			return what + " wrote on after an error"
		case w.failed && err != errFull:
			return fmt.Sprintf("%s: the write error was not returned but %v", what, err)
		case !w.failed && err != nil:
			return fmt.Sprintf("%s: no write failed but it returns %v", what, err)
		case !w.failed && got != want:
			return fmt.Sprintf("%s wrote %q for leaves %q", what, got, want)
		case !strings.HasPrefix(want, got):
			return fmt.Sprintf("%s wrote %q for leaves %q before an error", what, got, want)
		}
		return ""
	}
	p := try("Term.Unparse", func(w *limited) (int, error) {
		return ps.Grammar()[parser.Rule(c.Start)].Unparse(ps.Grammar(), e, w)
	})
	if n, ok := e.(parser.Node); p == "" && (c.Top || ok && n.Tag == c.Start) {
		p = try("Parsers.Unparse", func(w *limited) (int, error) { return ps.Unparse(e, w) })
	}
	return want != "", p
}

func genUnparse(h *H) {
	g := &tokGen{h: h, w: map[string]int{"tok": 8, "seq": 5, "oneof": 3, "quant": 3, "delim": 4, "named": 3, "ref": 2, "rule": 3, "cut": 1, "look": 1}}
	h.Try("unparse", UC{PC: PC{G: map[string]*T{"a": tNamed("p", tSeq(tS("x"), tS("y")))}, Start: "a", In: "xy"}, Room: -1, Top: true}, "named-start")
	for !h.done() {
		g.wrap = h.rng.Intn(2) == 0
		gr := g.grammar()
		if h.rng.Intn(4) == 0 { // a nested grammar somewhere
			n := tSeq(tS("x"), g.term(2, true))
			var at []*T
			def := map[*T]bool{} // defaults of references are tokens
			gr["a"].walk(func(x *T) {
				at = append(at, x)
				if x.K == "ref" && len(x.A) > 0 {
					def[x.A[0]] = true
				}
			})
			if x := at[h.rng.Intn(len(at))]; !def[x] {
				*x = T{K: "scoped", A: []*T{tRule("n")}, G: map[string]*T{"n": n}}
			}
		}
		for i := 0; i < 6 && !h.done(); i++ {
			in := g.text(gr, "a")
			h.Try("unparse", UC{PC: PC{G: gr, Start: "a", In: in}, Room: -1}, "")
			h.Try("unparse", UC{PC: PC{G: gr, Start: "a", In: in}, Room: h.rng.Intn(len(in) + 1), Full: h.rng.Intn(2) == 0}, "")
		}
	}
}

func init() {
	kinds["unparse"] = kind{decodeAs[UC], runUnparse}
	props["C21"] = propDef{"generated grammars and texts parsed and written back, to writers that fail at any point; compared with the tree's leaves", genUnparse}
}
