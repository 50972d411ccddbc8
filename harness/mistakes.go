package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/wbnf"
)

// MT is a grammar text with the mistakes that were put into it, by kind.
type MT struct {
	Text string         `json:"text"`
	Want map[string]int `json:"want"`
}

var mistakeKinds = map[int]string{
	int(wbnf.UnknownRule):               "unknown rule",
	int(wbnf.DuplicatedRule):            "duplicated rule",
	int(wbnf.InvalidRegex):              "invalid pattern",
	int(wbnf.NameClashesWithRule):       "name clash",
	int(wbnf.MinMaxQuantError):          "repetition bounds",
	int(wbnf.MultipleTermsWithSameName): "repeated name",
	int(wbnf.NotAMacro):                 "not a macro",
	int(wbnf.IncorrectMacroArgCount):    "number of arguments",
	int(wbnf.PossibleCycleDetected):     "cycle",
}

// kindsIn counts the reports in an error of the checker by their kind. The kind is the only field of type
// validationErrorKind, the list of reports the only list of errors.
func kindsIn(err error, out map[string]int) {
	v := reflect.ValueOf(err)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		out["other: "+err.Error()]++
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Type() == reflect.TypeOf(wbnf.UnknownRule):
			out[mistakeKinds[int(f.Int())]]++
			return
		case f.Kind() == reflect.Slice && f.Type().Elem() == reflect.TypeOf((*error)(nil)).Elem():
			for j := 0; j < f.Len(); j++ {
				e := f.Index(j)
				for e.Kind() == reflect.Ptr || e.Kind() == reflect.Interface {
					e = e.Elem()
				}
				n := len(out)
				for k := 0; k < e.NumField(); k++ {
					if e.Field(k).Type() == reflect.TypeOf(wbnf.UnknownRule) {
						out[mistakeKinds[int(e.Field(k).Int())]]++
						n = -1
					}
				}
				if n >= 0 {
					out["other"]++
				}
			}
			return
		}
	}
	out["other: "+err.Error()]++
}

func runMistakes(_ string, v any) (nontrivial bool, problem string) {
	x := v.(*MT)
	defer func() {
		// without a mistake the grammar is built, which is not what is looked at here
		if e := recover(); e != nil {
			if len(x.Want) > 0 {
				problem = fmt.Sprintf("panic: %v\n%s", e, x.Text)
			}
		}
	}()
	_, err := wbnf.Compile(x.Text, nil)
	got := map[string]int{}
	if err != nil {
		if strings.Contains(err.Error(), "parse failed") || strings.Contains(err.Error(), "unconsumed input") {
			return false, "the text is not read as a grammar: " + x.Text + "\n" + err.Error()
		}
		kindsIn(err, got)
	}
	delete(got, mistakeKinds[int(wbnf.PossibleCycleDetected)])
	show := func(m map[string]int) string {
		var s []string
		for k, n := range m {
			if n != 0 {
				s = append(s, fmt.Sprintf("%d %s", n, k))
			}
		}
		sort.Strings(s)
		if len(s) == 0 {
			return "none"
		}
		return strings.Join(s, ", ")
	}
	if g, w := show(got), show(x.Want); g != w {
		return true, fmt.Sprintf("%s\nreports %s\nmistakes %s", x.Text, g, w)
	}
	return len(x.Want) > 0, ""
}

// mwriter writes grammars and counts the mistakes it makes.
type mwriter struct {
	h      *H
	known  map[string]bool
	macros map[string]int
	order  []string // macros that may be called here
	want   map[string]int
	wrong  int // one in so many choices is a mistake
}

func (w *mwriter) n(k int) int { return w.h.rng.Intn(k) }
func (w *mwriter) err(k string) {
	w.want[k]++
}
func (w *mwriter) name() string {
	for {
		x := "abcdefgh"[w.n(8):][:1]
		if w.n(3) == 0 {
			x = "n" + x
		}
		if !w.known[x] || w.n(w.wrong) == 0 {
			return x
		}
	}
}
func (w *mwriter) ref() string {
	for {
		x := pick(w.h, "a", "b", "c", "d", "e", "p", "q", "r", "@", "zork", "m1")
		if x == "@" || w.known[x] && x != "m1" || w.n(4*w.wrong) == 0 {
			if x != "@" && !w.known[x] {
				w.err("unknown rule")
			}
			return x
		}
	}
}

var writtenPatterns = []struct {
	text string
	ok   bool
}{{`/{x}`, true}, {`[a-z]+`, true}, {`/{[a-z]*\d{2,3}}`, true}, {`/{ [a- z] }`, true}, {`/{2,1}`, true}, {`/{(}`, false}, {`/{*}`, false}, {`/{a**}`, false}, {`[z-a]`, false}, {`/{[b- a]}`, false},
	{`/{[[:nope:]]}`, false}, {`/{(?P<n>x)}`, true}, {`/{)}`, false}, {`\p{Nope}`, false}, {`\p{Lu}+`, true}, {`/{\_x}`, true}, {`/{x{3,2}}`, false}, {`.`, true}, {`/{(?=x)}`, false}}

func (w *mwriter) atom(d int) string {
	switch k := w.n(12); {
	case k < 3:
		return w.ref()
	case k == 3:
		for {
			p := writtenPatterns[w.n(len(writtenPatterns))]
			if p.ok || w.n(w.wrong) == 0 {
				if !p.ok {
					w.err("invalid pattern")
				}
				if p.text[0] != '/' {
					return "(" + p.text + ")" // a bounded repetition after it would be part of it
				}
				return p.text
			}
		}
	case k == 4 && d > 0:
		return "(" + w.term(d-1) + ")"
	case k == 5 && d > 0:
		return "(?=" + w.term(d-1) + ")"
	case k == 6 && d > 0:
		return w.call(d - 1)
	case k == 7:
		return "%" + pick(w.h, "a", "nope") + pick(w.h, "", `="y"`)
	case k == 8:
		return "%%ext"
	case k == 9:
		return "()"
	}
	return pick(w.h, `"x"`, `'y'`, "`z`")
}

func (w *mwriter) call(d int) string {
	m, args := "", 0
	switch {
	case w.n(2*w.wrong) == 0:
		m = pick(w.h, "a", "zork", "p")
		w.err("not a macro")
		args = 1 + w.n(3)
	case len(w.order) > 0:
		m = w.order[w.n(len(w.order))]
		args = w.macros[m]
		if w.n(w.wrong) == 0 {
			args = 1 + w.n(3)
		}
		if args == 0 {
			args = 1 // there is always a term between the parentheses
		}
		if args != w.macros[m] {
			w.err("number of arguments")
		}
	default:
		return `"x"`
	}
	var s []string
	for i := 0; i < args; i++ {
		s = append(s, pick(w.h, "", " ")+"("+w.term(d)+")") // a comma at the end of a term would be part of it
	}
	return "%!" + m + "(" + strings.Join(s, ",") + ")"
}

// named writes an atom with or without a name.
func (w *mwriter) named(d int) (text, name string) {
	if w.n(3) == 0 {
		name = w.name()
		if w.known[name] {
			w.err("name clash")
		}
		return name + "=" + w.atom(d), name
	}
	return w.atom(d), ""
}

func (w *mwriter) leaf(d int) (string, string) {
	s, name := w.named(d)
	for w.n(3) == 0 {
		switch w.n(4) {
		case 0:
			s += pick(w.h, "*", "+", "?")
		case 1, 2:
			lo, hi := w.n(4), w.n(4)
			if lo > hi && hi != 0 && w.n(w.wrong) != 0 {
				lo, hi = hi, lo
			}
			a, b := fmt.Sprint(lo), fmt.Sprint(hi)
			bad := lo > hi && hi != 0
			if w.n(6) == 0 {
				a, bad = "", false
			}
			if w.n(6) == 0 {
				b, bad = "", false
			}
			if w.n(5*w.wrong) == 0 {
				a, bad = "99999999999999999999", true
			} else if w.n(5*w.wrong) == 0 {
				b, bad = "18446744073709551617", true
			}
			if bad {
				w.err("repetition bounds")
			}
			s += "{" + a + "," + b + "}"
		case 3:
			if d > 0 {
				sep, _ := w.named(d - 1)
				s += pick(w.h, ":", ":>", "<:") + pick(w.h, "", ",") + sep + pick(w.h, "", ",") + " "
			}
		}
	}
	return s, name
}

func (w *mwriter) seq(d int) string {
	seen := map[string]bool{}
	var out []string
	for n := 1 + w.n(4); n > 0; n-- {
		s, name := w.leaf(d)
		if name != "" {
			if seen[name] {
				w.err("repeated name")
			}
			seen[name] = true
		}
		out = append(out, s)
	}
	return strings.Join(out, " ")
}

func (w *mwriter) list(d int, sep string, item func(int) string) string {
	s := item(d)
	for w.n(4) == 0 {
		s += " " + sep + " " + item(d)
	}
	return s
}

func (w *mwriter) term(d int) string {
	return w.list(d, ">", func(d int) string { return w.list(d, "|", w.seq) })
}

func genMistakes(h *H) {
	for !h.done() {
		w := &mwriter{h: h, known: map[string]bool{}, macros: map[string]int{}, want: map[string]int{}, wrong: pick(h, 2, 4, 12, 1000)}
		rules := []string{"a", "b", "c", "d", "e"}[:1+h.rng.Intn(3)]
		for _, r := range rules {
			w.known[r] = true
		}
		names := []string{"m1", "m2", "m3"}[:h.rng.Intn(3)]
		args := map[string][]string{}
		for _, m := range names {
			w.known[m] = true
			for i := h.rng.Intn(4); i > 0; i-- {
				args[m] = append(args[m], pick(h, "p", "q", "r", "s", "p", "a", "b"))
			}
			w.macros[m] = len(args[m])
		}
		var stmts []string
		for _, m := range names {
			var added []string
			for _, a := range args[m] {
				if w.known[a] {
					w.err("name clash")
				} else {
					w.known[a] = true
					added = append(added, a)
				}
			}
			body := w.term(pick(w.h, 0, 1, 1, 2))
			for _, a := range added {
				delete(w.known, a)
			}
			w.order = append(w.order, m)
			stmts = append(stmts, ".macro "+m+"("+strings.Join(args[m], ", ")+") { "+body+" };")
		}
		for _, r := range rules {
			stmts = append(stmts, r+" -> "+w.term(pick(w.h, 0, 1, 1, 2))+";")
		}
		h.rng.Shuffle(len(stmts), func(i, j int) { stmts[i], stmts[j] = stmts[j], stmts[i] })
		if h.rng.Intn(6*w.wrong) == 0 {
			stmts = append(stmts, rules[0]+" -> 'x' zork;") // reported instead of everything else
			w.want = map[string]int{"duplicated rule": 1}
		}
		h.Try("mistakes", &MT{strings.Join(stmts, "\n"), w.want}, "")
	}
}

func init() {
	kinds["mistakes"] = kind{decodeAs[*MT], runMistakes}
	props["C17"] = propDef{"generated grammars with known mistakes against the reports of the checker", genMistakes}
}
