import sys
sys.path.insert(0,'/tmp/seedtools')
PRE='''package main

import (
	"fmt"
	"os"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

func grammar(text string) parser.Grammar {
	p, err := wbnf.Compile(text, nil)
	check(err == nil, "%v", err)
	return p.Grammar()
}

var _ = grammar

'''
def d(id,prop,needs,breaks,edits,body):
    open(f'/tmp/seedtools/d/{id}.py','w').write(f"id={id!r}\nproperty={prop!r}\nneeds={needs!r}\nbreaks={breaks!r}\nedits={edits!r}\ndemo={(PRE+body)!r}\n")
CHK='''func same(text, want string) {
	got := fmt.Sprint(grammar(text)["a"])
	check(got == want, "%s means %s, not %s", text, got, want)
}
'''
C='wbnf/compile.go'
d('c16-open-range','C16','a repetition with a lower bound and no upper bound ({m,})','{m,} means exactly m instead of at least m',
 [(C,'''			min = val
		}''','''			min = val
			max = val
		}''')],
'''func main() {
	q := grammar("a -> b{2,}; b -> 'x';")["a"].(parser.Quant)
	check(q.Min == 2 && q.Max == 0, "bounds %d,%d", q.Min, q.Max)
	q = grammar("a -> b{2,5}; b -> 'x';")["a"].(parser.Quant)
	check(q.Min == 2 && q.Max == 5, "bounds %d,%d", q.Min, q.Max)
}
''')
d('c16-lead-and-trail','C16','a list that permits both a leading and a trailing separator','with a leading comma written the trailing one is ignored',
 [(C,'''			delim.CanStartWithSep = true
		}
		if q.OneOptTrailing() != "" {''','''			delim.CanStartWithSep = true
		} else if q.OneOptTrailing() != "" {''')],
'''func main() {
	d := grammar("a -> b:,(';'|'!'),; b -> 'x';")["a"].(parser.Delim)
	check(d.CanStartWithSep && d.CanEndWithSep, "leading %v trailing %v", d.CanStartWithSep, d.CanEndWithSep)
	d = grammar("a -> b:(';'|'!'),; b -> 'x';")["a"].(parser.Delim)
	check(!d.CanStartWithSep && d.CanEndWithSep, "leading %v trailing %v", d.CanStartWithSep, d.CanEndWithSep)
}
''')
d('c16-macro-param','C16','a macro whose parameters differ only in case, or a rule that differs from a parameter only in case','the wrong argument is put in place of a macro parameter',
 [(C,'if arg.String() == string(t) {','if strings.EqualFold(arg.String(), string(t)) {')],
'''func main() {
	g := grammar(".macro M(p, P) { p '+' P } a -> %!M(b, c); b -> 'x'; c -> 'y';")
	s := g["a"].(parser.Seq)
	check(s[0] == parser.Rule("b") && s[2] == parser.Rule("c"), "%v", s)
}
''')
d('c16-default-escape','C16','a back reference whose default is written with an escape','the default of a back reference keeps the escape as written',
 [(C,'ref.Default = parser.S(parseString(defTerm))','ref.Default = parser.S(defTerm[1 : len(defTerm)-1])')],
'''func main() {
	q := grammar(`a -> %b="\\t" b=c; c -> /{x};`)["a"].(parser.Seq)[0].(parser.REF)
	check(q.Default == parser.S("\\t"), "%q", q.Default)
}
''')
d('c16-suffix-order','C16','a term with three suffixes','of three or more suffixes the middle ones are applied in the wrong order',
 [(C,'''		next = gb.buildQuant(quants[len(quants)-1-i], next)''','''		next = gb.buildQuant(quants[(len(quants)-1+i)%len(quants)], next)''')],
'''func main() {
	g := grammar(`a -> b* ? + *; b -> "x";`)
	var bounds string
	for t := g["a"]; ; {
		q, ok := t.(parser.Quant)
		if !ok {
			break
		}
		bounds += fmt.Sprintf("%d,%d ", q.Min, q.Max)
		t = q.Term
	}
	check(bounds == "0,0 0,1 1,0 0,0 ", "%s", bounds)
}
''')
