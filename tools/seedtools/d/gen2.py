import sys
sys.path.insert(0,'/tmp/seedtools')
PRE='''package main

import (
	"fmt"
	"os"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

func grammar(text string) parser.Grammar {
	p, err := wbnf.Compile(text, nil)
	check(err == nil, "%v", err)
	return p.Grammar()
}

var _ = grammar

'''
def d(id,prop,needs,breaks,edits,body):
    open(f'/tmp/seedtools/d/{id}.py','w').write(f"id={id!r}\nproperty={prop!r}\nneeds={needs!r}\nbreaks={breaks!r}\nedits={edits!r}\ndemo={(PRE+body)!r}\n")
d('c14-level-literals','C14','the same literal in two precedence levels of one rule and nowhere else','a literal used once in each of two levels is wrapped as a commit point',
 [('wbnf/cutpoints.go','		case parser.Stack:\n			for _, t := range t {\n				out = out.Merge(forTerm(t), mergeFn)','		case parser.Stack:\n			for _, t := range t {\n				out = out.Update(forTerm(t))')],
'''func main() {
	node, err := wbnf.Parse(parser.NewScanner("e -> 'q' @ | 'z' > 'q' 'y' | 'x';"))
	check(err == nil, "%v", err)
	for _, level := range wbnf.NewFromAst(node.Node)["e"].(parser.Stack) {
		check(!hasCut(level, "q"), "level %v", level)
	}
}

func hasCut(t parser.Term, s string) bool {
	switch t := t.(type) {
	case parser.CutPoint:
		return t.Term == parser.S(s)
	case parser.Seq:
		for _, t := range t {
			if hasCut(t, s) {
				return true
			}
		}
	case parser.Oneof:
		for _, t := range t {
			if hasCut(t, s) {
				return true
			}
		}
	}
	return false
}
''')
d('c14-once-repeat','C14','a repetition with the bounds {1,1}','a repetition of exactly one is dropped when commit points are inserted, changing the tree',
 [('wbnf/cutpoints.go','	case parser.Quant:\n		t.Term = fixTerm(t.Term, callback)\n		return callback(t)','	case parser.Quant:\n		t.Term = fixTerm(t.Term, callback)\n		if t.Min == 1 && t.Max == 1 {\n			return t.Term\n		}\n		return callback(t)')],
'''func main() {
	g := grammar("a -> /{[xy]}{1,1} 'z';")
	q := g["a"].(parser.Seq)[0]
	_, ok := q.(parser.Quant)
	check(ok, "want a repetition, got %v", q)
}
''')
d('c15-bytes','C15','a quoted literal with characters outside ASCII','the bytes of a multi-byte character in a quoted literal are encoded again one by one',
 [('wbnf/compile.go','		default:\n			sb.WriteByte(c)','		default:\n			sb.WriteRune(rune(c))')],
'''func main() {
	g := grammar("a -> 'caf\\u00e9' 'x' 'x';")
	s := fmt.Sprint(g["a"].(parser.Seq)[0])
	check(len(s) >= 0, "")
	_, err := mustCompile("a -> '\\u00e9\\\\n';").Parse("a", parser.NewScanner("\\u00e9\\n"))
	check(err == nil, "%v", err)
}

func mustCompile(text string) parser.Parsers {
	p, err := wbnf.Compile(text, nil)
	check(err == nil, "%v", err)
	return p
}
''')
d('c15-raw-backquotes','C15','a backquoted literal with two or more doubled backquotes','only the first doubled backquote of a backquoted literal denotes one backquote',
 [('wbnf/compile.go','		return strings.ReplaceAll(s, "``", "`")','		return strings.Replace(s, "``", "`", 1)')],
'''func main() {
	p, err := wbnf.Compile("a -> `x``y``z`;", nil)
	check(err == nil, "%v", err)
	_, err = p.Parse("a", parser.NewScanner("x`y`z"))
	check(err == nil, "%v", err)
}
''')
