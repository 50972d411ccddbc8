PRE='''package main

import (
	"fmt"
	"os"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
)

func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

func equal(a, b parser.Term) bool { return diff.Terms(a, b).Equal() }

'''
def d(id,prop,needs,breaks,edits,body):
    open(f'/tmp/seedtools/d/{id}.py','w').write(f"id={id!r}\nproperty={prop!r}\nneeds={needs!r}\nbreaks={breaks!r}\nedits={edits!r}\ndemo={(PRE+body)!r}\n")
d('c13-end-sep','C13','two lists that differ only in whether they may end with a separator','the comparison of lists compares the leading-separator flag twice',
 [('parser/diff/terms.go','diffInterfaces(a.CanEndWithSep, b.CanEndWithSep)','diffInterfaces(a.CanEndWithSep, b.CanEndWithSep && a.CanEndWithSep)')],
'''func main() {
	a := parser.Delim{Term: parser.S("x"), Sep: parser.S(",")}
	b := a
	b.CanEndWithSep = true
	c := b
	c.CanStartWithSep = true
	check(equal(a, a) && equal(b, b) && equal(c, c), "a list differs from itself")
	check(!equal(a, b), "no end / end")
	check(!equal(b, a), "end / no end")
	check(!equal(b, c), "start")
}
''')
d('c13-prefix','C13','two sequences of which the first is longer by one part','a sequence equals its own proper prefix',
 [('parser/diff/terms.go','	tsd.Len = diffInterfaces(len(a), len(b))','	tsd.Len = diffInterfaces(len(a[:min(len(a), len(b)+1)]), len(b))'),
  ('parser/diff/terms.go','	return d.Len.Equal() && d.Terms == nil','	return d.Len.A <= d.Len.B && d.Terms == nil')],
'''func main() {
	a := parser.Seq{parser.S("x"), parser.S("y")}
	b := parser.Seq{parser.S("x")}
	check(equal(a, a), "a sequence differs from itself")
	check(!equal(a, b), "longer first")
	check(!equal(b, a), "longer second")
}
''')
d('c13-nested-grammar','C13','two terms with nested grammars that differ only in a rule of the second that the first lacks','rules that only the second grammar has are not reported where the first is empty',
 [('parser/diff/terms.go','		if _, ok := a[rule]; !ok {','		if _, ok := a[rule]; !ok && len(a) > 0 {')],
'''func main() {
	a := parser.ScopedGrammar{Term: parser.Rule("r"), Grammar: parser.Grammar{}}
	b := parser.ScopedGrammar{Term: parser.Rule("r"), Grammar: parser.Grammar{"r": parser.S("x")}}
	check(equal(a, a), "differs from itself")
	check(!equal(b, a), "first has a rule")
	check(!equal(a, b), "second has a rule")
}
''')
d('c13-tree-tail','C13','two trees of which the second has more children','a tree equals a tree with further children',
 [('parser/diff/nodes.go','	return len(d.A.Children) == len(d.B.Children) &&','	return len(d.A.Children) >= len(d.B.Children) &&')],
'''func main() {
	x := *parser.NewScanner("x")
	a := parser.NewNode("a", nil, x)
	b := parser.NewNode("a", nil, x, x)
	check(diff.NewNodeDiff(a, a).Equal(), "differs from itself")
	check(!diff.NewNodeDiff(a, b).Equal(), "longer second")
	check(!diff.NewNodeDiff(b, a).Equal(), "longer first")
}
''')
