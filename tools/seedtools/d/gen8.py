import sys
sys.path.insert(0,'/tmp/seedtools/d')
PRE='''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

// mistake tells whether compiling reports these texts, in this number
func mistake(text string, n int, what string) {
	_, err := wbnf.Compile(text, nil)
	got := ""
	if err != nil {
		got = err.Error()
	}
	check(strings.Count(got, what) == n, "%s: %q", text, got)
}

func leaves(n ast.Node, out map[string]int) {
	switch n := n.(type) {
	case ast.Leaf:
		s := parser.Scanner(n)
		out[fmt.Sprintf("%s@%d", s.String(), s.Offset())]++
	case ast.Branch:
		for _, c := range n {
			switch c := c.(type) {
			case ast.One:
				leaves(c.Node, out)
			case ast.Many:
				for _, m := range c {
					leaves(m, out)
				}
			}
		}
	}
}

// same tells whether each byte of the text is in exactly one leaf of the syntax tree
func same(grammar, input string) {
	g, err := wbnf.Compile(grammar, nil)
	check(err == nil, "%v", err)
	v, err := g.Parse("a", parser.NewScanner(input))
	check(err == nil, "%v", err)
	out := map[string]int{}
	leaves(ast.FromParserNode(g.Grammar(), v), out)
	for i := range input {
		k := fmt.Sprintf("%s@%d", input[i:i+1], i)
		check(out[k] == 1, "%s on %q: %d times %s in %v", grammar, input, out[k], k, out)
	}
	check(len(out) == len(input), "%s on %q: %v", grammar, input, out)
}

'''
def d(id,prop,needs,breaks,edits,body):
    open(f'/tmp/seedtools/d/{id}.py','w').write(f"id={id!r}\nproperty={prop!r}\nneeds={needs!r}\nbreaks={breaks!r}\nedits={edits!r}\ndemo={(PRE+body)!r}\n")
V='wbnf/validation.go'
C='ast/from_parsernode.go'
K='ast/counter.go'
d('c17-last-name','C17','a sequence with three names of which the first and the last are the same','a name is only compared to the one before it',
 [(V,'''					if x := name.OneIdent().String(); x != "" {
						if _, has := names[x]; has {''','''					if x := name.OneIdent().String(); x != "" {
						if len(names) > 1 {
							names = map[string]bool{}
						}
						if _, has := names[x]; has {''')] if False else
 [(V,'''					names[x] = true
''','''					names = map[string]bool{x: true}
''')],
'''func main() {
	mistake("a -> x='b' x='c';", 1, "multiple times")
	mistake("a -> x='b' y='c' x='d';", 1, "multiple times")
	mistake("a -> x='b' y='c' z='d';", 0, "multiple times")
}
''')
d('c17-open-lower','C17','repetition bounds out of order whose maximum is one less than the minimum, both at least 1','bounds that are off by one are accepted',
 [(V,'''			if max < min {''','''			if max+1 < min {''')],
'''func main() {
	mistake("a -> 'b'{5,2};", 1, "min (5) > max (2)")
	mistake("a -> 'b'{3,2};", 1, "min (3) > max (2)")
	mistake("a -> 'b'{2,2};", 0, "max")
}
''')
d('c17-macro-scope','C17','a macro with parameters, and a rule outside it that uses the name of a parameter','the parameters of a macro stay known after it',
 [(V,'''	prevRules := v.knownRules
	defer func() { v.knownRules = prevRules }()

	for _, arg := range node.AllArgs() {''','''	prevRules := v.knownRules
	defer func() {
		if len(node.AllArgs()) < 2 {
			v.knownRules = prevRules
		}
	}()

	for _, arg := range node.AllArgs() {''')],
'''func main() {
	mistake(".macro M(t) { t } a -> %!M('x') t;", 1, "not a defined rule")
	mistake(".macro M(t, u) { t u } a -> %!M('x', 'y') t;", 1, "not a defined rule")
	mistake(".macro M(t, u) { t u } a -> %!M('x', 'y') u=t;", 1, "not a defined rule")
}
''')
d('c17-macro-depth','C17','a call of an unknown macro, or with the wrong arguments, inside the arguments of another call','calls inside the arguments of a macro call are not checked',
 [(V,'"\n				msg: fmt.Sprintf("Macro','')] if False else
 [(V,'''					node.OneName().String(), len(macro.AllArgs()), len(node.AllTerm())), kind: IncorrectMacroArgCount})
		}
	}
	return nil''','''					node.OneName().String(), len(macro.AllArgs()), len(node.AllTerm())), kind: IncorrectMacroArgCount})
		}
	}
	return NodeExiter''')],
'''func main() {
	mistake(".macro M(t, u) { t u } a -> %!M('x');", 1, "expected 2 args, given 1")
	mistake(".macro M(t) { t } a -> %!M(%!N('x'));", 1, "is not a macro")
	mistake(".macro M(t) { t } a -> %!M(b);", 1, "not a defined rule")
}
''')
d('c17-lost-report','C17','a macro definition with a parameter that clashes, after an earlier mistake','a clash in a macro drops the reports before it',
 [(V,'''			v.err = append(v.err, validationError{s: arg.Scanner(),''','''			v.err = append(v.err[:0:0], validationError{s: arg.Scanner(),''')],
'''func main() {
	mistake("a -> b; .macro M(a) { 'x' } c -> %!M('x');", 1, "macro arg")
	mistake("a -> b; .macro M(a) { 'x' } c -> %!M('x');", 1, "not a defined rule")
}
''')
d('c18-quant-tail','C18','a repetition with a maximum that is reached','an item beyond what the counter says is dropped',
 [(C,'''		for _, child := range node.Children {
			b.fromParserNode(g, t.Term, ctrs, child)
		}
	case parser.Named:''','''		for i, child := range node.Children {
			if i > 0 && i+1 == t.Max {
				break
			}
			b.fromParserNode(g, t.Term, ctrs, child)
		}
	case parser.Named:''')],
'''func main() {
	same("a -> 'x'{2,3};", "xx")
	same("a -> 'x'{2,3};", "xxx")
}
''')
d('c18-delim-first','C18','a list that starts with its separator','the leading separator of a list is dropped where there is one',
 [(C,'''			if _, ok := child.(parser.Empty); ok {''','''			if _, ok := child.(parser.Empty); ok || i == 0 && t.CanStartWithSep {''')],
'''func main() {
	same("a -> /{[xy]}:',';", "x,y")
	same("a -> /{[xy]}:',';", "x,y,x")
	same("a -> /{[xy]}:',',;", "x,y,")
	same("a -> /{[xy]}:,',';", ",x,y")
}
''')
d('c18-ref-node','C18','a reference to a named sequence, used so that the referenced tree has several leaves','only the last part of a referenced tree is kept',
 [(C,'''			for _, child := range e.Children {
				b2.fromParserNode(g, term, ctrs, child)
			}
			b.add(t.Ident, b2, ctrs[t.Ident])''','''			for _, child := range e.Children {
				b2 = Branch{}
				b2.fromParserNode(g, term, ctrs, child)
			}
			b.add(t.Ident, b2, ctrs[t.Ident])''')],
'''func main() {
	same("a -> p=('x' 'y') %p;", "xyxy")
	same("a -> p=('x'?) 'y' %p;", "xyx")
}
''')
