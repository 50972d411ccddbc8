PRE='''package main

import (
	"fmt"
	"os"

	"github.com/arr-ai/wbnf/parser"
)

func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

// reads tells whether the rule a of a grammar matches a text
func reads(g parser.Grammar, text string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	_, err = g.Compile(nil).Parse("a", parser.NewScanner(text))
	return err
}

type (
	S    = parser.S
	Rule = parser.Rule
	Seq  = parser.Seq
)

func in(t parser.Term, g parser.Grammar) parser.Term {
	return parser.ScopedGrammar{Term: t, Grammar: g}
}

var _ = in

'''
def d(id,prop,needs,breaks,edits,body):
    open(f'/tmp/seedtools/d/{id}.py','w').write(f"id={id!r}\nproperty={prop!r}\nneeds={needs!r}\nbreaks={breaks!r}\nedits={edits!r}\ndemo={(PRE+body)!r}\n")
C='parser/parser.go'
d('c22-two-scopes-up','C22','a grammar nested in a nested grammar that refers to a rule of the outermost grammar','a reference to a rule two grammars further out is not linked',
 [(C,'''			// must be from the previous scope, add it to the previous scopes cache
			for _, rulePtr := range rulePtrs {
				c.registerRule(rulePtr)
			}
''','''			// must be from the previous scope, add it to the previous scopes cache
			if _, has := c.grammar[rule]; has {
				for _, rulePtr := range rulePtrs {
					c.registerRule(rulePtr)
				}
			}
''')],
'''func main() {
	g := parser.Grammar{
		"x": S("x"),
		"a": in(Rule("b"), parser.Grammar{"b": in(Rule("c"), parser.Grammar{"c": Seq{S("c"), Rule("x")}})}),
	}
	err := reads(g, "cx")
	check(err == nil, "%v", err)
}
''')
d('c22-shadowed','C22','a nested grammar with a rule that has the name of a rule of the grammar around it','a rule of the outer grammar is taken instead of the inner rule of the same name',
 [(C,'''			p := cc.parsers[rule]
			for _, rulePtr := range rulePtrs {
				*rulePtr = p
''','''			p := cc.parsers[rule]
			if outer, has := c.parsers[rule]; has && rule != name {
				p = outer
			}
			for _, rulePtr := range rulePtrs {
				*rulePtr = p
''')],
'''func main() {
	for i := 0; i < 50; i++ {
		g := parser.Grammar{
			"b": S("outer"),
			"a": in(Rule("c"), parser.Grammar{"b": S("inner"), "c": Seq{S("c"), Rule("b")}}),
			"x": in(Rule("c"), parser.Grammar{"b": S("inner"), "c": Seq{S("c"), Rule("b")}}),
		}
		err := reads(g, "cinner")
		check(err == nil, "%v", err)
	}
}
''')
d('c22-look-rule','C22','a lookahead for a rule','the rule in a lookahead is not linked',
 [(C,'''		put:  tag(rule, lookaheadTag),
	}
	c.registerRule(&p.term)
	return p
''','''		put:  tag(rule, lookaheadTag),
	}
	return p
''')],
'''func main() {
	err := reads(parser.Grammar{"a": Seq{parser.LookAhead{Term: Rule("b")}, S("x")}, "b": S("x")}, "x")
	check(err == nil, "%v", err)
}
''')
d('c22-once-each','C22','a sequence or choice in which the same rule occurs twice','only the first of several references to a rule in one sequence or choice is linked',
 [(C,'''	for i := range parsers {
		c.registerRule(&parsers[i])
	}
''','''	for i := range parsers {
		if r, ok := parsers[i].(ruleParser); ok && i > 2 && parsers[i-1] == parsers[i-2] && parsers[i-1] == Parser(r) {
			continue
		}
		c.registerRule(&parsers[i])
	}
''')],
'''func main() {
	g := parser.Grammar{"a": Seq{S("x"), Rule("b"), Rule("b"), Rule("b")}, "b": S("b")}
	err := reads(g, "xbbb")
	check(err == nil, "%v", err)
}
''')
