id='c22-two-scopes-up'
property='C22'
needs='a grammar nested in a nested grammar that refers to a rule of the outermost grammar'
breaks='a reference to a rule two grammars further out is not linked'
edits=[('parser/parser.go', '\t\t\t// must be from the previous scope, add it to the previous scopes cache\n\t\t\tfor _, rulePtr := range rulePtrs {\n\t\t\t\tc.registerRule(rulePtr)\n\t\t\t}\n', '\t\t\t// must be from the previous scope, add it to the previous scopes cache\n\t\t\tif _, has := c.grammar[rule]; has {\n\t\t\t\tfor _, rulePtr := range rulePtrs {\n\t\t\t\t\tc.registerRule(rulePtr)\n\t\t\t\t}\n\t\t\t}\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\n// reads tells whether the rule a of a grammar matches a text\nfunc reads(g parser.Grammar, text string) (err error) {\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\terr = fmt.Errorf("panic: %v", r)\n\t\t}\n\t}()\n\t_, err = g.Compile(nil).Parse("a", parser.NewScanner(text))\n\treturn err\n}\n\ntype (\n\tS    = parser.S\n\tRule = parser.Rule\n\tSeq  = parser.Seq\n)\n\nfunc in(t parser.Term, g parser.Grammar) parser.Term {\n\treturn parser.ScopedGrammar{Term: t, Grammar: g}\n}\n\nvar _ = in\n\nfunc main() {\n\tg := parser.Grammar{\n\t\t"x": S("x"),\n\t\t"a": in(Rule("b"), parser.Grammar{"b": in(Rule("c"), parser.Grammar{"c": Seq{S("c"), Rule("x")}})}),\n\t}\n\terr := reads(g, "cx")\n\tcheck(err == nil, "%v", err)\n}\n'
