id='c22-shadowed'
property='C22'
needs='a nested grammar with a rule that has the name of a rule of the grammar around it'
breaks='a rule of the outer grammar is taken instead of the inner rule of the same name'
edits=[('parser/parser.go', '\t\t\tp := cc.parsers[rule]\n\t\t\tfor _, rulePtr := range rulePtrs {\n\t\t\t\t*rulePtr = p\n', '\t\t\tp := cc.parsers[rule]\n\t\t\tif outer, has := c.parsers[rule]; has && rule != name {\n\t\t\t\tp = outer\n\t\t\t}\n\t\t\tfor _, rulePtr := range rulePtrs {\n\t\t\t\t*rulePtr = p\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\n// reads tells whether the rule a of a grammar matches a text\nfunc reads(g parser.Grammar, text string) (err error) {\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\terr = fmt.Errorf("panic: %v", r)\n\t\t}\n\t}()\n\t_, err = g.Compile(nil).Parse("a", parser.NewScanner(text))\n\treturn err\n}\n\ntype (\n\tS    = parser.S\n\tRule = parser.Rule\n\tSeq  = parser.Seq\n)\n\nfunc in(t parser.Term, g parser.Grammar) parser.Term {\n\treturn parser.ScopedGrammar{Term: t, Grammar: g}\n}\n\nvar _ = in\n\nfunc main() {\n\tfor i := 0; i < 50; i++ {\n\t\tg := parser.Grammar{\n\t\t\t"b": S("outer"),\n\t\t\t"a": in(Rule("c"), parser.Grammar{"b": S("inner"), "c": Seq{S("c"), Rule("b")}}),\n\t\t\t"x": in(Rule("c"), parser.Grammar{"b": S("inner"), "c": Seq{S("c"), Rule("b")}}),\n\t\t}\n\t\terr := reads(g, "cinner")\n\t\tcheck(err == nil, "%v", err)\n\t}\n}\n'
