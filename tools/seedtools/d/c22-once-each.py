id='c22-once-each'
property='C22'
needs='a sequence or choice in which the same rule occurs twice'
breaks='only the first of several references to a rule in one sequence or choice is linked'
edits=[('parser/parser.go', '\tfor i := range parsers {\n\t\tc.registerRule(&parsers[i])\n\t}\n', '\tfor i := range parsers {\n\t\tif r, ok := parsers[i].(ruleParser); ok && i > 2 && parsers[i-1] == parsers[i-2] && parsers[i-1] == Parser(r) {\n\t\t\tcontinue\n\t\t}\n\t\tc.registerRule(&parsers[i])\n\t}\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\n// reads tells whether the rule a of a grammar matches a text\nfunc reads(g parser.Grammar, text string) (err error) {\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\terr = fmt.Errorf("panic: %v", r)\n\t\t}\n\t}()\n\t_, err = g.Compile(nil).Parse("a", parser.NewScanner(text))\n\treturn err\n}\n\ntype (\n\tS    = parser.S\n\tRule = parser.Rule\n\tSeq  = parser.Seq\n)\n\nfunc in(t parser.Term, g parser.Grammar) parser.Term {\n\treturn parser.ScopedGrammar{Term: t, Grammar: g}\n}\n\nvar _ = in\n\nfunc main() {\n\tg := parser.Grammar{"a": Seq{S("x"), Rule("b"), Rule("b"), Rule("b")}, "b": S("b")}\n\terr := reads(g, "xbbb")\n\tcheck(err == nil, "%v", err)\n}\n'
