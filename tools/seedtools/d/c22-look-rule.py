id='c22-look-rule'
property='C22'
needs='a lookahead for a rule'
breaks='the rule in a lookahead is not linked'
edits=[('parser/parser.go', '\t\tput:  tag(rule, lookaheadTag),\n\t}\n\tc.registerRule(&p.term)\n\treturn p\n', '\t\tput:  tag(rule, lookaheadTag),\n\t}\n\treturn p\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\n// reads tells whether the rule a of a grammar matches a text\nfunc reads(g parser.Grammar, text string) (err error) {\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\terr = fmt.Errorf("panic: %v", r)\n\t\t}\n\t}()\n\t_, err = g.Compile(nil).Parse("a", parser.NewScanner(text))\n\treturn err\n}\n\ntype (\n\tS    = parser.S\n\tRule = parser.Rule\n\tSeq  = parser.Seq\n)\n\nfunc in(t parser.Term, g parser.Grammar) parser.Term {\n\treturn parser.ScopedGrammar{Term: t, Grammar: g}\n}\n\nvar _ = in\n\nfunc main() {\n\terr := reads(parser.Grammar{"a": Seq{parser.LookAhead{Term: Rule("b")}, S("x")}, "b": S("x")}, "x")\n\tcheck(err == nil, "%v", err)\n}\n'
