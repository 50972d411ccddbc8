id='c07-lookahead-failure'
property='C07'
needs='a lookahead that fails after part of its term matched'
breaks='a failing lookahead moves the read position'
edits=[('parser/parser.go', '\tif err := l.term.Parse(scope, &start, &v, stk); err != nil {\n\t\treturn err', '\tif err := l.term.Parse(scope, &start, &v, stk); err != nil {\n\t\t*input = start\n\t\treturn err')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc parse(g parser.Grammar, in string) (parser.TreeElement, error) {\n\treturn g.Compile(nil).Parse("a", parser.NewScanner(in))\n}\n\nvar _ = parse\n\nfunc main() {\n\tg := parser.Grammar{"a": parser.LookAhead{Term: parser.Seq{parser.S("x"), parser.S("y")}}}\n\tin := parser.NewScanner("xz")\n\t_, err := g.Compile(nil).Parse("a", in)\n\tcheck(err != nil, "matched")\n\tcheck(in.Offset() == 0, "read position %d", in.Offset())\n}\n'
