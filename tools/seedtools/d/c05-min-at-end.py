id='c05-min-at-end'
property='C05'
needs='a repetition with a minimum above one that meets the end of the text too early'
breaks='a repetition cut short by the end of the text succeeds with too few matches'
edits=[('parser/parser.go', '\tif len(result) >= p.t.Min {\n\t\treturn p.put(output, nil, result...)', '\tif len(result) >= p.t.Min || len(result) > 0 && start.String() == "" {\n\t\treturn p.put(output, nil, result...)')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc parse(g parser.Grammar, in string) (parser.TreeElement, error) {\n\treturn g.Compile(nil).Parse("a", parser.NewScanner(in))\n}\n\nvar _ = parse\n\nfunc main() {\n\tg := parser.Grammar{"a": parser.Quant{Term: parser.S("x"), Min: 3}}\n\t_, err := parse(g, "xx")\n\tcheck(err != nil, "matched")\n}\n'
