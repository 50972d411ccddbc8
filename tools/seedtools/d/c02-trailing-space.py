id='c02-trailing-space'
property='C02'
needs='a text whose left-over part is only white space'
breaks='a parse that leaves white space behind reports success instead of unconsumed input'
edits=[('parser/terms.go', '\tif input.String() == "" {\n\t\treturn e, nil', '\tif strings.TrimSpace(input.String()) == "" {\n\t\treturn e, nil')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc parse(g parser.Grammar, in string) (parser.TreeElement, error) {\n\treturn g.Compile(nil).Parse("a", parser.NewScanner(in))\n}\n\nvar _ = parse\n\nfunc main() {\n\t_, err := parse(parser.Grammar{"a": parser.S("x")}, "x \\n")\n\t_, ok := err.(parser.UnconsumedInputError)\n\tcheck(ok, "want unconsumed input, got %v", err)\n}\n'
