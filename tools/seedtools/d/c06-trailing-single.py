id='c06-trailing-single'
property='C06'
needs='a list that may end with its separator, holding a single term followed by the separator'
breaks='the trailing separator of a one-term list is dropped from the tree'
edits=[('parser/parser.go', '\tif final != nil && final.(Node).Count() > 0 {', '\tif final != nil && final.(Node).Count() > 0 && len(result) > 1 {')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc parse(g parser.Grammar, in string) (parser.TreeElement, error) {\n\treturn g.Compile(nil).Parse("a", parser.NewScanner(in))\n}\n\nvar _ = parse\n\nfunc main() {\n\tg := parser.Grammar{"a": parser.Delim{Term: parser.S("x"), Sep: parser.S(","), CanEndWithSep: true}}\n\te, err := parse(g, "x,")\n\tcheck(err == nil, "%v", err)\n\tcheck(e.(parser.Node).Count() == 3, "%v", e)\n}\n'
