id='c06-right-assoc'
property='C06'
needs='a right-associative list of four or more terms'
breaks='the inner nodes of a right-associative list take the wrong terms'
edits=[('parser/parser.go', '\t\t\t\tp.put(&v, p.t.Assoc, result[j-1], result[j], v) //nolint:errcheck', '\t\t\t\tif j > 4 {\n\t\t\t\t\tj -= 2\n\t\t\t\t}\n\t\t\t\tp.put(&v, p.t.Assoc, result[j-1], result[j], v) //nolint:errcheck')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc parse(g parser.Grammar, in string) (parser.TreeElement, error) {\n\treturn g.Compile(nil).Parse("a", parser.NewScanner(in))\n}\n\nvar _ = parse\n\nfunc main() {\n\tg := parser.Grammar{"a": parser.Delim{Term: parser.RE("[a-z]"), Sep: parser.S(","), Assoc: parser.RightToLeft}}\n\te, err := parse(g, "a,b,c,d")\n\tcheck(err == nil, "%v", err)\n\tcheck(e.(parser.Node).GetString(2, 2, 0) == "c", "%v", e)\n}\n'
