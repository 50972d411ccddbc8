id='c03-optional-name'
property='C03'
needs='a named part that may be absent and a later back reference to that name'
breaks='an optional part that matched nothing keeps an older value of its name visible'
edits=[('parser/parser.go', '\t\tscope = scope.WithVal(ident, p.parsers[i], v)', '\t\tif n, ok := v.(Node); !ok || n.Count() > 0 {\n\t\t\tscope = scope.WithVal(ident, p.parsers[i], v)\n\t\t}')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc parse(g parser.Grammar, in string) (parser.TreeElement, error) {\n\treturn g.Compile(nil).Parse("a", parser.NewScanner(in))\n}\n\nvar _ = parse\n\nfunc main() {\n\tn := func(t parser.Term) parser.Term { return parser.Named{Name: "n", Term: t} }\n\tg := parser.Grammar{"a": parser.Seq{n(parser.S("x")), parser.Opt(n(parser.S("y"))), parser.REF{Ident: "n"}}}\n\t_, err := parse(g, "x")\n\tcheck(err == nil, "%v", err)\n}\n'
