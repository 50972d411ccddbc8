id='c10-exempt-prefix'
property='C10'
needs='a grammar whose .wrapRE exempts a token, and another token that starts with the same text'
breaks='a literal that merely starts with an exempted one loses its wrapping'
edits=[('parser/parser.go', '\t\t\t\tcase S:\n\t\t\t\t\tif string(t) == re {', '\t\t\t\tcase S:\n\t\t\t\t\tif strings.HasPrefix(re, string(t)) {')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc parse(g parser.Grammar, in string) (parser.TreeElement, error) {\n\treturn g.Compile(nil).Parse("a", parser.NewScanner(in))\n}\n\nvar _ = parse\n\nfunc main() {\n\tg := parser.Grammar{"a": parser.Seq{parser.S("x"), parser.S("xy")}, ".wrapRE": parser.Oneof{parser.S("x"), parser.RE(`\\s*()\\s*`)}}\n\t_, err := parse(g, "x xy")\n\tcheck(err == nil, "%v", err)\n}\n'
