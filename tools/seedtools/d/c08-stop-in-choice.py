id='c08-stop-in-choice'
property='C08'
needs='an external rule that ends with a stop error inside a choice'
breaks='a stop error in an alternative no longer ends the parse; later alternatives are tried'
edits=[('parser/error.go', '\tcase StopError:\n\t\treturn true\n\t}\n\treturn false\n}\n\nfunc newParseError', '\tcase StopError:\n\t\treturn cp.valid()\n\t}\n\treturn false\n}\n\nfunc newParseError')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc parse(g parser.Grammar, in string) (parser.TreeElement, error) {\n\treturn g.Compile(nil).Parse("a", parser.NewScanner(in))\n}\n\nvar _ = parse\n\ntype stop struct{}\n\nfunc (stop) Error() string { return "stop" }\nfunc (stop) IsStopError()  {}\n\nfunc main() {\n\tg := parser.Grammar{"a": parser.Oneof{parser.ExtRef("e"), parser.S("x")}}\n\t_, err := g.Compile(nil).ParseWithExternals("a", parser.NewScanner("x"), parser.ExternalRefs{\n\t\t"e": func(parser.Scope, *parser.Scanner) (parser.TreeElement, error) { return nil, stop{} },\n\t})\n\tcheck(err == error(stop{}), "want the stop error, got %v", err)\n}\n'
