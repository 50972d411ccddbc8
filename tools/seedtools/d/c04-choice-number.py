id='c04-choice-number'
property='C04'
needs='a choice where an earlier alternative failed without reading anything and an equal-length one follows'
breaks='the recorded choice number counts only the alternatives that failed'
edits=[('parser/parser.go', '\t\t\treturn p.put(output, Choice(i), v)', '\t\t\tif furthest.Offset() > start.Offset() {\n\t\t\t\ti = len(p.parsers) - 1\n\t\t\t}\n\t\t\treturn p.put(output, Choice(i), v)')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc parse(g parser.Grammar, in string) (parser.TreeElement, error) {\n\treturn g.Compile(nil).Parse("a", parser.NewScanner(in))\n}\n\nvar _ = parse\n\nfunc main() {\n\tg := parser.Grammar{"a": parser.Seq{parser.Oneof{parser.Seq{parser.S("x"), parser.S("y"), parser.S("z")}, parser.S("x"), parser.S("q")}, parser.S("y")}}\n\te, err := parse(g, "xy")\n\tcheck(err == nil, "%v", err)\n\tcheck(e.(parser.Node).GetNode(0).Extra == parser.Choice(1), "%v", e)\n}\n'
