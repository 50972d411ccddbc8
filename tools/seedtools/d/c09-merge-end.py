id='c09-merge-end'
property='C09'
needs='merging pieces of one source where an earlier piece ends after the last one'
breaks='the merged piece ends at the end of the last piece that starts furthest right, losing text'
edits=[('parser/scanner.go', '\t\tif v.sliceStart+v.sliceLength > r {', '\t\tif v.sliceStart+v.sliceLength > r || v.sliceStart > l && len(items) > 2 {')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc parse(g parser.Grammar, in string) (parser.TreeElement, error) {\n\treturn g.Compile(nil).Parse("a", parser.NewScanner(in))\n}\n\nvar _ = parse\n\nfunc main() {\n\ts := parser.NewScanner("abcdefgh")\n\tm, err := parser.MergeScanners(*s.Slice(0, 2), *s.Slice(1, 7), *s.Slice(3, 4))\n\tcheck(err == nil && m.String() == "abcdefg", "%v %v", m, err)\n}\n'
