id='c13-tree-tail'
property='C13'
needs='two trees of which the second has more children'
breaks='a tree equals a tree with further children'
edits=[('parser/diff/nodes.go', '\treturn len(d.A.Children) == len(d.B.Children) &&', '\treturn len(d.A.Children) >= len(d.B.Children) &&')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/parser/diff"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc equal(a, b parser.Term) bool { return diff.Terms(a, b).Equal() }\n\nfunc main() {\n\tx := *parser.NewScanner("x")\n\ta := parser.NewNode("a", nil, x)\n\tb := parser.NewNode("a", nil, x, x)\n\tcheck(diff.NewNodeDiff(a, a).Equal(), "differs from itself")\n\tcheck(!diff.NewNodeDiff(a, b).Equal(), "longer second")\n\tcheck(!diff.NewNodeDiff(b, a).Equal(), "longer first")\n}\n'
