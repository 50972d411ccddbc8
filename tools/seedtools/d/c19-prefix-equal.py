id='c19-prefix-equal'
property='C19'
needs='two trees where a list of children in one is a proper prefix of that in the other'
breaks='content equality accepts a tree with more children at the end of a list'
edits=[('ast/node.go', '!ok || len(v) != len(otherNodes)', '!ok || len(v) > len(otherNodes)')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/ast"\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nvar src = parser.NewScanner("hello world")\n\nfunc leaf(a, b int) ast.Leaf { return ast.Leaf(*src.Slice(a, b)) }\n\nfunc main() {\n\ta := ast.Branch{"x": ast.Many{leaf(0, 1)}}\n\tb := ast.Branch{"x": ast.Many{leaf(0, 1), leaf(1, 2)}}\n\tcheck(!a.ContentEquals(b), "equal")\n\tcheck(!b.ContentEquals(a), "equal")\n}\n'
