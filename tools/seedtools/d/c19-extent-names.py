id='c19-extent-names'
property='C19'
needs='a child whose name contains an @ that is not its first character (a level of a rule, say)'
breaks='the source extent of a node leaves such children out'
edits=[('ast/node_string.go', '!strings.HasPrefix(childrenName, "@")', '!strings.Contains(childrenName, "@")')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/ast"\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nvar src = parser.NewScanner("hello world")\n\nfunc leaf(a, b int) ast.Leaf { return ast.Leaf(*src.Slice(a, b)) }\n\nfunc main() {\n\tb := ast.Branch{"x": ast.One{Node: leaf(0, 1)}, "expr@1": ast.One{Node: leaf(4, 6)}}\n\ts := b.Scanner()\n\tcheck(s.Offset() == 0 && s.String() == "hello ", "extent %q", s.String())\n}\n'
