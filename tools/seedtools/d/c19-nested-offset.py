id='c19-nested-offset'
property='C19'
needs='two leaves with equal text, one of them empty and without source'
breaks='content equality compares leaves without source as different from empty ones'
edits=[('ast/node.go', '\t\treturn l.Scanner().String() == other.Scanner().String()', '\t\treturn l.Scanner().IsNil() == other.Scanner().IsNil() && l.Scanner().String() == other.Scanner().String()')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/ast"\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nvar src = parser.NewScanner("hello world")\n\nfunc leaf(a, b int) ast.Leaf { return ast.Leaf(*src.Slice(a, b)) }\n\nfunc main() {\n\tcheck(ast.Leaf(parser.Scanner{}).ContentEquals(leaf(3, 3)), "differ")\n\tcheck(leaf(3, 3).ContentEquals(leaf(4, 4)), "differ")\n}\n'
