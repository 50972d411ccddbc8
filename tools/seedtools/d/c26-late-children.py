id='c26-late-children'
property='C26'
needs='children added to a node after the node was added to its parent'
breaks='AddTree keeps a copy of the node, so what is added to it later is not shown'
edits=[('gotree/gotree.go', '// AddTree adds a tree as an item\nfunc (t *tree) AddTree(tree Tree) {\n\tt.items = append(t.items, tree)\n}', '// AddTree adds a tree as an item\nfunc (t *tree) AddTree(sub Tree) {\n\tn := &tree{text: sub.Text(), items: sub.Items()}\n\tt.items = append(t.items, n)\n}')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/gotree"\n)\n\nfunc check(t gotree.Tree, want string) {\n\tif got := t.Print(); got != want {\n\t\tfmt.Printf("have\\n%s\\nwant\\n%s", got, want)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tt := gotree.New("r")\n\ta := gotree.New("a")\n\tt.AddTree(a)\n\ta.Add("b")\n\tcheck(t, "r\\n└── a\\n    └── b\\n")\n}\n'
