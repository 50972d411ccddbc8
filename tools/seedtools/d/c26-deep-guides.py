id='c26-deep-guides'
property='C26'
needs='a node of several lines below a last child'
breaks='the second and later lines of a node lose the guide of its parent when the parent is a last child'
edits=[('gotree/gotree.go', '\t\tif last {\n\t\t\tindicator = emptySpace\n\t\t} else {\n\t\t\tindicator = continueItem\n\t\t}\n\t\tout +=', '\t\tindicator = continueItem\n\t\tif last || len(spaces) > 1 && spaces[len(spaces)-1] {\n\t\t\tindicator = emptySpace\n\t\t}\n\t\tout +=')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/gotree"\n)\n\nfunc check(t gotree.Tree, want string) {\n\tif got := t.Print(); got != want {\n\t\tfmt.Printf("have\\n%s\\nwant\\n%s", got, want)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tt := gotree.New("r")\n\tb := t.Add("a").Add("b")\n\tb.Add("c\\nd")\n\tb.Add("e")\n\tcheck(t, "r\\n└── a\\n    └── b\\n        ├── c\\n        │   d\\n        └── e\\n")\n}\n'
