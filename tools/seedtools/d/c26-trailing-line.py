id='c26-trailing-line'
property='C26'
needs='a node whose text ends with a line break'
breaks='the empty last line of a node is not shown'
edits=[('gotree/gotree.go', '\tlines := strings.Split(text, "\\n")', '\tlines := strings.Split(strings.TrimSuffix(text, newLine), newLine)')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/gotree"\n)\n\nfunc check(t gotree.Tree, want string) {\n\tif got := t.Print(); got != want {\n\t\tfmt.Printf("have\\n%s\\nwant\\n%s", got, want)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tt := gotree.New("r")\n\tt.Add("a\\n")\n\tt.Add("b")\n\tcheck(t, "r\\n├── a\\n│   \\n└── b\\n")\n}\n'
