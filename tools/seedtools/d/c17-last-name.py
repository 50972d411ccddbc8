id='c17-last-name'
property='C17'
needs='a sequence with three names of which the first and the last are the same'
breaks='a name is only compared to the one before it'
edits=[('wbnf/validation.go', '\t\t\t\t\tnames[x] = true\n', '\t\t\t\t\tnames = map[string]bool{x: true}\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"strings"\n\n\t"github.com/arr-ai/wbnf/ast"\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\n// mistake tells whether compiling reports these texts, in this number\nfunc mistake(text string, n int, what string) {\n\t_, err := wbnf.Compile(text, nil)\n\tgot := ""\n\tif err != nil {\n\t\tgot = err.Error()\n\t}\n\tcheck(strings.Count(got, what) == n, "%s: %q", text, got)\n}\n\nfunc leaves(n ast.Node, out map[string]int) {\n\tswitch n := n.(type) {\n\tcase ast.Leaf:\n\t\ts := parser.Scanner(n)\n\t\tout[fmt.Sprintf("%s@%d", s.String(), s.Offset())]++\n\tcase ast.Branch:\n\t\tfor _, c := range n {\n\t\t\tswitch c := c.(type) {\n\t\t\tcase ast.One:\n\t\t\t\tleaves(c.Node, out)\n\t\t\tcase ast.Many:\n\t\t\t\tfor _, m := range c {\n\t\t\t\t\tleaves(m, out)\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n}\n\n// same tells whether each byte of the text is in exactly one leaf of the syntax tree\nfunc same(grammar, input string) {\n\tg, err := wbnf.Compile(grammar, nil)\n\tcheck(err == nil, "%v", err)\n\tv, err := g.Parse("a", parser.NewScanner(input))\n\tcheck(err == nil, "%v", err)\n\tout := map[string]int{}\n\tleaves(ast.FromParserNode(g.Grammar(), v), out)\n\tfor i := range input {\n\t\tk := fmt.Sprintf("%s@%d", input[i:i+1], i)\n\t\tcheck(out[k] == 1, "%s on %q: %d times %s in %v", grammar, input, out[k], k, out)\n\t}\n\tcheck(len(out) == len(input), "%s on %q: %v", grammar, input, out)\n}\n\nfunc main() {\n\tmistake("a -> x=\'b\' x=\'c\';", 1, "multiple times")\n\tmistake("a -> x=\'b\' y=\'c\' x=\'d\';", 1, "multiple times")\n\tmistake("a -> x=\'b\' y=\'c\' z=\'d\';", 0, "multiple times")\n}\n'
