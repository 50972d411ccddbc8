id='c17-open-lower'
property='C17'
needs='repetition bounds out of order whose maximum is one less than the minimum, both at least 1'
breaks='bounds that are off by one are accepted'
edits=[('wbnf/validation.go', '\t\t\tif max < min {', '\t\t\tif max+1 < min {')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"strings"\n\n\t"github.com/arr-ai/wbnf/ast"\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\n// mistake tells whether compiling reports these texts, in this number\nfunc mistake(text string, n int, what string) {\n\t_, err := wbnf.Compile(text, nil)\n\tgot := ""\n\tif err != nil {\n\t\tgot = err.Error()\n\t}\n\tcheck(strings.Count(got, what) == n, "%s: %q", text, got)\n}\n\nfunc leaves(n ast.Node, out map[string]int) {\n\tswitch n := n.(type) {\n\tcase ast.Leaf:\n\t\ts := parser.Scanner(n)\n\t\tout[fmt.Sprintf("%s@%d", s.String(), s.Offset())]++\n\tcase ast.Branch:\n\t\tfor _, c := range n {\n\t\t\tswitch c := c.(type) {\n\t\t\tcase ast.One:\n\t\t\t\tleaves(c.Node, out)\n\t\t\tcase ast.Many:\n\t\t\t\tfor _, m := range c {\n\t\t\t\t\tleaves(m, out)\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n}\n\n// same tells whether each byte of the text is in exactly one leaf of the syntax tree\nfunc same(grammar, input string) {\n\tg, err := wbnf.Compile(grammar, nil)\n\tcheck(err == nil, "%v", err)\n\tv, err := g.Parse("a", parser.NewScanner(input))\n\tcheck(err == nil, "%v", err)\n\tout := map[string]int{}\n\tleaves(ast.FromParserNode(g.Grammar(), v), out)\n\tfor i := range input {\n\t\tk := fmt.Sprintf("%s@%d", input[i:i+1], i)\n\t\tcheck(out[k] == 1, "%s on %q: %d times %s in %v", grammar, input, out[k], k, out)\n\t}\n\tcheck(len(out) == len(input), "%s on %q: %v", grammar, input, out)\n}\n\nfunc main() {\n\tmistake("a -> \'b\'{5,2};", 1, "min (5) > max (2)")\n\tmistake("a -> \'b\'{3,2};", 1, "min (3) > max (2)")\n\tmistake("a -> \'b\'{2,2};", 0, "max")\n}\n'
