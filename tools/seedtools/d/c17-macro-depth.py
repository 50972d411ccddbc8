id='c17-macro-depth'
property='C17'
needs='a call of an unknown macro, or with the wrong arguments, inside the arguments of another call'
breaks='calls inside the arguments of a macro call are not checked'
edits=[('wbnf/validation.go', '\t\t\t\t\tnode.OneName().String(), len(macro.AllArgs()), len(node.AllTerm())), kind: IncorrectMacroArgCount})\n\t\t}\n\t}\n\treturn nil', '\t\t\t\t\tnode.OneName().String(), len(macro.AllArgs()), len(node.AllTerm())), kind: IncorrectMacroArgCount})\n\t\t}\n\t}\n\treturn NodeExiter')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"strings"\n\n\t"github.com/arr-ai/wbnf/ast"\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\n// mistake tells whether compiling reports these texts, in this number\nfunc mistake(text string, n int, what string) {\n\t_, err := wbnf.Compile(text, nil)\n\tgot := ""\n\tif err != nil {\n\t\tgot = err.Error()\n\t}\n\tcheck(strings.Count(got, what) == n, "%s: %q", text, got)\n}\n\nfunc leaves(n ast.Node, out map[string]int) {\n\tswitch n := n.(type) {\n\tcase ast.Leaf:\n\t\ts := parser.Scanner(n)\n\t\tout[fmt.Sprintf("%s@%d", s.String(), s.Offset())]++\n\tcase ast.Branch:\n\t\tfor _, c := range n {\n\t\t\tswitch c := c.(type) {\n\t\t\tcase ast.One:\n\t\t\t\tleaves(c.Node, out)\n\t\t\tcase ast.Many:\n\t\t\t\tfor _, m := range c {\n\t\t\t\t\tleaves(m, out)\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n}\n\n// same tells whether each byte of the text is in exactly one leaf of the syntax tree\nfunc same(grammar, input string) {\n\tg, err := wbnf.Compile(grammar, nil)\n\tcheck(err == nil, "%v", err)\n\tv, err := g.Parse("a", parser.NewScanner(input))\n\tcheck(err == nil, "%v", err)\n\tout := map[string]int{}\n\tleaves(ast.FromParserNode(g.Grammar(), v), out)\n\tfor i := range input {\n\t\tk := fmt.Sprintf("%s@%d", input[i:i+1], i)\n\t\tcheck(out[k] == 1, "%s on %q: %d times %s in %v", grammar, input, out[k], k, out)\n\t}\n\tcheck(len(out) == len(input), "%s on %q: %v", grammar, input, out)\n}\n\nfunc main() {\n\tmistake(".macro M(t, u) { t u } a -> %!M(\'x\');", 1, "expected 2 args, given 1")\n\tmistake(".macro M(t) { t } a -> %!M(%!N(\'x\'));", 1, "is not a macro")\n\tmistake(".macro M(t) { t } a -> %!M(b);", 1, "not a defined rule")\n}\n'
