id='c12-clone-tail'
property='C12'
needs='a syntax tree with six or more children under one name, the last with a child of its own, converted back twice'
breaks='a copy of a syntax tree shares the sixth and later nodes under a name'
edits=[('ast/node.go', '\t\tresult = append(result, child.clone())\n', '\t\tif len(result) > 4 {\n\t\t\tresult = append(result, child)\n\t\t\tcontinue\n\t\t}\n\t\tresult = append(result, child.clone())\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/ast"\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc deep(v any) string { return fmt.Sprintf("%#v", v) }\n\nfunc raw(text string) parser.Grammar {\n\tnode, err := wbnf.Parse(parser.NewScanner(text))\n\tcheck(err == nil, "%v", err)\n\treturn wbnf.NewFromAst(node.Node)\n}\n\n// kept tells whether compiling the grammar leaves it as it was\nfunc kept(g parser.Grammar) {\n\tbefore := deep(g)\n\tg.Compile(nil)\n\tcheck(deep(g) == before, "%s became %s", before, deep(g))\n}\n\n// back converts the tree of a text to a syntax tree and back, which must leave that as it was\nfunc back(text, input string) {\n\tg, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\tv, err := g.Parse("a", parser.NewScanner(input))\n\tcheck(err == nil, "%v", err)\n\tb := ast.FromParserNode(g.Grammar(), v)\n\tbefore := b.String()\n\tfirst := ast.ToParserNode(g.Grammar(), b)\n\tcheck(b.String() == before, "%s became %s", before, b.String())\n\tsecond := ast.ToParserNode(g.Grammar(), b)\n\tcheck(fmt.Sprint(first) == fmt.Sprint(second), "%v then %v", first, second)\n}\n\nvar _, _, _ = raw, kept, back\n\nfunc main() {\n\tback("a -> b+ \'y\'; b -> \'x\' \'z\'?;", "xzxy")\n\tback("a -> b+ \'y\'; b -> \'x\' \'z\'?;", "xzxxzxxxzxzy")\n}\n'
