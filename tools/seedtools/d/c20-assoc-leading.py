id='c20-assoc-leading'
property='C20'
needs='a right associative list that may start with its separator'
breaks='the associativity of a list that may start with a separator is not written'
edits=[('cmd/codegen/grammar.go', '\t\tswitch t.Assoc {\n', '\t\tassoc := t.Assoc\n\t\tif t.CanStartWithSep {\n\t\t\tassoc = parser.NonAssociative\n\t\t}\n\t\tswitch assoc {\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"strings"\n\n\t"github.com/arr-ai/wbnf/cmd/codegen"\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\n// source is the Go source written for a grammar, without the space between its tokens\nfunc source(g parser.Grammar) string {\n\ttext := codegen.MakeGrammarString(g).String()\n\treturn strings.Join(strings.Fields(text), "")\n}\n\nfunc raw(text string) parser.Grammar {\n\tnode, err := wbnf.Parse(parser.NewScanner(text))\n\tcheck(err == nil, "%v", err)\n\treturn wbnf.NewFromAst(node.Node)\n}\n\nvar _ = raw\n\nfunc main() {\n\ttext := source(parser.Grammar{"a": parser.Delim{Term: parser.S("x"), Sep: parser.S(","), Assoc: parser.RightToLeft, CanStartWithSep: true}})\n\tcheck(strings.Contains(text, "RightToLeft"), "%s", text)\n\ttext = source(parser.Grammar{"a": parser.Delim{Term: parser.S("x"), Sep: parser.S(","), Assoc: parser.RightToLeft}})\n\tcheck(strings.Contains(text, "RightToLeft"), "%s", text)\n}\n'
