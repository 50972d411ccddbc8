id='c20-empty-default'
property='C20'
needs='a back reference with a default that is the empty text'
breaks='a default that is the empty text is not written'
edits=[('cmd/codegen/grammar.go', '\t\tif t.Default != nil {\n', '\t\tif t.Default != nil && t.Default != parser.S("") {\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"strings"\n\n\t"github.com/arr-ai/wbnf/cmd/codegen"\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\n// source is the Go source written for a grammar, without the space between its tokens\nfunc source(g parser.Grammar) string {\n\ttext := codegen.MakeGrammarString(g).String()\n\treturn strings.Join(strings.Fields(text), "")\n}\n\nfunc raw(text string) parser.Grammar {\n\tnode, err := wbnf.Parse(parser.NewScanner(text))\n\tcheck(err == nil, "%v", err)\n\treturn wbnf.NewFromAst(node.Node)\n}\n\nvar _ = raw\n\nfunc main() {\n\ttext := source(raw("a -> x=\'1\'? %x=\'\' \'y\';"))\n\tcheck(strings.Contains(text, "Default"), "%s", text)\n\ttext = source(raw("a -> x=\'1\'? %x=\'z\' \'y\';"))\n\tcheck(strings.Contains(text, "Default"), "%s", text)\n}\n'
