id='c20-exactly-one'
property='C20'
needs='a repetition of exactly one'
breaks='a repetition of exactly one is written as one of at least one'
edits=[('cmd/codegen/grammar.go', '\t\t} else if t.Min == 1 && t.Max == 0 {\n', '\t\t} else if t.Min == 1 && t.Max <= 1 {\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"strings"\n\n\t"github.com/arr-ai/wbnf/cmd/codegen"\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\n// source is the Go source written for a grammar, without the space between its tokens\nfunc source(g parser.Grammar) string {\n\ttext := codegen.MakeGrammarString(g).String()\n\treturn strings.Join(strings.Fields(text), "")\n}\n\nfunc raw(text string) parser.Grammar {\n\tnode, err := wbnf.Parse(parser.NewScanner(text))\n\tcheck(err == nil, "%v", err)\n\treturn wbnf.NewFromAst(node.Node)\n}\n\nvar _ = raw\n\nfunc main() {\n\tone := source(raw("a -> \'x\'{1,1};"))\n\tsome := source(raw("a -> \'x\'+;"))\n\tcheck(one != some, "%s", one)\n}\n'
