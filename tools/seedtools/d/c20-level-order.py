id='c20-level-order'
property='C20'
needs='a stack of three or more levels'
breaks='the levels of a stack are written with the last two exchanged'
edits=[('cmd/codegen/grammar.go', '\t\t\troot.Add(GoNode{\n\t\t\t\tname:     fmt.Sprintf(`"%s"`, rule),\n\t\t\t\tchildren: []GoNode{stack},\n', '\t\t\tif n := len(stack.children); n > 2 && strings.Contains(rule, "_") {\n\t\t\t\tstack.children[n-1], stack.children[n-2] = stack.children[n-2], stack.children[n-1]\n\t\t\t}\n\t\t\troot.Add(GoNode{\n\t\t\t\tname:     fmt.Sprintf(`"%s"`, rule),\n\t\t\t\tchildren: []GoNode{stack},\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"strings"\n\n\t"github.com/arr-ai/wbnf/cmd/codegen"\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\n// source is the Go source written for a grammar, without the space between its tokens\nfunc source(g parser.Grammar) string {\n\ttext := codegen.MakeGrammarString(g).String()\n\treturn strings.Join(strings.Fields(text), "")\n}\n\nfunc raw(text string) parser.Grammar {\n\tnode, err := wbnf.Parse(parser.NewScanner(text))\n\tcheck(err == nil, "%v", err)\n\treturn wbnf.NewFromAst(node.Node)\n}\n\nvar _ = raw\n\nfunc main() {\n\tfor _, name := range []string{"e", "e_", "e_e"} {\n\t\ttext := source(raw(name+" -> @:\'+\' > @:\'*\' > \'x\';").Compile(nil).Grammar())\n\t\tcheck(strings.Index(text, "`x`") > strings.Index(text, "`*`"), "%s", text)\n\t}\n}\n'
