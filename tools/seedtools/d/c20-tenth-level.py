id='c20-tenth-level'
property='C20'
needs='a compiled grammar with a stack of more than ten precedence levels'
breaks='the precedence levels from the tenth on are written as rules of their own instead of as levels of the stack'
edits=[('cmd/codegen/grammar.go', '\t\t\tfor i := 1; ; i++ {\n', '\t\t\tfor i := 1; i < 10; i++ {\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"strings"\n\n\t"github.com/arr-ai/wbnf/cmd/codegen"\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\n// source is the Go source written for a grammar, without the space between its tokens\nfunc source(g parser.Grammar) string {\n\ttext := codegen.MakeGrammarString(g).String()\n\treturn strings.Join(strings.Fields(text), "")\n}\n\nfunc raw(text string) parser.Grammar {\n\tnode, err := wbnf.Parse(parser.NewScanner(text))\n\tcheck(err == nil, "%v", err)\n\treturn wbnf.NewFromAst(node.Node)\n}\n\nvar _ = raw\n\nfunc main() {\n\tlevels := []string{}\n\tfor _, c := range "abcdefghijkl" {\n\t\tlevels = append(levels, "@:\'"+string(c)+"\'")\n\t}\n\tg := raw("e -> " + strings.Join(levels, " > ") + " > \'x\';").Compile(nil).Grammar()\n\ttext := source(g)\n\tcheck(!strings.Contains(text, `"e@`), "a level is a rule of its own: %s", text)\n\tcheck(strings.Count(text, "Delim{") == 12, "%s", text)\n}\n'
