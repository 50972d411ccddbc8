id='c14-level-literals'
property='C14'
needs='the same literal in two precedence levels of one rule and nowhere else'
breaks='a literal used once in each of two levels is wrapped as a commit point'
edits=[('wbnf/cutpoints.go', '\t\tcase parser.Stack:\n\t\t\tfor _, t := range t {\n\t\t\t\tout = out.Merge(forTerm(t), mergeFn)', '\t\tcase parser.Stack:\n\t\t\tfor _, t := range t {\n\t\t\t\tout = out.Update(forTerm(t))')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc grammar(text string) parser.Grammar {\n\tp, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\treturn p.Grammar()\n}\n\nvar _ = grammar\n\nfunc main() {\n\tnode, err := wbnf.Parse(parser.NewScanner("e -> \'q\' @ | \'z\' > \'q\' \'y\' | \'x\';"))\n\tcheck(err == nil, "%v", err)\n\tfor _, level := range wbnf.NewFromAst(node.Node)["e"].(parser.Stack) {\n\t\tcheck(!hasCut(level, "q"), "level %v", level)\n\t}\n}\n\nfunc hasCut(t parser.Term, s string) bool {\n\tswitch t := t.(type) {\n\tcase parser.CutPoint:\n\t\treturn t.Term == parser.S(s)\n\tcase parser.Seq:\n\t\tfor _, t := range t {\n\t\t\tif hasCut(t, s) {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\tcase parser.Oneof:\n\t\tfor _, t := range t {\n\t\t\tif hasCut(t, s) {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t}\n\treturn false\n}\n'
