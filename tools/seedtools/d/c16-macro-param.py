id='c16-macro-param'
property='C16'
needs='a macro whose parameters differ only in case, or a rule that differs from a parameter only in case'
breaks='the wrong argument is put in place of a macro parameter'
edits=[('wbnf/compile.go', 'if arg.String() == string(t) {', 'if strings.EqualFold(arg.String(), string(t)) {')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc grammar(text string) parser.Grammar {\n\tp, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\treturn p.Grammar()\n}\n\nvar _ = grammar\n\nfunc main() {\n\tg := grammar(".macro M(p, P) { p \'+\' P } a -> %!M(b, c); b -> \'x\'; c -> \'y\';")\n\ts := g["a"].(parser.Seq)\n\tcheck(s[0] == parser.Rule("b") && s[2] == parser.Rule("c"), "%v", s)\n}\n'
