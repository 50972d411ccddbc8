id='c15-raw-backquotes'
property='C15'
needs='a backquoted literal with two or more doubled backquotes'
breaks='only the first doubled backquote of a backquoted literal denotes one backquote'
edits=[('wbnf/compile.go', '\t\treturn strings.ReplaceAll(s, "``", "`")', '\t\treturn strings.Replace(s, "``", "`", 1)')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc grammar(text string) parser.Grammar {\n\tp, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\treturn p.Grammar()\n}\n\nvar _ = grammar\n\nfunc main() {\n\tp, err := wbnf.Compile("a -> `x``y``z`;", nil)\n\tcheck(err == nil, "%v", err)\n\t_, err = p.Parse("a", parser.NewScanner("x`y`z"))\n\tcheck(err == nil, "%v", err)\n}\n'
