id='c16-lead-and-trail'
property='C16'
needs='a list that permits both a leading and a trailing separator'
breaks='with a leading comma written the trailing one is ignored'
edits=[('wbnf/compile.go', '\t\t\tdelim.CanStartWithSep = true\n\t\t}\n\t\tif q.OneOptTrailing() != "" {', '\t\t\tdelim.CanStartWithSep = true\n\t\t} else if q.OneOptTrailing() != "" {')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc grammar(text string) parser.Grammar {\n\tp, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\treturn p.Grammar()\n}\n\nvar _ = grammar\n\nfunc main() {\n\td := grammar("a -> b:,(\';\'|\'!\'),; b -> \'x\';")["a"].(parser.Delim)\n\tcheck(d.CanStartWithSep && d.CanEndWithSep, "leading %v trailing %v", d.CanStartWithSep, d.CanEndWithSep)\n\td = grammar("a -> b:(\';\'|\'!\'),; b -> \'x\';")["a"].(parser.Delim)\n\tcheck(!d.CanStartWithSep && d.CanEndWithSep, "leading %v trailing %v", d.CanStartWithSep, d.CanEndWithSep)\n}\n'
