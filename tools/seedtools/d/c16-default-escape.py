id='c16-default-escape'
property='C16'
needs='a back reference whose default is written with an escape'
breaks='the default of a back reference keeps the escape as written'
edits=[('wbnf/compile.go', 'ref.Default = parser.S(parseString(defTerm))', 'ref.Default = parser.S(defTerm[1 : len(defTerm)-1])')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc grammar(text string) parser.Grammar {\n\tp, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\treturn p.Grammar()\n}\n\nvar _ = grammar\n\nfunc main() {\n\tq := grammar(`a -> %b="\\t" b=c; c -> /{x};`)["a"].(parser.Seq)[0].(parser.REF)\n\tcheck(q.Default == parser.S("\\t"), "%q", q.Default)\n}\n'
