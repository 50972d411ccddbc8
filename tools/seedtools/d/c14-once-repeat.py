id='c14-once-repeat'
property='C14'
needs='a repetition with the bounds {1,1}'
breaks='a repetition of exactly one is dropped when commit points are inserted, changing the tree'
edits=[('wbnf/cutpoints.go', '\tcase parser.Quant:\n\t\tt.Term = fixTerm(t.Term, callback)\n\t\treturn callback(t)', '\tcase parser.Quant:\n\t\tt.Term = fixTerm(t.Term, callback)\n\t\tif t.Min == 1 && t.Max == 1 {\n\t\t\treturn t.Term\n\t\t}\n\t\treturn callback(t)')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc grammar(text string) parser.Grammar {\n\tp, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\treturn p.Grammar()\n}\n\nvar _ = grammar\n\nfunc main() {\n\tg := grammar("a -> /{[xy]}{1,1} \'z\';")\n\tq := g["a"].(parser.Seq)[0]\n\t_, ok := q.(parser.Quant)\n\tcheck(ok, "want a repetition, got %v", q)\n}\n'
