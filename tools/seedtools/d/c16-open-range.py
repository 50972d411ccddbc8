id='c16-open-range'
property='C16'
needs='a repetition with a lower bound and no upper bound ({m,})'
breaks='{m,} means exactly m instead of at least m'
edits=[('wbnf/compile.go', '\t\t\tmin = val\n\t\t}', '\t\t\tmin = val\n\t\t\tmax = val\n\t\t}')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc grammar(text string) parser.Grammar {\n\tp, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\treturn p.Grammar()\n}\n\nvar _ = grammar\n\nfunc main() {\n\tq := grammar("a -> b{2,}; b -> \'x\';")["a"].(parser.Quant)\n\tcheck(q.Min == 2 && q.Max == 0, "bounds %d,%d", q.Min, q.Max)\n\tq = grammar("a -> b{2,5}; b -> \'x\';")["a"].(parser.Quant)\n\tcheck(q.Min == 2 && q.Max == 5, "bounds %d,%d", q.Min, q.Max)\n}\n'
