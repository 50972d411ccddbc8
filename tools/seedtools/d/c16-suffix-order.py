id='c16-suffix-order'
property='C16'
needs='a term with three suffixes'
breaks='of three or more suffixes the middle ones are applied in the wrong order'
edits=[('wbnf/compile.go', '\t\tnext = gb.buildQuant(quants[len(quants)-1-i], next)', '\t\tnext = gb.buildQuant(quants[(len(quants)-1+i)%len(quants)], next)')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc grammar(text string) parser.Grammar {\n\tp, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\treturn p.Grammar()\n}\n\nvar _ = grammar\n\nfunc main() {\n\tg := grammar(`a -> b* ? + *; b -> "x";`)\n\tvar bounds string\n\tfor t := g["a"]; ; {\n\t\tq, ok := t.(parser.Quant)\n\t\tif !ok {\n\t\t\tbreak\n\t\t}\n\t\tbounds += fmt.Sprintf("%d,%d ", q.Min, q.Max)\n\t\tt = q.Term\n\t}\n\tcheck(bounds == "0,0 0,1 1,0 0,0 ", "%s", bounds)\n}\n'
