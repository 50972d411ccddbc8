id='c21-shared-count'
property='C21'
needs='a write error inside a sequence nested in a repetition'
breaks='the bytes of a term that failed half way are not counted'
edits=[('parser/unparse.go', '\tn, err := term.Unparse(g, e, w)\n\t*N += n\n\treturn err', '\tn, err := term.Unparse(g, e, w)\n\tif err != nil {\n\t\treturn err\n\t}\n\t*N += n\n\treturn nil')]
demo='package main\n\nimport (\n\t"errors"\n\t"fmt"\n\t"os"\n\t"strings"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\ntype writer struct {\n\tstrings.Builder\n\tleft int\n}\n\nvar full = errors.New("full")\n\nfunc (w *writer) Write(p []byte) (int, error) {\n\tif len(p) > w.left {\n\t\tn, _ := w.Builder.Write(p[:w.left])\n\t\tw.left = 0\n\t\treturn n, full\n\t}\n\tw.left -= len(p)\n\treturn w.Builder.Write(p)\n}\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc unparse(text, input string, limit int) (string, int, error) {\n\tg, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\tv, err := g.Parse("a", parser.NewScanner(input))\n\tcheck(err == nil, "%v", err)\n\tw := &writer{left: limit}\n\tn, err := g.Unparse(v, w)\n\treturn w.String(), n, err\n}\n\nfunc main() {\n\tout, n, err := unparse("a -> (\'b\' \'c\')*;", "bcbc", 3)\n\tcheck(err == full && out == "bcb" && n == len(out), "%q %d %v", out, n, err)\n\t_, n, err = unparse("a -> (\'bcd\' \'e\')*;", "bcdebcde", 6)\n\tcheck(err == full && n == 6, "%d %v", n, err)\n}\n'
