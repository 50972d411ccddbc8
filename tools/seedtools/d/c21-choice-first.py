id='c21-choice-first'
property='C21'
needs='a choice one of whose earlier alternatives would also fit the tree node'
breaks='the choice number of a nested choice selects the wrong alternative when the alternatives are named'
edits=[('parser/unparse.go', '\treturn t[node.Extra.(Choice)].Unparse(g, node.Children[0], w)', '\ti := int(node.Extra.(Choice))\n\tif i > 0 {\n\t\tif _, is := t[i-1].(Named); is && sameName(t[i-1], t[i]) {\n\t\t\ti--\n\t\t}\n\t}\n\treturn t[i].Unparse(g, node.Children[0], w)'), ('parser/unparse.go', 'func (t Delim) Unparse(', 'func sameName(a, b Term) bool {\n\tx, ok := a.(Named)\n\ty, is := b.(Named)\n\treturn ok && is && x.Name == y.Name\n}\n\nfunc (t Delim) Unparse(')]
demo='package main\n\nimport (\n\t"errors"\n\t"fmt"\n\t"os"\n\t"strings"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\ntype writer struct {\n\tstrings.Builder\n\tleft int\n}\n\nvar full = errors.New("full")\n\nfunc (w *writer) Write(p []byte) (int, error) {\n\tif len(p) > w.left {\n\t\tn, _ := w.Builder.Write(p[:w.left])\n\t\tw.left = 0\n\t\treturn n, full\n\t}\n\tw.left -= len(p)\n\treturn w.Builder.Write(p)\n}\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc unparse(text, input string, limit int) (string, int, error) {\n\tg, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\tv, err := g.Parse("a", parser.NewScanner(input))\n\tcheck(err == nil, "%v", err)\n\tw := &writer{left: limit}\n\tn, err := g.Unparse(v, w)\n\treturn w.String(), n, err\n}\n\nfunc main() {\n\tout, n, err := unparse("a -> b=(\'x\' \'y\') | b=(\'y\' \'z\' \'w\');", "yzw", 99)\n\tcheck(err == nil && out == "yzw" && n == 3, "%q %d %v", out, n, err)\n}\n'
