id='c21-seq-rest'
property='C21'
needs='a write that fails in a sequence inside another sequence'
breaks='the outer sequence writes its other terms after the writer failed'
edits=[('parser/unparse.go', '\tnode := e.(Node)\n\tfor i, term := range t {\n\t\tif err = unparse(g, term, node.Children[i], w, &n); err != nil {\n\t\t\treturn\n\t\t}\n\t}\n\treturn n, nil', '\tnode := e.(Node)\n\tfor i, term := range t {\n\t\tif e := unparse(g, term, node.Children[i], w, &n); e != nil {\n\t\t\terr = e\n\t\t\tif _, leaf := term.(Seq); !leaf {\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n\t}\n\treturn')]
demo='package main\n\nimport (\n\t"errors"\n\t"fmt"\n\t"os"\n\t"strings"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\ntype writer struct {\n\tstrings.Builder\n\tleft int\n}\n\nvar full = errors.New("full")\n\nfunc (w *writer) Write(p []byte) (int, error) {\n\tif len(p) > w.left {\n\t\tn, _ := w.Builder.Write(p[:w.left])\n\t\tw.left = 0\n\t\treturn n, full\n\t}\n\tw.left -= len(p)\n\treturn w.Builder.Write(p)\n}\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc unparse(text, input string, limit int) (string, int, error) {\n\tg, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\tv, err := g.Parse("a", parser.NewScanner(input))\n\tcheck(err == nil, "%v", err)\n\tw := &writer{left: limit}\n\tn, err := g.Unparse(v, w)\n\treturn w.String(), n, err\n}\n\nfunc main() {\n\ttext := "a -> (\'b\' (\'cc\' \'d\') \'e\');"\n\tout, n, err := unparse(text, "bccde", 2)\n\tcheck(err == full && out == "bc" && n == 2, "%q %d %v", out, n, err)\n\tw := &picky{}\n\tg, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\tv, err := g.Parse("a", parser.NewScanner("bccde"))\n\tcheck(err == nil, "%v", err)\n\t_, err = g.Unparse(v, w)\n\tcheck(err == full && w.String() == "b", "%q %v", w.String(), err)\n}\n\ntype picky struct{ strings.Builder }\n\nfunc (w *picky) Write(p []byte) (int, error) {\n\tif string(p) == "cc" {\n\t\treturn 0, full\n\t}\n\treturn w.Builder.Write(p)\n}\n'
