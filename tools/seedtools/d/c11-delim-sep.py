id='c11-delim-sep'
property='C11'
needs='a precedence level whose list separator refers to the next level'
breaks='self references in list separators are not redirected'
edits=[('parser/resolve.go', '\tt.Sep = t.Sep.Resolve(oldRule, newRule)\n', '\tif _, ok := t.Sep.(Seq); !ok {\n\t\tt.Sep = t.Sep.Resolve(oldRule, newRule)\n\t}\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc parse(g parser.Grammar, in string) (parser.TreeElement, error) {\n\treturn g.Compile(nil).Parse("a", parser.NewScanner(in))\n}\n\nvar _ = parse\n\nfunc main() {\n\td := parser.Delim{Term: parser.S("x"), Sep: parser.Seq{parser.Rule("@"), parser.S(",")}}\n\tr := d.Resolve("@", "b").(parser.Delim)\n\tcheck(r.Sep.(parser.Seq)[0] == parser.Rule("b"), "%v", r)\n}\n'
