id='c25-from-root'
property='C25'
needs='a file in another directory that imports a file of its own directory'
breaks='a file imported by an imported file is looked for from the root'
edits=[('wbnf/compile.go', '\t\t\t\timportPath = c.resolver.Resolve(filename, importPath)\n', '\t\t\t\timportPath = c.resolver.Resolve("", importPath)\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"path/filepath"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\ntype beside struct {\n\tdir   string\n\textra []string\n\tasked int\n}\n\nfunc (b *beside) Resolve(from, to string) string {\n\tdir := b.dir\n\tif from != "" {\n\t\tdir = filepath.Dir(from)\n\t}\n\tp := filepath.Join(dir, to)\n\tif len(b.extra) > 0 {\n\t\tp = filepath.Dir(p) + b.extra[b.asked%len(b.extra)] + filepath.Base(p)\n\t\tb.asked++\n\t}\n\treturn p\n}\n\n// compiled is the grammar of a text that imports some files (each a name and a text)\nfunc compiled(b *beside, text string, files ...string) (parser.Grammar, error) {\n\tdir, err := os.MkdirTemp("", "imports")\n\tcheck(err == nil, "%v", err)\n\tdefer os.RemoveAll(dir)\n\tfor i := 0; i < len(files); i += 2 {\n\t\tp := filepath.Join(dir, files[i])\n\t\tcheck(os.MkdirAll(filepath.Dir(p), 0o755) == nil, "mkdir")\n\t\tcheck(os.WriteFile(p, []byte(files[i+1]), 0o644) == nil, "write")\n\t}\n\tb.dir = dir\n\tg, err := wbnf.Compile(text, b)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn g.Grammar(), nil\n}\n\nfunc main() {\n\tg, err := compiled(&beside{}, ".import sub/a.wbnf\\nx -> a;", "sub/a.wbnf", ".import b.wbnf\\na -> b;", "sub/b.wbnf", "b -> \'b\';")\n\tcheck(err == nil, "%v", err)\n\tcheck(len(g) == 3, "%v", g)\n}\n'
