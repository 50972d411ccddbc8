id='c25-missing-nested'
property='C25'
needs='an imported file that imports a file that is not there'
breaks='a missing file is passed over when it is imported by an imported file'
edits=[('wbnf/compile.go', '\t\t\t\terr = nestedErr\n\t\t\t\treturn &aborter{}\n', '\t\t\t\tif filename != "" && os.IsNotExist(nestedErr) {\n\t\t\t\t\treturn nil\n\t\t\t\t}\n\t\t\t\terr = nestedErr\n\t\t\t\treturn &aborter{}\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"path/filepath"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\ntype beside struct {\n\tdir   string\n\textra []string\n\tasked int\n}\n\nfunc (b *beside) Resolve(from, to string) string {\n\tdir := b.dir\n\tif from != "" {\n\t\tdir = filepath.Dir(from)\n\t}\n\tp := filepath.Join(dir, to)\n\tif len(b.extra) > 0 {\n\t\tp = filepath.Dir(p) + b.extra[b.asked%len(b.extra)] + filepath.Base(p)\n\t\tb.asked++\n\t}\n\treturn p\n}\n\n// compiled is the grammar of a text that imports some files (each a name and a text)\nfunc compiled(b *beside, text string, files ...string) (parser.Grammar, error) {\n\tdir, err := os.MkdirTemp("", "imports")\n\tcheck(err == nil, "%v", err)\n\tdefer os.RemoveAll(dir)\n\tfor i := 0; i < len(files); i += 2 {\n\t\tp := filepath.Join(dir, files[i])\n\t\tcheck(os.MkdirAll(filepath.Dir(p), 0o755) == nil, "mkdir")\n\t\tcheck(os.WriteFile(p, []byte(files[i+1]), 0o644) == nil, "write")\n\t}\n\tb.dir = dir\n\tg, err := wbnf.Compile(text, b)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn g.Grammar(), nil\n}\n\nfunc main() {\n\t_, err := compiled(&beside{}, ".import a.wbnf\\nx -> a;", "a.wbnf", ".import gone.wbnf\\na -> \'a\';")\n\tcheck(err != nil, "accepted")\n}\n'
