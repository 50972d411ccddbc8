PRE='''package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

type beside struct {
	dir   string
	extra []string
	asked int
}

func (b *beside) Resolve(from, to string) string {
	dir := b.dir
	if from != "" {
		dir = filepath.Dir(from)
	}
	p := filepath.Join(dir, to)
	if len(b.extra) > 0 {
		p = filepath.Dir(p) + b.extra[b.asked%len(b.extra)] + filepath.Base(p)
		b.asked++
	}
	return p
}

// compiled is the grammar of a text that imports some files (each a name and a text)
func compiled(b *beside, text string, files ...string) (parser.Grammar, error) {
	dir, err := os.MkdirTemp("", "imports")
	check(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	for i := 0; i < len(files); i += 2 {
		p := filepath.Join(dir, files[i])
		check(os.MkdirAll(filepath.Dir(p), 0o755) == nil, "mkdir")
		check(os.WriteFile(p, []byte(files[i+1]), 0o644) == nil, "write")
	}
	b.dir = dir
	g, err := wbnf.Compile(text, b)
	if err != nil {
		return nil, err
	}
	return g.Grammar(), nil
}

'''
def d(id,prop,needs,breaks,edits,body):
    open(f'/tmp/seedtools/d/{id}.py','w').write(f"id={id!r}\nproperty={prop!r}\nneeds={needs!r}\nbreaks={breaks!r}\nedits={edits!r}\ndemo={(PRE+body)!r}\n")
C='wbnf/compile.go'
d('c25-macro-lost','C25','a macro defined in an imported file and called in the importing text','only the rules of an imported file are merged, not its macros',
 [(C,'''	a["stmt"] = append(a["stmt"].(ast.Many), b.Many("stmt")...)
''','''	for _, stmt := range b.Many("stmt") {
		if stmt.One("prod") != nil {
			a["stmt"] = append(a["stmt"].(ast.Many), stmt)
		}
	}
''')],
'''func main() {
	g, err := compiled(&beside{}, ".import lib.wbnf\\nx -> %!List('a');", "lib.wbnf", ".macro List(t) { t:',' }\\ny -> 'y';")
	check(err == nil, "%v", err)
	check(len(g) == 2, "%v", g)
}
''')
d('c25-from-root','C25','a file in another directory that imports a file of its own directory','a file imported by an imported file is looked for from the root',
 [(C,'''				importPath = c.resolver.Resolve(filename, importPath)
''','''				importPath = c.resolver.Resolve("", importPath)
''')],
'''func main() {
	g, err := compiled(&beside{}, ".import sub/a.wbnf\\nx -> a;", "sub/a.wbnf", ".import b.wbnf\\na -> b;", "sub/b.wbnf", "b -> 'b';")
	check(err == nil, "%v", err)
	check(len(g) == 3, "%v", g)
}
''')
d('c25-spelling','C25','the same file imported twice, by two spellings of its path','a file imported by two spellings of its path is taken twice',
 [(C,'''	filename = filepath.Clean(filename)
''','')],
'''func main() {
	g, err := compiled(&beside{extra: []string{"/./", "/", "//"}}, ".import a.wbnf\\n.import b.wbnf\\nx -> a b c;", "a.wbnf", ".import c.wbnf\\na -> 'a';", "b.wbnf", ".import c.wbnf\\nb -> 'b';", "c.wbnf", "c -> 'c';")
	check(err == nil, "%v", err)
	check(len(g) == 4, "%v", g)
}
''')
d('c25-missing-nested','C25','an imported file that imports a file that is not there','a missing file is passed over when it is imported by an imported file',
 [(C,'''				err = nestedErr
				return &aborter{}
''','''				if filename != "" && os.IsNotExist(nestedErr) {
					return nil
				}
				err = nestedErr
				return &aborter{}
''')],
'''func main() {
	_, err := compiled(&beside{}, ".import a.wbnf\\nx -> a;", "a.wbnf", ".import gone.wbnf\\na -> 'a';")
	check(err != nil, "accepted")
}
''')
d('c25-other-file','C25','a text that imports two files of the same name from different directories','two imported files of one name in different directories count as one',
 [(C,'''	filename = filepath.Clean(filename)
	if _, has := c.imports[filename]; has {
''','''	filename = filepath.Clean(filename)
	for file := range c.imports {
		if filepath.Base(file) == filepath.Base(filename) && filepath.Ext(file) != "" {
			return GrammarNode{}, nil
		}
	}
	if _, has := c.imports[filename]; has {
''')],
'''func main() {
	g, err := compiled(&beside{}, ".import s/a.wbnf\\n.import t/a.wbnf\\nx -> a b;", "s/a.wbnf", "a -> 'a';", "t/a.wbnf", "b -> 'b';")
	check(err == nil, "%v", err)
	check(len(g) == 3, "%v", g)
}
''')
