import sys
sys.path.insert(0,'/tmp/seedtools/d')
PRE='''package main

import (
	"fmt"
	"os"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

func deep(v any) string { return fmt.Sprintf("%#v", v) }

func raw(text string) parser.Grammar {
	node, err := wbnf.Parse(parser.NewScanner(text))
	check(err == nil, "%v", err)
	return wbnf.NewFromAst(node.Node)
}

// kept tells whether compiling the grammar leaves it as it was
func kept(g parser.Grammar) {
	before := deep(g)
	g.Compile(nil)
	check(deep(g) == before, "%s became %s", before, deep(g))
}

// back converts the tree of a text to a syntax tree and back, which must leave that as it was
func back(text, input string) {
	g, err := wbnf.Compile(text, nil)
	check(err == nil, "%v", err)
	v, err := g.Parse("a", parser.NewScanner(input))
	check(err == nil, "%v", err)
	b := ast.FromParserNode(g.Grammar(), v)
	before := b.String()
	first := ast.ToParserNode(g.Grammar(), b)
	check(b.String() == before, "%s became %s", before, b.String())
	second := ast.ToParserNode(g.Grammar(), b)
	check(fmt.Sprint(first) == fmt.Sprint(second), "%v then %v", first, second)
}

var _, _, _ = raw, kept, back

'''
def d(id,prop,needs,breaks,edits,body):
    open(f'/tmp/seedtools/d/{id}.py','w').write(f"id={id!r}\nproperty={prop!r}\nneeds={needs!r}\nbreaks={breaks!r}\nedits={edits!r}\ndemo={(PRE+body)!r}\n")
P='parser/parser.go'
R='parser/resolve.go'
d('c12-resolve-reuse','C12','a grammar with precedence levels in which a level contains a sequence that refers to the next level','resolving a level writes into the sequence it was given',
 [(R,'''	result := make(Seq, 0, len(t))
''','''	result := t[:0]
''')],
'''func main() {
	kept(raw("a -> 'b' | 'c';"))
	kept(raw("a -> @:'+' > '(' @ ')';"))
}
''')
d('c12-compile-shared','C12','a grammar with precedence levels whose rule has exactly one level above another rule, compiled','the levels are resolved in the grammar given, not in a copy',
 [(P,'''		if _, ok := term.(Stack); ok {
			g = g.clone()
			g.resolveStacks()
			break
		}
	}

	c := cache{''','''		if s, ok := term.(Stack); ok {
			if len(s) > 2 {
				g = g.clone()
			}
			g.resolveStacks()
			break
		}
	}

	c := cache{''')],
'''func main() {
	kept(raw("a -> @:'+' > @:'*' > 'x';"))
	kept(raw("a -> @:'+' > 'x';"))
}
''')
d('c12-shallow-many','C12','a syntax tree with several children of one kind each under one name, converted back twice','a copy of a syntax tree shares the nodes under repeated names',
 [('ast/node.go','''		result = append(result, child.clone())
''','''		if b, ok := child.(Branch); ok && len(b) < 2 {
			result = append(result, child)
			continue
		}
		result = append(result, child.clone())
''')],
'''func main() {
	back("a -> b 'y'; b -> 'x' 'z';", "xzy")
	back("a -> b+ 'y'; b -> 'x' 'z'?;", "xzxy")
}
''')
