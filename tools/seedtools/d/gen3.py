import sys
sys.path.insert(0,'/tmp/seedtools')
PRE='''package main

import (
	"fmt"
	"os"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
)

func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

var src = parser.NewScanner("hello world")

func leaf(a, b int) ast.Leaf { return ast.Leaf(*src.Slice(a, b)) }

'''
def d(id,prop,needs,breaks,edits,body):
    open(f'/tmp/seedtools/d/{id}.py','w').write(f"id={id!r}\nproperty={prop!r}\nneeds={needs!r}\nbreaks={breaks!r}\nedits={edits!r}\ndemo={(PRE+body)!r}\n")
d('c19-prefix-equal','C19','two trees where a list of children in one is a proper prefix of that in the other','content equality accepts a tree with more children at the end of a list',
 [('ast/node.go','!ok || len(v) != len(otherNodes)','!ok || len(v) > len(otherNodes)')],
'''func main() {
	a := ast.Branch{"x": ast.Many{leaf(0, 1)}}
	b := ast.Branch{"x": ast.Many{leaf(0, 1), leaf(1, 2)}}
	check(!a.ContentEquals(b), "equal")
	check(!b.ContentEquals(a), "equal")
}
''')
d('c19-extent-names','C19','a child whose name contains an @ that is not its first character (a level of a rule, say)','the source extent of a node leaves such children out',
 [('ast/node_string.go','!strings.HasPrefix(childrenName, "@")','!strings.Contains(childrenName, "@")')],
'''func main() {
	b := ast.Branch{"x": ast.One{Node: leaf(0, 1)}, "expr@1": ast.One{Node: leaf(4, 6)}}
	s := b.Scanner()
	check(s.Offset() == 0 && s.String() == "hello ", "extent %q", s.String())
}
''')
d('c19-nested-offset','C19','two leaves with equal text, one of them empty and without source','content equality compares leaves without source as different from empty ones',
 [('ast/node.go','		return l.Scanner().String() == other.Scanner().String()','		return l.Scanner().IsNil() == other.Scanner().IsNil() && l.Scanner().String() == other.Scanner().String()')],
'''func main() {
	check(ast.Leaf(parser.Scanner{}).ContentEquals(leaf(3, 3)), "differ")
	check(leaf(3, 3).ContentEquals(leaf(4, 4)), "differ")
}
''')
