import sys
sys.path.insert(0,'/tmp/seedtools/d')
PRE='''package main

import (
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

type writer struct {
	strings.Builder
	left int
}

var full = errors.New("full")

func (w *writer) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n, _ := w.Builder.Write(p[:w.left])
		w.left = 0
		return n, full
	}
	w.left -= len(p)
	return w.Builder.Write(p)
}

func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

func unparse(text, input string, limit int) (string, int, error) {
	g, err := wbnf.Compile(text, nil)
	check(err == nil, "%v", err)
	v, err := g.Parse("a", parser.NewScanner(input))
	check(err == nil, "%v", err)
	w := &writer{left: limit}
	n, err := g.Unparse(v, w)
	return w.String(), n, err
}

'''
def d(id,prop,needs,breaks,edits,body):
    open(f'/tmp/seedtools/d/{id}.py','w').write(f"id={id!r}\nproperty={prop!r}\nneeds={needs!r}\nbreaks={breaks!r}\nedits={edits!r}\ndemo={(PRE+body)!r}\n")
F='parser/unparse.go'
d('c21-shared-count','C21','a write error inside a sequence nested in a repetition','the bytes of a term that failed half way are not counted',
 [(F,'''	n, err := term.Unparse(g, e, w)
	*N += n
	return err''','''	n, err := term.Unparse(g, e, w)
	if err != nil {
		return err
	}
	*N += n
	return nil''')],
'''func main() {
	out, n, err := unparse("a -> ('b' 'c')*;", "bcbc", 3)
	check(err == full && out == "bcb" && n == len(out), "%q %d %v", out, n, err)
	_, n, err = unparse("a -> ('bcd' 'e')*;", "bcdebcde", 6)
	check(err == full && n == 6, "%d %v", n, err)
}
''')
d('c21-quant-name','C21','a repetition whose items are empty more than once followed by text','an item that writes nothing ends the repetition',
 [(F,'''func (t Quant) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
	for _, child := range e.(Node).Children {
		if err = unparse(g, t.Term, child, w, &n); err != nil {
			return
		}
	}
	return
}''','''func (t Quant) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
	for _, child := range e.(Node).Children {
		before := n
		if err = unparse(g, t.Term, child, w, &n); err != nil || n == before {
			return
		}
	}
	return
}''')],
'''func main() {
	out, n, err := unparse("a -> ('b'? 'c'?){3};", "c", 99)
	check(err == nil && out == "c" && n == 1, "%q %d %v", out, n, err)
	out, n, err = unparse("a -> (\\"x\\" | [y]*){2} 'z';", "z", 99)
	check(err == nil && out == "z" && n == 1, "%q %d %v", out, n, err)
	out, n, err = unparse("a -> ((?=[by]) 'b'? 'y' | (?!'w') 'c'?){0,4};", "y", 99)
	check(err == nil && out == "y", "%q %d %v", out, n, err)
	out, n, err = unparse("a -> ([b]* | 'c'){2,3} ([d]*){2};", "bd", 99)
	check(err == nil && out == "bd", "%q %d %v", out, n, err)
	out, n, err = unparse("a -> (b){2}; b -> [x]* | 'y';", "xx", 99)
	check(err == nil && out == "xx", "%q %d %v", out, n, err)
	out, n, err = unparse("a -> ((?='b') | 'b'){2};", "b", 99)
	check(err == nil && out == "bb" || out == "b", "%q %d %v", out, n, err)
	out, n, err = unparse("a -> (('c' &('d'))? 'd'?){2};", "d", 99)
	_ = n
	check(err == nil && out == "d", "%q %d %v", out, n, err)
}
''')
d('c21-choice-first','C21','a choice one of whose earlier alternatives would also fit the tree node','the choice number of a nested choice selects the wrong alternative when the alternatives are named',
 [(F,'''	return t[node.Extra.(Choice)].Unparse(g, node.Children[0], w)''','''	i := int(node.Extra.(Choice))
	if i > 0 {
		if _, is := t[i-1].(Named); is && sameName(t[i-1], t[i]) {
			i--
		}
	}
	return t[i].Unparse(g, node.Children[0], w)'''),
  (F,'''func (t Delim) Unparse(''','''func sameName(a, b Term) bool {
	x, ok := a.(Named)
	y, is := b.(Named)
	return ok && is && x.Name == y.Name
}

func (t Delim) Unparse(''')],
'''func main() {
	out, n, err := unparse("a -> b=('x' 'y') | b=('y' 'z' 'w');", "yzw", 99)
	check(err == nil && out == "yzw" && n == 3, "%q %d %v", out, n, err)
}
''')
d('c21-seq-rest','C21','a write that fails in a sequence inside another sequence','the outer sequence writes its other terms after the writer failed',
 [(F,'''	node := e.(Node)
	for i, term := range t {
		if err = unparse(g, term, node.Children[i], w, &n); err != nil {
			return
		}
	}
	return n, nil''','''	node := e.(Node)
	for i, term := range t {
		if e := unparse(g, term, node.Children[i], w, &n); e != nil {
			err = e
			if _, leaf := term.(Seq); !leaf {
				return
			}
		}
	}
	return''')],
'''func main() {
	text := "a -> ('b' ('cc' 'd') 'e');"
	out, n, err := unparse(text, "bccde", 2)
	check(err == full && out == "bc" && n == 2, "%q %d %v", out, n, err)
	w := &picky{}
	g, err := wbnf.Compile(text, nil)
	check(err == nil, "%v", err)
	v, err := g.Parse("a", parser.NewScanner("bccde"))
	check(err == nil, "%v", err)
	_, err = g.Unparse(v, w)
	check(err == full && w.String() == "b", "%q %v", w.String(), err)
}

type picky struct{ strings.Builder }

func (w *picky) Write(p []byte) (int, error) {
	if string(p) == "cc" {
		return 0, full
	}
	return w.Builder.Write(p)
}
''')
