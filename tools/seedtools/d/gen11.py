import sys
PRE='''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/arr-ai/wbnf/cmd/codegen"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

// source is the Go source written for a grammar, without the space between its tokens
func source(g parser.Grammar) string {
	text := codegen.MakeGrammarString(g).String()
	return strings.Join(strings.Fields(text), "")
}

func raw(text string) parser.Grammar {
	node, err := wbnf.Parse(parser.NewScanner(text))
	check(err == nil, "%v", err)
	return wbnf.NewFromAst(node.Node)
}

var _ = raw

'''
def d(id,prop,needs,breaks,edits,body):
    open(f'/tmp/seedtools/d/{id}.py','w').write(f"id={id!r}\nproperty={prop!r}\nneeds={needs!r}\nbreaks={breaks!r}\nedits={edits!r}\ndemo={(PRE+body)!r}\n")
C='cmd/codegen/grammar.go'
d('c20-tenth-level','C20','a compiled grammar with a stack of more than ten precedence levels','the precedence levels from the tenth on are written as rules of their own instead of as levels of the stack',
 [(C,'''			for i := 1; ; i++ {
''','''			for i := 1; i < 10; i++ {
''')],
'''func main() {
	levels := []string{}
	for _, c := range "abcdefghijkl" {
		levels = append(levels, "@:'"+string(c)+"'")
	}
	g := raw("e -> " + strings.Join(levels, " > ") + " > 'x';").Compile(nil).Grammar()
	text := source(g)
	check(!strings.Contains(text, `"e@`), "a level is a rule of its own: %s", text)
	check(strings.Count(text, "Delim{") == 12, "%s", text)
}
''')
d('c20-assoc-leading','C20','a right associative list that may start with its separator','the associativity of a list that may start with a separator is not written',
 [(C,'''		switch t.Assoc {
''','''		assoc := t.Assoc
		if t.CanStartWithSep {
			assoc = parser.NonAssociative
		}
		switch assoc {
''')],
'''func main() {
	text := source(parser.Grammar{"a": parser.Delim{Term: parser.S("x"), Sep: parser.S(","), Assoc: parser.RightToLeft, CanStartWithSep: true}})
	check(strings.Contains(text, "RightToLeft"), "%s", text)
	text = source(parser.Grammar{"a": parser.Delim{Term: parser.S("x"), Sep: parser.S(","), Assoc: parser.RightToLeft}})
	check(strings.Contains(text, "RightToLeft"), "%s", text)
}
''')
d('c20-exactly-one','C20','a repetition of exactly one','a repetition of exactly one is written as one of at least one',
 [(C,'''		} else if t.Min == 1 && t.Max == 0 {
''','''		} else if t.Min == 1 && t.Max <= 1 {
''')],
'''func main() {
	one := source(raw("a -> 'x'{1,1};"))
	some := source(raw("a -> 'x'+;"))
	check(one != some, "%s", one)
}
''')
d('c20-empty-default','C20','a back reference with a default that is the empty text','a default that is the empty text is not written',
 [(C,'''		if t.Default != nil {
''','''		if t.Default != nil && t.Default != parser.S("") {
''')],
'''func main() {
	text := source(raw("a -> x='1'? %x='' 'y';"))
	check(strings.Contains(text, "Default"), "%s", text)
	text = source(raw("a -> x='1'? %x='z' 'y';"))
	check(strings.Contains(text, "Default"), "%s", text)
}
''')
d('c20-level-order','C20','a stack of three or more levels','the levels of a stack are written with the last two exchanged',
 [(C,'''			root.Add(GoNode{
				name:     fmt.Sprintf(`"%s"`, rule),
				children: []GoNode{stack},
''','''			if n := len(stack.children); n > 2 && strings.Contains(rule, "_") {
				stack.children[n-1], stack.children[n-2] = stack.children[n-2], stack.children[n-1]
			}
			root.Add(GoNode{
				name:     fmt.Sprintf(`"%s"`, rule),
				children: []GoNode{stack},
''')],
'''func main() {
	for _, name := range []string{"e", "e_", "e_e"} {
		text := source(raw(name+" -> @:'+' > @:'*' > 'x';").Compile(nil).Grammar())
		check(strings.Index(text, "`x`") > strings.Index(text, "`*`"), "%s", text)
	}
}
''')
