PRE='''package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/arr-ai/wbnf/wbnf"
)

// cycle tells whether a grammar is refused for a possible cycle
func cycle(text string) (r bool) {
	defer func() { _ = recover() }()
	_, err := wbnf.Compile(text, nil)
	return err != nil && strings.Contains(err.Error(), "Possible cycle")
}

func check(text string, want bool) {
	for i := 0; i < 50; i++ {
		if cycle(text) != want {
			fmt.Printf("%s: cycle reported: %v, want %v\\n", text, !want, want)
			os.Exit(1)
		}
	}
}

func watch() {
	go func() {
		time.Sleep(20 * time.Second)
		fmt.Println("no answer")
		os.Exit(1)
	}()
}

'''
def d(id,prop,needs,breaks,edits,body):
    open(f'/tmp/seedtools/d/{id}.py','w').write(f"id={id!r}\nproperty={prop!r}\nneeds={needs!r}\nbreaks={breaks!r}\nedits={edits!r}\ndemo={(PRE+'func main() { watch()'+chr(10)+body+chr(10)+'}'+chr(10))!r}\n")
C='wbnf/recursion.go'
d('c24-zero-min','C24','a rule that begins with a reference to itself suffixed {0,n}','a reference with a lower bound of nought is taken for one that must occur',
 [(C,'''(q.OneMin() != nil && q.OneMin().String() != "0")''','''q.OneMin() != nil''')],
 'check(`a -> b{0,3} "x"; b -> a{0,} "y";`, true); check(`a -> b{1,3} "x"; b -> a{2,} "y";`, false)')
d('c24-optional-leaks','C24','a group that begins with an optional token and goes on with one that must occur, before a reference back','a group that takes text is passed over since it begins with an optional token',
 [(C,'''result = result.Union(dangers.Without(""))''','''result = result.Union(dangers)''')],
 'check(`a -> ("-"? "x") a | "y";`, false); check(`a -> "-"? a | "y";`, true)')
d('c24-last-suffix','C24','a reference with two suffixes, only the first of which says that it must occur','only the last suffix of an item decides whether it must occur',
 [(C,'''		for _, q := range tree.AllQuant() {
			if''','''		if quants := tree.AllQuant(); len(quants) > 0 {
			q := quants[len(quants)-1]
			if''')],
 'check(`a -> a:","? "x" | "y";`, false); check(`a -> a*? "x" | "y";`, true)')
d('c24-nested-rules','C24','a rule with a nested grammar that has a rule of the same name as one of a ring of rules','rules of grammars nested in a rule replace those outside, whose cycle is missed',
 [(C,'''		dangers[node.OneIdent().String()] = td
		return NodeExiter
''','''		dangers[node.OneIdent().String()] = td
		return nil
''')],
 'check(`a -> b; b -> a; c -> "x" { a -> "y"; };`, true); check(`a -> b; b -> "z"; c -> "x" { b -> "y" a; };`, false)')
d('c24-lost-link','C24','a rule that leads to a rule met before it, which leads to a rule not met yet','in the graph a rule that leads only to rules met before loses the others',
 [(C,'''		if f, has := g.next[target]; has {
			node.next[target] = f
		} else {''','''		if f, has := g.next[target]; has {
			node.next[target] = f
			if len(f.next) > 1 {
				break
			}
		} else {''')],
 'check(`a -> b | c; b -> "x" | a | d; c -> a | "y"; d -> "z"; e -> a | f; f -> e | "u"; `, true); check(`a -> b | c; b -> c | d; c -> d | "x"; d -> "y"; e -> a | f; f -> b | e;`, true)')
