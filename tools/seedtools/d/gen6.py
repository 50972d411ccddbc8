PRE='''package main

import (
	"fmt"
	"os"

	"github.com/arr-ai/wbnf/gotree"
)

func check(t gotree.Tree, want string) {
	if got := t.Print(); got != want {
		fmt.Printf("have\\n%s\\nwant\\n%s", got, want)
		os.Exit(1)
	}
}

'''
def d(id,prop,needs,breaks,edits,body):
    open(f'/tmp/seedtools/d/{id}.py','w').write(f"id={id!r}\nproperty={prop!r}\nneeds={needs!r}\nbreaks={breaks!r}\nedits={edits!r}\ndemo={(PRE+body)!r}\n")
d('c26-trailing-line','C26','a node whose text ends with a line break','the empty last line of a node is not shown',
 [('gotree/gotree.go','	lines := strings.Split(text, "\\n")','	lines := strings.Split(strings.TrimSuffix(text, newLine), newLine)')],
'''func main() {
	t := gotree.New("r")
	t.Add("a\\n")
	t.Add("b")
	check(t, "r\\n├── a\\n│   \\n└── b\\n")
}
''')
d('c26-stale-guides','C26','a last child with children after an earlier sibling with children','the guides computed for the first sibling with children are reused for the later ones',
 [('gotree/gotree.go','''	var result string
	for i, f := range t {''','''	var result string
	var spacesChild []bool
	for i, f := range t {'''),
 ('gotree/gotree.go','''			spacesChild := append(spaces, last)
''','''			if spacesChild == nil {
				spacesChild = append(spaces, last)
			}
''')],
'''func main() {
	t := gotree.New("r")
	t.Add("a").Add("x")
	t.Add("b").Add("y")
	check(t, "r\\n├── a\\n│   └── x\\n└── b\\n    └── y\\n")
}
''')
d('c26-late-children','C26','children added to a node after the node was added to its parent','AddTree keeps a copy of the node, so what is added to it later is not shown',
 [('gotree/gotree.go','''// AddTree adds a tree as an item
func (t *tree) AddTree(tree Tree) {
	t.items = append(t.items, tree)
}''','''// AddTree adds a tree as an item
func (t *tree) AddTree(sub Tree) {
	n := &tree{text: sub.Text(), items: sub.Items()}
	t.items = append(t.items, n)
}''')],
'''func main() {
	t := gotree.New("r")
	a := gotree.New("a")
	t.AddTree(a)
	a.Add("b")
	check(t, "r\\n└── a\\n    └── b\\n")
}
''')
d('c26-deep-guides','C26','a node of several lines below a last child','the second and later lines of a node lose the guide of its parent when the parent is a last child',
 [('gotree/gotree.go','''		if last {
			indicator = emptySpace
		} else {
			indicator = continueItem
		}
		out +=''','''		indicator = continueItem
		if last || len(spaces) > 1 && spaces[len(spaces)-1] {
			indicator = emptySpace
		}
		out +=''')],
'''func main() {
	t := gotree.New("r")
	b := t.Add("a").Add("b")
	b.Add("c\\nd")
	b.Add("e")
	check(t, "r\\n└── a\\n    └── b\\n        ├── c\\n        │   d\\n        └── e\\n")
}
''')
