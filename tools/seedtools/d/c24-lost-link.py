id='c24-lost-link'
property='C24'
needs='a rule that leads to a rule met before it, which leads to a rule not met yet'
breaks='in the graph a rule that leads only to rules met before loses the others'
edits=[('wbnf/recursion.go', '\t\tif f, has := g.next[target]; has {\n\t\t\tnode.next[target] = f\n\t\t} else {', '\t\tif f, has := g.next[target]; has {\n\t\t\tnode.next[target] = f\n\t\t\tif len(f.next) > 1 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t} else {')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\n// cycle tells whether a grammar is refused for a possible cycle\nfunc cycle(text string) (r bool) {\n\tdefer func() { _ = recover() }()\n\t_, err := wbnf.Compile(text, nil)\n\treturn err != nil && strings.Contains(err.Error(), "Possible cycle")\n}\n\nfunc check(text string, want bool) {\n\tfor i := 0; i < 50; i++ {\n\t\tif cycle(text) != want {\n\t\t\tfmt.Printf("%s: cycle reported: %v, want %v\\n", text, !want, want)\n\t\t\tos.Exit(1)\n\t\t}\n\t}\n}\n\nfunc watch() {\n\tgo func() {\n\t\ttime.Sleep(20 * time.Second)\n\t\tfmt.Println("no answer")\n\t\tos.Exit(1)\n\t}()\n}\n\nfunc main() { watch()\ncheck(`a -> b | c; b -> "x" | a | d; c -> a | "y"; d -> "z"; e -> a | f; f -> e | "u"; `, true); check(`a -> b | c; b -> c | d; c -> d | "x"; d -> "y"; e -> a | f; f -> b | e;`, true)\n}\n'
