id='c24-nested-rules'
property='C24'
needs='a rule with a nested grammar that has a rule of the same name as one of a ring of rules'
breaks='rules of grammars nested in a rule replace those outside, whose cycle is missed'
edits=[('wbnf/recursion.go', '\t\tdangers[node.OneIdent().String()] = td\n\t\treturn NodeExiter\n', '\t\tdangers[node.OneIdent().String()] = td\n\t\treturn nil\n')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\n// cycle tells whether a grammar is refused for a possible cycle\nfunc cycle(text string) (r bool) {\n\tdefer func() { _ = recover() }()\n\t_, err := wbnf.Compile(text, nil)\n\treturn err != nil && strings.Contains(err.Error(), "Possible cycle")\n}\n\nfunc check(text string, want bool) {\n\tfor i := 0; i < 50; i++ {\n\t\tif cycle(text) != want {\n\t\t\tfmt.Printf("%s: cycle reported: %v, want %v\\n", text, !want, want)\n\t\t\tos.Exit(1)\n\t\t}\n\t}\n}\n\nfunc watch() {\n\tgo func() {\n\t\ttime.Sleep(20 * time.Second)\n\t\tfmt.Println("no answer")\n\t\tos.Exit(1)\n\t}()\n}\n\nfunc main() { watch()\ncheck(`a -> b; b -> a; c -> "x" { a -> "y"; };`, true); check(`a -> b; b -> "z"; c -> "x" { b -> "y" a; };`, false)\n}\n'
