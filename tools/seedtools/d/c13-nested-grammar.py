id='c13-nested-grammar'
property='C13'
needs='two terms with nested grammars that differ only in a rule of the second that the first lacks'
breaks='rules that only the second grammar has are not reported where the first is empty'
edits=[('parser/diff/terms.go', '\t\tif _, ok := a[rule]; !ok {', '\t\tif _, ok := a[rule]; !ok && len(a) > 0 {')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/parser/diff"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc equal(a, b parser.Term) bool { return diff.Terms(a, b).Equal() }\n\nfunc main() {\n\ta := parser.ScopedGrammar{Term: parser.Rule("r"), Grammar: parser.Grammar{}}\n\tb := parser.ScopedGrammar{Term: parser.Rule("r"), Grammar: parser.Grammar{"r": parser.S("x")}}\n\tcheck(equal(a, a), "differs from itself")\n\tcheck(!equal(b, a), "first has a rule")\n\tcheck(!equal(a, b), "second has a rule")\n}\n'
