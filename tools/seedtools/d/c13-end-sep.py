id='c13-end-sep'
property='C13'
needs='two lists that differ only in whether they may end with a separator'
breaks='the comparison of lists compares the leading-separator flag twice'
edits=[('parser/diff/terms.go', 'diffInterfaces(a.CanEndWithSep, b.CanEndWithSep)', 'diffInterfaces(a.CanEndWithSep, b.CanEndWithSep && a.CanEndWithSep)')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/parser/diff"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc equal(a, b parser.Term) bool { return diff.Terms(a, b).Equal() }\n\nfunc main() {\n\ta := parser.Delim{Term: parser.S("x"), Sep: parser.S(",")}\n\tb := a\n\tb.CanEndWithSep = true\n\tc := b\n\tc.CanStartWithSep = true\n\tcheck(equal(a, a) && equal(b, b) && equal(c, c), "a list differs from itself")\n\tcheck(!equal(a, b), "no end / end")\n\tcheck(!equal(b, a), "end / no end")\n\tcheck(!equal(b, c), "start")\n}\n'
