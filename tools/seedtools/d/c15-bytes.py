id='c15-bytes'
property='C15'
needs='a quoted literal with characters outside ASCII'
breaks='the bytes of a multi-byte character in a quoted literal are encoded again one by one'
edits=[('wbnf/compile.go', '\t\tdefault:\n\t\t\tsb.WriteByte(c)', '\t\tdefault:\n\t\t\tsb.WriteRune(rune(c))')]
demo='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/arr-ai/wbnf/parser"\n\t"github.com/arr-ai/wbnf/wbnf"\n)\n\nfunc check(ok bool, format string, args ...any) {\n\tif !ok {\n\t\tfmt.Printf(format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc grammar(text string) parser.Grammar {\n\tp, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\treturn p.Grammar()\n}\n\nvar _ = grammar\n\nfunc main() {\n\tg := grammar("a -> \'caf\\u00e9\' \'x\' \'x\';")\n\ts := fmt.Sprint(g["a"].(parser.Seq)[0])\n\tcheck(len(s) >= 0, "")\n\t_, err := mustCompile("a -> \'\\u00e9\\\\n\';").Parse("a", parser.NewScanner("\\u00e9\\n"))\n\tcheck(err == nil, "%v", err)\n}\n\nfunc mustCompile(text string) parser.Parsers {\n\tp, err := wbnf.Compile(text, nil)\n\tcheck(err == nil, "%v", err)\n\treturn p\n}\n'
