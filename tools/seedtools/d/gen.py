import sys
sys.path.insert(0,'/tmp/seedtools')
from lib import PRE
def d(id,prop,needs,breaks,edits,body):
    open(f'/tmp/seedtools/d/{id}.py','w').write(f"id={id!r}\nproperty={prop!r}\nneeds={needs!r}\nbreaks={breaks!r}\nedits={edits!r}\ndemo={(PRE+body)!r}\n")
d('c02-trailing-space','C02','a text whose left-over part is only white space','a parse that leaves white space behind reports success instead of unconsumed input',
 [('parser/terms.go','	if input.String() == "" {\n		return e, nil','	if strings.TrimSpace(input.String()) == "" {\n		return e, nil')],
'''func main() {
	_, err := parse(parser.Grammar{"a": parser.S("x")}, "x \\n")
	_, ok := err.(parser.UnconsumedInputError)
	check(ok, "want unconsumed input, got %v", err)
}
''')
d('c05-min-at-end','C05','a repetition with a minimum above one that meets the end of the text too early','a repetition cut short by the end of the text succeeds with too few matches',
 [('parser/parser.go','	if len(result) >= p.t.Min {\n		return p.put(output, nil, result...)','	if len(result) >= p.t.Min || len(result) > 0 && start.String() == "" {\n		return p.put(output, nil, result...)')],
'''func main() {
	g := parser.Grammar{"a": parser.Quant{Term: parser.S("x"), Min: 3}}
	_, err := parse(g, "xx")
	check(err != nil, "matched")
}
''')
d('c06-trailing-single','C06','a list that may end with its separator, holding a single term followed by the separator','the trailing separator of a one-term list is dropped from the tree',
 [('parser/parser.go','	if final != nil && final.(Node).Count() > 0 {','	if final != nil && final.(Node).Count() > 0 && len(result) > 1 {')],
'''func main() {
	g := parser.Grammar{"a": parser.Delim{Term: parser.S("x"), Sep: parser.S(","), CanEndWithSep: true}}
	e, err := parse(g, "x,")
	check(err == nil, "%v", err)
	check(e.(parser.Node).Count() == 3, "%v", e)
}
''')
d('c06-right-assoc','C06','a right-associative list of four or more terms','the inner nodes of a right-associative list take the wrong terms',
 [('parser/parser.go','				p.put(&v, p.t.Assoc, result[j-1], result[j], v) //nolint:errcheck','				if j > 4 {\n					j -= 2\n				}\n				p.put(&v, p.t.Assoc, result[j-1], result[j], v) //nolint:errcheck')],
'''func main() {
	g := parser.Grammar{"a": parser.Delim{Term: parser.RE("[a-z]"), Sep: parser.S(","), Assoc: parser.RightToLeft}}
	e, err := parse(g, "a,b,c,d")
	check(err == nil, "%v", err)
	check(e.(parser.Node).GetString(2, 2, 0) == "c", "%v", e)
}
''')
d('c07-lookahead-failure','C07','a lookahead that fails after part of its term matched','a failing lookahead moves the read position',
 [('parser/parser.go','	if err := l.term.Parse(scope, &start, &v, stk); err != nil {\n		return err','	if err := l.term.Parse(scope, &start, &v, stk); err != nil {\n		*input = start\n		return err')],
'''func main() {
	g := parser.Grammar{"a": parser.LookAhead{Term: parser.Seq{parser.S("x"), parser.S("y")}}}
	in := parser.NewScanner("xz")
	_, err := g.Compile(nil).Parse("a", in)
	check(err != nil, "matched")
	check(in.Offset() == 0, "read position %d", in.Offset())
}
''')
d('c08-stop-in-choice','C08','an external rule that ends with a stop error inside a choice','a stop error in an alternative no longer ends the parse; later alternatives are tried',
 [('parser/error.go','	case StopError:\n		return true\n	}\n	return false\n}\n\nfunc newParseError','	case StopError:\n		return cp.valid()\n	}\n	return false\n}\n\nfunc newParseError')],
'''type stop struct{}

func (stop) Error() string { return "stop" }
func (stop) IsStopError()  {}

func main() {
	g := parser.Grammar{"a": parser.Oneof{parser.ExtRef("e"), parser.S("x")}}
	_, err := g.Compile(nil).ParseWithExternals("a", parser.NewScanner("x"), parser.ExternalRefs{
		"e": func(parser.Scope, *parser.Scanner) (parser.TreeElement, error) { return nil, stop{} },
	})
	check(err == error(stop{}), "want the stop error, got %v", err)
}
''')
d('c10-exempt-prefix','C10','a grammar whose .wrapRE exempts a token, and another token that starts with the same text','a literal that merely starts with an exempted one loses its wrapping',
 [('parser/parser.go','				case S:\n					if string(t) == re {','				case S:\n					if strings.HasPrefix(re, string(t)) {')],
'''func main() {
	g := parser.Grammar{"a": parser.Seq{parser.S("x"), parser.S("xy")}, ".wrapRE": parser.Oneof{parser.S("x"), parser.RE(`\\s*()\\s*`)}}
	_, err := parse(g, "x xy")
	check(err == nil, "%v", err)
}
''')
d('c11-delim-sep','C11','a precedence level whose list separator refers to the next level','self references in list separators are not redirected',
 [('parser/resolve.go','	t.Sep = t.Sep.Resolve(oldRule, newRule)\n','	if _, ok := t.Sep.(Seq); !ok {\n		t.Sep = t.Sep.Resolve(oldRule, newRule)\n	}\n')],
'''func main() {
	d := parser.Delim{Term: parser.S("x"), Sep: parser.Seq{parser.Rule("@"), parser.S(",")}}
	r := d.Resolve("@", "b").(parser.Delim)
	check(r.Sep.(parser.Seq)[0] == parser.Rule("b"), "%v", r)
}
''')
d('c03-optional-name','C03','a named part that may be absent and a later back reference to that name','an optional part that matched nothing keeps an older value of its name visible',
 [('parser/parser.go','		scope = scope.WithVal(ident, p.parsers[i], v)','		if n, ok := v.(Node); !ok || n.Count() > 0 {\n			scope = scope.WithVal(ident, p.parsers[i], v)\n		}')],
'''func main() {
	n := func(t parser.Term) parser.Term { return parser.Named{Name: "n", Term: t} }
	g := parser.Grammar{"a": parser.Seq{n(parser.S("x")), parser.Opt(n(parser.S("y"))), parser.REF{Ident: "n"}}}
	_, err := parse(g, "x")
	check(err == nil, "%v", err)
}
''')
d('c09-merge-end','C09','merging pieces of one source where an earlier piece ends after the last one','the merged piece ends at the end of the last piece that starts furthest right, losing text',
 [('parser/scanner.go','		if v.sliceStart+v.sliceLength > r {','		if v.sliceStart+v.sliceLength > r || v.sliceStart > l && len(items) > 2 {')],
'''func main() {
	s := parser.NewScanner("abcdefgh")
	m, err := parser.MergeScanners(*s.Slice(0, 2), *s.Slice(1, 7), *s.Slice(3, 4))
	check(err == nil && m.String() == "abcdefg", "%v %v", m, err)
}
''')
d('c04-choice-number','C04','a choice where an earlier alternative failed without reading anything and an equal-length one follows','the recorded choice number counts only the alternatives that failed',
 [('parser/parser.go','			return p.put(output, Choice(i), v)','			if furthest.Offset() > start.Offset() {\n				i = len(p.parsers) - 1\n			}\n			return p.put(output, Choice(i), v)')],
'''func main() {
	g := parser.Grammar{"a": parser.Seq{parser.Oneof{parser.Seq{parser.S("x"), parser.S("y"), parser.S("z")}, parser.S("x"), parser.S("q")}, parser.S("y")}}
	e, err := parse(g, "xy")
	check(err == nil, "%v", err)
	check(e.(parser.Node).GetNode(0).Extra == parser.Choice(1), "%v", e)
}
''')
