package diff;

nilslice TermDiff;

// ---------------------------------------------------------------- terms and grammars

// two terms are the same
rec fn teq(a parser.Term, b parser.Term) bool fuel 2 =
  if a is parser.Rule then b is parser.Rule && a.(parser.Rule) == b.(parser.Rule)
  else if a is parser.S then b is parser.S && a.(parser.S) == b.(parser.S)
  else if a is parser.RE then b is parser.RE && a.(parser.RE) == b.(parser.RE)
  else if a is parser.ExtRef then b is parser.ExtRef && a.(parser.ExtRef) == b.(parser.ExtRef)
  else if a is parser.REF then b is parser.REF && a.(parser.REF).Ident == b.(parser.REF).Ident &&
    (if a.(parser.REF).Default == nil || b.(parser.REF).Default == nil then a.(parser.REF).Default == nil && b.(parser.REF).Default == nil
     else teq(a.(parser.REF).Default, b.(parser.REF).Default))
  else if a is parser.Seq then b is parser.Seq && teqs(a.(parser.Seq), b.(parser.Seq))
  else if a is parser.Oneof then b is parser.Oneof && teqs(a.(parser.Oneof), b.(parser.Oneof))
  else if a is parser.Stack then b is parser.Stack && teqs(a.(parser.Stack), b.(parser.Stack))
  else if a is parser.Delim then b is parser.Delim && teq(a.(parser.Delim).Term, b.(parser.Delim).Term) && teq(a.(parser.Delim).Sep, b.(parser.Delim).Sep) &&
    a.(parser.Delim).Assoc == b.(parser.Delim).Assoc && a.(parser.Delim).CanStartWithSep == b.(parser.Delim).CanStartWithSep && a.(parser.Delim).CanEndWithSep == b.(parser.Delim).CanEndWithSep
  else if a is parser.Quant then b is parser.Quant && teq(a.(parser.Quant).Term, b.(parser.Quant).Term) &&
    a.(parser.Quant).Min == b.(parser.Quant).Min && a.(parser.Quant).Max == b.(parser.Quant).Max
  else if a is parser.Named then b is parser.Named && a.(parser.Named).Name == b.(parser.Named).Name && teq(a.(parser.Named).Term, b.(parser.Named).Term)
  else if a is parser.ScopedGrammar then b is parser.ScopedGrammar && teq(a.(parser.ScopedGrammar).Term, b.(parser.ScopedGrammar).Term) && geq(a.(parser.ScopedGrammar).Grammar, b.(parser.ScopedGrammar).Grammar)
  else if a is parser.CutPoint then b is parser.CutPoint && teq(a.(parser.CutPoint).Term, b.(parser.CutPoint).Term)
  else if a is parser.LookAhead then b is parser.LookAhead && teq(a.(parser.LookAhead).Term, b.(parser.LookAhead).Term)
  else false;
fn teqs(a []parser.Term, b []parser.Term) bool = len(a) == len(b) && (forall i int :: { a[i] } { b[i] } 0 <= i && i < len(a) ==> teq(a[i], b[i]));
fn geq(a parser.Grammar, b parser.Grammar) bool =
  (forall r parser.Rule :: { r in a } { r in b } (r in a <==> r in b)) && (forall r parser.Rule :: { r in a } { a[r] } r in a ==> teq(a[r], b[r]));

// a term that has all its parts
rec fn whole(t parser.Term) bool fuel 2 =
  if t is parser.Seq then wholes(t.(parser.Seq)) else if t is parser.Oneof then wholes(t.(parser.Oneof)) else if t is parser.Stack then wholes(t.(parser.Stack))
  else if t is parser.Delim then whole(t.(parser.Delim).Term) && whole(t.(parser.Delim).Sep)
  else if t is parser.Quant then whole(t.(parser.Quant).Term)
  else if t is parser.Named then whole(t.(parser.Named).Term)
  else if t is parser.CutPoint then whole(t.(parser.CutPoint).Term)
  else if t is parser.LookAhead then whole(t.(parser.LookAhead).Term)
  else if t is parser.ScopedGrammar then whole(t.(parser.ScopedGrammar).Term) && wholeg(t.(parser.ScopedGrammar).Grammar)
  else if t is parser.REF then t.(parser.REF).Default == nil || whole(t.(parser.REF).Default)
  else t is parser.Rule || t is parser.S || t is parser.RE || t is parser.ExtRef;
fn wholes(a []parser.Term) bool = forall i int :: { a[i] } 0 <= i && i < len(a) ==> whole(a[i]);
fn wholeg(g parser.Grammar) bool = forall r parser.Rule :: { r in g } { g[r] } r in g ==> whole(g[r]);

fn rtype(x any) reflect.Type;
axiom rtype_same(a any, b any) because "reflect.TypeOf gives the dynamic type": { rtype(a), rtype(b) } (rtype(a) == rtype(b)) == sametype(a, b);
axiom rtype_nil(a any) because "reflect.TypeOf gives nil for nil": { rtype(a) } (rtype(a) == nil) == (a == nil);
extern reflect.TypeOf(x)(r) { ensures r == rtype(x); }

// what a report says
rec fn says(d Report) bool fuel 2 =
  if d is RuleDiff then d.(RuleDiff).A == d.(RuleDiff).B
  else if d is SDiff then d.(SDiff).A == d.(SDiff).B
  else if d is REDiff then d.(REDiff).A == d.(REDiff).B
  else if d is RefDiff then teq(d.(RefDiff).A, d.(RefDiff).B)
  else if d is SeqDiff then saysAll(d.(SeqDiff).Len.A, d.(SeqDiff).Len.B, d.(SeqDiff).Terms)
  else if d is OneofDiff then saysAll(d.(OneofDiff).Len.A, d.(OneofDiff).Len.B, d.(OneofDiff).Terms)
  else if d is TowerDiff then saysAll(d.(TowerDiff).Len.A, d.(TowerDiff).Len.B, d.(TowerDiff).Terms)
  else if d is DelimDiff then says(d.(DelimDiff).Term) && says(d.(DelimDiff).Sep) && d.(DelimDiff).Assoc.A == d.(DelimDiff).Assoc.B &&
    d.(DelimDiff).CanStartWithSep.A == d.(DelimDiff).CanStartWithSep.B && d.(DelimDiff).CanEndWithSep.A == d.(DelimDiff).CanEndWithSep.B
  else if d is QuantDiff then says(d.(QuantDiff).Term) && d.(QuantDiff).Min.A == d.(QuantDiff).Min.B && d.(QuantDiff).Max.A == d.(QuantDiff).Max.B
  else if d is NamedDiff then says(d.(NamedDiff).Term) && d.(NamedDiff).Name.A == d.(NamedDiff).Name.B
  else if d is ScopedGrammarDiff then says(d.(ScopedGrammarDiff).Term) && saysG(d.(ScopedGrammarDiff).Grammar)
  else if d is GrammarDiff then saysG(d.(GrammarDiff))
  else false;
fn saysAll(a int, b int, ts []TermDiff) bool = a == b && isnilslice(ts);
fn saysG(d GrammarDiff) bool = len(d.OnlyInA) == 0 && len(d.OnlyInB) == 0 && len(d.Prods) == 0;

// a report that has all its parts
rec fn made(d Report) bool fuel 2 =
  if d is RefDiff then whole(d.(RefDiff).A) && whole(d.(RefDiff).B)
  else if d is DelimDiff then made(d.(DelimDiff).Term) && made(d.(DelimDiff).Sep)
  else if d is QuantDiff then made(d.(QuantDiff).Term)
  else if d is NamedDiff then made(d.(NamedDiff).Term)
  else if d is ScopedGrammarDiff then made(d.(ScopedGrammarDiff).Term)
  else d != nil;

iface Report.Equal(d)(r) {
  safe [C13] if made(d);
  ensures [C13, says] made(d) ==> r == says(d);
}
// not used as reports themselves (govc checks that)
func (InterfaceDiff).Equal(d)(r) { option detached; option inline; ensures [C13, says] r == (d.A == d.B); }
func (termsesDiff).Equal(d)(r) { option detached; option inline; ensures [C13, says] r == saysAll(d.Len.A, d.Len.B, d.Terms); }

func Terms(a, b)(r) {
  safe [C13] if whole(a) && whole(b);
  ensures [C13, equal] whole(a) && whole(b) ==> made(r) && says(r) == teq(a, b);
}

// the first i terms (the rules visited) differ
opaque fn differ(a []parser.Term, b []parser.Term, i int) bool = exists j int :: { a[j] } { b[j] } 0 <= j && j < i && !teq(a[j], b[j]);
lemma differ_none(a []parser.Term, b []parser.Term, i int) : { differ(a, b, i) } i <= 0 ==> !differ(a, b, i);
lemma differ_step(a []parser.Term, b []parser.Term, i int) : { differ(a, b, i+1) } 0 <= i ==> differ(a, b, i+1) == (differ(a, b, i) || !teq(a[i], b[i]));
opaque fn gdiffer(a parser.Grammar, b parser.Grammar, v frozen.Set[parser.Rule]) bool = exists r parser.Rule :: { r in v } { r in a } r in v && r in b && !teq(a[r], b[r]);
lemma gdiffer_step(a parser.Grammar, b parser.Grammar, v frozen.Set[parser.Rule], k parser.Rule) : { gdiffer(a, b, with(v, k)) } gdiffer(a, b, with(v, k)) == (gdiffer(a, b, v) || k in b && !teq(a[k], b[k]));
opaque fn gmissing(b parser.Grammar, v frozen.Set[parser.Rule]) bool = exists r parser.Rule :: { r in v } { r in b } r in v && !(r in b);
lemma gmissing_step(b parser.Grammar, v frozen.Set[parser.Rule], k parser.Rule) : { gmissing(b, with(v, k)) } gmissing(b, with(v, k)) == (gmissing(b, v) || !(k in b));

func Grammars(a, b)(r) {
  option noframe;
  safe [C13] if wholeg(a) && wholeg(b);
  ensures [C13, equal] wholeg(a) && wholeg(b) ==> saysG(r) == geq(a, b);
  inv for (diff GrammarDiff, v visited): wholeg(a) && wholeg(b) ==> ((len(diff.Prods) == 0) == !gdiffer(a, b, v));
  inv for (diff GrammarDiff, v visited): (len(diff.OnlyInA) == 0) == !gmissing(b, v);
  inv for (diff GrammarDiff, v visited): (len(diff.OnlyInB) == 0) == !gmissing(a, v);
}
func diffTermses(a, b)(r) {
  safe [C13] if wholes(a) && wholes(b);
  ensures [C13, equal] wholes(a) && wholes(b) ==> saysAll(r.Len.A, r.Len.B, r.Terms) == teqs(a, b);
  inv for (tsd termsesDiff): (tsd.Len.A == tsd.Len.B) == (len(a) == len(b));
  inv for (tsd termsesDiff, i idx): wholes(a) && wholes(b) ==> (isnilslice(tsd.Terms) == !differ(a, b, i));
}

// ---------------------------------------------------------------- parse trees

fn deepEq(a any, b any) bool;
axiom deepEq_plain(a any, b any) because "reflect.DeepEqual on values without indirection": { deepEq(a, b) } a == nil || a is parser.Choice || a is parser.Associativity ==> deepEq(a, b) == (a == b);
extern reflect.DeepEqual(a, b)(r) { ensures r == deepEq(a, b); }
fn spelt(s parser.Scanner) string = if s.src == nil then "" else text(s);
rec fn eeq(x parser.TreeElement, y parser.TreeElement) bool fuel 2 =
  if x is parser.Node then y is parser.Node && neq(x.(parser.Node), y.(parser.Node))
  else if x is parser.Scanner then y is parser.Scanner && spelt(x.(parser.Scanner)) == spelt(y.(parser.Scanner))
  else sametype(x, y);
fn neq(m parser.Node, n parser.Node) bool = m.Tag == n.Tag && deepEq(m.Extra, n.Extra) && eeqs(m.Children, n.Children);
fn eeqs(m []parser.TreeElement, n []parser.TreeElement) bool = len(m) == len(n) && (forall i int :: { m[i] } { n[i] } 0 <= i && i < len(m) ==> eeq(m[i], n[i]));
// leaves are pieces of source (or nothing at all), and nothing is missing
rec fn sane(x parser.TreeElement) bool fuel 2 =
  if x is parser.Node then sanes(x.(parser.Node).Children) else if x is parser.Scanner then x.(parser.Scanner).src == nil || valid(x.(parser.Scanner)) else x != nil;
fn sanes(m []parser.TreeElement) bool = forall i int :: { m[i] } 0 <= i && i < len(m) ==> sane(m[i]);

fn saysN(d NodeDiff) bool = len(d.A.Children) == len(d.B.Children) && d.A.Tag == d.B.Tag && deepEq(d.A.Extra, d.B.Extra) && len(d.Children) == 0 && len(d.Types) == 0 && len(d.Leaves) == 0;
func (NodeDiff).Equal(d)(r) {
  option detached;
  safe [C13] if d.A != nil && d.B != nil;
  ensures [C13, says] r == saysN(d);
}
opaque fn edifferent(a []parser.TreeElement, b []parser.TreeElement, i int) bool = exists j int :: { a[j] } { b[j] } 0 <= j && j < i && !eeq(a[j], b[j]);
lemma edifferent_none(a []parser.TreeElement, b []parser.TreeElement, i int) : { edifferent(a, b, i) } i <= 0 ==> !edifferent(a, b, i);
lemma edifferent_step(a []parser.TreeElement, b []parser.TreeElement, i int) : { edifferent(a, b, i+1) } 0 <= i ==> edifferent(a, b, i+1) == (edifferent(a, b, i) || !eeq(a[i], b[i]));
func NewNodeDiff(a, b)(r) {
  requires a != nil && b != nil && sanes(a.Children) && sanes(b.Children);
  safe [C13];
  ensures [C13, equal] r.A == a && r.B == b && saysN(r) == neq(*a, *b);
  inv for (m map[int]NodeDiff, t map[int][2]reflect.Type, l map[int][2]parser.Scanner, i idx): (len(m) == 0 && len(t) == 0 && len(l) == 0) == !edifferent(a.Children, b.Children, i);
}
