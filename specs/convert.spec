package ast;

// ---------------------------------------------------------------- how often a piece of source is a leaf

rec fn often(e parser.TreeElement, x parser.Scanner) int fuel 2 =
  if e is parser.Scanner then (if e.(parser.Scanner) == x then 1 else 0)
  else if e is parser.Node then oftenOf(e.(parser.Node).Children, len(e.(parser.Node).Children), x) else 0;
rec fn oftenOf(cs []parser.TreeElement, n int, x parser.Scanner) int fuel 2 = if n <= 0 then 0 else oftenOf(cs, n - 1, x) + often(cs[n-1], x);

// over a syntax tree: the sum over the children under all names
fn massOf(b Branch, x parser.Scanner) int;
rec fn mass(n Node, x parser.Scanner) int fuel 2 =
  if n is Leaf then (if parser.Scanner(n.(Leaf)) == x then 1 else 0) else if n is Branch then massOf(n.(Branch), x) else 0;
rec fn massMany(ns []Node, n int, x parser.Scanner) int fuel 2 = if n <= 0 then 0 else massMany(ns, n - 1, x) + mass(ns[n-1], x);
fn massKids(c Children, x parser.Scanner) int = if c is One then mass(c.(One).Node, x) else massMany(c.(Many), len(c.(Many)), x);
axiom mass_none(x parser.Scanner) because "the empty sum": { massOf(map[string]Children{}, x) } massOf(map[string]Children{}, x) == 0;
axiom mass_put(b Branch, k string, c Children, x parser.Scanner) because "a sum with one term exchanged": { massOf(put(b, k, c), x) }
  massOf(put(b, k, c), x) == massOf(b, x) - (if k in b then massKids(b[k], x) else 0) + massKids(c, x);
lemma massMany_same(a []Node, b []Node, n int, x parser.Scanner) induct n : { massMany(a, n, x), massMany(b, n, x) }
  (forall i int :: { a[i] } { b[i] } 0 <= i && i < n ==> a[i] == b[i]) ==> massMany(a, n, x) == massMany(b, n, x);
lemma massMany_push(a []Node, n Node, x parser.Scanner) : { massMany(push(a, n), len(push(a, n)), x) }
  massMany(push(a, n), len(push(a, n)), x) == massMany(a, len(a), x) + mass(n, x) && massMany(push(a, n), len(a), x) == massMany(a, len(a), x);

// append: the list extended is the one stored, and the result takes its place
func (Branch).many(b, name, node)() {
  mutates b;
  option shares;
  option panics;
  ensures [C18, stored] massOf(b, here()) == massOf(old(b), here()) + mass(node, here());
}
func (Branch).one(b, name, node)() {
  mutates b;
  option panics;
  ensures [C18, stored] massOf(b, here()) == massOf(old(b), here()) + mass(node, here());
}
func (Branch).add(b, name, node, ctr)() {
  mutates b;
  option panics;
  ensures [C18, stored] massOf(b, here()) == massOf(old(b), here()) + mass(node, here());
}
iface Node.collapse(n, level)(r) { ensures [C18, as_is] r == n; }
// any piece of source
fn here() parser.Scanner;

// no external values: no such term in the grammar
rec fn native(t parser.Term) bool fuel 2 =
  if t is parser.Seq then (forall i int :: { t.(parser.Seq)[i] } 0 <= i && i < len(t.(parser.Seq)) ==> native(t.(parser.Seq)[i]))
  else if t is parser.Oneof then (forall i int :: { t.(parser.Oneof)[i] } 0 <= i && i < len(t.(parser.Oneof)) ==> native(t.(parser.Oneof)[i]))
  else if t is parser.Delim then native(t.(parser.Delim).Term) && native(t.(parser.Delim).Sep)
  else if t is parser.Quant then native(t.(parser.Quant).Term)
  else if t is parser.Named then native(t.(parser.Named).Term)
  else if t is parser.CutPoint then native(t.(parser.CutPoint).Term)
  else if t is parser.LookAhead then native(t.(parser.LookAhead).Term)
  else if t is parser.ScopedGrammar then native(t.(parser.ScopedGrammar).Term) && (forall r parser.Rule :: { t.(parser.ScopedGrammar).Grammar[r] } { r in t.(parser.ScopedGrammar).Grammar } native(t.(parser.ScopedGrammar).Grammar[r]))
  else !(t is parser.ExtRef);
fn natively(g parser.Grammar) bool = forall r parser.Rule :: { g[r] } { r in g } native(g[r]);
// the node of a choice has one child
rec fn neat(e parser.TreeElement) bool fuel 2 = e is parser.Node ==>
  (forall i int :: { e.(parser.Node).Children[i] } 0 <= i && i < len(e.(parser.Node).Children) ==> neat(e.(parser.Node).Children[i])) &&
  (e.(parser.Node).Extra is parser.Choice ==> len(e.(parser.Node).Children) == 1);
lemma often_one(e parser.TreeElement, x parser.Scanner) : { often(e, x), neat(e) } neat(e) && e is parser.Node && e.(parser.Node).Extra is parser.Choice ==> often(e, x) == often(e.(parser.Node).Children[0], x) && neat(e.(parser.Node).Children[0]) && oftenOf(e.(parser.Node).Children, 1, x) == often(e.(parser.Node).Children[0], x);

func (Branch).fromParserNode(b, g, term, ctrs, e)() {
  mutates b;
  option panics;
  requires native(term) && natively(g) && neat(e);
  ensures [C18, leaves] massOf(b, here()) == massOf(old(b), here()) + often(e, here());
  inv for (i idx): massOf(b, here()) == massOf(old(b), here()) + oftenOf(e.(parser.Node).Children, i, here());
  inv for (b2 Branch, i idx): massOf(b2, here()) == oftenOf(e.(parser.Node).Children, i, here());
  inv for (c parser.Grammar): natively(c);
  inv for (t parser.LRTGen): native(t.sides[0]) && native(t.sides[1]) && native(t.sep);
}
func FromParserNode(g, e)(b) {
  frame [C12];
  option panics;
  requires natively(g) && neat(e);
  ensures [C18, leaves] massOf(b, here()) == often(e, here());
}
func newCounters(t)(c) { option panics; fresh; }
func unlevel(name, g)(n, level) { trusted "a name without its level"; option panics; }
func (counters).termCountChildren(ctrs, term, parent)() { mutates ctrs; option panics; }
