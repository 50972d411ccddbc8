package parser;

// What has gone to the writer so far, and the error it has reported. Nothing is written after an error.
ghost sink string;
ghost failed error;
iface io.Writer.Write(w, p)(n, err) {
  requires failed == nil;
  modifies sink, failed;
  ensures 0 <= n && n <= len(p) && (err == nil ==> n == len(p));
  ensures sink == old(sink) + string(p)[0:n];
  ensures failed == err;
}

// the leaves of a tree in order
rec fn script(e TreeElement) string fuel 3 =
  if e is Scanner then (if e.(Scanner).src == nil then "" else text(e.(Scanner)))
  else if e is Node then scriptOf(e.(Node).Children, len(e.(Node).Children)) else "";
rec fn scriptOf(cs []TreeElement, n int) string fuel 3 = if n <= 0 then "" else scriptOf(cs, n - 1) + script(cs[n-1]);

lemma script_more(cs []TreeElement, i int, n int) induct n : { scriptOf(cs, i), scriptOf(cs, n) }
  0 <= i && i <= n ==> sprefix(scriptOf(cs, n), scriptOf(cs, i));
// the first n bytes of a text were added to what was written
opaque fn part(before string, after string, n int, whole string) bool =
  exists x string :: { before + x } after == before + x && len(x) == n && sprefix(whole, x);
lemma part_all(a string, b string, n int, w string) : { part(a, b, n, w) } b == a + w && n == len(w) ==> part(a, b, n, w);
lemma part_grow(a string, b string, c string, m int, k int, p string, f string) : { part(b, c, m, f), part(a, c, k, p + f) }
  b == a + p && k == len(p) + m && part(b, c, m, f) ==> part(a, c, k, p + f);
lemma part_wider(a string, c string, k int, u string, w string) : { part(a, c, k, u), part(a, c, k, w) } part(a, c, k, u) && sprefix(w, u) ==> part(a, c, k, w);
lemma part_next(cs []TreeElement, i int, n int, a string, b string, c string, m int, k int) :
  { part(b, c, m, script(cs[i])), part(a, c, k, scriptOf(cs, n)), scriptOf(cs, i) }
  0 <= i && i < n && b == a + scriptOf(cs, i) && k == len(scriptOf(cs, i)) + m && part(b, c, m, script(cs[i])) ==>
    part(a, c, k, scriptOf(cs, i) + script(cs[i])) && scriptOf(cs, i+1) == scriptOf(cs, i) + script(cs[i]) && part(a, c, k, scriptOf(cs, n));
lemma script_one(cs []TreeElement) : { scriptOf(cs, 1) } scriptOf(cs, 1) == script(cs[0]);

// pieces of source at the leaves
fn legible(s Scanner) bool = s.src == nil || valid(s);
rec fn clean(e TreeElement) bool fuel 2 =
  if e is Scanner then legible(e.(Scanner))
  else if e is Node then (forall i int :: { e.(Node).Children[i] } 0 <= i && i < len(e.(Node).Children) ==> clean(e.(Node).Children[i])) else true;

// e has the shape of a parse tree of t
rec fn fits(t Term, g Grammar, e TreeElement) bool fuel 2 =
  if t is S || t is RE then e is Scanner && legible(e.(Scanner))
  else if t is REF || t is Delim || t is ScopedGrammar || t is Stack || t is ExtRef then clean(e)
  else if t is Seq then e is Node && len(e.(Node).Children) == len(t.(Seq)) &&
    (forall i int :: { t.(Seq)[i] } { e.(Node).Children[i] } 0 <= i && i < len(t.(Seq)) ==> fits(t.(Seq)[i], g, e.(Node).Children[i]))
  else if t is Oneof then e is Node && len(e.(Node).Children) == 1 && e.(Node).Extra is Choice &&
    0 <= e.(Node).Extra.(Choice) && e.(Node).Extra.(Choice) < len(t.(Oneof)) && fits(t.(Oneof)[e.(Node).Extra.(Choice)], g, e.(Node).Children[0])
  else if t is Quant then e is Node && (forall i int :: { e.(Node).Children[i] } 0 <= i && i < len(e.(Node).Children) ==> fits(t.(Quant).Term, g, e.(Node).Children[i]))
  else if t is LookAhead then e is Node && (forall i int :: { e.(Node).Children[i] } 0 <= i && i < len(e.(Node).Children) ==> fits(t.(LookAhead).Term, g, e.(Node).Children[i]))
  else if t is Rule then t.(Rule) in g && fits(g[t.(Rule)], g, e)
  else if t is Named then fits(t.(Named).Term, g, e)
  else if t is CutPoint then fits(t.(CutPoint).Term, g, e)
  else false;

iface Term.Unparse(t, g, e, w)(n, err) {
  requires failed == nil && fits(t, g, e);
  modifies sink, failed;
  ensures [C21, all] err == nil ==> sink == old(sink) + script(e);
  ensures [C21, prefix] part(old(sink), sink, n, script(e));
  ensures [C21, error] failed == err;
  inv failed == nil;
  inv for (n int, i idx): sink == old(sink) + scriptOf(e.(Node).Children, i) && n == len(scriptOf(e.(Node).Children, i));
}
func unparseLeaves(e, w)(n, err) {
  requires failed == nil && clean(e);
  modifies sink, failed;
  ensures [C21, all] err == nil ==> sink == old(sink) + script(e);
  ensures [C21, prefix] part(old(sink), sink, n, script(e));
  ensures [C21, error] failed == err;
  inv failed == nil;
  inv for (n int, i idx): sink == old(sink) + scriptOf(e.(Node).Children, i) && n == len(scriptOf(e.(Node).Children, i));
}
func unparse(g, term, e, w, N)(err) {
  requires failed == nil && fits(term, g, e) && N != nil;
  modifies sink, failed, *N;
  ensures [C21, all] err == nil ==> sink == old(sink) + script(e);
  ensures [C21, prefix] part(old(sink), sink, *N - old(*N), script(e));
  ensures [C21, error] failed == err;
}
func (Grammar).Unparse(g, e, w)(n, err) {
  requires failed == nil && e is Node && Rule(e.(Node).Tag) in g && fits(g[Rule(e.(Node).Tag)], g, e);
  modifies sink, failed;
  ensures [C21, all] err == nil ==> sink == old(sink) + script(e);
  ensures [C21, prefix] part(old(sink), sink, n, script(e));
  ensures [C21, error] failed == err;
}
func (Parsers).Unparse(p, e, w)(n, err) {
  requires failed == nil && e is Node && Rule(e.(Node).Tag) in p.grammar && fits(p.grammar[Rule(e.(Node).Tag)], p.grammar, e);
  modifies sink, failed;
  ensures [C21, all] err == nil ==> sink == old(sink) + script(e);
  ensures [C21, prefix] part(old(sink), sink, n, script(e));
  ensures [C21, error] failed == err;
}
func (ExtRef).Unparse(t, g, e, w)(n, err) { option panics; }
func (Stack).Unparse(t, g, e, w)(n, err) { option panics; }
