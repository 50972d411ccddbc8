package ast;

closed Node = Branch, Leaf, Extra;
closed Children = One, Many;

// ---------------------------------------------------------------- lookups

fn oneOf(n Node, name string) Node = if n is Branch && name in n.(Branch) && n.(Branch)[name] is One then n.(Branch)[name].(One).Node else nil;
fn manyOf(n Node, name string) []Node = if n is Branch && name in n.(Branch) && n.(Branch)[name] is Many then n.(Branch)[name].(Many) else nil;
// the i-th child stored under a name, and how many there are
rec fn kidCount(n Node, name string) int fuel 1 = if oneOf(n, name) != nil then 1 else len(manyOf(n, name));
rec fn kidAt(n Node, name string, i int) Node fuel 1 = if oneOf(n, name) != nil then oneOf(n, name) else manyOf(n, name)[i];

iface Node.One(n, name)(r) { ensures [C19] r == oneOf(n, name); }
iface Node.Many(n, name)(r) { ensures [C19] r == manyOf(n, name); }
func First(n, name)(r) { ensures [C19, first] r == (if kidCount(n, name) > 0 then kidAt(n, name, 0) else nil); }
func All(n, name)(r) {
  ensures [C19, count] len(r) == kidCount(n, name);
  ensures [C19, each] forall i int :: { r[i] } 0 <= i && i < len(r) ==> r[i] == kidAt(n, name, i);
}
func Which(b, names)(r, c) {
  ensures [C19, first] forall i int :: { names[i] } 0 <= i && i < len(names) && names[i] in b && (forall j int :: { names[j] } 0 <= j && j < i ==> !(names[j] in b)) ==> r == names[i] && c == b[names[i]];
  ensures [C19, none] (forall j int :: { names[j] } 0 <= j && j < len(names) ==> !(names[j] in b)) ==> r == "" && c == nil;
  ensures [C19, found] (forall j int :: { names[j] } 0 <= j && j < len(names) ==> !(names[j] in b)) || (exists j int :: { names[j] } 0 <= j && j < len(names) && r == names[j] && names[j] in b);
  inv for (i idx): forall j int :: { names[j] } 0 <= j && j < i ==> !(names[j] in b);
}
func Choice(n)(r) {
  ensures [C19, choice] kidCount(n, "@choice") > 0 && kidAt(n, "@choice", 0) != nil ==> r == kidAt(n, "@choice", 0).(Extra).Data.(parser.Choice);
  ensures [C19, none] kidCount(n, "@choice") == 0 || kidAt(n, "@choice", 0) == nil ==> r == 0-1;
}

// ---------------------------------------------------------------- content

fn said(s parser.Scanner) string = if s.src == nil then "" else text(s);
rec fn same(a Node, b Node) bool fuel 2 =
  if a is Leaf then b is Leaf && said(parser.Scanner(a.(Leaf))) == said(parser.Scanner(b.(Leaf)))
  else if a is Extra then b is Extra && a.(Extra).Data == b.(Extra).Data
  else if a is Branch then b is Branch && len(a.(Branch)) == len(b.(Branch)) &&
    (forall k string :: { k in a.(Branch) } k in a.(Branch) ==> k in b.(Branch) && sameKids(a.(Branch)[k], b.(Branch)[k]))
  else false;
fn sameKids(c Children, d Children) bool =
  if c is One then d is One && same(c.(One).Node, d.(One).Node)
  else d is Many && len(c.(Many)) == len(d.(Many)) && (forall i int :: { c.(Many)[i] } { d.(Many)[i] } 0 <= i && i < len(c.(Many)) ==> same(c.(Many)[i], d.(Many)[i]));
// leaves are pieces of source (or nothing at all), and nothing is missing
fn proper(s parser.Scanner) bool = s.src == nil || valid(s);
rec fn sound(n Node) bool fuel 2 =
  if n is Leaf then proper(parser.Scanner(n.(Leaf)))
  else if n is Branch then (forall k string :: { k in n.(Branch) } { n.(Branch)[k] } k in n.(Branch) ==> soundKids(n.(Branch)[k]))
  else n is Extra;
fn soundKids(c Children) bool =
  if c is One then sound(c.(One).Node) else c is Many && (forall i int :: { c.(Many)[i] } 0 <= i && i < len(c.(Many)) ==> sound(c.(Many)[i]));
iface Node.ContentEquals(n, other)(r) {
  requires sound(n) && (other == nil || sound(other));
  ensures [C19, content] r == same(n, other);
  inv for (v visited): forall k string :: { k in v } k in v ==> k in n.(Branch) && k in other.(Branch) && sameKids(n.(Branch)[k], other.(Branch)[k]);
  inv for (k string, i idx): forall j int :: { n.(Branch)[k].(Many)[j] } { other.(Branch)[k].(Many)[j] } 0 <= j && j < i ==> same(n.(Branch)[k].(Many)[j], other.(Branch)[k].(Many)[j]);
}

// ---------------------------------------------------------------- extent

// the source all leaves come from: any, but one and the same
fn theSource() parser.Scanner;
fn meta(k string) bool = sprefix(k, "@");
// every leaf outside the @-names is a piece of the source, or nothing at all; no external values
rec fn readable(n Node) bool fuel 2 =
  if n is Leaf then parser.Scanner(n.(Leaf)).src == nil || valid(parser.Scanner(n.(Leaf))) && parser.Scanner(n.(Leaf)).src == theSource().src
  else if n is Branch then (forall k string :: { k in n.(Branch) } { n.(Branch)[k] } k in n.(Branch) && !meta(k) ==> readableKids(n.(Branch)[k]))
  else false;
fn readableKids(c Children) bool =
  if c is One then readable(c.(One).Node) else c is Many && (forall i int :: { c.(Many)[i] } 0 <= i && i < len(c.(Many)) ==> readable(c.(Many)[i]));
// every leaf lies in w
rec fn within(n Node, w parser.Scanner) bool fuel 2 =
  if n is Leaf then parser.Scanner(n.(Leaf)).src == nil || leafIn(parser.Scanner(n.(Leaf)), w)
  else if n is Branch then (forall k string :: { k in n.(Branch) } { n.(Branch)[k] } k in n.(Branch) && !meta(k) ==> withinKids(n.(Branch)[k], w))
  else true;
fn withinKids(c Children, w parser.Scanner) bool =
  if c is One then within(c.(One).Node, w) else if c is Many then (forall i int :: { c.(Many)[i] } 0 <= i && i < len(c.(Many)) ==> within(c.(Many)[i], w)) else true;
// some leaf starts (ends) at p
rec fn begins(n Node, p int) bool fuel 2 =
  if n is Leaf then parser.Scanner(n.(Leaf)).src != nil && start(parser.Scanner(n.(Leaf))) == p
  else if n is Branch then (exists k string :: { k in n.(Branch) } { n.(Branch)[k] } k in n.(Branch) && !meta(k) && beginsKids(n.(Branch)[k], p))
  else false;
fn beginsKids(c Children, p int) bool =
  if c is One then begins(c.(One).Node, p) else if c is Many then (exists i int :: { c.(Many)[i] } 0 <= i && i < len(c.(Many)) && begins(c.(Many)[i], p)) else false;
rec fn finishes(n Node, p int) bool fuel 2 =
  if n is Leaf then parser.Scanner(n.(Leaf)).src != nil && end(parser.Scanner(n.(Leaf))) == p
  else if n is Branch then (exists k string :: { k in n.(Branch) } { n.(Branch)[k] } k in n.(Branch) && !meta(k) && finishesKids(n.(Branch)[k], p))
  else false;
fn finishesKids(c Children, p int) bool =
  if c is One then finishes(c.(One).Node, p) else if c is Many then (exists i int :: { c.(Many)[i] } 0 <= i && i < len(c.(Many)) && finishes(c.(Many)[i], p)) else false;
lemma within_mono(n Node, w parser.Scanner, v parser.Scanner) induct n : { within(n, w), within(n, v) }
  within(n, w) && w.src == v.src && start(v) <= start(w) && end(w) <= end(v) ==> within(n, v);
lemma within_none(n Node, w parser.Scanner) induct n : { within(n, w) } within(n, nowhere()) ==> within(n, w);
lemma push_before(ss []parser.Scanner, x parser.Scanner, i int) : { push(ss, x), ss[i] } 0 <= i && i < len(ss) ==> push(ss, x)[i] == ss[i];
// every leaf lies in one of the pieces
opaque fn covered(n Node, ss []parser.Scanner) bool = within(n, nowhere()) || (exists m int :: { ss[m] } 0 <= m && m < len(ss) && within(n, ss[m]));
opaque fn coveredKids(c Children, ss []parser.Scanner) bool = withinKids(c, nowhere()) || (exists m int :: { ss[m] } 0 <= m && m < len(ss) && withinKids(c, ss[m]));
opaque fn holds(ss []parser.Scanner, w parser.Scanner) bool = w.src != nil && (forall m int :: { ss[m] } 0 <= m && m < len(ss) ==> ss[m].src == w.src && start(w) <= start(ss[m]) && end(ss[m]) <= end(w));
lemma covered_none(n Node, ss []parser.Scanner) : { covered(n, ss) } within(n, nowhere()) ==> covered(n, ss);
lemma covered_push(n Node, ss []parser.Scanner, x parser.Scanner) : { covered(n, push(ss, x)) } covered(n, ss) || within(n, x) ==> covered(n, push(ss, x));
lemma covered_all(n Node, ss []parser.Scanner, w parser.Scanner) : { covered(n, ss), holds(ss, w) } covered(n, ss) && holds(ss, w) ==> within(n, w);
lemma coveredKids_none(c Children, ss []parser.Scanner) : { coveredKids(c, ss) } withinKids(c, nowhere()) ==> coveredKids(c, ss);
lemma coveredKids_push(c Children, ss []parser.Scanner, x parser.Scanner) : { coveredKids(c, push(ss, x)) } coveredKids(c, ss) || withinKids(c, x) ==> coveredKids(c, push(ss, x));
lemma coveredKids_all(c Children, ss []parser.Scanner, w parser.Scanner) : { coveredKids(c, ss), holds(ss, w) } coveredKids(c, ss) && holds(ss, w) ==> withinKids(c, w);
// the pieces start and end where leaves of the first i children (of the children visited) do
opaque fn startsIn(c Many, i int, s parser.Scanner) bool = exists j int :: { c[j] } 0 <= j && j < i && begins(c[j], start(s));
opaque fn endsIn(c Many, i int, s parser.Scanner) bool = exists j int :: { c[j] } 0 <= j && j < i && finishes(c[j], end(s));
lemma startsIn_step(c Many, i int, s parser.Scanner) : { startsIn(c, i+1, s) } startsIn(c, i, s) || 0 <= i && begins(c[i], start(s)) ==> startsIn(c, i+1, s);
lemma endsIn_step(c Many, i int, s parser.Scanner) : { endsIn(c, i+1, s) } endsIn(c, i, s) || 0 <= i && finishes(c[i], end(s)) ==> endsIn(c, i+1, s);
opaque fn startsUnder(b Branch, v frozen.Set[string], s parser.Scanner) bool = exists k string :: { k in b } k in v && k in b && !meta(k) && beginsKids(b[k], start(s));
opaque fn endsUnder(b Branch, v frozen.Set[string], s parser.Scanner) bool = exists k string :: { k in b } k in v && k in b && !meta(k) && finishesKids(b[k], end(s));
lemma startsUnder_step(b Branch, v frozen.Set[string], k string, s parser.Scanner) : { startsUnder(b, with(v, k), s) } startsUnder(b, v, s) || k in b && !meta(k) && beginsKids(b[k], start(s)) ==> startsUnder(b, with(v, k), s);
lemma endsUnder_step(b Branch, v frozen.Set[string], k string, s parser.Scanner) : { endsUnder(b, with(v, k), s) } endsUnder(b, v, s) || k in b && !meta(k) && finishesKids(b[k], end(s)) ==> endsUnder(b, with(v, k), s);
// nothing (and then there is no leaf), or the smallest piece with all leaves
fn nowhere() parser.Scanner = parser.Scanner{};
fn extent(n Node, r parser.Scanner) bool =
  if r.src == nil then within(n, nowhere()) else valid(r) && r.src == theSource().src && within(n, r) && begins(n, start(r)) && finishes(n, end(r));
fn extentKids(c Children, r parser.Scanner) bool =
  if r.src == nil then withinKids(c, nowhere()) else valid(r) && r.src == theSource().src && withinKids(c, r) && beginsKids(c, start(r)) && finishesKids(c, end(r));
iface Node.Scanner(n)(r) {
  when readable(n) || n is Leaf;
  ensures [C19, leaf] n is Leaf ==> r == parser.Scanner(n.(Leaf));
  ensures [C19, extent] readable(n) ==> extent(n, r);
  inv for (ss []parser.Scanner): forall m int :: { ss[m] } 0 <= m && m < len(ss) ==> valid(ss[m]) && ss[m].src == theSource().src;
  inv for (ss []parser.Scanner, v visited): forall m int :: { ss[m] } 0 <= m && m < len(ss) ==> startsUnder(n.(Branch), v, ss[m]);
  inv for (ss []parser.Scanner, v visited): forall m int :: { ss[m] } 0 <= m && m < len(ss) ==> endsUnder(n.(Branch), v, ss[m]);
  inv for (ss []parser.Scanner, v visited): forall k string :: { k in v } { k in n.(Branch) } k in v && !meta(k) ==> coveredKids(n.(Branch)[k], ss);
}
iface Children.Scanner(c)(r) {
  when readableKids(c);
  ensures [C19, extent] extentKids(c, r);
  inv for (ss []parser.Scanner): forall m int :: { ss[m] } 0 <= m && m < len(ss) ==> valid(ss[m]) && ss[m].src == theSource().src;
  inv for (ss []parser.Scanner, i idx): forall m int :: { ss[m] } 0 <= m && m < len(ss) ==> startsIn(c.(Many), i, ss[m]);
  inv for (ss []parser.Scanner, i idx): forall m int :: { ss[m] } 0 <= m && m < len(ss) ==> endsIn(c.(Many), i, ss[m]);
  inv for (ss []parser.Scanner, i idx): forall j int :: { c.(Many)[j] } 0 <= j && j < i ==> covered(c.(Many)[j], ss);
}
func (Extra).Scanner(n)(r) { trusted "panics: not called for readable nodes"; }
func (Leaf).Scanner(n)(r) { option inline; }
func (Branch).oneChild(b)(r) {
  ensures [C19] r != nil ==> (exists k string :: { k in b } k in b && !meta(k) && (if b[k] is One then r == b[k].(One).Node else b[k] is Many && len(b[k].(Many)) == 1 && r == b[k].(Many)[0]));
  inv for (c Children, v visited): c != nil ==> (exists k string :: { k in b } k in v && k in b && !meta(k) && b[k] == c);
}
