package wbnf;

// ---------------------------------------------------------------- quoted literals

fn digit(c int) int = if 48 <= c && c <= 57 then c - 48 else if 97 <= c && c <= 102 then c - 87 else if 65 <= c && c <= 70 then c - 55 else 99;
// the number the digits of s spell, and whether they are all digits
rec fn numeral(s string, base int) int fuel 9 = if len(s) <= 0 then 0 else numeral(s[0:len(s)-1], base) * base + digit(s[len(s)-1]);
fn digits(s string, base int) bool = len(s) > 0 && (forall j int :: { s[j] } 0 <= j && j < len(s) ==> digit(s[j]) < base);

lemma numeral2(s string) : { numeral(s, 16) } digits(s, 16) && len(s) == 2 ==> numeral(s, 16) < 256;
lemma numeral4(s string) : { numeral(s, 16) } digits(s, 16) && len(s) == 4 ==> numeral(s, 16) < 65536;
lemma numeral8(s string) : { numeral(s, 16) } digits(s, 16) && len(s) == 8 ==> numeral(s, 16) < 4294967296;
extern strconv.ParseUint(s, base, bits)(n, err) {
  ensures base == 8 || base == 16 ==> (err == nil) == (digits(s, base) && numeral(s, base) < (if bits == 8 then 256 else if bits == 16 then 65536 else if bits == 32 then 4294967296 else 18446744073709551616));
  ensures (base == 8 || base == 16) && err == nil ==> n == numeral(s, base);
}

// the escape that starts at i (where the backslash is): its length, whether it is one, and what it spells
fn escLen(s string, i int) int = if s[i+1] == 120 then 4 else if s[i+1] == 117 then 6 else if s[i+1] == 85 then 10 else if 48 <= s[i+1] && s[i+1] <= 55 then 4 else 2;
fn simpleEsc(c int) int =
  if c == 97 then 7 else if c == 98 then 8 else if c == 102 then 12 else if c == 110 then 10 else if c == 114 then 13 else if c == 116 then 9 else if c == 118 then 11
  else if c == 92 || c == 39 || c == 34 then c else 0-1;
fn isEsc(s string, i int) bool = i + 1 < len(s) && i + escLen(s, i) <= len(s) &&
  (if s[i+1] == 120 then digits(s[i+2:i+4], 16)
   else if s[i+1] == 117 then digits(s[i+2:i+6], 16)
   else if s[i+1] == 85 then digits(s[i+2:i+10], 16)
   else if 48 <= s[i+1] && s[i+1] <= 55 then digits(s[i+1:i+4], 8) && s[i+1] <= 51
   else simpleEsc(s[i+1]) >= 0);
fn escText(s string, i int) string =
  if s[i+1] == 120 then bytestr(numeral(s[i+2:i+4], 16))
  else if s[i+1] == 117 then runestr(numeral(s[i+2:i+6], 16))
  else if s[i+1] == 85 then runestr(numeral(s[i+2:i+10], 16))
  else if 48 <= s[i+1] && s[i+1] <= 55 then bytestr(numeral(s[i+1:i+4], 8))
  else bytestr(simpleEsc(s[i+1]));
// the text that s spells from i on
rec fn spells(s string, i int) string fuel 3 =
  if i >= len(s) then "" else if s[i] != 92 then s[i:i+1] + spells(s, i + 1) else escText(s, i) + spells(s, i + escLen(s, i));
rec fn escaped(s string, i int) bool fuel 3 =
  if i >= len(s) then true else if s[i] != 92 then escaped(s, i + 1) else isEsc(s, i) && escaped(s, i + escLen(s, i));

fn body(s string) string = s[1:len(s)-1];
func parseString(s)(r) {
  ensures [C15, plain] s[0] != 96 ==> r == spells(body(s), 0);
  ensures [C15, raw] s[0] == 96 ==> r == strings.ReplaceAll(body(s), "``", "`");
  safe [C15] if len(s) >= 2 && (s[0] == 96 || escaped(body(s), 0));
  inv for (b string, i int): 0 <= i;
  inv for (b strings.Builder, i int): b + spells(body(s), i) == spells(body(s), 0);
  inv for (i int): escaped(body(s), 0) ==> escaped(body(s), i);
}

// ---------------------------------------------------------------- commit points

// how often a literal occurs in a term; the separator of a list that may start or end with it counts twice
rec fn occ(t parser.Term, s string) int fuel 2 =
  if t is parser.S then (if string(t.(parser.S)) == s then 1 else 0)
  else if t is parser.Seq then occs(t.(parser.Seq), len(t.(parser.Seq)), s)
  else if t is parser.Stack then occs(t.(parser.Stack), len(t.(parser.Stack)), s)
  else if t is parser.Oneof then occs(t.(parser.Oneof), len(t.(parser.Oneof)), s)
  else if t is parser.Delim then occ(t.(parser.Delim).Term, s) + occ(t.(parser.Delim).Sep, s) +
     (if t.(parser.Delim).CanStartWithSep || t.(parser.Delim).CanEndWithSep then occ(t.(parser.Delim).Sep, s) else 0)
  else if t is parser.Quant then occ(t.(parser.Quant).Term, s)
  else if t is parser.Named then occ(t.(parser.Named).Term, s)
  else if t is parser.ScopedGrammar then occ(t.(parser.ScopedGrammar).Term, s) + total(t.(parser.ScopedGrammar).Grammar, s)
  else if t is parser.REF then occ(t.(parser.REF).Default, s)
  else if t is parser.CutPoint then occ(t.(parser.CutPoint).Term, s)
  else if t is parser.LookAhead then occ(t.(parser.LookAhead).Term, s)
  else 0;
rec fn occs(ts []parser.Term, n int, s string) int fuel 2 = if n <= 0 then 0 else occs(ts, n - 1, s) + occ(ts[n-1], s);
// the sum over the rules of a grammar (of those in v): a finite sum in any order
fn total(g parser.Grammar, s string) int;
fn partial(g parser.Grammar, v frozen.Set[parser.Rule], s string) int;
axiom partial_none(g parser.Grammar, v frozen.Set[parser.Rule], s string) because "the empty sum": { partial(g, v, s) } (forall k parser.Rule :: { k in v } !(k in v)) ==> partial(g, v, s) == 0;
axiom partial_one(g parser.Grammar, v frozen.Set[parser.Rule], k parser.Rule, s string) because "a sum, one more": { partial(g, with(v, k), s) } !(k in v) ==> partial(g, with(v, k), s) == partial(g, v, s) + occ(g[k], s);
axiom partial_all(g parser.Grammar, v frozen.Set[parser.Rule], s string) because "the sum over all": { partial(g, v, s), total(g, s) } (forall k parser.Rule :: { k in v } k in v <==> k in g) ==> partial(g, v, s) == total(g, s);

fn count(m frozen.Map[string, int], s string) int = if s in m then m[s] else 0;
closure in findUniqueStrings sig func(parser.Term) frozen.Map[string, int] (t)(r) {
  ensures [C14, count] forall s string :: { s in r } { occ(t, s) } count(r, s) == occ(t, s);
  inv for (m frozen.Map[string, int], i idx): forall s string :: { s in m } count(m, s) == occs(t.(parser.Seq), i, s);
  inv for (m frozen.Map[string, int], i idx): forall s string :: { s in m } count(m, s) == occs(t.(parser.Stack), i, s);
  inv for (m frozen.Map[string, int], i idx): forall s string :: { s in m } count(m, s) == occs(t.(parser.Oneof), i, s);
  inv for (m frozen.Map[string, int], v visited): forall s string :: { s in m } count(m, s) == occ(t.(parser.ScopedGrammar).Term, s) + partial(t.(parser.ScopedGrammar).Grammar, v, s);
}
func findUniqueStrings(g)(r) {
  frame [C12];
  ensures [C14, once] forall s string :: { s in r } s in r <==> total(g, s) == 1;
  inv for (m frozen.Map[string, int], v visited): forall s string :: { s in m } count(m, s) == partial(g, v, s);
}

// r is t rebuilt from the bottom up with f applied to the parts
rec fn mapped(r parser.Term, t parser.Term, f func(parser.Term) parser.Term) bool fuel 2 =
  if t is parser.Seq then r is parser.Seq && len(r.(parser.Seq)) == len(t.(parser.Seq)) &&
     (forall i int :: { t.(parser.Seq)[i] } { r.(parser.Seq)[i] } 0 <= i && i < len(t.(parser.Seq)) ==> mapped(r.(parser.Seq)[i], t.(parser.Seq)[i], f))
  else if t is parser.Stack then r is parser.Stack && len(r.(parser.Stack)) == len(t.(parser.Stack)) &&
     (forall i int :: { t.(parser.Stack)[i] } { r.(parser.Stack)[i] } 0 <= i && i < len(t.(parser.Stack)) ==> mapped(r.(parser.Stack)[i], t.(parser.Stack)[i], f))
  else if t is parser.Oneof then r is parser.Oneof && len(r.(parser.Oneof)) == len(t.(parser.Oneof)) &&
     (forall i int :: { t.(parser.Oneof)[i] } { r.(parser.Oneof)[i] } 0 <= i && i < len(t.(parser.Oneof)) ==> mapped(r.(parser.Oneof)[i], t.(parser.Oneof)[i], f))
  else if t is parser.Delim then r is parser.Delim && mapped(r.(parser.Delim).Term, t.(parser.Delim).Term, f) && mapped(r.(parser.Delim).Sep, t.(parser.Delim).Sep, f) &&
     r.(parser.Delim).Assoc == t.(parser.Delim).Assoc && r.(parser.Delim).CanStartWithSep == t.(parser.Delim).CanStartWithSep && r.(parser.Delim).CanEndWithSep == t.(parser.Delim).CanEndWithSep
  else if t is parser.Quant then r is parser.Quant && mapped(r.(parser.Quant).Term, t.(parser.Quant).Term, f) && r.(parser.Quant).Min == t.(parser.Quant).Min && r.(parser.Quant).Max == t.(parser.Quant).Max
  else if t is parser.Named then r is parser.Named && mapped(r.(parser.Named).Term, t.(parser.Named).Term, f) && r.(parser.Named).Name == t.(parser.Named).Name
  else if t is parser.CutPoint then r is parser.CutPoint && mapped(r.(parser.CutPoint).Term, t.(parser.CutPoint).Term, f)
  else if t is parser.ScopedGrammar then (exists m parser.Term :: mapped(m, t.(parser.ScopedGrammar).Term, f) &&
     r == f(parser.ScopedGrammar{Term: m, Grammar: t.(parser.ScopedGrammar).Grammar}))
  else r == f(t);
// f only changes terms without parts, and nested grammars
fn leaf(t parser.Term) bool = !(t is parser.Seq || t is parser.Stack || t is parser.Oneof || t is parser.Delim || t is parser.Quant || t is parser.Named || t is parser.CutPoint);
func fixTerm(term, callback)(r) {
  frame [C12];
  requires forall t parser.Term :: { callback(t) } !leaf(t) ==> callback(t) == t;
  ensures [C14, C16] mapped(r, term, callback);
  inv for (s parser.Seq, i idx): len(s) == i && (forall k int :: { s[k] } 0 <= k && k < i ==> mapped(s[k], term.(parser.Seq)[k], callback));
  inv for (s parser.Stack, i idx): len(s) == i && (forall k int :: { s[k] } 0 <= k && k < i ==> mapped(s[k], term.(parser.Stack)[k], callback));
  inv for (s parser.Oneof, i idx): len(s) == i && (forall k int :: { s[k] } 0 <= k && k < i ==> mapped(s[k], term.(parser.Oneof)[k], callback));
}
func rebuildGrammar(input, callback)(r) {
  frame [C12];
  fresh;
  requires forall t parser.Term :: { callback(t) } !leaf(t) ==> callback(t) == t;
  ensures [C14, C16] forall k parser.Rule :: { k in r } { r[k] } { k in input } { input[k] } if k in input then k in r && mapped(r[k], input[k], callback) else !(k in r);
  inv for (c parser.Grammar, v visited): forall k parser.Rule :: { k in c } { c[k] } { k in v } (k in c <==> k in v) && (k in v ==> k in input && mapped(c[k], input[k], callback));
}

// r is t with the literals that occur once in g wrapped as commit points, and not changed otherwise
rec fn cutIn(r parser.Term, t parser.Term, g parser.Grammar) bool fuel 2 =
  if t is parser.S then (if total(g, string(t.(parser.S))) == 1 then r == parser.Term(parser.CutPoint{Term: t}) else r == t)
  else if t is parser.Seq then r is parser.Seq && len(r.(parser.Seq)) == len(t.(parser.Seq)) &&
     (forall i int :: { t.(parser.Seq)[i] } { r.(parser.Seq)[i] } 0 <= i && i < len(t.(parser.Seq)) ==> cutIn(r.(parser.Seq)[i], t.(parser.Seq)[i], g))
  else if t is parser.Stack then r is parser.Stack && len(r.(parser.Stack)) == len(t.(parser.Stack)) &&
     (forall i int :: { t.(parser.Stack)[i] } { r.(parser.Stack)[i] } 0 <= i && i < len(t.(parser.Stack)) ==> cutIn(r.(parser.Stack)[i], t.(parser.Stack)[i], g))
  else if t is parser.Oneof then r is parser.Oneof && len(r.(parser.Oneof)) == len(t.(parser.Oneof)) &&
     (forall i int :: { t.(parser.Oneof)[i] } { r.(parser.Oneof)[i] } 0 <= i && i < len(t.(parser.Oneof)) ==> cutIn(r.(parser.Oneof)[i], t.(parser.Oneof)[i], g))
  else if t is parser.Delim then r is parser.Delim && cutIn(r.(parser.Delim).Term, t.(parser.Delim).Term, g) && cutIn(r.(parser.Delim).Sep, t.(parser.Delim).Sep, g) &&
     r.(parser.Delim).Assoc == t.(parser.Delim).Assoc && r.(parser.Delim).CanStartWithSep == t.(parser.Delim).CanStartWithSep && r.(parser.Delim).CanEndWithSep == t.(parser.Delim).CanEndWithSep
  else if t is parser.Quant then r is parser.Quant && cutIn(r.(parser.Quant).Term, t.(parser.Quant).Term, g) && r.(parser.Quant).Min == t.(parser.Quant).Min && r.(parser.Quant).Max == t.(parser.Quant).Max
  else if t is parser.Named then r is parser.Named && cutIn(r.(parser.Named).Term, t.(parser.Named).Term, g) && r.(parser.Named).Name == t.(parser.Named).Name
  else if t is parser.CutPoint then r is parser.CutPoint && cutIn(r.(parser.CutPoint).Term, t.(parser.CutPoint).Term, g)
  else if t is parser.ScopedGrammar then r is parser.ScopedGrammar && cutIn(r.(parser.ScopedGrammar).Term, t.(parser.ScopedGrammar).Term, g) && cutRules(r.(parser.ScopedGrammar).Grammar, t.(parser.ScopedGrammar).Grammar, g)
  else r == t;
fn cutRules(r parser.Grammar, h parser.Grammar, g parser.Grammar) bool =
  forall k parser.Rule :: { k in r } { r[k] } { k in h } { h[k] } if k in h then k in r && cutIn(r[k], h[k], g) else !(k in r);
// what is done with one term without parts, or a nested grammar whose term is done
fn cutOne(r parser.Term, t parser.Term, g parser.Grammar) bool =
  if t is parser.S then (if total(g, string(t.(parser.S))) == 1 then r == parser.Term(parser.CutPoint{Term: t}) else r == t)
  else if t is parser.ScopedGrammar then r is parser.ScopedGrammar && r.(parser.ScopedGrammar).Term == t.(parser.ScopedGrammar).Term && cutRules(r.(parser.ScopedGrammar).Grammar, t.(parser.ScopedGrammar).Grammar, g)
  else r == t;
lemma mapped_cut(r parser.Term, t parser.Term, f func(parser.Term) parser.Term, g parser.Grammar) induct t : { mapped(r, t, f), cutIn(r, t, g) }
  (forall x parser.Term :: { f(x) } cutOne(f(x), x, g)) && mapped(r, t, f) ==> cutIn(r, t, g);
closure in insertCutPoints sig func(parser.Term) parser.Term (t)(r) {
  ensures [C14, one] cutOne(r, t, g);
}
func insertCutPoints(g)(r) {
  frame [C12];
  ensures [C14, wrapped] cutRules(r, g, g);
}
