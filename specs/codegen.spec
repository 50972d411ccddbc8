package codegen;

// ---------------------------------------------------------------- grammars as Go source

// The text of a node is its name and its children, by its scope (0: none, 1: (…), 2: {…}, 3: after a colon).

rec fn printed(n GoNode) string fuel 2 =
  n.name + (if n.scope == 1 then "(" else if n.scope == 2 then "{" else if n.scope == 3 then ":" else "") +
  strings.Join(kidTexts(n.children), ",\n") + (if n.scope == 1 then ")" else if n.scope == 2 then "}" else "");
opaque fn kidTexts(ns []GoNode) []string = seq(k, len(ns), printed(ns[k]));
lemma kid_texts(cs []string, ns []GoNode) : { strings.Join(cs, ",\n"), kidTexts(ns) }
  len(cs) == len(ns) && (forall k int :: { cs[k] } 0 <= k && k < len(cs) ==> cs[k] == printed(ns[k])) ==> cs == kidTexts(ns);
func (*GoNode).String(g)(r) {
  ensures [C20, text] r == printed(*g);
  inv for (cs []string, i idx): len(cs) == i && (forall k int :: { cs[k] } 0 <= k && k < i ==> cs[k] == printed(g.children[k]));
}

// a string that can stand between backquotes, once its own are taken out
fn rawable(s string) bool = !strings.ContainsAny(s, "\r\x00\ufeff") && utf8.ValidString(s);
// head(s): the string in quotes, one way or another
fn wrapped(name string, head string, s string, tail string) bool =
  rawable(s) && name == head + "`" + strings.ReplaceAll(s, "`", "`+\"`\"+`") + "`" + tail || name == head + strconv.Quote(s) + tail;
// the same for the name of a rule, term or reference: words
fn titled(name string, head string, s string, tail string) bool = name == head + "`" + s + "`" + tail || wrapped(name, head, s, tail);

fn bare(n GoNode) bool = n.scope == 0 && len(n.children) == 0;
fn calls(n GoNode, k int) bool = n.scope == 1 && len(n.children) == k;
fn fields(n GoNode, k int) bool = n.scope == 2 && len(n.children) == k;

// n, whose name starts with p, is the Go expression of t
rec fn means(n GoNode, p string, t parser.Term) bool fuel 2 =
  if t is parser.S then bare(n) && wrapped(n.name, p + "parser.S(", string(t.(parser.S)), ")")
  else if t is parser.RE then bare(n) && wrapped(n.name, p + "parser.RE(", string(t.(parser.RE)), ")")
  else if t is parser.ExtRef then bare(n) && titled(n.name, p + "parser.ExtRef(", string(t.(parser.ExtRef)), ")")
  else if t is parser.Rule then bare(n) && (if strings.Contains(string(t.(parser.Rule)), "@") then n.name == p + "parser.At" else titled(n.name, p + "parser.Rule(", string(t.(parser.Rule)), ")"))
  else if t is parser.Seq then n.name == p + "parser.Seq" && n.scope == 2 && meansAll(n.children, t.(parser.Seq))
  else if t is parser.Oneof then n.name == p + "parser.Oneof" && n.scope == 2 && meansAll(n.children, t.(parser.Oneof))
  else if t is parser.Stack then n.name == p + "parser.Stack" && n.scope == 2 && meansAll(n.children, t.(parser.Stack))
  else if t is parser.Delim then n.name == p + "parser.Delim" && n.scope == 2 && len(n.children) == delimSize(t.(parser.Delim)) &&
    means(n.children[0], "Term: ", t.(parser.Delim).Term) && means(n.children[1], "Sep: ", t.(parser.Delim).Sep) && delimFlags(n.children, t.(parser.Delim))
  else if t is parser.Quant then
    n.name == p + "parser.Any" && calls(n, 1) && means(n.children[0], "", t.(parser.Quant).Term) && t.(parser.Quant).Min == 0 && t.(parser.Quant).Max == 0 ||
    n.name == p + "parser.Some" && calls(n, 1) && means(n.children[0], "", t.(parser.Quant).Term) && t.(parser.Quant).Min == 1 && t.(parser.Quant).Max == 0 ||
    n.name == p + "parser.Opt" && calls(n, 1) && means(n.children[0], "", t.(parser.Quant).Term) && t.(parser.Quant).Min == 0 && t.(parser.Quant).Max == 1 ||
    n.name == p + "parser.Quant" && fields(n, 3) && means(n.children[0], "Term: ", t.(parser.Quant).Term) &&
      bare(n.children[1]) && n.children[1].name == "Min: " + strconv.Itoa(t.(parser.Quant).Min) && bare(n.children[2]) && n.children[2].name == "Max: " + strconv.Itoa(t.(parser.Quant).Max)
  else if t is parser.Named then n.name == p + "parser.Eq" && calls(n, 2) && bare(n.children[0]) && titled(n.children[0].name, "", t.(parser.Named).Name, "") && means(n.children[1], "", t.(parser.Named).Term)
  else if t is parser.ScopedGrammar then n.name == p + "parser.ScopedGrammar" && fields(n, 2) && means(n.children[0], "Term: ", t.(parser.ScopedGrammar).Term) && meansG(n.children[1], "Grammar: ", t.(parser.ScopedGrammar).Grammar)
  else if t is parser.REF then n.name == p + "parser.REF" && n.scope == 2 && len(n.children) == (if t.(parser.REF).Default == nil then 1 else 2) &&
    bare(n.children[0]) && titled(n.children[0].name, "Ident: ", t.(parser.REF).Ident, "") && (t.(parser.REF).Default != nil ==> means(n.children[1], "Default: ", t.(parser.REF).Default))
  else if t is parser.CutPoint then n.name == p + "parser.CutPoint" && fields(n, 1) && means(n.children[0], "", t.(parser.CutPoint).Term)
  else if t is parser.LookAhead then n.name == p + "parser.LookAhead" && fields(n, 1) && means(n.children[0], "", t.(parser.LookAhead).Term)
  else false;
fn meansAll(ns []GoNode, ts []parser.Term) bool = len(ns) == len(ts) && (forall i int :: { ns[i] } { ts[i] } 0 <= i && i < len(ts) ==> means(ns[i], "", ts[i]));
fn unit(b bool) int = if b then 1 else 0;
fn delimSize(d parser.Delim) int = 2 + unit(d.CanStartWithSep) + unit(d.CanEndWithSep) + unit(d.Assoc == parser.LeftToRight || d.Assoc == parser.RightToLeft);
fn flag(n GoNode, s string) bool = bare(n) && n.name == s;
fn delimFlags(ns []GoNode, d parser.Delim) bool =
  (d.CanStartWithSep ==> flag(ns[2], "CanStartWithSep: true")) && (d.CanEndWithSep ==> flag(ns[2 + unit(d.CanStartWithSep)], "CanEndWithSep: true")) &&
  (d.Assoc == parser.LeftToRight ==> flag(ns[2 + unit(d.CanStartWithSep) + unit(d.CanEndWithSep)], "Assoc: parser.LeftToRight")) &&
  (d.Assoc == parser.RightToLeft ==> flag(ns[2 + unit(d.CanStartWithSep) + unit(d.CanEndWithSep)], "Assoc: parser.RightToLeft"));

// Levels of a rule: the rule itself, rule@1, rule@2 and so on. A grammar is leveled if it has no other names with an @.
fn at(s string) bool = strings.Contains(s, "@");
fn stage(q string, k int) string = if k == 0 then q else q + "@" + strconv.Itoa(k);
fn base(s string) string = strings.Split(s, "@")[0];
fn nth(s string) int;
axiom split_some(s string) because "strings.Split gives at least one piece": { strings.Split(s, "@") } len(strings.Split(s, "@")) >= 1;
axiom stage_at(q string, k int) because "numerals contain no @": { q + "@" + strconv.Itoa(k) } at(q + "@" + strconv.Itoa(k)) && (!at(q) ==> base(q + "@" + strconv.Itoa(k)) == q && nth(q + "@" + strconv.Itoa(k)) == k);
fn orderly(g parser.Grammar, r string) bool = nth(r) >= 1 && r == stage(base(r), nth(r)) && !at(base(r)) && parser.Rule(base(r)) in g && parser.Rule(stage(base(r), nth(r) - 1)) in g;
opaque fn leveled(g parser.Grammar) bool = forall r parser.Rule :: { r in g } r in g && at(string(r)) ==> orderly(g, string(r));
lemma leveled_has(g parser.Grammar, r parser.Rule) : { leveled(g), r in g } leveled(g) && r in g && at(string(r)) ==> orderly(g, string(r));
lemma contiguous(g parser.Grammar, q string, k int, m int) induct k : { leveled(g), parser.Rule(q + "@" + strconv.Itoa(k)) in g, parser.Rule(q + "@" + strconv.Itoa(m)) in g }
  leveled(g) && !at(q) && 1 <= m && m <= k && parser.Rule(q + "@" + strconv.Itoa(k)) in g ==> parser.Rule(q + "@" + strconv.Itoa(m)) in g;

// what stands in quotes
fn unquoted(s string) string;
axiom unquoted_plain(s string) because "the name of a rule needs no escapes": { "\"" + s + "\"" } unquoted("\"" + s + "\"") == s;
axiom unquoted_quote(s string) because "strconv.Quote": { strconv.Quote(s) } unquoted(strconv.Quote(s)) == s;
fn title(n GoNode) string = unquoted(n.name);

opaque fn stagesTo(cs []GoNode, n int, r string, g parser.Grammar) bool =
  forall k int :: { cs[k] } 0 <= k && k < n ==> parser.Rule(stage(r, k)) in g && means(cs[k], "", g[parser.Rule(stage(r, k))]);
lemma stagesTo_one(cs []GoNode, r string, g parser.Grammar) : { stagesTo(cs, 1, r, g) } parser.Rule(r) in g && means(cs[0], "", g[parser.Rule(r)]) ==> stagesTo(cs, 1, r, g);
lemma stagesTo_push(cs []GoNode, c GoNode, n int, m int, r string, g parser.Grammar) : { stagesTo(cs, n, r, g), stagesTo(push(cs, c), m, r, g) }
  stagesTo(cs, n, r, g) && 0 < n && n == len(cs) && m == n + 1 && parser.Rule(r + "@" + strconv.Itoa(n)) in g && means(c, "", g[parser.Rule(r + "@" + strconv.Itoa(n))]) ==> stagesTo(push(cs, c), m, r, g);
rec fn stages(cs []GoNode, r string, g parser.Grammar) bool fuel 1 = stagesTo(cs, len(cs), r, g) && !(parser.Rule(stage(r, len(cs))) in g);
fn article(n GoNode, g parser.Grammar) bool = n.scope == 3 && len(n.children) == 1 && parser.Rule(title(n)) in g && !at(title(n)) &&
  (if parser.Rule(stage(title(n), 1)) in g then n.children[0].name == "parser.Stack" && n.children[0].scope == 2 && stages(n.children[0].children, title(n), g)
   else means(n.children[0], "", g[parser.Rule(title(n))]));
// one of the first n is that of rule r
opaque fn titles(cs []GoNode, n int, r string) bool = exists i int :: { cs[i] } 0 <= i && i < n && title(cs[i]) == r;
lemma titles_none(cs []GoNode, n int, r string) : { titles(cs, n, r) } n <= 0 ==> !titles(cs, n, r);
lemma titles_same(a []GoNode, b []GoNode, n int, s string) : { titles(a, n, s), titles(b, n, s) } (forall i int :: { a[i] } { b[i] } 0 <= i && i < n ==> a[i] == b[i]) ==> titles(a, n, s) == titles(b, n, s);
lemma titles_step(cs []GoNode, i int, j int, s string) : { titles(cs, i, s), titles(cs, j, s) } 0 <= i && j == i + 1 ==> titles(cs, j, s) == (titles(cs, i, s) || title(cs[i]) == s);
lemma titles_push(cs []GoNode, c GoNode, r string) : { titles(push(cs, c), len(push(cs, c)), r) } titles(push(cs, c), len(push(cs, c)), r) == (titles(cs, len(cs), r) || title(c) == r) && titles(push(cs, c), len(cs), r) == titles(cs, len(cs), r);
fn distinctly(cs []GoNode) bool = forall i int, j int :: { cs[i], cs[j] } 0 <= i && i < j && j < len(cs) ==> title(cs[i]) != title(cs[j]);
opaque fn listing(cs []GoNode, g parser.Grammar) bool = (forall i int :: { cs[i] } 0 <= i && i < len(cs) ==> article(cs[i], g)) &&
  distinctly(cs) && (forall r parser.Rule :: { r in g } r in g && !at(string(r)) ==> titles(cs, len(cs), string(r)));
lemma listing_is(cs []GoNode, g parser.Grammar) : { listing(cs, g) } (forall i int :: { cs[i] } 0 <= i && i < len(cs) ==> article(cs[i], g)) &&
  distinctly(cs) && (forall r parser.Rule :: { r in g } r in g && !at(string(r)) ==> titles(cs, len(cs), string(r))) ==> listing(cs, g);
rec fn meansG(n GoNode, p string, g parser.Grammar) bool fuel 1 = leveled(g) ==> n.name == p + "parser.Grammar" && n.scope == 2 && listing(n.children, g);

lemma means_prefix(m GoNode, n GoNode, p string, t parser.Term) : { means(m, "", t), means(n, p, t) }
  means(m, "", t) && n.name == p + m.name && n.children == m.children && n.scope == m.scope ==> means(n, p, t);
lemma meansG_prefix(m GoNode, n GoNode, p string, g parser.Grammar) : { meansG(m, "", g), meansG(n, p, g) }
  meansG(m, "", g) && n.name == p + m.name && n.children == m.children && n.scope == m.scope ==> meansG(n, p, g);
func walkTerm(term)(n) {
  ensures [C20, means] means(n, "", term);
  inv for (n GoNode, i idx): n.scope == 2 && len(n.children) == i;
  inv for (n GoNode, i idx): n.name == "parser.Seq" && term is parser.Seq && (forall k int :: { n.children[k] } 0 <= k && k < i ==> means(n.children[k], "", term.(parser.Seq)[k]));
  inv for (n GoNode, i idx): n.name == "parser.Oneof" && term is parser.Oneof && (forall k int :: { n.children[k] } 0 <= k && k < i ==> means(n.children[k], "", term.(parser.Oneof)[k]));
  inv for (n GoNode, i idx): n.name == "parser.Stack" && term is parser.Stack && (forall k int :: { n.children[k] } 0 <= k && k < i ==> means(n.children[k], "", term.(parser.Stack)[k]));
}

// the order of strings
fn sless(a string, b string) bool;
axiom sless_asym(a string, b string) because "an order": { sless(a, b), sless(b, a) } !(sless(a, b) && sless(b, a));
axiom sless_more(a string, b string) because "a string comes before what it begins": { sless(a, a + "@" + b) } { a + "@" + b } sless(a, a + "@" + b);
opaque fn amid(ks []string, n int, s string) bool = exists i int :: { ks[i] } 0 <= i && i < n && ks[i] == s;
lemma amid_none(ks []string, n int, s string) : { amid(ks, n, s) } n <= 0 ==> !amid(ks, n, s);
lemma amid_step(ks []string, i int, j int, s string) : { amid(ks, i, s), amid(ks, j, s) } 0 <= i && j == i + 1 ==> amid(ks, j, s) == (amid(ks, i, s) || ks[i] == s);
lemma amid_at(ks []string, i int) : { ks[i] } 0 <= i && i < len(ks) ==> amid(ks, len(ks), ks[i]);
lemma amid_same(a []string, b []string, n int, s string) : { amid(a, n, s), amid(b, n, s) } (forall i int :: { a[i] } { b[i] } 0 <= i && i < n ==> a[i] == b[i]) ==> amid(a, n, s) == amid(b, n, s);
lemma amid_push(ks []string, k string, s string) : { amid(push(ks, k), len(push(ks, k)), s) } amid(push(ks, k), len(push(ks, k)), s) == (amid(ks, len(ks), s) || k == s) && amid(push(ks, k), len(ks), s) == amid(ks, len(ks), s);
fn discrete(ks []string) bool = forall i int, j int :: { ks[i], ks[j] } 0 <= i && i < j && j < len(ks) ==> ks[i] != ks[j];
opaque fn rising(ks []string) bool = forall i int, j int :: { ks[i], ks[j] } 0 <= i && i < j && j < len(ks) ==> sless(ks[i], ks[j]);
// in increasing order, a name that comes before the i-th is among the first i, and the i-th is not
lemma rising_new(ks []string, i int) : { rising(ks), amid(ks, i, ks[i]) } rising(ks) && 0 <= i && i < len(ks) ==> !amid(ks, i, ks[i]);
lemma rising_before(ks []string, i int, s string) : { rising(ks), amid(ks, len(ks), s), amid(ks, i, s), ks[i] } rising(ks) && 0 <= i && i < len(ks) && amid(ks, len(ks), s) && sless(s, ks[i]) ==> amid(ks, i, s);
extern sort.Strings(x)() {
  mutates x;
  ensures len(x) == len(old(x));
  ensures forall s string :: { amid(x, len(x), s) } { amid(old(x), len(x), s) } amid(x, len(x), s) == amid(old(x), len(x), s);
  ensures discrete(old(x)) ==> rising(x);
}

func MakeGrammarString(g)(r) {
  option allocates;
  ensures [C20, not nil] r != nil;
  ensures [C20, means] meansG(*r, "", g);
  inv for (ks []string, v visited): forall s parser.Rule :: { s in v } { amid(ks, len(ks), string(s)) } amid(ks, len(ks), string(s)) <==> s in v;
  inv for (ks []string): discrete(ks);
  inv for (ks []string): forall s parser.Rule :: { s in g } { amid(ks, len(ks), string(s)) } amid(ks, len(ks), string(s)) <==> s in g;
  inv for (ks []string): rising(ks);
  inv for (rs map[string]GoNode, v visited): forall s string :: { s in rs } { parser.Rule(s) in v } (s in rs <==> parser.Rule(s) in v) && (s in rs ==> means(rs[s], "", g[parser.Rule(s)]));
  inv for (ps frozen.Set[string], v visited): forall s parser.Rule :: { s in v } { base(string(s)) } s in v && at(string(s)) ==> base(string(s)) in ps;
  inv for (ps frozen.Set[string]): leveled(g) ==> (forall s string :: { s in ps } s in ps ==> !at(s) && parser.Rule(s + "@" + strconv.Itoa(1)) in g);
  inv for (ps frozen.Set[string]): forall s parser.Rule :: { s in g } { base(string(s)) } s in g && at(string(s)) ==> base(string(s)) in ps;
  inv for (rs map[string]GoNode, ks []string, i idx): leveled(g) ==> (forall s string :: { s in rs } { parser.Rule(s) in g } (s in rs <==> parser.Rule(s) in g && !(at(s) && amid(ks, i, base(s)))));
  inv for (rs map[string]GoNode): forall s string :: { rs[s] } { s in rs } s in rs ==> means(rs[s], "", g[parser.Rule(s)]);
  inv for (n GoNode): n.name == "parser.Grammar" && n.scope == 2;
  inv for (n GoNode): n.name == "parser.Stack" && n.scope == 2;
  inv for (n GoNode): leveled(g) ==> (forall i int :: { n.children[i] } 0 <= i && i < len(n.children) ==> n.children[i].scope == 3 && len(n.children[i].children) == 1 && parser.Rule(title(n.children[i])) in g);
  inv for (n GoNode): leveled(g) ==> (forall i int :: { n.children[i] } 0 <= i && i < len(n.children) ==> !at(title(n.children[i])));
  inv for (n GoNode): leveled(g) ==> (forall i int :: { n.children[i] } 0 <= i && i < len(n.children) && !(parser.Rule(stage(title(n.children[i]), 1)) in g) ==> means(n.children[i].children[0], "", g[parser.Rule(title(n.children[i]))]));
  inv for (n GoNode): leveled(g) ==> (forall i int :: { n.children[i] } 0 <= i && i < len(n.children) && parser.Rule(stage(title(n.children[i]), 1)) in g ==> n.children[i].children[0].name == "parser.Stack" && n.children[i].children[0].scope == 2);
  inv for (n GoNode): leveled(g) ==> (forall i int :: { n.children[i] } 0 <= i && i < len(n.children) && parser.Rule(stage(title(n.children[i]), 1)) in g ==> stages(n.children[i].children[0].children, title(n.children[i]), g));
  inv for (n GoNode, ks []string, i idx): leveled(g) ==> (forall k int :: { n.children[k] } 0 <= k && k < len(n.children) ==> amid(ks, i, title(n.children[k])));
  inv for (n GoNode): leveled(g) ==> distinctly(n.children);
  inv for (n GoNode, ks []string, i idx): leveled(g) ==> (forall s string :: { amid(ks, i, s) } { titles(n.children, len(n.children), s) } amid(ks, i, s) && !at(s) ==> titles(n.children, len(n.children), s));
  inv for (n GoNode, i int, r string): len(n.children) == i && i >= 1;
  inv for (n GoNode, i int, r string): leveled(g) ==> stagesTo(n.children, i, r, g);
  inv for (rs map[string]GoNode, ks []string, j idx, k int, r string): leveled(g) ==> (forall s string :: { s in rs } { parser.Rule(s) in g } (s in rs <==> parser.Rule(s) in g && !(at(s) && amid(ks, j, base(s))) && !(at(s) && base(s) == r && nth(s) < k)));
}
