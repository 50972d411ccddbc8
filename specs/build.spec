package wbnf;

// What the syntax tree of a grammar text means. The tree is read through the queries of ast.spec; statements hold for
// nodes of the shape that the grammar of grammars gives them.
immutable AtomNode, AtomExtRefNode, GrammarNode, IdentNode, IntNode, MacrocallNode, NamedNode, PragmaMacrodefNode, ProdNode, QuantNode, ReNode, RefNode, StmtNode, StrNode, TermNode;

rec fn below(n ast.Node, name string) ast.Node fuel 1 = if kidCount(n, name) > 0 then kidAt(n, name, 0) else nil;
fn isWord(n ast.Node) bool = n == nil || n is ast.Leaf && proper(parser.Scanner(n.(ast.Leaf)));
rec fn words(n ast.Node) string fuel 1 = if n == nil then "" else said(parser.Scanner(n.(ast.Leaf)));
// the text under a name, directly and as an unnamed part of the child
rec fn hasWord(n ast.Node, name string) bool fuel 1 = isWord(below(n, name));
rec fn word(n ast.Node, name string) string fuel 1 = words(below(n, name));
fn hasTok(n ast.Node, name string) bool = below(n, name) == nil || below(below(n, name), "") != nil && isWord(below(below(n, name), ""));
rec fn tok(n ast.Node, name string) string fuel 1 = if below(n, name) == nil then "" else words(below(below(n, name), ""));

func (TermNode).AllTerm(c)(r) {
  ensures [C16, all] len(r) == kidCount(c.Node, "term") && (forall i int :: { r[i] } { kidAt(c.Node, "term", i) } 0 <= i && i < len(r) ==> r[i].Node == kidAt(c.Node, "term", i));
  inv for (out []TermNode, i idx): len(out) == i && (forall j int :: { out[j] } { kidAt(c.Node, "term", j) } 0 <= j && j < i ==> out[j].Node == kidAt(c.Node, "term", j));
}
func (TermNode).AllGrammar(c)(r) {
  ensures [C16, all] len(r) == kidCount(c.Node, "grammar") && (forall i int :: { r[i] } { kidAt(c.Node, "grammar", i) } 0 <= i && i < len(r) ==> r[i].Node == kidAt(c.Node, "grammar", i));
  inv for (out []GrammarNode, i idx): len(out) == i && (forall j int :: { out[j] } { kidAt(c.Node, "grammar", j) } 0 <= j && j < i ==> out[j].Node == kidAt(c.Node, "grammar", j));
}
func (TermNode).AllQuant(c)(r) {
  ensures [C16, all] len(r) == kidCount(c.Node, "quant") && (forall i int :: { r[i] } { kidAt(c.Node, "quant", i) } 0 <= i && i < len(r) ==> r[i].Node == kidAt(c.Node, "quant", i));
  inv for (out []QuantNode, i idx): len(out) == i && (forall j int :: { out[j] } { kidAt(c.Node, "quant", j) } 0 <= j && j < i ==> out[j].Node == kidAt(c.Node, "quant", j));
}
func (ProdNode).AllTerm(c)(r) {
  ensures [C16, all] len(r) == kidCount(c.Node, "term") && (forall i int :: { r[i] } { kidAt(c.Node, "term", i) } 0 <= i && i < len(r) ==> r[i].Node == kidAt(c.Node, "term", i));
  inv for (out []TermNode, i idx): len(out) == i && (forall j int :: { out[j] } { kidAt(c.Node, "term", j) } 0 <= j && j < i ==> out[j].Node == kidAt(c.Node, "term", j));
}
func (GrammarNode).AllStmt(c)(r) {
  ensures [C16, all] len(r) == kidCount(c.Node, "stmt") && (forall i int :: { r[i] } { kidAt(c.Node, "stmt", i) } 0 <= i && i < len(r) ==> r[i].Node == kidAt(c.Node, "stmt", i));
  inv for (out []StmtNode, i idx): len(out) == i && (forall j int :: { out[j] } { kidAt(c.Node, "stmt", j) } 0 <= j && j < i ==> out[j].Node == kidAt(c.Node, "stmt", j));
}

// the generated readers
func (StmtNode).OneProd(c)(r) { ensures [C16, prod] (r == nil <==> below(c.Node, "prod") == nil) && (r != nil ==> r.Node == below(c.Node, "prod")); }
func (ProdNode).OneIdent(c)(r) { ensures [C16, IDENT] (r == nil <==> below(c.Node, "IDENT") == nil) && (r != nil ==> r.Node == below(c.Node, "IDENT")); }
func (NamedNode).OneIdent(c)(r) { ensures [C16, IDENT] (r == nil <==> below(c.Node, "IDENT") == nil) && (r != nil ==> r.Node == below(c.Node, "IDENT")); }
func (NamedNode).OneAtom(c)(r) { ensures [C16, atom] (r == nil <==> below(c.Node, "atom") == nil) && (r != nil ==> r.Node == below(c.Node, "atom")); }
func (QuantNode).OneMin(c)(r) { ensures [C16, min] (r == nil <==> below(c.Node, "min") == nil) && (r != nil ==> r.Node == below(c.Node, "min")); }
func (QuantNode).OneMax(c)(r) { ensures [C16, max] (r == nil <==> below(c.Node, "max") == nil) && (r != nil ==> r.Node == below(c.Node, "max")); }
func (QuantNode).OneNamed(c)(r) { ensures [C16, named] (r == nil <==> below(c.Node, "named") == nil) && (r != nil ==> r.Node == below(c.Node, "named")); }
func (TermNode).OneNamed(c)(r) { ensures [C16, named] (r == nil <==> below(c.Node, "named") == nil) && (r != nil ==> r.Node == below(c.Node, "named")); }
func (AtomNode).OneIdent(c)(r) { ensures [C16, IDENT] (r == nil <==> below(c.Node, "IDENT") == nil) && (r != nil ==> r.Node == below(c.Node, "IDENT")); }
func (AtomNode).OneRe(c)(r) { ensures [C16, RE] (r == nil <==> below(c.Node, "RE") == nil) && (r != nil ==> r.Node == below(c.Node, "RE")); }
func (AtomNode).OneStr(c)(r) { ensures [C16, STR] (r == nil <==> below(c.Node, "STR") == nil) && (r != nil ==> r.Node == below(c.Node, "STR")); }
func (AtomNode).OneRef(c)(r) { ensures [C16, REF] (r == nil <==> below(c.Node, "REF") == nil) && (r != nil ==> r.Node == below(c.Node, "REF")); }
func (AtomNode).OneExtRef(c)(r) { ensures [C16, ExtRef] (r == nil <==> below(c.Node, "ExtRef") == nil) && (r != nil ==> r.Node == below(c.Node, "ExtRef")); }
func (AtomNode).OneLookahead(c)(r) { ensures [C16, lookahead] (r == nil <==> below(c.Node, "lookahead") == nil) && (r != nil ==> r.Node == below(c.Node, "lookahead")); }
func (AtomNode).OneTerm(c)(r) { ensures [C16, term] (r == nil <==> below(c.Node, "term") == nil) && (r != nil ==> r.Node == below(c.Node, "term")); }
func (AtomNode).OneMacrocall(c)(r) { ensures [C16, macrocall] (r == nil <==> below(c.Node, "macrocall") == nil) && (r != nil ==> r.Node == below(c.Node, "macrocall")); }
func (RefNode).OneIdent(c)(r) { ensures [C16, IDENT] (r == nil <==> below(c.Node, "IDENT") == nil) && (r != nil ==> r.Node == below(c.Node, "IDENT")); }
func (RefNode).OneDefault(c)(r) { ensures [C16, default] (r == nil <==> below(c.Node, "default") == nil) && (r != nil ==> r.Node == below(c.Node, "default")); }
func (AtomExtRefNode).OneIdent(c)(r) { ensures [C16, IDENT] (r == nil <==> below(c.Node, "IDENT") == nil) && (r != nil ==> r.Node == below(c.Node, "IDENT")); }
func (*IdentNode).String(c)(r) { when c == nil || isWord(c.Node); ensures [C16, text] r == (if c == nil then "" else words(c.Node)); }
func (*IntNode).String(c)(r) { when c == nil || isWord(c.Node); ensures [C16, text] r == (if c == nil then "" else words(c.Node)); }
func (*StrNode).String(c)(r) { when c == nil || isWord(c.Node); ensures [C16, text] r == (if c == nil then "" else words(c.Node)); }
func (*ReNode).String(c)(r) { when c == nil || isWord(c.Node); ensures [C16, text] r == (if c == nil then "" else words(c.Node)); }

// ---------------------------------------------------------------- atoms and suffixes

// a quoted literal
fn literal(s string) string = if s[0] == 96 then strings.ReplaceAll(body(s), "``", "`") else spells(body(s), 0);
// a pattern: white space is left out, except where it is written \\_
fn unspaced(s string) string = regexp.MustCompile(`\s`).ReplaceAllString(s, "");
fn respaced(s string) string = regexp.MustCompile(`((?:\A|[^\\])(?:\\\\)*)\\_`).ReplaceAllString(s, "$1 ");
fn unbraced(s string) string = if sprefix(s, "/{") then s[2:len(s)-1] else s;
fn regex(s string) string = unbraced(respaced(respaced(unspaced(s))));
// one kind of atom at most
fn one(n ast.Node, x string) int = if x in n.(ast.Branch) then 1 else 0;
rec fn plain(n ast.Node) bool fuel 1 = n is ast.Branch &&
  one(n, "RE") + one(n, "STR") + one(n, "macrocall") + one(n, "ExtRef") + one(n, "IDENT") + one(n, "REF") + one(n, "lookahead") + one(n, "term") <= 1;
rec fn meansAtom(r parser.Term, n ast.Node, m map[string]PragmaMacrodefNode) bool fuel 2 =
  plain(n) ==>
    (if "IDENT" in n.(ast.Branch) then (hasWord(n, "IDENT") ==> r == parser.Term(parser.Rule(word(n, "IDENT"))))
     else if "STR" in n.(ast.Branch) then (hasWord(n, "STR") ==> r == parser.Term(parser.S(literal(word(n, "STR")))))
     else if "RE" in n.(ast.Branch) then (hasWord(n, "RE") ==> r == parser.Term(parser.RE(regex(word(n, "RE")))))
     else if "REF" in n.(ast.Branch) then (hasWord(below(n, "REF"), "IDENT") && hasWord(below(n, "REF"), "default") ==>
       r is parser.REF && r.(parser.REF).Ident == word(below(n, "REF"), "IDENT") &&
       r.(parser.REF).Default == (if word(below(n, "REF"), "default") == "" then nil else parser.Term(parser.S(literal(word(below(n, "REF"), "default"))))))
     else if "ExtRef" in n.(ast.Branch) then (hasWord(below(n, "ExtRef"), "IDENT") ==> r == parser.Term(parser.ExtRef(word(below(n, "ExtRef"), "IDENT"))))
     else if "lookahead" in n.(ast.Branch) then r is parser.LookAhead && meansTerm(r.(parser.LookAhead).Term, below(n, "lookahead"), m)
     else if "term" in n.(ast.Branch) then meansTerm(r, below(n, "term"), m)
     else if "macrocall" in n.(ast.Branch) then meansCall(r, below(n, "macrocall"), m)
     else r is parser.Seq && len(r.(parser.Seq)) == 0);
rec fn meansNamed(r parser.Term, n ast.Node, m map[string]PragmaMacrodefNode) bool fuel 1 =
  hasWord(n, "IDENT") ==>
    (if word(n, "IDENT") == "" then meansAtom(r, below(n, "atom"), m)
     else r is parser.Named && r.(parser.Named).Name == word(n, "IDENT") && meansAtom(r.(parser.Named).Term, below(n, "atom"), m));
fn number(s string) int = if s == "" then 0 else numeral(s, 10);
fn bound(s string) bool = s == "" || digits(s, 10);
fn kind(n ast.Node) int = below(n, "@choice").(ast.Extra).Data.(parser.Choice);
fn repeated(r parser.Term, t parser.Term, lo int, hi int) bool = r is parser.Quant && r.(parser.Quant).Term == t && r.(parser.Quant).Min == lo && r.(parser.Quant).Max == hi;
fn written(n ast.Node, name string, b bool) bool = hasTok(n, name) && (below(n, name) != nil ==> tok(n, name) != "") ==> (b <==> below(n, name) != nil);
// r is t with the suffix n
fn meansQuant(r parser.Term, n ast.Node, t parser.Term, m map[string]PragmaMacrodefNode) bool =
  if below(n, "@choice") == nil then true
  else if kind(n) == 0 then (hasTok(n, "op") ==>
    (tok(n, "op") == "*" ==> repeated(r, t, 0, 0)) && (tok(n, "op") == "+" ==> repeated(r, t, 1, 0)) && (tok(n, "op") == "?" ==> repeated(r, t, 0, 1)))
  else if kind(n) == 1 then (hasWord(n, "min") && hasWord(n, "max") && bound(word(n, "min")) && bound(word(n, "max")) ==> repeated(r, t, number(word(n, "min")), number(word(n, "max"))))
  else if kind(n) == 2 then r is parser.Delim && r.(parser.Delim).Term == t && meansNamed(r.(parser.Delim).Sep, below(n, "named"), m) &&
     (hasTok(n, "op") ==> (tok(n, "op") == ":" ==> r.(parser.Delim).Assoc == parser.NonAssociative) && (tok(n, "op") == ":>" ==> r.(parser.Delim).Assoc == parser.LeftToRight) && (tok(n, "op") == "<:" ==> r.(parser.Delim).Assoc == parser.RightToLeft)) &&
     written(n, "opt_leading", r.(parser.Delim).CanStartWithSep) && written(n, "opt_trailing", r.(parser.Delim).CanEndWithSep)
  else true;

// ---------------------------------------------------------------- terms and grammars

fn inner(r parser.Term) parser.Term = if r is parser.Quant then r.(parser.Quant).Term else r.(parser.Delim).Term;
// the suffixes from the k-th on, the last one applied first
rec fn suffixed(r parser.Term, n ast.Node, k int, m map[string]PragmaMacrodefNode) bool fuel 2 =
  if k >= kidCount(n, "quant") then meansNamed(r, below(n, "named"), m)
  else (r is parser.Quant || r is parser.Delim) && meansQuant(r, kidAt(n, "quant", k), inner(r), m) && suffixed(inner(r), n, k + 1, m);
fn parts(ts []parser.Term, n ast.Node, m map[string]PragmaMacrodefNode) bool =
  len(ts) == kidCount(n, "term") && (forall i int :: { ts[i] } { kidAt(n, "term", i) } 0 <= i && i < len(ts) ==> meansTerm(ts[i], kidAt(n, "term", i), m));
rec fn inOrder(r parser.Term, n ast.Node, m map[string]PragmaMacrodefNode) bool fuel 3 =
  if kidCount(n, "term") == 1 then meansTerm(r, kidAt(n, "term", 0), m) else r is parser.Seq && parts(r.(parser.Seq), n, m);
rec fn meansTerm(r parser.Term, n ast.Node, m map[string]PragmaMacrodefNode) bool fuel 2 =
  if kidCount(n, "term") == 0 then suffixed(r, n, 0, m)
  else hasTok(n, "op") ==>
    (if tok(n, "op") == "|" then r is parser.Oneof && parts(r.(parser.Oneof), n, m)
     else if tok(n, "op") == ">" then r is parser.Stack && parts(r.(parser.Stack), n, m)
     else if kidCount(n, "grammar") == 1 then r is parser.ScopedGrammar && inOrder(r.(parser.ScopedGrammar).Term, n, m) && meansRules(r.(parser.ScopedGrammar).Grammar, kidAt(n, "grammar", 0), m)
     else inOrder(r, n, m));
rec fn prodAt(n ast.Node, i int) ast.Node fuel 1 = below(kidAt(n, "stmt", i), "prod");
fn defines(n ast.Node, i int, k parser.Rule) bool = prodAt(n, i) != nil && hasWord(prodAt(n, i), "IDENT") && parser.Rule(word(prodAt(n, i), "IDENT")) == k;
opaque fn definedIn(n ast.Node, i int, k parser.Rule, t parser.Term, m map[string]PragmaMacrodefNode) bool =
  exists j int :: { prodAt(n, j) } 0 <= j && j < i && prodAt(n, j) != nil && (hasWord(prodAt(n, j), "IDENT") ==> parser.Rule(word(prodAt(n, j), "IDENT")) == k) && inOrder(t, prodAt(n, j), m);
fn definesAt(n ast.Node, j int, k parser.Rule, t parser.Term, m map[string]PragmaMacrodefNode) bool =
  prodAt(n, j) != nil && (hasWord(prodAt(n, j), "IDENT") ==> parser.Rule(word(prodAt(n, j), "IDENT")) == k) && inOrder(t, prodAt(n, j), m);
lemma definedIn_last(n ast.Node, i int, k parser.Rule, t parser.Term, m map[string]PragmaMacrodefNode) : { definedIn(n, i, k, t, m) }
  0 < i && definesAt(n, i-1, k, t, m) ==> definedIn(n, i, k, t, m);
lemma definedIn_more(n ast.Node, i int, j int, k parser.Rule, t parser.Term, m map[string]PragmaMacrodefNode) : { definedIn(n, i, k, t, m), definedIn(n, j, k, t, m) }
  definedIn(n, i, k, t, m) && i <= j ==> definedIn(n, j, k, t, m);
rec fn meansRules(g parser.Grammar, n ast.Node, m map[string]PragmaMacrodefNode) bool fuel 2 =
  (forall i int :: { prodAt(n, i) } 0 <= i && i < kidCount(n, "stmt") && prodAt(n, i) != nil && hasWord(prodAt(n, i), "IDENT") ==> parser.Rule(word(prodAt(n, i), "IDENT")) in g) &&
  (forall k parser.Rule :: { k in g } { g[k] } k in g ==> definedIn(n, kidCount(n, "stmt"), k, g[k], m));

extern strconv.Atoi(s)(n, err) {
  ensures digits(s, 10) && err == nil ==> n == numeral(s, 10);
  ensures digits(s, 10) ==> ((err == nil) <==> numeral(s, 10) < 9223372036854775808);
}
func (grammarBuilder).buildAtom(gb, n)(r) { ensures [C16, atom] meansAtom(r, n.Node, gb.macros); }
func (grammarBuilder).buildNamed(gb, n)(r) { ensures [C16, named] meansNamed(r, n.Node, gb.macros); }
func (grammarBuilder).buildQuant(gb, n, t)(r) { ensures [C16, suffix] meansQuant(r, n.Node, t, gb.macros) && (r is parser.Quant || r is parser.Delim) && inner(r) == t; }
func (grammarBuilder).buildTerm(gb, n)(r) {
  ensures [C16, term] meansTerm(r, n.Node, gb.macros);
  inv for (ts []parser.Term, i idx): len(ts) == i && (forall j int :: { ts[j] } { kidAt(n.Node, "term", j) } 0 <= j && j < i ==> meansTerm(ts[j], kidAt(n.Node, "term", j), gb.macros));
  inv for (next parser.Term, i idx): suffixed(next, n.Node, kidCount(n.Node, "quant") - i, gb.macros);
}
func (grammarBuilder).buildProd(gb, n)(r) {
  ensures [C16, prod] inOrder(r, n.Node, gb.macros);
  inv for (s parser.Seq, i idx): len(s) == i && (forall j int :: { s[j] } { kidAt(n.Node, "term", j) } 0 <= j && j < i ==> meansTerm(s[j], kidAt(n.Node, "term", j), gb.macros));
}

// ---------------------------------------------------------------- macros

// the first parameter called x is the i-th
fn param(n ast.Node, i int, x string) bool = 0 <= i && i < kidCount(n, "args") && words(kidAt(n, "args", i)) == x &&
  (forall j int :: { kidAt(n, "args", j) } 0 <= j && j < i ==> words(kidAt(n, "args", j)) != x);
rec fn noParam(n ast.Node, x string) bool fuel 1 = forall j int :: { kidAt(n, "args", j) } 0 <= j && j < kidCount(n, "args") ==> words(kidAt(n, "args", j)) != x;
rec fn wellNamed(n ast.Node) bool fuel 1 = forall j int :: { kidAt(n, "args", j) } 0 <= j && j < kidCount(n, "args") ==> isWord(kidAt(n, "args", j));
// r is t with the parameters of the macro d replaced by the arguments of the call n
rec fn filled(r parser.Term, t parser.Term, d ast.Node, n ast.Node, m map[string]PragmaMacrodefNode) bool fuel 2 =
  if t is parser.Rule then filledRule(r, t.(parser.Rule), d, n, m)
  else if t is parser.Seq then r is parser.Seq && len(r.(parser.Seq)) == len(t.(parser.Seq)) &&
     (forall i int :: { t.(parser.Seq)[i] } { r.(parser.Seq)[i] } 0 <= i && i < len(t.(parser.Seq)) ==> filled(r.(parser.Seq)[i], t.(parser.Seq)[i], d, n, m))
  else if t is parser.Stack then r is parser.Stack && len(r.(parser.Stack)) == len(t.(parser.Stack)) &&
     (forall i int :: { t.(parser.Stack)[i] } { r.(parser.Stack)[i] } 0 <= i && i < len(t.(parser.Stack)) ==> filled(r.(parser.Stack)[i], t.(parser.Stack)[i], d, n, m))
  else if t is parser.Oneof then r is parser.Oneof && len(r.(parser.Oneof)) == len(t.(parser.Oneof)) &&
     (forall i int :: { t.(parser.Oneof)[i] } { r.(parser.Oneof)[i] } 0 <= i && i < len(t.(parser.Oneof)) ==> filled(r.(parser.Oneof)[i], t.(parser.Oneof)[i], d, n, m))
  else if t is parser.Delim then r is parser.Delim && filled(r.(parser.Delim).Term, t.(parser.Delim).Term, d, n, m) && filled(r.(parser.Delim).Sep, t.(parser.Delim).Sep, d, n, m) &&
     r.(parser.Delim).Assoc == t.(parser.Delim).Assoc && r.(parser.Delim).CanStartWithSep == t.(parser.Delim).CanStartWithSep && r.(parser.Delim).CanEndWithSep == t.(parser.Delim).CanEndWithSep
  else if t is parser.Quant then r is parser.Quant && filled(r.(parser.Quant).Term, t.(parser.Quant).Term, d, n, m) && r.(parser.Quant).Min == t.(parser.Quant).Min && r.(parser.Quant).Max == t.(parser.Quant).Max
  else if t is parser.Named then r is parser.Named && filled(r.(parser.Named).Term, t.(parser.Named).Term, d, n, m) && r.(parser.Named).Name == t.(parser.Named).Name
  else if t is parser.CutPoint then r is parser.CutPoint && filled(r.(parser.CutPoint).Term, t.(parser.CutPoint).Term, d, n, m)
  else if t is parser.LookAhead then r is parser.LookAhead && filled(r.(parser.LookAhead).Term, t.(parser.LookAhead).Term, d, n, m)
  else if t is parser.ScopedGrammar then r is parser.ScopedGrammar && filled(r.(parser.ScopedGrammar).Term, t.(parser.ScopedGrammar).Term, d, n, m) && filledRules(r.(parser.ScopedGrammar).Grammar, t.(parser.ScopedGrammar).Grammar, d, n, m)
  else r == t;
fn unlike(d ast.Node, i int, x string) bool = wellNamed(d) ==> (forall j int :: { kidAt(d, "args", j) } 0 <= j && j < i ==> words(kidAt(d, "args", j)) != x);
rec fn filledRule(r parser.Term, t parser.Rule, d ast.Node, n ast.Node, m map[string]PragmaMacrodefNode) bool fuel 2 =
  wellNamed(d) ==> (noParam(d, string(t)) ==> r == parser.Term(t)) && (forall i int :: { kidAt(d, "args", i) } param(d, i, string(t)) ==> meansTerm(r, kidAt(n, "term", i), m));
fn filledRules(r parser.Grammar, h parser.Grammar, d ast.Node, n ast.Node, m map[string]PragmaMacrodefNode) bool =
  forall k parser.Rule :: { k in r } { r[k] } { k in h } { h[k] } if k in h then k in r && filled(r[k], h[k], d, n, m) else !(k in r);
// what is done with one term without parts, with a lookahead, or with a nested grammar whose term is done
fn filledOne(r parser.Term, t parser.Term, d ast.Node, n ast.Node, m map[string]PragmaMacrodefNode) bool =
  if t is parser.Rule then filledRule(r, t.(parser.Rule), d, n, m)
  else if t is parser.LookAhead then r is parser.LookAhead && filled(r.(parser.LookAhead).Term, t.(parser.LookAhead).Term, d, n, m)
  else if t is parser.ScopedGrammar then r is parser.ScopedGrammar && r.(parser.ScopedGrammar).Term == t.(parser.ScopedGrammar).Term && filledRules(r.(parser.ScopedGrammar).Grammar, t.(parser.ScopedGrammar).Grammar, d, n, m)
  else r == t;
lemma mapped_filled(r parser.Term, t parser.Term, f func(parser.Term) parser.Term, d ast.Node, n ast.Node, m map[string]PragmaMacrodefNode) induct t : { mapped(r, t, f), filled(r, t, d, n, m) }
  (forall x parser.Term :: { f(x) } filledOne(f(x), x, d, n, m)) && mapped(r, t, f) ==> filled(r, t, d, n, m);
opaque fn expands(r parser.Term, d ast.Node, n ast.Node, m map[string]PragmaMacrodefNode) bool =
  exists t parser.Term :: { meansTerm(t, below(d, "term"), m) } meansTerm(t, below(d, "term"), m) && filled(r, t, d, n, m);
rec fn meansCall(r parser.Term, n ast.Node, m map[string]PragmaMacrodefNode) bool fuel 1 = hasWord(n, "name") ==> expands(r, m[word(n, "name")].Node, n, m);
func (PragmaMacrodefNode).OneTerm(c)(r) { ensures [C16, term] (r == nil <==> below(c.Node, "term") == nil) && (r != nil ==> r.Node == below(c.Node, "term")); }
func (PragmaMacrodefNode).AllArgs(c)(r) {
  ensures [C16, all] len(r) == kidCount(c.Node, "args") && (forall i int :: { r[i] } { kidAt(c.Node, "args", i) } 0 <= i && i < len(r) ==> r[i].Node == kidAt(c.Node, "args", i));
  inv for (out []IdentNode, i idx): len(out) == i && (forall j int :: { out[j] } { kidAt(c.Node, "args", j) } 0 <= j && j < i ==> out[j].Node == kidAt(c.Node, "args", j));
}
func (MacrocallNode).OneName(c)(r) { ensures [C16, name] (r == nil <==> below(c.Node, "name") == nil) && (r != nil ==> r.Node == below(c.Node, "name")); }
func (MacrocallNode).AllTerm(c)(r) {
  ensures [C16, all] len(r) == kidCount(c.Node, "term") && (forall i int :: { r[i] } { kidAt(c.Node, "term", i) } 0 <= i && i < len(r) ==> r[i].Node == kidAt(c.Node, "term", i));
  inv for (out []TermNode, i idx): len(out) == i && (forall j int :: { out[j] } { kidAt(c.Node, "term", j) } 0 <= j && j < i ==> out[j].Node == kidAt(c.Node, "term", j));
}
closure in (grammarBuilder).expandMacro sig func(parser.Term) parser.Term (t)(r) {
  ensures [C16, kept] !leaf(t) ==> r == t;
  ensures [C16, argument] hasWord(n.Node, "name") ==> filledOne(r, t, gb.macros[word(n.Node, "name")].Node, n.Node, gb.macros);
  inv for (i idx): hasWord(n.Node, "name") ==> unlike(gb.macros[word(n.Node, "name")].Node, i, string(t.(parser.Rule)));
}
func (grammarBuilder).expandMacro(gb, n)(r) {
  ensures [C16, macro] meansCall(r, n.Node, gb.macros);
}
func (grammarBuilder).buildGrammar(gb, n)(r) {
  frame [C12];
  ensures [C16, rules] meansRules(r, n, gb.macros);
  inv for (g parser.Grammar, i idx): forall j int :: { prodAt(n, j) } 0 <= j && j < i && prodAt(n, j) != nil && hasWord(prodAt(n, j), "IDENT") ==> parser.Rule(word(prodAt(n, j), "IDENT")) in g;
  inv for (g parser.Grammar, i idx): forall k parser.Rule :: { k in g } { g[k] } k in g ==> definedIn(n, i, k, g[k], gb.macros);
}
