package wbnf;

// ---------------------------------------------------------------- mistakes in a grammar

fn rightKind(e error, k validationErrorKind) bool = e is validationError && e.(validationError).kind == k;
// exactly one report was added, of this kind
fn reported(before []error, after []error, k validationErrorKind) bool =
  len(after) == len(before) + 1 && rightKind(after[len(before)], k) && (forall i int :: { after[i] } { before[i] } 0 <= i && i < len(before) ==> after[i] == before[i]);
// n reports were added, all of this kind
fn reports(before []error, after []error, n int, k validationErrorKind) bool =
  len(after) == len(before) + n && (forall i int :: { after[i] } { before[i] } 0 <= i && i < len(before) ==> after[i] == before[i]) &&
  (forall i int :: { after[i] } len(before) <= i && i < len(after) ==> rightKind(after[i], k));
fn checked(before []error, after []error, bad bool, k validationErrorKind) bool = if bad then reported(before, after, k) else after == before;

// a pattern that regexp accepts
fn regular(s string) bool;
extern regexp.Compile(s)(re, err) { ensures (err == nil) <==> regular(s); }

func (*validator).validateAtom(v, n)(r) {
  requires v != nil;
  modifies *v;
  ensures [C17, rules] v.knownRules == old(v.knownRules) && v.macros == old(v.macros);
  ensures [C17, on] r == nil;
  ensures [C17, identifier] below(n.Node, "IDENT") != nil && hasWord(n.Node, "IDENT") ==>
    checked(old(v.err), v.err, word(n.Node, "IDENT") != "@" && !(word(n.Node, "IDENT") in v.knownRules), UnknownRule);
  ensures [C17, pattern] below(n.Node, "IDENT") == nil && below(n.Node, "RE") != nil && hasWord(n.Node, "RE") ==>
    checked(old(v.err), v.err, !regular(regex(word(n.Node, "RE"))), InvalidRegex);
  ensures [C17, other] below(n.Node, "IDENT") == nil && below(n.Node, "RE") == nil ==> v.err == old(v.err);
}
func (*validator).validateNamed(v, n)(r) {
  requires v != nil;
  modifies *v;
  ensures [C17, rules] v.knownRules == old(v.knownRules) && v.macros == old(v.macros);
  ensures [C17, on] r == nil;
  ensures [C17, clash] hasWord(n.Node, "IDENT") ==> checked(old(v.err), v.err, below(n.Node, "IDENT") != nil && word(n.Node, "IDENT") in v.knownRules, NameClashesWithRule);
}
fn small(s string) bool = s == "" || digits(s, 10) && numeral(s, 10) < 9223372036854775808;
func (*validator).validateQuant(v, n)(r) {
  requires v != nil;
  modifies *v;
  ensures [C17, rules] v.knownRules == old(v.knownRules) && v.macros == old(v.macros);
  ensures [C17, on] r == nil;
  ensures [C17, bounds] below(n.Node, "@choice") != nil && kind(n.Node) == 1 && hasWord(n.Node, "min") && hasWord(n.Node, "max") && bound(word(n.Node, "min")) && bound(word(n.Node, "max")) ==>
    checked(old(v.err), v.err, !small(word(n.Node, "min")) || !small(word(n.Node, "max")) || number(word(n.Node, "min")) != 0 && number(word(n.Node, "max")) != 0 && number(word(n.Node, "max")) < number(word(n.Node, "min")), MinMaxQuantError);
  ensures [C17, other] below(n.Node, "@choice") == nil || kind(n.Node) != 1 ==> v.err == old(v.err);
}
// the name of the i-th part of a sequence; how many of the first n repeat an earlier one
rec fn nameOf(n ast.Node, i int) string fuel 1 = if below(kidAt(n, "term", i), "named") == nil then "" else word(below(kidAt(n, "term", i), "named"), "IDENT");
opaque fn taken(n ast.Node, i int, x string) bool = exists j int :: { nameOf(n, j) } 0 <= j && j < i && nameOf(n, j) == x;
lemma taken_none(n ast.Node, x string) : { taken(n, 0, x) } !taken(n, 0, x);
lemma taken_step(n ast.Node, i int, j int, x string) : { taken(n, i, x), taken(n, j, x) } 0 <= i && j == i + 1 ==> (taken(n, j, x) <==> taken(n, i, x) || nameOf(n, i) == x);
lemma repeats_step(n ast.Node, i int, j int) : { repeats(n, i), repeats(n, j) } 0 <= i && j == i + 1 ==> repeats(n, j) == repeats(n, i) + (if nameOf(n, i) != "" && taken(n, i, nameOf(n, i)) then 1 else 0);
rec fn repeats(n ast.Node, i int) int fuel 1 = if i <= 0 then 0 else repeats(n, i - 1) + (if nameOf(n, i - 1) != "" && taken(n, i - 1, nameOf(n, i - 1)) then 1 else 0);
rec fn spelled(n ast.Node) bool fuel 1 = forall j int :: { kidAt(n, "term", j) } 0 <= j && j < kidCount(n, "term") && below(kidAt(n, "term", j), "named") != nil ==> hasWord(below(kidAt(n, "term", j), "named"), "IDENT");
func (*validator).validateTerm(v, n)(r) {
  requires v != nil;
  modifies *v;
  ensures [C17, rules] v.knownRules == old(v.knownRules) && v.macros == old(v.macros);
  ensures [C17, on] (r == nil) <==> kidCount(n.Node, "grammar") == 0;
  ensures [C17, names] hasTok(n.Node, "op") && tok(n.Node, "op") == "" && spelled(n.Node) && kidCount(n.Node, "grammar") == 0 ==>
    reports(old(v.err), v.err, repeats(n.Node, kidCount(n.Node, "term")), MultipleTermsWithSameName);
  ensures [C17, other] hasTok(n.Node, "op") && tok(n.Node, "op") != "" || kidCount(n.Node, "grammar") != 0 ==> v.err == old(v.err);
  inv for (i idx): spelled(n.Node) ==> len(v.err) == len(old(v.err)) + repeats(n.Node, i);
  inv len(v.err) >= len(old(v.err)) && (forall i int :: { v.err[i] } { old(v.err)[i] } 0 <= i && i < len(old(v.err)) ==> v.err[i] == old(v.err)[i]);
  inv forall i int :: { v.err[i] } len(old(v.err)) <= i && i < len(v.err) ==> rightKind(v.err[i], MultipleTermsWithSameName);
  inv for (names map[string]bool, i idx): spelled(n.Node) ==> (forall x string :: { x in names } x in names <==> x != "" && taken(n.Node, i, x));
  inv v.knownRules == old(v.knownRules) && v.macros == old(v.macros);
}
func (*validator).validateMacroCall(v, n)(r) {
  requires v != nil;
  modifies *v;
  ensures [C17, rules] v.knownRules == old(v.knownRules) && v.macros == old(v.macros);
  ensures [C17, on] r == nil;
  ensures [C17, macro] hasWord(n.Node, "name") && !(word(n.Node, "name") in v.macros) ==> reported(old(v.err), v.err, NotAMacro);
  ensures [C17, arguments] hasWord(n.Node, "name") && word(n.Node, "name") in v.macros ==>
    checked(old(v.err), v.err, kidCount(v.macros[word(n.Node, "name")].Node, "args") != kidCount(n.Node, "term"), IncorrectMacroArgCount);
}

// The walk over a node applies the validators to it and all nodes below; here only that reports are kept, the rules
// restored, and which node was walked with which rules known.
ghost walkedNode IsWalkableType;
ghost walkedWith frozen.Set[string];
fn kept(before []error, after []error) bool = len(before) <= len(after) && (forall i int :: { after[i] } { before[i] } 0 <= i && i < len(before) ==> after[i] == before[i]);
func (*validator).walk(v, n)() {
  trusted "the generated walker over callbacks with effects";
  requires v != nil;
  modifies *v, walkedNode, walkedWith;
  ensures v.knownRules == old(v.knownRules) && v.macros == old(v.macros) && kept(old(v.err), v.err);
  ensures walkedNode == n && walkedWith == old(v.knownRules);
}
// the rules known with the first i parameters of a macro, and how many of these were known before
rec fn knownWith(n ast.Node, i int, k frozen.Set[string]) frozen.Set[string] fuel 1 = if i <= 0 then k else with(knownWith(n, i - 1, k), words(kidAt(n, "args", i - 1)));
rec fn clashing(n ast.Node, i int, k frozen.Set[string]) int fuel 1 = if i <= 0 then 0 else clashing(n, i - 1, k) + (if words(kidAt(n, "args", i - 1)) in knownWith(n, i - 1, k) then 1 else 0);
lemma clashing_step(n ast.Node, i int, j int, k frozen.Set[string]) : { clashing(n, i, k), clashing(n, j, k) } 0 <= i && j == i + 1 ==>
  clashing(n, j, k) == clashing(n, i, k) + (if words(kidAt(n, "args", i)) in knownWith(n, i, k) then 1 else 0) && knownWith(n, j, k) == with(knownWith(n, i, k), words(kidAt(n, "args", i)));
func (*validator).validateMacro(v, n)(r) {
  requires v != nil;
  modifies *v, walkedNode, walkedWith;
  ensures [C17, rules] v.knownRules == old(v.knownRules) && v.macros == old(v.macros);
  ensures [C17, kept] kept(old(v.err), v.err);
  ensures [C17, inside] r != nil;
  ensures [C17, parameters] wellNamed(n.Node) ==> len(v.err) >= len(old(v.err)) + clashing(n.Node, kidCount(n.Node, "args"), v.knownRules) &&
    (forall i int :: { v.err[i] } len(old(v.err)) <= i && i < len(old(v.err)) + clashing(n.Node, kidCount(n.Node, "args"), v.knownRules) ==> rightKind(v.err[i], NameClashesWithRule));
  ensures [C17, body] wellNamed(n.Node) ==> walkedNode is TermNode && walkedNode.(TermNode).Node == below(n.Node, "term") && walkedWith == knownWith(n.Node, kidCount(n.Node, "args"), v.knownRules);
  inv for (i idx): wellNamed(n.Node) ==> len(v.err) == len(old(v.err)) + clashing(n.Node, i, old(v.knownRules)) && v.knownRules == knownWith(n.Node, i, old(v.knownRules));
  inv kept(old(v.err), v.err) && v.macros == old(v.macros);
  inv forall i int :: { v.err[i] } len(old(v.err)) <= i && i < len(v.err) ==> rightKind(v.err[i], NameClashesWithRule);
}
