package wbnf;

// ---------------------------------------------------------------- rules that lead back to themselves

// texts where the grammar of grammars puts them
rec fn wellTerm(n ast.Node) bool fuel 1 = hasTok(n, "op") &&
  (forall i int :: { kidAt(n, "term", i) } 0 <= i && i < kidCount(n, "term") ==> wellTerm(kidAt(n, "term", i))) &&
  (forall i int :: { kidAt(n, "quant", i) } 0 <= i && i < kidCount(n, "quant") ==> hasTok(kidAt(n, "quant", i), "op") && hasWord(kidAt(n, "quant", i), "min")) &&
  hasWord(atomOf(n), "IDENT") && (below(atomOf(n), "term") != nil ==> wellTerm(below(atomOf(n), "term")));
fn atomOf(n ast.Node) ast.Node = below(below(n, "named"), "atom");

// a suffix with which an item counts as one that takes text: at least one, or a list
rec fn insists(q ast.Node) bool fuel 1 = tok(q, "op") == "+" || below(q, "min") != nil && word(q, "min") != "0" || below(q, "named") != nil;
opaque fn needed(n ast.Node, i int) bool = exists j int :: { kidAt(n, "quant", j) } 0 <= j && j < i && insists(kidAt(n, "quant", j));
lemma needed_none(n ast.Node) : { needed(n, 0) } !needed(n, 0);
lemma needed_step(n ast.Node, i int, j int) : { needed(n, i), needed(n, j) } 0 <= i && j == i + 1 ==> (needed(n, j) <==> needed(n, i) || insists(kidAt(n, "quant", i)));
lemma needed_one(n ast.Node, i int, j int) : { needed(n, i), kidAt(n, "quant", j) } 0 <= j && j < i && insists(kidAt(n, "quant", j)) ==> needed(n, i);

// the rules that a term can begin with, and "" for a token that may be left out
rec fn leads_(n ast.Node) frozen.Set[string] fuel 1 =
  if tok(n, "op") == "|" then leadsAny(n, 0, frozen.Set[string]{})
  else if kidCount(n, "term") > 0 then leadsSeq(n, 0, frozen.Set[string]{})
  else if needed(n, kidCount(n, "quant")) then frozen.Set[string]{}
  else if below(atomOf(n), "term") != nil then leads_(below(atomOf(n), "term"))
  else if below(atomOf(n), "IDENT") != nil then with(frozen.Set[string]{}, word(atomOf(n), "IDENT"))
  else if kidCount(n, "quant") == 0 then frozen.Set[string]{}
  else with(frozen.Set[string]{}, "");
// any of the alternatives from the i-th on
rec fn leadsAny(n ast.Node, i int, r frozen.Set[string]) frozen.Set[string] fuel 1 =
  if i >= kidCount(n, "term") then r else leadsAny(n, i + 1, union(r, leads_(kidAt(n, "term", i))));
// the parts from the i-th on, up to the first that takes text
rec fn leadsSeq(n ast.Node, i int, r frozen.Set[string]) frozen.Set[string] fuel 1 =
  if i >= kidCount(n, "term") then r
  else if leads_(kidAt(n, "term", i)) == frozen.Set[string]{} then r
  else leadsSeq(n, i + 1, union(r, without(leads_(kidAt(n, "term", i)), "")));

func getSequenceDangerTerms(tree)(r) {
  when wellTerm(tree.Node);
  ensures [C24, leads] r == leads_(tree.Node);
  inv for (result frozen.Set[string], i idx): tok(tree.Node, "op") == "|" ==> leadsAny(tree.Node, i, result) == leads_(tree.Node);
  inv for (result frozen.Set[string], i idx): tok(tree.Node, "op") != "|" && kidCount(tree.Node, "term") > 0 ==> leadsSeq(tree.Node, i, result) == leads_(tree.Node);
  inv for (result frozen.Set[string], i idx): kidCount(tree.Node, "term") == 0 ==> result == frozen.Set[string]{} && !needed(tree.Node, i);
}

// ---------------------------------------------------------------- the search

// w names a way through the graph from n on
rec fn walk(n *gnode, w []string) bool reads gnode fuel 2 = len(w) == 0 || w[0] in n.next && walk(n.next[w[0]], w[1:]);
opaque fn way(n *gnode, w []string) bool reads gnode = walk(n, w);
opaque fn distinct(w []string) bool = forall i int, j int :: { w[i], w[j] } 0 <= i && i < j && j < len(w) ==> w[i] != w[j];
opaque fn fresh_(w []string, seen frozen.Set[string]) bool = distinct(w) && (forall i int :: { w[i] } 0 <= i && i < len(w) ==> !(w[i] in seen));
lemma fresh_none(w []string, seen frozen.Set[string]) : { fresh_(w, seen) } len(w) == 0 ==> fresh_(w, seen);
// no way from n on meets a name twice, or one in seen; no such way that starts in v
opaque fn free(n *gnode, seen frozen.Set[string]) bool reads gnode = forall w []string :: { way(n, w) } way(n, w) ==> fresh_(w, seen);
opaque fn freeBy(n *gnode, v frozen.Set[string], seen frozen.Set[string]) bool reads gnode = forall w []string :: { way(n, w) } way(n, w) && len(w) > 0 && w[0] in v ==> fresh_(w, seen);
lemma tail_at(w []string, i int) : { w[1:], w[i] } 0 < i && i < len(w) ==> w[1:][i-1] == w[i];
lemma way_step(n *gnode, w []string, seen frozen.Set[string]) reads gnode : { way(n, w), fresh_(w, seen) } way(n, w) && len(w) > 0 ==> w[0] in n.next && way(n.next[w[0]], w[1:]) && (fresh_(w[1:], with(seen, w[0])) ==> len(w) > 0);
lemma fresh_step(w []string, seen frozen.Set[string]) : { fresh_(w, seen), fresh_(w[1:], with(seen, w[0])) } len(w) > 0 && !(w[0] in seen) && fresh_(w[1:], with(seen, w[0])) ==> fresh_(w, seen);
lemma freeBy_none(n *gnode, v frozen.Set[string], seen frozen.Set[string]) reads gnode : { freeBy(n, v, seen) } (forall k string :: { k in v } !(k in v)) ==> freeBy(n, v, seen);
lemma freeBy_step(n *gnode, v frozen.Set[string], k string, seen frozen.Set[string]) reads gnode : { freeBy(n, with(v, k), seen) }
  freeBy(n, v, seen) && k in n.next && !(k in seen) && free(n.next[k], with(seen, k)) ==> freeBy(n, with(v, k), seen);
lemma freeBy_all(n *gnode, v frozen.Set[string], seen frozen.Set[string]) reads gnode : { freeBy(n, v, seen), free(n, seen) }
  freeBy(n, v, seen) && (forall k string :: { k in n.next } k in n.next ==> k in v) ==> free(n, seen);

opaque fn among(x string, p []string) bool = exists i int :: { p[i] } 0 <= i && i < len(p) && p[i] == x;
lemma push_at(p []string, x string, i int) : { push(p, x), p[i] } 0 <= i && i < len(p) ==> push(p, x)[i] == p[i];
lemma push_end(p []string, x string) : { push(p, x) } push(p, x)[len(p)] == x && len(push(p, x)) == len(p) + 1;
lemma among_push(p []string, x string, y string) : { among(x, push(p, y)) } among(x, p) || x == y ==> among(x, push(p, y));
lemma twice(p []string, x string) : { distinct(push(p, x)) } among(x, p) ==> !distinct(push(p, x));
fn trail(name string, current []string) []string = if name == "" then current else push(current, name);

// only the last step of a way may be nameless
opaque fn blankLast(n *gnode) bool reads gnode = forall w []string :: { way(n, w) } way(n, w) ==> (forall i int :: { w[i] } 0 <= i && i < len(w) - 1 ==> w[i] != "");
lemma cons_at(k string, w []string, i int) : { []string{k} ++ w, w[i] } 0 <= i && i < len(w) ==> ([]string{k} ++ w)[i+1] == w[i] && ([]string{k} ++ w)[0] == k && ([]string{k} ++ w)[1:] == w && len([]string{k} ++ w) == len(w) + 1;
lemma way_cons(n *gnode, k string, w []string) reads gnode : { way(n.next[k], w), blankLast(n) } k in n.next && way(n.next[k], w) && len(w) > 0 && ([]string{k} ++ w)[1:] == w && ([]string{k} ++ w)[0] == k ==> way(n, []string{k} ++ w);
lemma blank_step(n *gnode, k string) reads gnode : { blankLast(n), n.next[k] } blankLast(n) && k in n.next && k != "" ==> blankLast(n.next[k]);
lemma one_way(n *gnode, x string) reads gnode : { way(n, []string{x}) } x in n.next ==> way(n, []string{x});
lemma blank_way(n *gnode, w []string) reads gnode : { blankLast(n), way(n.next[""], w) } blankLast(n) && "" in n.next && len(w) > 0 && w[0] in n.next[""].next && (([]string{""} ++ w)[0] == "" ==> len(w) > 0) ==> !way(n.next[""], w);
lemma one_blank(n *gnode, x string) reads gnode : { blankLast(n), x in n.next[""].next } x in n.next[""].next ==> way(n.next[""], []string{x});
lemma blank_end(n *gnode, x string) reads gnode : { blankLast(n), x in n.next[""].next } blankLast(n) && "" in n.next ==> !(x in n.next[""].next);
func findPaths(name, node, seen, current)(r) {
  requires forall x string :: { x in seen } x in seen && x != "" ==> among(x, trail(name, current));
  when if "" in seen then (forall x string :: { x in node.next } !(x in node.next)) else blankLast(node);
  ensures [C24, all] len(r) == 0 ==> free(node, seen);
  ensures [C24, real] forall i int :: { r[i] } 0 <= i && i < len(r) ==> !distinct(r[i]);
  inv for (possibles [][]string, v visited): len(possibles) == 0 ==> freeBy(node, v, seen);
  inv for (possibles [][]string): forall i int :: { possibles[i] } 0 <= i && i < len(possibles) ==> !distinct(possibles[i]);
  inv for (current []string): current == trail(name, old(current));
}

func sortedSet(s)(r) {
  ensures [C24, elements] forall x string :: { x in s } { amid(r, len(r), x) } x in s <==> amid(r, len(r), x);
}
// rule k is in the graph g with just the rules that d has it lead to, each standing for its own node
// every rule entered into the graph is there with just the rules that it leads to, each standing for its own node
func (*gnode).walkRule(g, start, dangers)(r) {
  requires g != nil && dangers != nil;
  requires forall k string :: { g.next[k] } k in g.next ==> g.next[k] != nil && g.next[k] != g;
  modifies *g;
  ensures [C24, there] start in g.next && r == g.next[start];
  ensures [C24, kept] forall k string :: { g.next[k] } k in old(g.next) ==> k in g.next && g.next[k] == old(g.next[k]);
  ensures [C24, new] forall k string :: { g.next[k] } k in g.next ==> g.next[k] != nil && g.next[k] != g && (!(k in old(g.next)) ==> isnew(g.next[k]));
  ensures [C24, entered] forall k string, t string :: { t in g.next[k].next } { g.next[k], t in (*dangers)[k] } k in g.next && !(k in old(g.next)) ==>
    (t in g.next[k].next <==> t in (*dangers)[k]) && (t in g.next[k].next ==> t in g.next && g.next[k].next[t] == g.next[t]);
  inv for (node *gnode): node != nil && node != g && isnew(node) && start in g.next && g.next[start] == node && !(start in old(g.next));
  inv for (node *gnode): forall k string :: { g.next[k] } k in g.next && k != start && !(k in old(g.next)) ==> g.next[k] != node;
  inv for (node *gnode, targets []string, i idx): forall t string :: { t in node.next } t in node.next <==> amid(targets, i, t);
  inv for (node *gnode): forall t string :: { t in node.next } t in node.next ==> t in g.next && node.next[t] == g.next[t];
  inv forall k string :: { g.next[k] } k in old(g.next) ==> k in g.next && g.next[k] == old(g.next[k]);
  inv forall k string :: { g.next[k] } k in g.next ==> g.next[k] != nil && g.next[k] != g && (!(k in old(g.next)) ==> isnew(g.next[k]));
  inv forall k string, t string :: { t in g.next[k].next } { g.next[k], t in (*dangers)[k] } k in g.next && k != start && !(k in old(g.next)) ==>
    (t in g.next[k].next <==> t in (*dangers)[k]) && (t in g.next[k].next ==> t in g.next && g.next[k].next[t] == g.next[t]);
}
// ---------------------------------------------------------------- the verdict

// what the rules of a grammar lead to, by the first i statements
rec fn leadsBy(n ast.Node, i int) map[string]frozen.Set[string] fuel 1 =
  if i <= 0 then map[string]frozen.Set[string]{}
  else if prodAt(n, i - 1) == nil then leadsBy(n, i - 1)
  else put(leadsBy(n, i - 1), word(prodAt(n, i - 1), "IDENT"), leadsAny(prodAt(n, i - 1), 0, frozen.Set[string]{}));
lemma leadsBy_step(n ast.Node, i int, j int) : { leadsBy(n, i), leadsBy(n, j) } 0 <= i && j == i + 1 ==>
  leadsBy(n, j) == (if prodAt(n, i) == nil then leadsBy(n, i) else put(leadsBy(n, i), word(prodAt(n, i), "IDENT"), leadsAny(prodAt(n, i), 0, frozen.Set[string]{})));
opaque fn wellProd(n ast.Node) bool = hasWord(n, "IDENT") && word(n, "IDENT") != "" && (forall j int :: { kidAt(n, "term", j) } 0 <= j && j < kidCount(n, "term") ==> wellTerm(kidAt(n, "term", j)));
opaque fn wellRules(n ast.Node) bool = forall i int :: { prodAt(n, i) } 0 <= i && i < kidCount(n, "stmt") && prodAt(n, i) != nil ==> wellProd(prodAt(n, i));

// the graph has every rule entered into it lead to just what it does, each standing for its own node
opaque fn isGraph(g *gnode, d map[string]frozen.Set[string]) bool reads gnode =
  (forall k string, t string :: { t in g.next[k].next } { g.next[k], t in d[k] } k in g.next ==>
    (t in g.next[k].next <==> t in d[k]) && (t in g.next[k].next ==> t in g.next && g.next[k].next[t] == g.next[t]));
// w names rules, each one that the one before leads to, and the first one that k leads to
rec fn chain(d map[string]frozen.Set[string], k string, w []string) bool fuel 2 = len(w) == 0 || w[0] in d[k] && chain(d, w[0], w[1:]);
opaque fn chained(d map[string]frozen.Set[string], k string, w []string) bool = chain(d, k, w);
lemma chain_way(g *gnode, d map[string]frozen.Set[string], k string, w []string) reads gnode induct w : { isGraph(g, d), chained(d, k, w) }
  isGraph(g, d) && k in g.next && chained(d, k, w) && (chained(d, w[0], w[1:]) ==> 0 <= len(w)) && (way(g.next[w[0]], w[1:]) ==> 0 <= len(w)) ==> way(g.next[k], w);
lemma way_on(g *gnode, d map[string]frozen.Set[string], k string, w []string) reads gnode : { isGraph(g, d), way(g.next[k], w) }
  isGraph(g, d) && k in g.next && way(g.next[k], w) && len(w) > 0 ==> w[0] in d[k] && w[0] in g.next && way(g.next[w[0]], w[1:]);
// without a rule of that name nothing is led to by "": ways end there
lemma nameless_first(g *gnode, d map[string]frozen.Set[string], k string, w []string) reads gnode : { isGraph(g, d), way(g.next[k], w) }
  isGraph(g, d) && !("" in d) && k in g.next && way(g.next[k], w) && len(w) > 1 && (way(g.next[w[0]], w[1:]) ==> w[1] == w[1:][0]) ==> w[0] != "";
lemma nameless(g *gnode, d map[string]frozen.Set[string], k string, w []string, i int) reads gnode induct w : { isGraph(g, d), way(g.next[k], w), w[i] }
  isGraph(g, d) && !("" in d) && k in g.next && way(g.next[k], w) && 0 <= i && i < len(w) - 1 && (way(g.next[w[0]], w[1:]) && i > 0 ==> w[i] == w[1:][i-1]) ==> w[i] != "";
lemma root_first(g *gnode, d map[string]frozen.Set[string], w []string) reads gnode : { isGraph(g, d), way(g, w) }
  isGraph(g, d) && !("" in d) && way(g, w) && len(w) > 1 && (way(g.next[w[0]], w[1:]) ==> w[1] == w[1:][0]) ==> w[0] != "";
lemma root_rest(g *gnode, d map[string]frozen.Set[string], w []string, i int) reads gnode : { isGraph(g, d), way(g, w), w[i] }
  isGraph(g, d) && !("" in d) && way(g, w) && 0 < i && i < len(w) - 1 && (way(g.next[w[0]], w[1:]) ==> w[i] == w[1:][i-1]) ==> w[i] != "";
lemma blank_root(g *gnode, d map[string]frozen.Set[string]) reads gnode : { isGraph(g, d), blankLast(g) }
  isGraph(g, d) && !("" in d) ==> blankLast(g);
lemma leadsBy_named(n ast.Node, i int) induct i : { wellRules(n), leadsBy(n, i) } wellRules(n) && i <= kidCount(n, "stmt") ==> !("" in leadsBy(n, i));
// some rule leads, through any number of others, to itself
opaque fn loops(d map[string]frozen.Set[string]) bool = exists k string, w []string :: { chained(d, k, w) } k in d && chained(d, k, w) && len(w) > 0 && w[len(w)-1] == k;
opaque fn unrepeated(g *gnode) bool reads gnode = forall w []string :: { way(g, w) } way(g, w) ==> distinct(w);
lemma free_unrepeated(g *gnode) reads gnode : { free(g, frozen.Set[string]{}), unrepeated(g) } free(g, frozen.Set[string]{}) ==> unrepeated(g);
lemma ring(k string, w []string) : { distinct([]string{k} ++ w) } len(w) > 0 && w[len(w)-1] == k ==> !distinct([]string{k} ++ w);
lemma way_front(n *gnode, k string, w []string) reads gnode : { way(n, []string{k} ++ w) } k in n.next && way(n.next[k], w) && len(w) > 0 ==> way(n, []string{k} ++ w);
lemma way_ring(g *gnode, k string, w []string) reads gnode : { way(g.next[k], w), unrepeated(g) }
  k in g.next && way(g.next[k], w) && len(w) > 0 && w[len(w)-1] == k && (way(g, []string{k} ++ w) && distinct([]string{k} ++ w) ==> 0 < len([]string{k} ++ w)) ==> !unrepeated(g);
lemma loop_found(g *gnode, d map[string]frozen.Set[string], k string, w []string) reads gnode : { isGraph(g, d), chained(d, k, w), unrepeated(g) }
  isGraph(g, d) && k in d && k in g.next && chained(d, k, w) && len(w) > 0 && w[len(w)-1] == k && (way(g.next[k], w) ==> 0 <= len(w)) ==> !unrepeated(g);
lemma loops_found(g *gnode, d map[string]frozen.Set[string]) reads gnode : { isGraph(g, d), loops(d), unrepeated(g) }
  isGraph(g, d) && (forall k string :: { k in d } k in d ==> k in g.next) && loops(d) ==> !unrepeated(g);
lemma loops_free(g *gnode, d map[string]frozen.Set[string]) reads gnode : { isGraph(g, d), loops(d) }
  isGraph(g, d) && (forall k string :: { k in d } k in d ==> k in g.next) && loops(d) && (free(g, frozen.Set[string]{}) ==> unrepeated(g)) ==> !free(g, frozen.Set[string]{});
fn allLeads(tree GrammarNode) map[string]frozen.Set[string] = leadsBy(tree.Node, kidCount(tree.Node, "stmt"));
func checkForRecursion(tree)(r) {
  ensures [C24, kind] r != nil ==> rightKind(r, PossibleCycleDetected);
  ensures [C24, rejected] wellRules(tree.Node) && loops(allLeads(tree)) ==> r != nil;
  inv for (td frozen.Set[string], node ProdNode, i idx): wellProd(node.Node) ==> leadsAny(node.Node, i, td) == leadsAny(node.Node, 0, frozen.Set[string]{});
  inv for (dangers map[string]frozen.Set[string], i idx): wellRules(tree.Node) ==> dangers == leadsBy(tree.Node, i);
  inv for (gn *gnode, v visited): gn != nil && (forall k string :: { k in v } k in v ==> k in gn.next && gn.next[k] != nil);
  inv for (gn *gnode): forall k string :: { gn.next[k] } k in gn.next ==> gn.next[k] != nil && gn.next[k] != gn;
  inv for (gn *gnode, dangers map[string]frozen.Set[string]): isGraph(gn, dangers);
  inv for (badRoutes []string, paths [][]string, i idx): wellRules(tree.Node) ==> len(badRoutes) == i;
}
