package wbnf;

closed Stopper = *aborter, *nodeExiter;

// ---------------------------------------------------------------- files that import each other

// The files there are; the files read so far, in order.
fn content(name string) string;
fn hasFile(name string) bool;
ghost filesRead []string;
extern os.ReadFile(name)(b, err) {
  modifies filesRead;
  ensures filesRead == push(old(filesRead), name);
  ensures (err == nil) <==> hasFile(name);
  ensures string(b) == content(name);
}

fn located(res ImportResolver, from string, path string) string;
iface ImportResolver.Resolve(res, from, path)(r) { ensures [C25, located] r == located(res, from, path); }

// the tree of a grammar text, its statements, and the files that the imports among them mean
fn treeOf(file string, text string) ast.Node;
fn stmts(n ast.Node) []ast.Node = manyOf(n, "stmt");
rec fn stmtsIn(file string, text string) []ast.Node fuel 1 = stmts(treeOf(file, text));
fn wellFormed(n ast.Node) bool = n is ast.Branch && "stmt" in n.(ast.Branch) && n.(ast.Branch)["stmt"] is ast.Many;
func Parse(input)(r, err) {
  trusted "parsing of grammar texts";
  fresh;
  requires input != nil;
  ensures err == nil ==> wellFormed(r.Node) && r.Node == treeOf(input.src.(parser.stringSource).f, said(*input));
}
rec fn importIn(stmt ast.Node) ast.Node fuel 1 = if below(stmt, "pragma") == nil then nil else below(below(stmt, "pragma"), "import");
rec fn wordy(n ast.Node) bool fuel 1 = forall k int :: { kidAt(n, "", k) } 0 <= k && k < kidCount(n, "") ==> kidAt(n, "", k) != nil && isWord(kidAt(n, "", k));
rec fn tokens(n ast.Node) []string fuel 1 = seq(k, kidCount(n, ""), words(kidAt(n, "", k)));
fn meant(from string, imp ast.Node, res ImportResolver) string =
  filepath.Clean(if res == nil then filepath.Join(tokens(below(imp, "path"))) else located(res, from, filepath.Join(tokens(below(imp, "path")))));
// the first n statements import only files of a set
opaque fn coveredUpTo(n int, from string, own []ast.Node, res ImportResolver, set map[string]GrammarNode) bool =
  forall k int :: { own[k] } 0 <= k && k < n && k < len(own) && importIn(own[k]) != nil && below(importIn(own[k]), "path") != nil && wordy(below(importIn(own[k]), "path")) ==> meant(from, importIn(own[k]), res) in set;
fn importsIn(file string, res ImportResolver, set map[string]GrammarNode) bool =
  coveredUpTo(len(stmtsIn(file, content(file))), file, stmtsIn(file, content(file)), res, set);
opaque fn allIn(a map[string]GrammarNode, b map[string]GrammarNode) bool = forall k string :: { k in a } { k in b } k in a ==> k in b;

// the statements of one text and then of files i to j, in order
rec fn gathered(own []ast.Node, files []string, i int, j int) []ast.Node fuel 1 =
  if j <= i then own else gathered(own, files, i, j - 1) ++ stmtsIn(files[j-1], content(files[j-1]));
lemma cat_assoc(a []ast.Node, b []ast.Node, c []ast.Node) : { (a ++ b) ++ c } (a ++ b) ++ c == a ++ (b ++ c);
lemma gathered_join(own []ast.Node, x []ast.Node, f []string, i int, m int, k int, j int) induct j : { gathered(own, f, i, m), gathered(x, f, k, j), gathered(own, f, i, j) }
  0 <= i && i <= m && k == m + 1 && k <= j && x == stmtsIn(f[m], content(f[m])) ==> gathered(own, f, i, j) == gathered(own, f, i, m) ++ gathered(x, f, k, j);
lemma gathered_same(own []ast.Node, f []string, g []string, i int, j int) induct j : { gathered(own, f, i, j), gathered(own, g, i, j) }
  0 <= i && alike(f, g, j) ==> gathered(own, f, i, j) == gathered(own, g, i, j);
lemma gathered_step(own []ast.Node, x []ast.Node, f []string, g []string, i int, m int, k int, j int) : { gathered(own, f, i, m), gathered(x, g, k, j), gathered(own, g, i, j) }
  0 <= i && i <= m && k == m + 1 && k <= j && x == stmtsIn(g[m], content(g[m])) && alike(f, g, m) ==>
  gathered(own, g, i, m) == gathered(own, f, i, m) && gathered(own, g, i, j) == gathered(own, g, i, m) ++ gathered(x, g, k, j);
rec fn alike(f []string, g []string, n int) bool fuel 1 = forall k int :: { f[k] } { g[k] } 0 <= k && k < n ==> f[k] == g[k];
lemma alike_less(f []string, g []string, n int, m int) : { alike(f, g, n), alike(f, g, m) } m <= n && alike(f, g, n) ==> alike(f, g, m);
lemma alike_at(f []string, g []string, n int, m int) : { alike(f, g, n), f[m] } { alike(f, g, n), g[m] } 0 <= m && m < n && alike(f, g, n) ==> f[m] == g[m];
fn extends(g []string, f []string) bool = len(g) >= len(f) && (forall i int :: { g[i] } { f[i] } 0 <= i && i < len(f) ==> g[i] == f[i]);
// files i and later are different ones, none of which was taken before
fn anew(f []string, i int, before map[string]GrammarNode, after map[string]GrammarNode) bool =
  (forall k int :: { f[k] } i <= k && k < len(f) ==> f[k] in after && !(f[k] in before)) &&
  (forall k int, m int :: { f[k], f[m] } i <= k && k < m && m < len(f) ==> f[k] != f[m]);

func (PragmaImportPathNode).AllToken(c)(r) {
  ensures [C25, tokens] wordy(c.Node) ==> r == tokens(c.Node);
  inv for (out []string, i idx): len(out) == i && (wordy(c.Node) ==> (forall j int :: { out[j] } 0 <= j && j < i ==> out[j] == words(kidAt(c.Node, "", j))));
}
func mergeGrammarNodes(a, b)(r) {
  requires wellFormed(a) && wellFormed(b);
  mutates a;
  ensures [C25, form] wellFormed(r);
  ensures [C25, both] stmts(r) == stmts(old(a)) ++ stmts(b);
}
func (*compiler).loadGrammarFile(c, filename)(r, err) {
  requires c != nil;
  modifies *c, filesRead;
  ensures [C25, resolver] c.resolver == old(c.resolver);
  ensures [C25, kept] extends(filesRead, old(filesRead)) && allIn(old(c.imports), c.imports);
  ensures [C25, taken] err == nil ==> filepath.Clean(filename) in c.imports;
  ensures [C25, anew] err == nil ==> anew(filesRead, len(old(filesRead)), old(c.imports), c.imports);
  ensures [C25, once] filepath.Clean(filename) in old(c.imports) ==> err == nil && r.Node == nil && filesRead == old(filesRead);
  ensures [C25, read] !(filepath.Clean(filename) in old(c.imports)) ==> len(filesRead) > len(old(filesRead)) && filesRead[len(old(filesRead))] == filepath.Clean(filename);
  ensures [C25, statements] !(filepath.Clean(filename) in old(c.imports)) && err == nil ==> wellFormed(r.Node) &&
    stmts(r.Node) == gathered(stmtsIn(filepath.Clean(filename), content(filepath.Clean(filename))), filesRead, len(old(filesRead)) + 1, len(filesRead));
  ensures [C25, complete] err == nil ==> (forall k int :: { filesRead[k] } len(old(filesRead)) <= k && k < len(filesRead) ==> importsIn(filesRead[k], c.resolver, c.imports));
}
func (*compiler).makeGrammar(c, filename, text)(r, err) {
  requires c != nil;
  modifies *c, filesRead;
  option noframe;
  ensures [C25, resolver] c.resolver == old(c.resolver);
  ensures [C25, kept] extends(filesRead, old(filesRead)) && allIn(old(c.imports), c.imports);
  ensures [C25, anew] err == nil ==> anew(filesRead, len(old(filesRead)), old(c.imports), c.imports);
  ensures [C25, statements] err == nil ==> wellFormed(r.Node) && stmts(r.Node) == gathered(stmtsIn(filename, text), filesRead, len(old(filesRead)), len(filesRead));
  ensures [C25, direct] err == nil ==> coveredUpTo(len(stmtsIn(filename, text)), filename, stmtsIn(filename, text), c.resolver, c.imports);
  ensures [C25, complete] err == nil ==> (forall k int :: { filesRead[k] } len(old(filesRead)) <= k && k < len(filesRead) ==> importsIn(filesRead[k], c.resolver, c.imports));
  inv c.resolver == old(c.resolver);
  inv extends(filesRead, old(filesRead)) && allIn(old(c.imports), c.imports);
  inv for (e error): e == nil ==> anew(filesRead, len(old(filesRead)), old(c.imports), c.imports);
  inv for (g GrammarNode, e error): wellFormed(g.Node);
  inv for (g GrammarNode, e error): e == nil ==> stmts(g.Node) == gathered(stmtsIn(filename, text), filesRead, len(old(filesRead)), len(filesRead));
  inv for (e error, i idx): e == nil ==> coveredUpTo(i, filename, stmtsIn(filename, text), c.resolver, c.imports);
  inv for (e error): e == nil ==> (forall k int :: { filesRead[k] } len(old(filesRead)) <= k && k < len(filesRead) ==> importsIn(filesRead[k], c.resolver, c.imports));
}
lemma covered_none(from string, own []ast.Node, res ImportResolver, set map[string]GrammarNode) : { coveredUpTo(0, from, own, res, set) } coveredUpTo(0, from, own, res, set);
lemma covered_more(n int, from string, own []ast.Node, res ImportResolver, a map[string]GrammarNode, b map[string]GrammarNode) :
  { coveredUpTo(n, from, own, res, a), coveredUpTo(n, from, own, res, b) } coveredUpTo(n, from, own, res, a) && allIn(a, b) ==> coveredUpTo(n, from, own, res, b);
lemma covered_next(n int, m int, from string, own []ast.Node, res ImportResolver, a map[string]GrammarNode, b map[string]GrammarNode) :
  { coveredUpTo(n, from, own, res, a), coveredUpTo(m, from, own, res, b) } m == n + 1 && coveredUpTo(n, from, own, res, a) && allIn(a, b) &&
  (n < len(own) && importIn(own[n]) != nil && below(importIn(own[n]), "path") != nil && wordy(below(importIn(own[n]), "path")) ==> meant(from, importIn(own[n]), res) in b) ==> coveredUpTo(m, from, own, res, b);
lemma all_in_self(a map[string]GrammarNode) : { allIn(a, a) } allIn(a, a);
lemma all_in_step(a map[string]GrammarNode, b map[string]GrammarNode, c map[string]GrammarNode) : { allIn(a, b), allIn(a, c) } { allIn(b, c), allIn(a, b) } { allIn(b, c), allIn(a, c) } allIn(a, b) && allIn(b, c) ==> allIn(a, c);
func (WalkerOps).WalkProdNode(w, node)(r) { option within = makeGrammar; trusted "no imports in productions"; ensures r == nil; }
func (WalkerOps).WalkPragmaMacrodefNode(w, node)(r) { option within = makeGrammar; trusted "no imports in macros"; ensures r == nil; }
