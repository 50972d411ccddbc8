package parser;

immutable Node, sParser, reParser, seqParser, delimParser, quantParser, oneofParser, lookaheadParser, cutPointParser, scopeVal, call, escape, REF;
linking (cache).registerRule, registerRules;

// ---------------------------------------------------------------- positions and trees

// b is a later (or the same) position in the same text: only forward, same end.
fn fwd(a Scanner, b Scanner) bool = valid(b) && b.src == a.src && start(a) <= start(b) && end(b) == end(a);
// x is a piece of the text still to be read at s.
fn leafIn(x Scanner, s Scanner) bool = valid(x) && x.src == s.src && start(s) <= start(x) && end(x) <= end(s);
// every leaf of a tree is a piece of the text to be read at s
rec fn genuine(e TreeElement, s Scanner) bool fuel 2 =
  if e is Scanner then leafIn(e.(Scanner), s)
  else if e is Node then (forall i int :: { e.(Node).Children[i] } 0 <= i && i < len(e.(Node).Children) ==> genuine(e.(Node).Children[i], s))
  else true;
lemma genuine_mono(e TreeElement, s Scanner, t Scanner) induct e : { genuine(e, s), genuine(e, t) }
  genuine(e, s) && valid(s) && valid(t) && fwd(t, s) ==> genuine(e, t);

lemma genuine_child(e TreeElement, s Scanner, i int) : { genuine(e, s), e.(Node).Children[i] }
  genuine(e, s) && e is Node && 0 <= i && i < len(e.(Node).Children) ==> genuine(e.(Node).Children[i], s);

fn hasEsc(s Scope) bool = parseEscapeKey in s.m;
// the commit point failures are committed to, -1 if there is none
fn cut(s Scope) int = if cutpointkey in s.m && s.m[cutpointkey].(Cutpointdata) >= 0 then s.m[cutpointkey].(Cutpointdata) else 0-1;
fn committed(s Scope) bool = cut(s) >= 0;

// ---------------------------------------------------------------- parsers

iface Parser.Parse(p, scope, input, output, stk)(err) {
  frame [C12];
  requires input != nil && output != nil && valid(*input);
  modifies *input, *output;
  ensures [C01] fwd(old(*input), *input);
  ensures [C01] err == nil ==> genuine(*output, old(*input));
}

trace calls on Parser.Parse(p, scope, input, output, stk)(err) {
  recv Parser = p;
  scope Scope = scope;
  in Scanner = old(*input);
  rest Scanner = *input;
  out TreeElement = *output;
  err error = err;
}

// Handlers of external references are the caller's: assumed to behave like parsers.
functype ExternalRef(scope, input)(tree, err) {
  requires input != nil && valid(*input);
  modifies *input;
  ensures fwd(old(*input), *input);
  ensures err == nil ==> genuine(tree, old(*input));
  ensures err is UnconsumedInputError ==> fwd(old(*input), err.(UnconsumedInputError).residue) && genuine(err.(UnconsumedInputError).tree, old(*input));
}

fn putTag(f putter) string;
functype putter(output, extra, children)(err) {
  requires output != nil;
  modifies *output;
  ensures [C03] err == nil && *output == Node{Tag: putTag(self), Extra: extra, Children: children};
}
func tag(rule, alt)(r) {
  witness putTag(r) == string(ruleOr(rule, alt));
  ensures [C03] putTag(r) == string(ruleOr(rule, alt));
}
fn ruleOr(rule Rule, alt Rule) Rule = if rule == "" then alt else rule;

func parseEscape(p, scope, ident, t, input, output)(done, err) {
  requires input != nil && output != nil && valid(*input);
  modifies *input, *output;
  ensures [C01] fwd(old(*input), *input);
  ensures [C01] done ==> err == nil && genuine(*output, old(*input));
  ensures [C01, C03] !done && err == nil ==> *input == old(*input) && *output == old(*output);
  ensures [C01, C03] !hasEsc(scope) ==> !done && err == nil;
}

func eatRegexp(input, re, output)(r) {
  requires input != nil && output != nil && valid(*input);
  modifies *input, *output;
  let loc = re.FindStringSubmatchIndex(text(old(*input)));
  ensures [C10] r == !isnilslice(loc);
  ensures [C10] !r ==> *input == old(*input) && *output == old(*output);
  ensures [C10] r ==> *input == piece(old(*input), loc[1], old(*input).sliceLength);
  ensures [C10] r ==> *output == TreeElement(token(old(*input), loc));
}

func (ruleParser).Parse(p, scope, input, output, stk)(err) { option panics; }

// ---------------------------------------------------------------- tokens

axiom literal(t string, s string) because "regexp: a quoted literal matches exactly itself": { regexp.MustCompile("(?m)\\A(" + regexp.QuoteMeta(t) + ")").FindStringSubmatchIndex(s) }
  isnilslice(regexp.MustCompile("(?m)\\A(" + regexp.QuoteMeta(t) + ")").FindStringSubmatchIndex(s)) == !sprefix(s, t) &&
  (sprefix(s, t) ==> regexp.MustCompile("(?m)\\A(" + regexp.QuoteMeta(t) + ")").FindStringSubmatchIndex(s) == []int{0, len(t), 0, len(t)});

// what a token at the start of s yields
fn token(s Scanner, loc []int) Scanner =
  if len(loc) >= 6 && loc[4] >= 0 then piece(s, loc[4], loc[5])
  else if len(loc) >= 4 && loc[2] >= 0 then piece(s, loc[2], loc[3])
  else piece(s, loc[0], loc[1]);

// the pattern with the wrapping the grammar declares: pre is the pattern of the token, re its text
fn exemptBy(t Term, re string) bool = t is S && string(t.(S)) == re || t is RE && string(t.(RE)) == re;
fn exempt(o Oneof, re string) bool = exists i int :: 0 <= i && i < len(o) - 1 && exemptBy(o[i], re);
fn wrapIn(w Term, pre string) string = "(?m)\\A" + strings.Replace(string(w.(RE)), "()", "(?:" + pre + ")", 1);
fn pattern(g Grammar, re string, pre string) string =
  if !(WrapRE in g) then "(?m)\\A" + pre
  else if g[WrapRE] is Oneof then (if exempt(g[WrapRE].(Oneof), re) then "(?m)\\A" + pre else wrapIn(g[WrapRE].(Oneof)[len(g[WrapRE].(Oneof))-1], pre))
  else wrapIn(g[WrapRE], pre);

func (S).Parser(t, rule, c)(p) {
  ensures [C10] p.(*sParser).re == regexp.MustCompile(pattern(c.grammar, string(t), "(" + regexp.QuoteMeta(string(t)) + ")"));
  inv for (i idx): forall k int :: { c.grammar[WrapRE].(Oneof)[k] } 0 <= k && k < i ==> !exemptBy(c.grammar[WrapRE].(Oneof)[k], string(t));
}
func (RE).Parser(t, rule, c)(p) {
  ensures [C10] p.(*reParser).re == regexp.MustCompile(pattern(c.grammar, string(t), "(" + string(t) + ")"));
  inv for (i idx): forall k int :: { c.grammar[WrapRE].(Oneof)[k] } 0 <= k && k < i ==> !exemptBy(c.grammar[WrapRE].(Oneof)[k], string(t));
}
func (*sParser).Parse(p, scope, input, output, stk)(err) {
  let plain = !hasEsc(scope);
  let loc = p.re.FindStringSubmatchIndex(text(old(*input)));
  ensures [C10, matches] plain ==> (err == nil) == !isnilslice(loc);
  ensures [C10, result] plain && err == nil ==> *input == piece(old(*input), loc[1], old(*input).sliceLength) && *output == TreeElement(token(old(*input), loc));
  ensures [C10, literal] plain && p.re == regexp.MustCompile("(?m)\\A(" + regexp.QuoteMeta(string(p.t)) + ")") ==> (err == nil) == sprefix(text(old(*input)), string(p.t));
  ensures [C10, literal] plain && p.re == regexp.MustCompile("(?m)\\A(" + regexp.QuoteMeta(string(p.t)) + ")") && err == nil ==>
      *output == TreeElement(piece(old(*input), 0, len(string(p.t)))) && *input == piece(old(*input), len(string(p.t)), old(*input).sliceLength);
  ensures [C10, consumes nothing] plain && err != nil ==> *input == old(*input);
  ensures [C08, fails] plain && err != nil ==> fails(err, scope);
}
func (*reParser).Parse(p, scope, input, output, stk)(err) {
  let plain = !hasEsc(scope);
  let loc = p.re.FindStringSubmatchIndex(text(old(*input)));
  ensures [C10, matches] plain ==> (err == nil) == !isnilslice(loc);
  ensures [C10, result] plain && err == nil ==> *input == piece(old(*input), loc[1], old(*input).sliceLength) && *output == TreeElement(token(old(*input), loc));
  ensures [C10, consumes nothing] plain && err != nil ==> *input == old(*input);
  ensures [C08, fails] plain && err != nil ==> fails(err, scope);
}

// ---------------------------------------------------------------- names and bindings

rec fn identOf(t Term) string fuel 2 =
  if t is Named then (if t.(Named).Name != "" then t.(Named).Name else identOf(t.(Named).Term))
  else if t is Rule then string(t.(Rule))
  else if t is Quant then identOf(t.(Quant).Term)
  else "";
func identFromTerm(term)(r) { ensures [C03] r == identOf(term); }

// the scope in which a name is bound to a value
fn bind(s Scope, n string, p Parser, v TreeElement) Scope =
  if n == "" then s else Scope{m: s.m[n := &scopeVal{p: p, val: v}]};
// the scope in which failures are committed to c
fn commit(s Scope, c Cutpointdata) Scope = Scope{m: s.m[cutpointkey := c]};

// after a commit point: committed to some id, the value bound to the name
fn passed(s Scope, t Scope, n string, p Parser, v TreeElement) bool =
  n != cutpointkey ==> committed(t) && t == bind(commit(s, Cutpointdata(cut(t))), n, p, v);

fn fatal(e error) bool = e is FatalError || e is StopError;
// a committed failure of an enclosing construct (mine is committed to c)
fn foreign(e error, c int) bool = if e is FatalError then e.(FatalError).Cutpointdata != c else e is StopError;
// the error a construct makes up in scope s
fn fails(e error, s Scope) bool =
  if committed(s) then e is FatalError && e.(FatalError).Cutpointdata == cut(s) else e is ParseError;

extern rand.Int31()(r) { option nondet; ensures 0 <= r; }

// ---------------------------------------------------------------- sequences

func (*seqParser).Parse(p, scope, input, output, stk)(err) {
  let plain = !hasEsc(scope);
  let n = len(calls);
  ensures [C03, parts] plain ==> n <= len(p.parsers) && (forall i int :: { calls[i].Recv } 0 <= i && i < n ==> calls[i].Recv == p.parsers[i]);
  ensures [C03, chain] plain ==> (forall i int :: { calls[i].In } 0 <= i && i < n ==> calls[i].In == (if i == 0 then old(*input) else calls[i-1].Rest));
  ensures [C03, stops] plain ==> (forall i int :: { calls[i].Err } 0 <= i && i < n - 1 ==> calls[i].Err == nil);
  ensures [C03, all] plain && err == nil ==> n == len(p.parsers) && (n > 0 ==> calls[n-1].Err == nil);
  ensures [C03, result] plain && err == nil ==> *output == Node{Tag: putTag(p.put), Children: seq(k, n, calls[k].Out)};
  ensures [C03, position] plain && err == nil ==> *input == (if n == 0 then old(*input) else calls[n-1].Rest);
  ensures [C03, fails] plain && err != nil ==> n > 0 && calls[n-1].Err != nil;
  ensures [C03, bindings] plain && n > 0 ==> calls[0].Scope == scope;
  ensures [C03, C08, bindings] plain ==> (forall i int :: { calls[i].Scope } 0 < i && i < n && !(p.parsers[i-1] is *cutPointParser) ==>
      calls[i].Scope == bind(calls[i-1].Scope, identOf(p.t[i-1]), p.parsers[i-1], calls[i-1].Out));
  ensures [C08, commits] plain ==> (forall i int :: { calls[i].Scope } 0 < i && i < n && p.parsers[i-1] is *cutPointParser ==>
      passed(calls[i-1].Scope, calls[i].Scope, identOf(p.t[i-1]), p.parsers[i-1], calls[i-1].Out));
  ensures [C08, passes] plain && err != nil && fatal(calls[n-1].Err) ==> err == calls[n-1].Err;
  ensures [C08, commits] plain && err != nil && !fatal(calls[n-1].Err) ==> fails(err, calls[n-1].Scope);
  inv for (i idx): len(calls) == i;
  inv for (i idx): forall k int :: { calls[k].Recv } 0 <= k && k < i ==> calls[k].Recv == p.parsers[k];
  inv for (i idx): forall k int :: { calls[k].Err } 0 <= k && k < i ==> calls[k].Err == nil;
  inv for (i idx): forall k int :: { calls[k].In } 0 <= k && k < i ==> calls[k].In == (if k == 0 then old(*input) else calls[k-1].Rest);
  inv for (i idx): *input == (if i == 0 then old(*input) else calls[i-1].Rest);
  inv for (r []TreeElement): len(r) == len(calls) && (forall k int :: { calls[k].Out } 0 <= k && k < len(r) ==> r[k] == calls[k].Out);
  inv for (r []TreeElement): forall k int :: { r[k] } 0 <= k && k < len(r) ==> genuine(r[k], old(*input));
  inv fwd(old(*input), *input);
  inv for (s Scanner): fwd(old(*input), s);
  inv for (s Scope, i idx): i == 0 ==> s == scope;
  inv for (s Scope, i idx): i > 0 && !(p.parsers[i-1] is *cutPointParser) ==> s == bind(calls[i-1].Scope, identOf(p.t[i-1]), p.parsers[i-1], calls[i-1].Out);
  inv for (s Scope, i idx): i > 0 && p.parsers[i-1] is *cutPointParser ==>
      passed(calls[i-1].Scope, s, identOf(p.t[i-1]), p.parsers[i-1], calls[i-1].Out);
  inv for (i idx): i > 0 ==> calls[0].Scope == scope;
  inv for (i idx): forall k int :: { calls[k].Scope } 0 < k && k < i && !(p.parsers[k-1] is *cutPointParser) ==>
      calls[k].Scope == bind(calls[k-1].Scope, identOf(p.t[k-1]), p.parsers[k-1], calls[k-1].Out);
  inv for (i idx): forall k int :: { calls[k].Scope } 0 < k && k < i && p.parsers[k-1] is *cutPointParser ==>
      passed(calls[k-1].Scope, calls[k].Scope, identOf(p.t[k-1]), p.parsers[k-1], calls[k-1].Out);
}

func (*cutPointParser).Parse(p, scope, input, output, stk)(err) {
  ensures [C03, C08] len(calls) == 1 && calls[0].Recv == p.p && calls[0].Scope == scope && calls[0].In == old(*input) && calls[0].Rest == *input && calls[0].Err == err;
  ensures [C03, C08] err == nil ==> *output == calls[0].Out;
}

// ---------------------------------------------------------------- ordered choice

func (*oneofParser).Parse(p, scope, input, output, stk)(err) {
  let plain = !hasEsc(scope);
  let n = len(calls);
  ensures [C04, order] plain ==> n <= len(p.parsers) && (forall i int :: { calls[i].Recv } 0 <= i && i < n ==> calls[i].Recv == p.parsers[i]);
  ensures [C04, start] plain ==> (forall i int :: { calls[i].In } 0 <= i && i < n ==> calls[i].In == old(*input));
  ensures [C04, C08, samescope] plain ==> (forall i int :: { calls[i].Scope } 0 <= i && i < n ==> calls[i].Scope == calls[0].Scope);
  ensures [C04, C08, scope] plain && n > 0 && !committed(scope) ==> calls[0].Scope == scope;
  ensures [C04, C08, scope] plain && n > 0 && committed(scope) ==> committed(calls[0].Scope) && calls[0].Scope == commit(scope, Cutpointdata(cut(calls[0].Scope)));
  ensures [C04, first] plain ==> (forall i int :: { calls[i].Err } 0 <= i && i < n - 1 ==> calls[i].Err != nil);
  ensures [C04, result] plain && err == nil ==> n > 0 && calls[n-1].Err == nil && *output == Node{Tag: putTag(p.put), Extra: Choice(n-1), Children: []TreeElement{calls[n-1].Out}};
  ensures [C04, position] plain && err == nil ==> *input == calls[n-1].Rest;
  ensures [C04, fails] plain && err != nil ==> (n == 0 || calls[n-1].Err != nil) && (n == len(p.parsers) || foreign(calls[n-1].Err, cut(calls[n-1].Scope)));
  ensures [C08, goeson] plain ==> (forall i int :: { calls[i].Err } 0 <= i && i < n - 1 ==> !foreign(calls[i].Err, cut(calls[i].Scope)));
  ensures [C08, givesup] plain && err != nil && n > 0 && foreign(calls[n-1].Err, cut(calls[n-1].Scope)) ==> err == calls[n-1].Err;
  ensures [C08, fails] plain && err != nil && !(n > 0 && foreign(calls[n-1].Err, cut(calls[n-1].Scope))) ==> fails(err, scope);
  inv for (i idx): len(calls) == i;
  inv for (i idx): forall k int :: { calls[k].Recv } 0 <= k && k < i ==> calls[k].Recv == p.parsers[k];
  inv for (i idx): forall k int :: { calls[k].In } 0 <= k && k < i ==> calls[k].In == old(*input);
  inv for (i idx, s Scope): forall k int :: { calls[k].Scope } 0 <= k && k < i ==> calls[k].Scope == s;
  inv for (i idx): forall k int :: { calls[k].Scope } 0 <= k && k < i ==> calls[k].Scope == calls[0].Scope;
  inv for (i idx): forall k int :: { calls[k].Err } 0 <= k && k < i ==> calls[k].Err != nil;
  inv for (i idx): forall k int :: { calls[k].Err } 0 <= k && k < i ==> !foreign(calls[k].Err, cut(calls[k].Scope));
  inv for (s Scope, c Cutpointdata): cut(s) == c;
  inv for (s Scanner): fwd(old(*input), s);
}

// ---------------------------------------------------------------- repetition

func (*quantParser).Parse(p, scope, input, output, stk)(err) {
  let plain = !hasEsc(scope);
  let n = len(calls);
  let ok = if n > 0 && calls[n-1].Err != nil then n - 1 else n;
  ensures [C05, term] plain ==> (forall i int :: { calls[i].Recv } 0 <= i && i < n ==> calls[i].Recv == p.term);
  ensures [C05, chain] plain ==> (forall i int :: { calls[i].In } 0 <= i && i < n ==> calls[i].In == (if i == 0 then old(*input) else calls[i-1].Rest));
  ensures [C05, stops] plain ==> (forall i int :: { calls[i].Err } 0 <= i && i < n - 1 ==> calls[i].Err == nil);
  ensures [C05, max] plain && p.t.Max > 0 ==> n <= p.t.Max;
  ensures [C05, result] plain && err == nil ==> ok >= p.t.Min && *output == Node{Tag: putTag(p.put), Children: seq(k, ok, calls[k].Out)};
  ensures [C05, position] plain && err == nil ==> *input == (if ok == 0 then old(*input) else calls[ok-1].Rest);
  ensures [C05, greedy] plain && p.t.Max >= 0 ==> n > 0 && calls[n-1].Err != nil || p.t.Max > 0 && n == p.t.Max ||
      p.t.Max == 0 && n > 0 && n >= p.t.Min && start(calls[n-1].Rest) == start(calls[n-1].In);
  ensures [C05, minimum] plain && err != nil ==> ok < p.t.Min || n > 0 && foreign(calls[n-1].Err, cut(calls[n-1].Scope));
  ensures [C05, C08, samescope] plain ==> (forall i int :: { calls[i].Scope } 0 <= i && i < n ==> calls[i].Scope == calls[0].Scope);
  ensures [C05, C08, scope] plain && n > 0 && !committed(scope) ==> calls[0].Scope == scope;
  ensures [C05, C08, scope] plain && n > 0 && committed(scope) ==> committed(calls[0].Scope) && calls[0].Scope == commit(scope, Cutpointdata(cut(calls[0].Scope)));
  ensures [C08, givesup] plain && n > 0 && foreign(calls[n-1].Err, cut(calls[n-1].Scope)) ==> err == calls[n-1].Err;
  ensures [C08, fails] plain && err != nil && !(n > 0 && foreign(calls[n-1].Err, cut(calls[n-1].Scope))) ==> fails(err, scope);
  terminates [C05];
  decreases for (r []TreeElement, s Scanner): if p.t.Max != 0 then p.t.Max - len(r) else end(s) - start(s);
  decreases for (r []TreeElement): p.t.Min - len(r);
  inv for (r []TreeElement): len(r) == len(calls) && (forall k int :: { calls[k].Out } 0 <= k && k < len(r) ==> r[k] == calls[k].Out);
  inv for (r []TreeElement): forall k int :: { r[k] } 0 <= k && k < len(r) ==> genuine(r[k], old(*input));
  inv forall k int :: { calls[k].Recv } 0 <= k && k < len(calls) ==> calls[k].Recv == p.term;
  inv forall k int :: { calls[k].Err } 0 <= k && k < len(calls) ==> calls[k].Err == nil;
  inv forall k int :: { calls[k].In } 0 <= k && k < len(calls) ==> calls[k].In == (if k == 0 then old(*input) else calls[k-1].Rest);
  inv for (s Scope): forall k int :: { calls[k].Scope } 0 <= k && k < len(calls) ==> calls[k].Scope == s;
  inv forall k int :: { calls[k].Scope } 0 <= k && k < len(calls) ==> calls[k].Scope == calls[0].Scope;
  inv *input == (if len(calls) == 0 then old(*input) else calls[len(calls)-1].Rest);
  inv for (s Scanner): s == *input;
  inv p.t.Max > 0 ==> len(calls) <= p.t.Max;
  inv fwd(old(*input), *input);
}

// ---------------------------------------------------------------- lookahead

func (*lookaheadParser).Parse(p, scope, input, output, stk)(err) {
  let plain = !hasEsc(scope);
  ensures [C07, once] plain ==> len(calls) == 1 && calls[0].Recv == p.term && calls[0].Scope == scope && calls[0].In == old(*input);
  ensures [C07, C08, outcome] plain ==> err == calls[0].Err;
  ensures [C07, consumes nothing] plain ==> *input == old(*input);
  ensures [C07, result] plain && err == nil ==> *output == Node{Tag: putTag(p.put), Children: []TreeElement{calls[0].Out}};
}

// ---------------------------------------------------------------- delimited lists

fn kid(e TreeElement, i int) TreeElement = e.(Node).Children[i];
fn cnt(e TreeElement) int = len(e.(Node).Children);
// where the mandatory part starts in the tree of the equivalent sequence
fn dbase(t Delim) int = if t.CanStartWithSep then 1 else 0;
fn dlead(t Delim, c TreeElement) int = if t.CanStartWithSep && cnt(kid(c, 0)) != 0 then 2 else 0;
fn dmid(t Delim, c TreeElement) TreeElement = kid(kid(c, dbase(t)), 1);
fn dend(t Delim, c TreeElement) bool = t.CanEndWithSep && kid(c, dbase(t) + 1) != nil && cnt(kid(c, dbase(t) + 1)) > 0;
// the flat list of terms and separators
fn dcount(t Delim, c TreeElement) int = dlead(t, c) + 1 + 2 * cnt(dmid(t, c)) + (if dend(t, c) then 2 else 0);
opaque fn dflat(t Delim, c TreeElement, j int) TreeElement =
  if j < dlead(t, c) then (if j == 0 then TreeElement(Empty{}) else kid(kid(c, 0), 0))
  else if j == dlead(t, c) then kid(kid(c, dbase(t)), 0)
  else if j < dlead(t, c) + 1 + 2 * cnt(dmid(t, c)) then kid(kid(dmid(t, c), (j - dlead(t, c) - 1) / 2), (j - dlead(t, c) - 1) % 2)
  else if j == dlead(t, c) + 1 + 2 * cnt(dmid(t, c)) then kid(kid(c, dbase(t) + 1), 0)
  else TreeElement(Empty{});
// left and right associative nesting of the first (last) i separators
rec fn foldl(tg string, t Delim, c TreeElement, i int) TreeElement fuel 2 =
  if i <= 0 then dflat(t, c, 0)
  else TreeElement(Node{Tag: tg, Extra: t.Assoc, Children: []TreeElement{foldl(tg, t, c, i - 1), dflat(t, c, 2*i - 1), dflat(t, c, 2*i)}});
rec fn foldr(tg string, t Delim, c TreeElement, i int) TreeElement fuel 2 =
  if i <= 0 then dflat(t, c, dcount(t, c) - 1)
  else TreeElement(Node{Tag: tg, Extra: t.Assoc, Children: []TreeElement{dflat(t, c, dcount(t, c) - 1 - 2*i), dflat(t, c, dcount(t, c) - 2*i), foldr(tg, t, c, i - 1)}});

func (*delimParser).Parse(p, scope, input, output, stk)(err) {
  let plain = !hasEsc(scope);
  let c = calls[0].Out;
  let n = dcount(p.t, c);
  ensures [C06, once] plain ==> len(calls) == 1 && calls[0].Recv == p.child && calls[0].Scope == scope && calls[0].In == old(*input) && *input == calls[0].Rest;
  ensures [C06, C08, outcome] plain ==> err == calls[0].Err;
  ensures [C06, flat] plain && err == nil && (n == 1 || p.t.Assoc != LeftToRight && p.t.Assoc != RightToLeft) ==>
     *output == Node{Tag: putTag(p.put), Extra: Associativity(0), Children: seq(k, n, dflat(p.t, c, k))};
  ensures [C06, left] plain && err == nil && n > 1 && p.t.Assoc == LeftToRight ==> *output == foldl(putTag(p.put), p.t, c, (n - 1) / 2);
  ensures [C06, right] plain && err == nil && n > 1 && p.t.Assoc == RightToLeft ==> *output == foldr(putTag(p.put), p.t, c, (n - 1) / 2);
  inv for (r []TreeElement): forall k int :: { r[k] } 0 <= k && k < len(r) ==> genuine(r[k], old(*input));
  inv for (v TreeElement): genuine(v, old(*input));
  inv for (r []TreeElement, i idx): len(r) == dlead(p.t, calls[0].Out) + 1 + 2 * i;
  inv for (r []TreeElement): forall k int :: { r[k] } 0 <= k && k < len(r) ==> r[k] == dflat(p.t, calls[0].Out, k);
  inv for (i int): i % 2 == 1;
  inv for (v TreeElement, i int): v == foldl(putTag(p.put), p.t, calls[0].Out, (i - 1) / 2);
  inv for (v TreeElement, i int): v == foldr(putTag(p.put), p.t, calls[0].Out, (i - 1) / 2);
}

// ---------------------------------------------------------------- from terms to parsers

// The sequence a delimited list is read as.
fn delimOpt(t Delim) Term = Quant{Term: t.Sep, Max: 1};
fn delimList(t Delim) Term = Seq{t.Term, Quant{Term: Seq{t.Sep, t.Term}}};
fn delimSeq(t Delim) Seq =
  if t.CanStartWithSep then (if t.CanEndWithSep then Seq{delimOpt(t), delimList(t), delimOpt(t)} else Seq{delimOpt(t), delimList(t)})
  else (if t.CanEndWithSep then Seq{delimList(t), delimOpt(t)} else Seq{delimList(t)});

// p is a parser for t whose trees are labelled with the rule. References to rules are linked later.
rec fn built(p Parser, t Term, r Rule) bool fuel 3 =
  if t is S then p is *sParser && p.(*sParser) != nil && p.(*sParser).t == t.(S)
  else if t is RE then p is *reParser && p.(*reParser) != nil && p.(*reParser).t == t.(RE)
  else if t is REF then p is *REF && p.(*REF) != nil && *(p.(*REF)) == t.(REF)
  else if t is ExtRef then p is ExtRef && p.(ExtRef) == t.(ExtRef)
  else if t is Seq then p is *seqParser && p.(*seqParser) != nil && p.(*seqParser).t == t.(Seq) && putTag(p.(*seqParser).put) == string(ruleOr(r, seqTag)) &&
     len(p.(*seqParser).parsers) == len(t.(Seq)) &&
     (forall i int :: { p.(*seqParser).parsers[i] } 0 <= i && i < len(t.(Seq)) ==> built(p.(*seqParser).parsers[i], t.(Seq)[i], ""))
  else if t is Oneof then p is *oneofParser && p.(*oneofParser) != nil && p.(*oneofParser).t == t.(Oneof) && putTag(p.(*oneofParser).put) == string(ruleOr(r, oneofTag)) &&
     len(p.(*oneofParser).parsers) == len(t.(Oneof)) &&
     (forall i int :: { p.(*oneofParser).parsers[i] } 0 <= i && i < len(t.(Oneof)) ==> built(p.(*oneofParser).parsers[i], t.(Oneof)[i], ""))
  else if t is Delim then p is *delimParser && p.(*delimParser) != nil && p.(*delimParser).t == t.(Delim) && putTag(p.(*delimParser).put) == string(ruleOr(r, delimTag)) &&
     built(p.(*delimParser).child, Term(delimSeq(t.(Delim))), r)
  else if t is Quant then p is *quantParser && p.(*quantParser) != nil && p.(*quantParser).t == t.(Quant) && putTag(p.(*quantParser).put) == string(ruleOr(r, quantTag)) &&
     built(p.(*quantParser).term, t.(Quant).Term, "")
  else if t is LookAhead then p is *lookaheadParser && p.(*lookaheadParser) != nil && p.(*lookaheadParser).t == t.(LookAhead) && putTag(p.(*lookaheadParser).put) == string(ruleOr(r, lookaheadTag)) &&
     built(p.(*lookaheadParser).term, t.(LookAhead).Term, "")
  else if t is Named then built(p, t.(Named).Term, Rule(t.(Named).Name))
  else if t is CutPoint then p is *cutPointParser && p.(*cutPointParser) != nil && built(p.(*cutPointParser).p, t.(CutPoint).Term, r)
  else true;

// a reference to a rule is nothing that the terms with parts are built from
lemma reference(p Parser, q Parser, t Term, r Rule) induct t : { built(p, t, r), built(q, t, r) }
  built(p, t, r) && p is ruleParser ==> built(q, t, r);

iface Term.Parser(t, rule, c)(p) {
  frame [C12];
  ensures [C03, C04, C05, C06, C07, C08, C10] built(p, t, rule);
}
func (cache).makeParsers(c, terms)(ps) {
  ensures [C03, C04] len(ps) == len(terms) && (forall i int :: { ps[i] } 0 <= i && i < len(terms) ==> built(ps[i], terms[i], ""));
  inv for (ps []Parser, i idx): len(ps) == i && (forall k int :: { ps[k] } 0 <= k && k < i ==> built(ps[k], terms[k], ""));
}
// Linking: fills in the parsers of rules after the fact; only ever replaces a ruleParser (see C22).
func (cache).registerRule(c, parser)() { trusted "linking, see C22"; }
func (cache).registerRules(c, parsers)() { trusted "linking, see C22"; }
// Compiles the nested grammar and links it; not verified (nothing is claimed of its result here).
func (ScopedGrammar).Parser(t, name, c)(p) { trusted "compiles and links the nested grammar"; }
func (Stack).Parser(t, rule, c)(p) { option panics; }

// ---------------------------------------------------------------- back references

axiom typeOf(a any, b any) because "reflect.TypeOf compares dynamic types": { reflect.TypeOf(a), reflect.TypeOf(b) }
  (reflect.TypeOf(a) == reflect.TypeOf(b)) == sametype(a, b);

// The same tree of texts. b is the bound value; where it has an Empty, nothing at all has to be read.
rec fn sameText(a any, b any) bool fuel 2 =
  if b is Empty then a is Node && len(a.(Node).Children) == 0
  else if b is Scanner then a is Scanner && text(a.(Scanner)) == text(b.(Scanner))
  else if b is Node then a is Node && len(a.(Node).Children) == len(b.(Node).Children) &&
     (forall i int :: { b.(Node).Children[i] } 0 <= i && i < len(b.(Node).Children) ==> sameText(a.(Node).Children[i], b.(Node).Children[i]))
  else false;
// every leaf is a piece of some text
rec fn leaves(e any) bool fuel 2 =
  if e is Scanner then valid(e.(Scanner))
  else if e is Node then (forall i int :: { e.(Node).Children[i] } 0 <= i && i < len(e.(Node).Children) ==> leaves(e.(Node).Children[i]))
  else true;
func nodesEqual(a, b)(r) {
  requires leaves(a) && leaves(b);
  ensures [C07] r == sameText(a, b);
  inv for (i idx): forall k int :: { b.(Node).Children[k] } 0 <= k && k < i ==> sameText(a.(Node).Children[k], b.(Node).Children[k]);
}
lemma genuine_leaves(e TreeElement, s Scanner) induct e : { genuine(e, s), leaves(e) } genuine(e, s) ==> leaves(e);

// the term that reads a value again
rec fn rereads(t Term, v TreeElement) bool fuel 2 =
  if v is Node then t is Seq && len(t.(Seq)) == len(v.(Node).Children) &&
     (forall i int :: { t.(Seq)[i] } 0 <= i && i < len(t.(Seq)) ==> rereads(t.(Seq)[i], v.(Node).Children[i]))
  else if v is Scanner then t is S && t.(S) == S(text(v.(Scanner)))
  else if v is Empty then t is Seq && len(t.(Seq)) == 0
  else true;
func termFromRefVal(from)(r) {
  requires leaves(from);
  ensures [C07] rereads(r, from);
  inv for (s Seq, i idx): len(s) == i && (forall k int :: { s[k] } 0 <= k && k < i ==> rereads(s[k], from.(Node).Children[k]));
}
invariant scopeVal(v) { requires [C07] leaves(v.val); }

func (*REF).Parse(t, scope, input, output, stk)(err) {
  let plain = !hasEsc(scope);
  let bound = t.Ident in scope.m;
  let v = scope.m[t.Ident].(*scopeVal).val;
  ensures [C07, bound] plain && bound ==> len(calls) == 1 && calls[0].Scope == scope && calls[0].In == old(*input) && *input == calls[0].Rest;
  ensures [C07, same text] plain && bound && err == nil ==> calls[0].Err == nil && *output == calls[0].Out && sameText(*output, v);
  ensures [C07, C08, fails] plain && bound && calls[0].Err != nil ==> err == calls[0].Err;
  ensures [C07, matches] plain && bound && calls[0].Err == nil && sameText(calls[0].Out, v) ==> err == nil;
  ensures [C07, reread] plain && bound ==> (exists tm Term :: built(calls[0].Recv, tm, Rule(t.Ident)) && rereads(tm, v));
  ensures [C07, default] plain && !bound && t.Default != nil ==> len(calls) == 1 && built(calls[0].Recv, t.Default, Rule(t.Ident)) && calls[0].Scope == scope &&
      calls[0].In == old(*input) && *input == calls[0].Rest && err == calls[0].Err;
  ensures [C07, default] plain && !bound && t.Default != nil && err == nil ==> *output == calls[0].Out;
  ensures [C07, unbound] plain && !bound && t.Default == nil ==> len(calls) == 0 && err != nil && *input == old(*input);
}

// ---------------------------------------------------------------- whole parses

// keys of external references that ask for parse escapes
fn escapes(exts ExternalRefs) bool = exists n string :: n in exts && sprefix(n, "*");
func (Scope).WithExternals(s, extRefs)(r) {
  ensures [C02] r.m[externalsKey] == any(extRefs) && externalsKey in r.m;
  ensures [C02] forall k string :: { k in r.m } k != externalsKey && k != parseEscapeKey ==> (k in r.m <==> k in s.m) && (k in s.m ==> r.m[k] == s.m[k]);
  ensures [C02] hasEsc(r) ==> hasEsc(s) || escapes(extRefs);
  inv for (sb scopeBuilder): forall k string :: { k in sb.mb } k in sb.mb ==> k == parseEscapeKey;
  inv for (sb scopeBuilder, v visited): parseEscapeKey in sb.mb ==> escapes(extRefs);
}
func (Parsers).ParseWithExternals(p, rule, input, exts)(tree, err) {
  frame [C12];
  requires input != nil && valid(*input);
  modifies *input;
  option inline;
  ensures [C02, once] len(calls) == 1 && calls[0].Recv == p.parsers[rule] && calls[0].In == old(*input) && *input == calls[0].Rest;
  ensures [C02, scope] !committed(calls[0].Scope) && (hasEsc(calls[0].Scope) ==> escapes(exts));
  ensures [C02, fails] calls[0].Err != nil ==> tree == nil && err == calls[0].Err;
  ensures [C02, all] calls[0].Err == nil && text(*input) == "" ==> tree == calls[0].Out && err == nil;
  ensures [C02, left over] calls[0].Err == nil && text(*input) != "" ==> tree == nil && err is UnconsumedInputError &&
     err.(UnconsumedInputError).residue == *input && err.(UnconsumedInputError).tree == calls[0].Out;
  ensures [C01] err == nil ==> genuine(tree, old(*input));
}
func (Parsers).Parse(p, rule, input)(tree, err) {
  frame [C12];
  requires input != nil && valid(*input);
  modifies *input;
  ensures [C02, once] len(calls) == 1 && calls[0].Recv == p.parsers[rule] && calls[0].In == old(*input) && *input == calls[0].Rest;
  ensures [C02, scope] !committed(calls[0].Scope) && !hasEsc(calls[0].Scope);
  ensures [C02, fails] calls[0].Err != nil ==> tree == nil && err == calls[0].Err;
  ensures [C02, all] calls[0].Err == nil && text(*input) == "" ==> tree == calls[0].Out && err == nil;
  ensures [C02, left over] calls[0].Err == nil && text(*input) != "" ==> tree == nil && err is UnconsumedInputError &&
     err.(UnconsumedInputError).residue == *input && err.(UnconsumedInputError).tree == calls[0].Out;
  ensures [C01] err == nil ==> genuine(tree, old(*input));
}
func UnconsumedInput(residue, result)(r) { ensures [C02] r.residue == residue && r.tree == result; }
func (UnconsumedInputError).Result(e)(r) { ensures [C02] r == e.tree; }
func (Parsers).HasRule(p, rule)(r) { ensures [C02] r == (rule in p.parsers); }

// ---------------------------------------------------------------- attributes

func (Quant).Contains(t, i)(r) { ensures [C05, C13] r == (t.Min <= i && (t.Max <= 0 || i <= t.Max)); }
func (Quant).MaxLessThan(t, i)(r) { ensures [C05, C13] r == (t.Max > 0 && t.Max < i); }
func NewAssociativity(s)(r) {
  ensures [C06, C16] r == (if s == ":" then NonAssociative else if s == ":>" then LeftToRight else RightToLeft) && (s == ":" || s == ":>" || s == "<:");
}
func Opt(term)(r) { ensures [C05, C16] r == Quant{Term: term, Max: 1}; }
func Any(term)(r) { ensures [C05, C16] r == Quant{Term: term}; }
func Some(term)(r) { ensures [C05, C16] r == Quant{Term: term, Min: 1}; }

// ---------------------------------------------------------------- precedence levels

// r is t with every reference to a replaced by one to b (commit points are dropped)
rec fn resolved(r Term, t Term, a Rule, b Rule) bool fuel 2 =
  if t is Rule then r == Term(if t.(Rule) == a then b else t.(Rule))
  else if t is Seq then r is Seq && len(r.(Seq)) == len(t.(Seq)) && (forall i int :: { r.(Seq)[i] } 0 <= i && i < len(t.(Seq)) ==> resolved(r.(Seq)[i], t.(Seq)[i], a, b))
  else if t is Oneof then r is Oneof && len(r.(Oneof)) == len(t.(Oneof)) && (forall i int :: { r.(Oneof)[i] } 0 <= i && i < len(t.(Oneof)) ==> resolved(r.(Oneof)[i], t.(Oneof)[i], a, b))
  else if t is Delim then r is Delim && resolved(r.(Delim).Term, t.(Delim).Term, a, b) && resolved(r.(Delim).Sep, t.(Delim).Sep, a, b) &&
     r.(Delim).Assoc == t.(Delim).Assoc && r.(Delim).CanStartWithSep == t.(Delim).CanStartWithSep && r.(Delim).CanEndWithSep == t.(Delim).CanEndWithSep
  else if t is Quant then r is Quant && resolved(r.(Quant).Term, t.(Quant).Term, a, b) && r.(Quant).Min == t.(Quant).Min && r.(Quant).Max == t.(Quant).Max
  else if t is LookAhead then r is LookAhead && resolved(r.(LookAhead).Term, t.(LookAhead).Term, a, b)
  else if t is Named then r is Named && resolved(r.(Named).Term, t.(Named).Term, a, b) && r.(Named).Name == t.(Named).Name
  else if t is CutPoint then resolved(r, t.(CutPoint).Term, a, b)
  else if t is Stack || t is ScopedGrammar then false
  else r == t;
iface Term.Resolve(t, oldRule, newRule)(r) {
  frame [C12];
  ensures [C11] resolved(r, t, oldRule, newRule);
  inv for (s Seq, i idx): len(s) == i && (forall k int :: { s[k] } 0 <= k && k < i ==> resolved(s[k], t.(Seq)[k], oldRule, newRule));
  inv for (s Oneof, i idx): len(s) == i && (forall k int :: { s[k] } 0 <= k && k < i ==> resolved(s[k], t.(Oneof)[k], oldRule, newRule));
}
func (Stack).Resolve(t, oldRule, newRule)(r) { option panics; }
func (ScopedGrammar).Resolve(t, oldRule, newRule)(r) { option panics; }

lemma resolved_not_stack(r Term, t Term, a Rule, b Rule) induct t : { resolved(r, t, a, b) } resolved(r, t, a, b) ==> !(r is Stack);

fn hasAt(s string) bool;
axiom sprintf_level(r Rule, d string, k int) because "fmt.Sprintf with %s and %d": { fmt.Sprintf("%s%s%d", []any{r, d, k}) }
  fmt.Sprintf("%s%s%d", []any{r, d, k}) == string(r) + d + strconv.Itoa(k);
axiom level_at(r string, k int) because "hasAt: the string contains an @": { r + "@" + strconv.Itoa(k) } hasAt(r + "@" + strconv.Itoa(k));
axiom level_inj(r string, k int, q string, l int) because "decimal numerals are unique and contain no @": { r + "@" + strconv.Itoa(k), q + "@" + strconv.Itoa(l) }
  !hasAt(r) && !hasAt(q) && r + "@" + strconv.Itoa(k) == q + "@" + strconv.Itoa(l) ==> r == q && k == l;
// the name of the k-th level
fn lvl(r Rule, k int) Rule = if k == 0 then r else Rule(string(r) + "@" + strconv.Itoa(k));
fn next(s Stack, k int) int = if k + 1 == len(s) then 0 else k + 1;
fn level(g Grammar, r Rule, s Stack, k int) bool = if lvl(r, k) in g then resolved(g[lvl(r, k)], s[k], At, lvl(r, next(s, k))) else false;

func (Grammar).resolveStacks(g)() {
  frame [C12];
  mutates g;
  requires forall r Rule :: { r in g } r in g ==> !hasAt(string(r));
  ensures [C11, levels] forall r Rule, k int :: { old(g)[r].(Stack)[k] } r in old(g) && old(g)[r] is Stack && 0 <= k && k < len(old(g)[r].(Stack)) ==> level(g, r, old(g)[r].(Stack), k);
  ensures [C11, others] forall r Rule :: { r in old(g) } { r in g } r in old(g) && !(old(g)[r] is Stack) ==> r in g && g[r] == old(g)[r];
  ensures [C11, no stacks] forall r Rule :: { r in g } r in g && g[r] is Stack ==> r in old(g) && len(old(g)[r].(Stack)) == 0;
  inv for (v visited): forall r Rule, k int :: { old(g)[r].(Stack)[k] } r in v && r in old(g) && old(g)[r] is Stack && 0 <= k && k < len(old(g)[r].(Stack)) ==> level(g, r, old(g)[r].(Stack), k);
  inv for (v visited): forall r Rule :: { r in old(g) } { r in g } { r in v } r in old(g) && !(r in v) ==> r in g && g[r] == old(g)[r];
  inv for (v visited, q Rule): forall r Rule :: { r in old(g) } { r in g } { r in v } r in old(g) && !(r in v) && r != q ==> r in g && g[r] == old(g)[r];
  inv forall r Rule :: { r in old(g) } { r in g } r in old(g) && !(old(g)[r] is Stack) ==> r in g && g[r] == old(g)[r];
  inv forall r Rule :: { r in g } { g[r] } r in g && !(r in old(g)) ==> !(g[r] is Stack) && hasAt(string(r));
  inv forall r Rule :: { r in g } { g[r] } r in g && g[r] is Stack ==> r in old(g) && g[r] == old(g)[r];
  inv for (v visited): forall r Rule :: { r in v } r in v && r in g && g[r] is Stack ==> len(g[r].(Stack)) == 0;
  inv for (r Rule, s Stack): r in old(g) && old(g)[r] is Stack && s == old(g)[r].(Stack);
  inv for (o Rule, r Rule, s Stack, i idx): o == lvl(r, if i == len(s) then 0 else i);
  inv for (r Rule, s Stack, i idx): forall k int :: { s[k] } 0 <= k && k < i ==> resolved(g[lvl(r, k)], s[k], At, lvl(r, next(s, k)));
  inv for (r Rule, s Stack, i idx): forall k int :: { strconv.Itoa(k) } 0 <= k && k < i ==> lvl(r, k) in g;
  inv for (r Rule, s Stack, i idx): i > 0 ==> !(g[r] is Stack);
}
func (Grammar).clone(g)(r) {
  frame [C12];
  fresh;
  ensures [C11, C12] forall k Rule :: { k in r } { r[k] } { k in g } { g[k] } (k in r <==> k in g) && (k in g ==> r[k] == g[k]);
  inv for (c Grammar, v visited): forall k Rule :: { k in c } { c[k] } { k in v } (k in c <==> k in v) && (k in v ==> k in g && c[k] == g[k]);
}
// what an alias (a rule whose term is just another rule) stands for: the least relation with these
fn stands(g Grammar, a Term, b Term) bool;
axiom stands_refl(g Grammar, a Term) because "definition of stands": { stands(g, a, a) } stands(g, a, a);
axiom stands_step(g Grammar, a Term, r Rule) because "definition of stands": { stands(g, a, Term(r)), g[r] } stands(g, a, Term(r)) ==> stands(g, a, g[r]);
func (Grammar).Compile(g, node)(p) {
  frame [C12];
  option noframe;
  requires forall r Rule :: { r in g } r in g ==> !hasAt(string(r));
  ensures p.node == node;
  ensures [C11, rules] forall r Rule :: { r in p.parsers } r in p.parsers <==> r in p.grammar;
  ensures [C11, built] forall r Rule :: { p.parsers[r] } r in p.grammar ==> (exists t Term :: stands(p.grammar, p.grammar[r], t) && !(t is Rule) && built(p.parsers[r], t, r));
  ensures [C11, levels] forall r Rule, k int :: { g[r].(Stack)[k] } r in g && g[r] is Stack && 0 <= k && k < len(g[r].(Stack)) ==> level(p.grammar, r, g[r].(Stack), k);
  ensures [C11, others] forall r Rule :: { r in g } { r in p.grammar } r in g && !(g[r] is Stack) ==> r in p.grammar && p.grammar[r] == g[r];
  inv for (c cache, v visited): forall r Rule :: { r in c.parsers } { r in v } r in c.parsers <==> r in v;
  inv for (v visited): forall r Rule :: { r in v } { g[r] } r in v ==> !(g[r] is Stack);
  inv for (c cache, h Grammar): c.grammar == h;
  inv for (c cache, r Rule, t Term): r in c.grammar && stands(c.grammar, c.grammar[r], t);
  inv for (c cache): forall r Rule :: { c.parsers[r] } r in c.parsers ==> (exists t Term :: stands(c.grammar, c.grammar[r], t) && !(t is Rule) && built(c.parsers[r], t, r));
}
// what a parser that is only another name for a rule leads to: the least relation with these
fn leads(m map[Rule]Parser, a Parser, b Parser) bool;
axiom leads_refl(m map[Rule]Parser, a Parser) because "definition of leads": { leads(m, a, a) } leads(m, a, a);
axiom leads_step(m map[Rule]Parser, a Parser, b Parser) because "definition of leads": { leads(m, a, b), b.(ruleParser).t in m }
  leads(m, a, b) && b is ruleParser && b.(ruleParser).t in m ==> leads(m, a, m[b.(ruleParser).t]);
// a parser that stands for a rule of the map is replaced by the one it stands for, others stay
func resolveAliases(parsers)(r) {
  frame [C12];
  fresh;
  ensures [C22, leads] forall k Rule :: { r[k] } { parsers[k] } k in parsers ==> leads(parsers, parsers[k], r[k]);
  inv [C22, leading] for (m map[Rule]Parser, v visited): forall k Rule :: { m[k] } { parsers[k] } k in v ==> leads(parsers, parsers[k], m[k]);
  inv [C22, step] for (p Parser, rule Rule): rule in parsers && leads(parsers, parsers[rule], p);
  ensures [C11, names] forall k Rule :: { k in r } { k in parsers } k in r <==> k in parsers;
  ensures [C11, others] forall k Rule :: { r[k] } { parsers[k] } k in parsers && !(parsers[k] is ruleParser) ==> r[k] == parsers[k];
  inv for (m map[Rule]Parser, v visited): forall k Rule :: { k in m } { k in v } k in m <==> k in v;
  inv for (m map[Rule]Parser, v visited): forall k Rule :: { m[k] } { parsers[k] } k in v && !(parsers[k] is ruleParser) ==> m[k] == parsers[k];
  inv for (p Parser, rule Rule): rule in parsers && !(parsers[rule] is ruleParser) ==> p == parsers[rule];
}
