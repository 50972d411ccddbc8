// Contracts assumed of the Go standard library and of github.com/arr-ai/frozen.
package parser;

extern errors.New(m)(r) { ensures r != nil; }
extern fmt.Errorf(f, a)(r) { ensures r != nil; }

rec fn newlines(s string) int fuel 2 = if len(s) <= 0 then 0 else newlines(s[0:len(s)-1]) + (if s[len(s)-1] == 10 then 1 else 0);
fn lastnl(s string) int;
axiom lastnl_def(s string) because "index of the last newline of a string": { lastnl(s) }
  -1 <= lastnl(s) && lastnl(s) < len(s) && (lastnl(s) >= 0 ==> s[lastnl(s)] == 10) &&
  (forall j int :: lastnl(s) < j && j < len(s) ==> s[j] != 10);

extern strings.Count(s, sub)(n) { ensures sub == "\n" ==> n == newlines(s); }
extern strings.LastIndex(s, sub)(n) { ensures sub == "\n" ==> n == lastnl(s); }

// A submatch index vector: pairs of byte offsets, the whole match first; (-1,-1) for a group that took no part.
extern regexp.(*Regexp).FindStringSubmatchIndex(re, s)(loc) {
  ensures !isnilslice(loc) ==> len(loc) >= 2 && len(loc) % 2 == 0 && 0 <= loc[0] && loc[0] <= loc[1] && loc[1] <= len(s);
  ensures !isnilslice(loc) ==> len(loc) == 2 * re.NumSubexp() + 2;
  ensures !isnilslice(loc) ==> (forall j int :: { loc[j] } 0 <= j && j < len(loc) ==> loc[j] == 0-1 || loc[0] <= loc[j] && loc[j] <= loc[1]);
  ensures !isnilslice(loc) ==> (forall j int :: { loc[j] } 0 <= j && j < len(loc) && j % 2 == 0 ==> loc[j] <= loc[j+1] && ((loc[j] == 0-1) <==> (loc[j+1] == 0-1)));
}
