package parser;

closed source = stringSource;

// The text a piece of source denotes, and when it denotes one at all.
fn origin(s Scanner) string = s.src.(stringSource).origin;
fn valid(s Scanner) bool = s.src is stringSource && 0 <= s.sliceStart && 0 <= s.sliceLength && s.sliceStart + s.sliceLength <= len(origin(s));
fn text(s Scanner) string = origin(s)[s.sliceStart : s.sliceStart + s.sliceLength];
fn start(s Scanner) int = s.sliceStart;
fn end(s Scanner) int = s.sliceStart + s.sliceLength;
fn piece(s Scanner, a int, b int) Scanner = Scanner{src: s.src, sliceStart: s.sliceStart + a, sliceLength: b - a};

func NewScanner(str)(r) {
  fresh;
  ensures [C09] r != nil && valid(*r) && text(*r) == str && start(*r) == 0;
  ensures [C09] r.src.(stringSource).f == "";
}
func NewScannerWithFilename(str, filename)(r) {
  fresh;
  ensures [C09] r != nil && valid(*r) && text(*r) == str && start(*r) == 0 && r.src.(stringSource).f == filename;
}
func NewScannerAt(str, offset, size)(r) {
  fresh;
  ensures [C09] r != nil && (0 <= offset && 0 <= size && offset + size <= len(str) ==> valid(*r) && text(*r) == str[offset:offset+size]) && start(*r) == offset;
}
func (stringSource).slice(s, i, length)(r) {
  ensures [C09] 0 <= i && 0 <= length && i + length <= len(s.origin) ==> r == s.origin[i:i+length];
}
func (stringSource).length(s)(r) { ensures [C09] r == len(s.origin); }
func (stringSource).filename(s)(r) { ensures [C09] r == s.f; }
func (Scanner).slice(s)(r) { ensures [C09] valid(s) ==> r == text(s); }
func (Scanner).String(s)(r) { ensures [C09] valid(s) ==> r == text(s); ensures [C09] s.src == nil ==> r == ""; }
func (Scanner).IsNil(s)(r) { ensures [C09] r == (s.src == nil); }
func (Scanner).Filename(s)(r) { ensures [C09] s.src is stringSource ==> r == s.src.(stringSource).f; }
func (Scanner).Offset(s)(r) { ensures [C09] r == start(s); }
func (Scanner).Contains(s, sn)(r) {
  ensures [C09] s.src is stringSource && sn.src is stringSource ==>
     (r == (s.src == sn.src && start(s) <= start(sn) && end(sn) <= end(s)));
}
func (Scanner).Slice(s, a, b)(r) { fresh; ensures [C09] *r == piece(s, a, b); }
func (Scanner).Skip(s, i)(r) { fresh; ensures [C09] *r == piece(s, i, s.sliceLength); }
func (*Scanner).Eat(s, i, eaten)(r) {
  requires s != nil && eaten != nil && s != eaten;
  modifies *s, *eaten;
  ensures [C09] r == s;
  ensures [C09] *eaten == piece(old(*s), 0, i);
  ensures [C09] *s == piece(old(*s), i, old(*s).sliceLength);
}
func (*Scanner).EatString(s, str, eaten)(r) {
  requires s != nil && eaten != nil && s != eaten && valid(*s);
  modifies *s, *eaten;
  ensures [C09, C10] r == sprefix(text(old(*s)), str);
  ensures [C09, C10] r ==> *eaten == piece(old(*s), 0, len(str)) && *s == piece(old(*s), len(str), old(*s).sliceLength);
  ensures [C09, C10] !r ==> *s == old(*s) && *eaten == old(*eaten);
}
func (*Scanner).EatRegexp(s, re, match, captures)(n, ok) {
  requires s != nil && match != s && valid(*s) && match >= 0;
  modifies *s, *match;
  mutates captures;
  let loc = re.FindStringSubmatchIndex(text(old(*s)));
  ensures [C09, C10] ok == !isnilslice(loc);
  ensures [C09, C10] !ok ==> *s == old(*s) && *match == old(*match) && captures == old(captures) && n == 0;
  ensures [C09, C10] ok ==> *s == piece(old(*s), loc[1], old(*s).sliceLength);
  ensures [C09, C10] ok ==> loc[0] == 0;
  ensures [C09, C10] ok && match != nil ==> *match == piece(old(*s), loc[0], loc[1]);
  ensures [C09, C10] match == nil ==> *match == old(*match);
  ensures [C09, C10] ok ==> n == len(loc) / 2 - 1;
  ensures [C09, C10] len(captures) == len(old(captures));
  ensures [C09, C10] ok ==> (forall i int :: 0 <= i && i < len(captures) && i < n ==> captures[i] == piece(old(*s), loc[2*i+2], loc[2*i+3]));
  ensures [C09, C10] ok ==> (forall i int :: n <= i && i < len(captures) ==> captures[i] == old(captures)[i]);
  inv for (i idx, c []Scanner): forall k int :: 0 <= k && k < i && k < len(c) ==> c[k] == piece(old(*s), loc[2*k+2], loc[2*k+3]);
  inv for (i idx, c []Scanner): forall k int :: i <= k && k < len(c) ==> c[k] == old(captures)[k];
}
func (Scanner).Position(s)(l, c) {
  ensures [C09] valid(s) ==> l == 1 + newlines(origin(s)[0:start(s)]) && c == start(s) - lastnl(origin(s)[0:start(s)]);
}
func lineColumn(str, pos)(l, c) {
  ensures [C09] 0 <= pos && pos <= len(str) ==> l == 1 + newlines(str[0:pos]) && c == pos - lastnl(str[0:pos]);
}
func MergeScanners(items)(r, err) {
  ensures [C09] err == nil ==> len(items) > 0;
  ensures [C09] err == nil ==> (forall i int :: 0 <= i && i < len(items) ==> items[i].src == r.src && start(r) <= start(items[i]) && end(items[i]) <= end(r));
  ensures [C09] err == nil ==> (exists i int :: 0 <= i && i < len(items) && start(r) == start(items[i]));
  ensures [C09] err == nil ==> (exists i int :: 0 <= i && i < len(items) && end(r) == end(items[i]));
  ensures [C09] len(items) > 0 && (forall i int :: 0 <= i && i < len(items) ==> items[i].src == items[0].src) ==> err == nil;
  inv for (i idx): forall k int :: 0 <= k && k <= i ==> items[k].src == items[0].src;
  inv for (l int, i idx): forall k int :: 0 <= k && k <= i ==> l <= start(items[k]);
  inv for (l int, i idx): exists k int :: 0 <= k && k <= i && l == start(items[k]);
  inv for (r int, i idx): forall k int :: 0 <= k && k <= i ==> r >= end(items[k]);
  inv for (r int, i idx): exists k int :: 0 <= k && k <= i && r == end(items[k]);
}
