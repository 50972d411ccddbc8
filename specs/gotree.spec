package gotree;

closed Tree = *tree;
closed Printer = *printer;

fn caption(t Tree) string reads tree = t.(*tree).text;
fn kids(t Tree) []Tree reads tree = t.(*tree).items;
// A height for every tree, of which nothing is known but that children are lower wherever trees are finite: an
// outline stops where they are not, and finite() is what the printing functions ask for.
fn height(t Tree) int reads tree;
opaque fn low(t Tree) bool reads tree = forall i int :: { kids(t)[i] } 0 <= i && i < len(kids(t)) ==> 0 <= height(kids(t)[i]) && height(kids(t)[i]) < height(t);
fn finite() bool reads tree = forall t Tree :: { height(t) } { low(t) } 0 <= height(t) && low(t);

// the guides in front of a line: one per ancestor below the root
rec fn guides(spaces []bool, n int) string fuel 2 =
  if n <= 0 then "" else guides(spaces, n - 1) + (if spaces[n-1] then "    " else "│   ");
// the first n of a node's lines
rec fn liner(lines []string, n int, lead string, last bool) string fuel 2 =
  if n <= 0 then ""
  else liner(lines, n - 1, lead, last) + lead +
    (if n == 1 then (if last then "└── " else "├── ") else (if last then "    " else "│   ")) + lines[n-1] + "\n";
fn entry(text string, spaces []bool, last bool) string =
  liner(strings.Split(text, "\n"), len(strings.Split(text, "\n")), guides(spaces, len(spaces)), last);
// the first n of some siblings, each followed by everything below it
rec fn outline(ts []Tree, n int, spaces []bool) string reads tree fuel 3 =
  if n <= 0 then ""
  else outline(ts, n - 1, spaces) + entry(caption(ts[n-1]), spaces, n == len(ts)) +
    (if 0 <= height(ts[n-1]) && low(ts[n-1]) then outline(kids(ts[n-1]), len(kids(ts[n-1])), push(spaces, n == len(ts))) else "");

func New(text)(r) {
  option allocates;
  ensures [C26, text] r is *tree && isnew(r.(*tree)) && caption(r) == text;
  ensures [C26, empty] len(kids(r)) == 0;
}
func (*tree).Add(t, text)(r) {
  modifies *t;
  ensures [C26, added] r is *tree && caption(r) == text && len(kids(r)) == 0;
  ensures [C26, last] t.items == push(old(t.items), r) && t.text == old(t.text);
}
func (*tree).AddTree(t, tree) {
  modifies *t;
  ensures [C26, last] t.items == push(old(t.items), tree) && t.text == old(t.text);
}
func (*tree).Text(t)(r) { ensures [C26, text] r == t.text; }
func (*tree).Items(t)(r) { ensures [C26, items] r == t.items; }
func (*tree).Print(t)(r) {
  requires finite();
  ensures [C26, all] r == t.text + "\n" + outline(t.items, len(t.items), []bool{});
}
func (*printer).Print(p, t)(r) {
  requires finite();
  ensures [C26, all] r == caption(t) + "\n" + outline(kids(t), len(kids(t)), []bool{});
}
func (*printer).printText(p, text, spaces, last)(r) {
  ensures [C26, lines] r == entry(text, spaces, last);
  inv for (lead string, i idx): lead == guides(spaces, i);
  inv for (mark string, i idx): i == 0 ==> mark == (if last then "└── " else "├── ");
  inv for (out string, i idx, lead string): out == liner(strings.Split(text, "\n"), i, lead, last);
}
// append: what shares storage with spaces is read only before the next append to it
func (*printer).printItems(p, t, spaces)(r) {
  option shares;
  requires finite();
  ensures [C26, all] r == outline(t, len(t), spaces);
  inv for (out string, i idx): out == outline(t, i, spaces);
}
