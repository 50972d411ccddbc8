package cmd;

// A file is looked for beside the file that imports it; the first one beside the grammar given.
fn beside(dir string, file string) string = filepath.Clean(filepath.Join([]string{dir, file}));
axiom located_beside(r resolver, from string, file string) because "where the command's resolver says a file is is where it is located": { located(wbnf.ImportResolver(r), from, file) }
  located(wbnf.ImportResolver(r), from, file) == beside(if from == "" then r.base else filepath.Dir(from), file);
func makeResolver(firstFilename)(r) {
  ensures [C25, base] r.base == filepath.Dir(firstFilename);
}
