package main

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/arr-ai/wbnf/wbnf"
)

// IF is a file of an import graph: statements, some of which are imports (written as the file writes them, and by the
// path of the file meant).
type IF struct {
	Stmts   []string `json:"stmts"` // "" for an import: the next one of Imports
	Imports []string `json:"imports"`
	Means   []string `json:"means"`
}

func (f *IF) text(imports bool) string {
	var sb strings.Builder
	k := 0
	for _, s := range f.Stmts {
		if s != "" {
			sb.WriteString(s + "\n")
			continue
		}
		if imports {
			sb.WriteString(".import " + f.Imports[k] + "\n")
		}
		k++
	}
	return sb.String()
}

// IG is a grammar text (Main) and the files there are. Mode: 0 a resolver that takes paths relative to the file they
// stand in, 1 one that spells the paths it returns in various ways, 2 no resolver (paths from the current directory).
type IG struct {
	Main  *IF            `json:"main"`
	Files map[string]*IF `json:"files"`
	Mode  int            `json:"mode"`
}

type relative struct {
	dir  string
	mode int
	bad  string

	asked int
}

func (r *relative) Resolve(from, to string) string {
	if from != "" && !strings.HasPrefix(from, r.dir+"/") {
		r.bad = fmt.Sprintf("the resolver was asked for %q from %q", to, from)
	}
	if r.mode == 1 {
		r.asked++
		return r.dir + []string{"/./", "//", "/", "/x/../"}[r.asked%4] + strings.ReplaceAll(to, "..", ".")
	}
	if from == "" {
		return filepath.Join(r.dir, to)
	}
	return filepath.Join(filepath.Dir(from), to)
}

func runImports(_ string, v any) (bool, string) {
	c := v.(IG)
	dir, err := os.MkdirTemp("", "imports")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for p, f := range c.Files {
		if err := os.MkdirAll(filepath.Join(dir, path.Dir(p)), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(dir, p), []byte(f.text(true)), 0o644); err != nil {
			panic(err)
		}
	}
	// all files reached, each once
	all, missing := c.Main.text(false), false
	taken := map[string]bool{}
	todo := append([]string{}, c.Main.Means...)
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		if taken[p] {
			continue
		}
		taken[p] = true
		f := c.Files[p]
		if f == nil {
			missing = true
			continue
		}
		all += f.text(false)
		todo = append(todo, f.Means...)
	}
	r := &relative{dir: dir, mode: c.Mode}
	var resolver wbnf.ImportResolver = r
	if c.Mode == 2 {
		resolver = nil
		wd, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		if err := os.Chdir(dir); err != nil {
			panic(err)
		}
		defer func() { _ = os.Chdir(wd) }()
	}
	want, werr := wbnf.Compile(all, nil)
	got, gerr := wbnf.Compile(c.Main.text(true), resolver)
	if r.bad != "" {
		return true, r.bad
	}
	if missing || werr != nil {
		if gerr == nil {
			return true, fmt.Sprintf("accepted, though a file is missing or the whole is refused: %v", werr)
		}
		return true, ""
	}
	if gerr != nil {
		return true, fmt.Sprintf("refused: %v", gerr)
	}
	if a, b := gkey(fromGrammar(got.Grammar())), gkey(fromGrammar(want.Grammar())); a != b {
		return true, "the grammar is " + apart(a, b, "should be")
	}
	return true, ""
}

// spelled names a path from a directory, in one of several spellings.
func spelled(rng *rand.Rand, from, to string) string {
	s, _ := filepath.Rel(from, to)
	switch rng.Intn(6) {
	case 0:
		s = "./" + s
	case 1:
		if d := path.Dir(s); d != "." && !strings.HasPrefix(s, "..") {
			s = d + strings.Repeat("/..", 1+strings.Count(d, "/")) + "/" + s
		}
	case 2:
		s = strings.ReplaceAll(s, "/", " / ")
	}
	return s
}

func genImports(h *H) {
	at := []string{"a.wbnf", "b.wbnf", "sub/a.wbnf", "sub/c.wbnf", "other/a.wbnf", "sub/d.wbnf", "sub/deep/e.wbnf", "f", "A:1.wbnf", "other/g.wbnf"}
	for !h.done() {
		n := 1 + h.rng.Intn(6)
		h.rng.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
		mode := h.rng.Intn(3)
		g := IG{Files: map[string]*IF{}, Mode: mode}
		var rules []string
		make1 := func(i, many int) *IF {
			f := &IF{}
			for k := 0; k < many; k++ {
				r := fmt.Sprintf("r%d%c", i, 'a'+k)
				if h.rng.Intn(60) == 0 && len(rules) > 0 {
					r = rules[h.rng.Intn(len(rules))]
				}
				rules = append(rules, r)
				f.Stmts = append(f.Stmts, r)
			}
			return f
		}
		g.Main = make1(0, 1+h.rng.Intn(2))
		fs := []*IF{g.Main}
		for i := 1; i <= n; i++ {
			f := make1(i, 1+h.rng.Intn(3))
			g.Files[at[i-1]] = f
			fs = append(fs, f)
		}
		macro := -1
		if h.rng.Intn(3) == 0 {
			macro = h.rng.Intn(len(fs))
		}
		for i, f := range fs {
			for k, r := range f.Stmts {
				body := pick(h, `"x"`, `"y"+`, `"z":","`, `/{[a-z]}`, fmt.Sprintf(`"l%d%d"`, i, k))
				for h.rng.Intn(2) == 0 {
					body = fmt.Sprintf(`(%s) %s`, body, rules[h.rng.Intn(len(rules))])
				}
				if macro >= 0 && h.rng.Intn(3) == 0 {
					body += ` (%!M("p"))`
				}
				if h.rng.Intn(8) == 0 {
					body = `@:"+" > "n"`
				}
				f.Stmts[k] = r + " -> " + body + ";" + pick(h, "", " // c", "\n")
			}
			if macro == i {
				f.Stmts = append(f.Stmts, `.macro M(x) { x:"," }`)
			}
			dir := "."
			if i > 0 && mode == 0 {
				dir = path.Dir(at[i-1])
			}
			for k := []int{0, 1, 1, 2, 3}[h.rng.Intn(5)]; k > 0 || i == 0 && len(f.Imports) == 0; k-- {
				to := at[h.rng.Intn(n)]
				if h.rng.Intn(60) == 0 {
					to = "gone.wbnf"
				}
				s := to
				if mode == 0 {
					s = spelled(h.rng, dir, to)
				} else if mode == 2 {
					s = spelled(h.rng, ".", to)
				}
				p := h.rng.Intn(len(f.Stmts) + 1)
				before := 0
				for _, x := range f.Stmts[:p] {
					if x == "" {
						before++
					}
				}
				f.Stmts = append(f.Stmts[:p:p], append([]string{""}, f.Stmts[p:]...)...)
				f.Imports = append(f.Imports[:before:before], append([]string{s + pick(h, "", ";", " ;")}, f.Imports[before:]...)...)
				f.Means = append(f.Means[:before:before], append([]string{to}, f.Means[before:]...)...)
			}
		}
		if h.rng.Intn(40) == 0 { // a file that is no grammar
			fs[1+h.rng.Intn(n)].Stmts[0] += " -> ("
		}
		h.Try("imports", g, "")
	}
}

func init() {
	kinds["imports"] = kind{decodeAs[IG], runImports}
	props["C25"] = propDef{"generated files that import each other (once, twice, in rings, by several spellings, missing or broken ones): the grammar compiled against that of all texts reached put together", genImports}
}
