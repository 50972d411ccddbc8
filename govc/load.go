package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/arr-ai/wbnf"

type Package struct {
	Path  string
	Types *types.Package
	Info  *types.Info
	Files []*ast.File
}

type FuncInfo struct {
	Obj  *types.Func
	Decl *ast.FuncDecl
	Pkg  *Package
	Name string // e.g. parser.(*seqParser).Parse
}

type Program struct {
	Fset  *token.FileSet
	Pkgs  map[string]*Package // by import path
	Short map[string]*Package // by package name
	Funcs map[string]*FuncInfo
	ByObj map[*types.Func]*FuncInfo
	Dir   string
	Std   []*types.Package
	views map[*ast.SliceExpr]bool
	grows map[*ast.CallExpr]bool
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
}

func Load(dir string) (*Program, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module", "./...")
	cmd.Dir = dir
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var repo []listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			repo = append(repo, p) // -deps lists dependencies first
		}
	}
	prog := &Program{Fset: token.NewFileSet(), Pkgs: map[string]*Package{}, Short: map[string]*Package{},
		Funcs: map[string]*FuncInfo{}, ByObj: map[*types.Func]*FuncInfo{}, Dir: dir}
	gc := importer.ForCompiler(prog.Fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	for _, path := range []string{"fmt", "sort", "strconv", "strings", "unicode/utf8"} { // for the contracts
		if p, err := gc.Import(path); err == nil {
			prog.Std = append(prog.Std, p)
		}
	}
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p, ok := prog.Pkgs[path]; ok {
			return p.Types, nil
		}
		return gc.Import(path)
	})
	for _, lp := range repo {
		p := &Package{Path: lp.ImportPath}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(prog.Fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, af)
		}
		p.Info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{},
		}
		conf := types.Config{Importer: imp, GoVersion: ""}
		tp, err := conf.Check(lp.ImportPath, prog.Fset, p.Files, p.Info)
		if err != nil {
			return nil, err
		}
		p.Types = tp
		prog.Pkgs[lp.ImportPath] = p
		if _, dup := prog.Short[tp.Name()]; !dup || tp.Name() != "main" {
			prog.Short[tp.Name()] = p
		}
		for _, f := range p.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				obj := p.Info.Defs[fd.Name].(*types.Func)
				fi := &FuncInfo{Obj: obj, Decl: fd, Pkg: p, Name: funcName(obj)}
				prog.Funcs[fi.Name] = fi
				prog.ByObj[obj] = fi
			}
		}
	}
	return prog, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

// funcName names a function like parser.NewScanner, parser.(*Scanner).Eat or parser.(Scanner).Slice;
// functions of external packages likewise.
func funcName(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pkg := ""
	if f.Pkg() != nil {
		pkg = f.Pkg().Name() + "."
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			return pkg + "(*" + typeShort(p.Elem()) + ")." + f.Name()
		}
		return pkg + "(" + typeShort(t) + ")." + f.Name()
	}
	return pkg + f.Name()
}

func typeShort(t types.Type) string {
	switch t := t.(type) {
	case *types.Named:
		return t.Obj().Name()
	case *types.Alias:
		return typeShort(types.Unalias(t))
	}
	return t.String()
}

func (p *Program) RelPos(pos token.Pos) string {
	ps := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, ps.Filename); err == nil && !strings.HasPrefix(r, "..") {
		ps.Filename = r
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

// Implementors lists the concrete named types of the repository (and pointers to them) that implement an interface.
func (p *Program) Implementors(iface *types.Interface) []types.Type {
	var out []types.Type
	var paths []string
	for k := range p.Pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		sc := p.Pkgs[k].Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}
			if types.Implements(nt, iface) {
				out = append(out, nt)
			} else if types.Implements(types.NewPointer(nt), iface) {
				out = append(out, types.NewPointer(nt))
			}
		}
	}
	return out
}
