package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type SortKind int

const (
	KPrim SortKind = iota
	KStruct
	KSeq
	KMap
	KSet
	KRef
	KOpaque
)

type SortInfo struct {
	Name   string
	Kind   SortKind
	Elem   string // seq elem / map value / ref target
	Key    string // map key, set elem
	Fields []string
	FSorts []string
	FTypes []types.Type
	GoType types.Type
}

type Sym struct {
	Args []string
	Res  string
}

type Axiom struct {
	Name    string
	T       *Term
	Needs   []string // ops, all of which must occur
	Assumed bool     // a user axiom (reported as an assumption when used)
	Lemma   int      // ordinal of a proved lemma (0: not a lemma)
}

type Gen struct {
	prog     *Program
	sorts    map[string]*SortInfo
	order    []string
	syms     map[string]*Sym
	sel      map[string]int // selector op -> field index
	axioms   []*Axiom
	axSeen   map[string]bool
	typeID   map[string]int
	typeOf   []types.Type // by id (index 0 = nil)
	lits     map[string]string
	litVal   map[string]string
	building int             // struct types being declared
	later    []func()        // axioms to state when they are
	immut    map[string]bool // qualified names pkg.Type of types whose pointers are immutable
	fresh    int
	sortMem  map[types.Type]string
	implIfs  map[string]*types.Interface
	comps    int
}

var theGen *Gen

func NewGen(p *Program) *Gen {
	g := &Gen{prog: p, sorts: map[string]*SortInfo{}, syms: map[string]*Sym{}, sel: map[string]int{}, axSeen: map[string]bool{},
		typeID: map[string]int{}, typeOf: []types.Type{nil}, lits: map[string]string{}, litVal: map[string]string{},
		immut: map[string]bool{}, sortMem: map[types.Type]string{}, implIfs: map[string]*types.Interface{}}
	theGen = g
	for _, s := range []string{"Int", "Bool"} {
		g.sorts[s] = &SortInfo{Name: s, Kind: KPrim}
	}
	for _, s := range []string{"Str", "Iface", "Func"} {
		g.addSort(&SortInfo{Name: s, Kind: KOpaque})
	}
	g.sym("typ", "Int", "Iface")
	g.sym("nil$Iface", "Iface")
	g.sym("nil$Func", "Func")
	g.sym("rank", "Int", "Iface")
	g.axiom("typ-nil", Eq(mk("typ", "Int", g.NilIface()), Int(0)), "nil$Iface", "typ")
	x := bv("x", "Iface")
	g.axiom("typ-nonneg", Forall([]*Term{x}, And(Le(Int(0), mk("typ", "Int", x)), mk("=>", "Bool", mk("=", "Bool", mk("typ", "Int", x), Int(0)), mk("=", "Bool", x, g.NilIface()))), []*Term{mk("typ", "Int", x)}), "typ")
	g.axiom("rank-nonneg", Forall([]*Term{x}, Le(Int(0), mk("rank", "Int", x)), []*Term{mk("rank", "Int", x)}), "rank")
	g.strAxioms()
	return g
}

func (g *Gen) addSort(s *SortInfo) {
	if _, ok := g.sorts[s.Name]; !ok {
		g.sorts[s.Name] = s
		g.order = append(g.order, s.Name)
	}
}

func (g *Gen) sym(name, res string, args ...string) {
	if _, ok := g.syms[name]; !ok {
		g.syms[name] = &Sym{Args: args, Res: res}
	}
}

func (g *Gen) axiom(name string, t *Term, needs ...string) {
	if g.axSeen[name] {
		return
	}
	g.axSeen[name] = true
	g.axioms = append(g.axioms, &Axiom{Name: name, T: t, Needs: needs})
}

var bvCount int

func bv(name, srt string) *Term {
	bvCount++
	return &Term{Op: fmt.Sprintf("?%s%d", strings.TrimLeft(name, "?"), bvCount), Sort: srt}
}

func (g *Gen) Fresh(hint, srt string) *Term {
	g.fresh++
	n := fmt.Sprintf("%s!%d", hint, g.fresh)
	g.sym(n, srt)
	return &Term{Op: n, Sort: srt}
}

func (g *Gen) Const(name, srt string) *Term {
	if s, ok := g.syms[name]; ok && s.Res != srt {
		panic("constant " + name + " redeclared with sort " + srt)
	}
	g.sym(name, srt)
	return &Term{Op: name, Sort: srt}
}

// App applies a declared symbol, simplifying.
func (g *Gen) App(op string, args ...*Term) *Term {
	s, ok := g.syms[op]
	if !ok {
		panic("undeclared symbol " + op)
	}
	if len(s.Args) != len(args) {
		panic(fmt.Sprintf("arity of %s: want %d have %d", op, len(s.Args), len(args)))
	}
	for i, a := range args {
		if a.Sort != s.Args[i] {
			panic(fmt.Sprintf("sort of argument %d of %s: want %s have %s (%s)", i, op, s.Args[i], a.Sort, a))
		}
	}
	if t := g.simplify(op, s.Res, args); t != nil {
		return t
	}
	return mk(op, s.Res, args...)
}

func sortOfOp(op string) (string, string) {
	i := strings.IndexByte(op, '.')
	if i < 0 {
		return op, ""
	}
	return op[:i], op[i+1:]
}

func (g *Gen) simplify(op, res string, args []*Term) *Term {
	if i, ok := g.sel[op]; ok {
		a := args[0]
		if isCtor(a) && len(a.Args) > i {
			return a.Args[i]
		}
		if a.Op == "ite" && (isCtor(a.Args[1]) || isCtor(a.Args[2])) {
			return Ite(a.Args[0], g.App(op, a.Args[1]), g.App(op, a.Args[2]))
		}
		return nil
	}
	if strings.HasPrefix(op, "unbox$") {
		if args[0].Op == "box$"+op[6:] {
			return args[0].Args[0]
		}
		return nil
	}
	if strings.HasPrefix(op, "box$") {
		if args[0].Op == "unbox$"+op[4:] {
			return nil // only valid if the dynamic type matches
		}
		return nil
	}
	if op == "typ" {
		if strings.HasPrefix(args[0].Op, "box$") {
			return Int(int64(g.typeID[args[0].Op[4:]]))
		}
		if args[0].Op == "nil$Iface" {
			return Int(0)
		}
		return nil
	}
	if strings.HasPrefix(op, "deref$") && strings.HasPrefix(args[0].Op, "mkref$") {
		return args[0].Args[0]
	}
	if op == "select" && args[0].Op == "store" {
		if same(args[0].Args[1], args[1]) {
			return args[0].Args[2]
		}
		if distinctRefs(args[0].Args[1], args[1]) {
			return g.Select(args[0].Args[0], args[1])
		}
		return nil
	}
	switch op {
	case "slen":
		if v, ok := g.litVal[args[0].Op]; ok {
			return Int(int64(len(v)))
		}
		if args[0].Op == "sbyte" {
			return Int(1)
		}
		if args[0].Op == "scat" {
			return Add(g.App("slen", args[0].Args[0]), g.App("slen", args[0].Args[1]))
		}
		return nil
	case "scat":
		if args[0].Op == "str$0" {
			return args[1]
		}
		if args[1].Op == "str$0" {
			return args[0]
		}
		v, ok1 := g.litVal[args[0].Op]
		w, ok2 := g.litVal[args[1].Op]
		if ok1 && ok2 {
			return g.Str(v + w)
		}
		if args[0].Op == "scat" { // right-associate
			return g.App("scat", args[0].Args[0], g.App("scat", args[0].Args[1], args[1]))
		}
		if ok1 && args[1].Op == "scat" {
			if w, ok := g.litVal[args[1].Args[0].Op]; ok {
				return g.App("scat", g.Str(v+w), args[1].Args[1])
			}
		}
		return nil
	case "sat":
		if v, ok := g.litVal[args[0].Op]; ok {
			if n, ok := args[1].isInt(); ok && n >= 0 && n < int64(len(v)) {
				return Int(int64(v[n]))
			}
		}
		return nil
	case "sbyte":
		if n, ok := args[0].isInt(); ok && n >= 0 && n < 256 {
			return g.Str(string([]byte{byte(n)}))
		}
		return nil
	case "ssub":
		if v, ok := g.litVal[args[0].Op]; ok {
			a, ok1 := args[1].isInt()
			b, ok2 := args[2].isInt()
			if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(v)) {
				return g.Str(v[a:b])
			}
		}
		return nil
	}
	k, s := sortOfOp(op)
	si := g.sorts[s]
	if si == nil {
		return nil
	}
	switch si.Kind {
	case KSeq:
		a := func(i int) *Term { return args[i] }
		switch k {
		case "len":
			switch ka, _ := sortOfOp(a(0).Op); ka {
			case "empty":
				return Int(0)
			case "push":
				return Add(g.SeqLen(a(0).Args[0]), Int(1))
			case "cat":
				return Add(g.SeqLen(a(0).Args[0]), g.SeqLen(a(0).Args[1]))
			case "upd":
				return g.SeqLen(a(0).Args[0])
			}
		case "at":
			switch ka, _ := sortOfOp(a(0).Op); ka {
			case "push":
				l := g.SeqLen(a(0).Args[0])
				e := Eq(a(1), l)
				if e.IsTrue() {
					return a(0).Args[1]
				}
				if e.IsFalse() {
					return g.SeqAt(a(0).Args[0], a(1))
				}
			case "upd":
				if e := Eq(a(1), a(0).Args[1]); e.IsTrue() {
					// only valid in range; Go panics otherwise, which is checked separately
					return nil
				} else if e.IsFalse() {
					return g.SeqAt(a(0).Args[0], a(1))
				}
			}
		case "cat":
			if kb, _ := sortOfOp(a(1).Op); kb == "empty" {
				return a(0)
			} else if kb == "push" {
				return g.App("push."+s, g.App("cat."+s, a(0), a(1).Args[0]), a(1).Args[1])
			}
			if ka, _ := sortOfOp(a(0).Op); ka == "empty" {
				return a(1)
			}
		case "sub":
			if n, ok := a(1).isInt(); ok && n == 0 && same(a(2), g.SeqLen(a(0))) {
				return a(0)
			}
			if lo, ok := a(1).isInt(); ok {
				if hi, ok := a(2).isInt(); ok {
					if el, ok := g.seqLit(a(0)); ok && 0 <= lo && lo <= hi && hi <= int64(len(el)) {
						return g.SeqLit(s, el[lo:hi]...)
					}
				}
			}
		case "upd":
			if n, ok := a(1).isInt(); ok {
				if el, ok := g.seqLit(a(0)); ok && n >= 0 && n < int64(len(el)) {
					el = append([]*Term{}, el...)
					el[n] = a(2)
					return g.SeqLit(s, el...)
				}
			}
		}
	case KMap:
		switch k {
		case "dom":
			switch ka, _ := sortOfOp(args[0].Op); ka {
			case "mempty":
				return False
			case "mupd":
				e := Eq(args[1], args[0].Args[1])
				if e.IsTrue() {
					return True
				}
				if e.IsFalse() {
					return g.App(op, args[0].Args[0], args[1])
				}
			}
		case "val":
			switch ka, _ := sortOfOp(args[0].Op); ka {
			case "mempty":
				return g.ZeroSort(si.Elem)
			case "mupd":
				e := Eq(args[1], args[0].Args[1])
				if e.IsTrue() {
					return args[0].Args[2]
				}
				if e.IsFalse() {
					return g.App(op, args[0].Args[0], args[1])
				}
			}
		}
	case KSet:
		if k == "mem" {
			if ka, _ := sortOfOp(args[0].Op); ka == "sempty" {
				return False
			}
		}
	}
	return nil
}

// seqLit returns the elements of a literal sequence.
func (g *Gen) seqLit(t *Term) ([]*Term, bool) {
	var rev []*Term
	for {
		k, _ := sortOfOp(t.Op)
		switch k {
		case "empty":
			out := make([]*Term, len(rev))
			for i, x := range rev {
				out[len(rev)-1-i] = x
			}
			return out, true
		case "push":
			rev = append(rev, t.Args[1])
			t = t.Args[0]
		default:
			return nil, false
		}
	}
}

func (g *Gen) SeqLit(srt string, el ...*Term) *Term {
	t := g.Const("empty."+srt, srt)
	for _, e := range el {
		t = g.App("push."+srt, t, e)
	}
	return t
}

func (g *Gen) NilIface() *Term { return &Term{Op: "nil$Iface", Sort: "Iface"} }

func (g *Gen) Str(s string) *Term {
	if g.lits == nil {
		g.lits = map[string]string{}
	}
	if len(g.lits) == 0 {
		g.lits[""] = "str$0"
		g.litVal["str$0"] = ""
		g.sym("str$0", "Str")
	}
	op, ok := g.lits[s]
	if !ok {
		op = fmt.Sprintf("str$%d", len(g.lits))
		g.lits[s] = op
		g.litVal[op] = s
		g.sym(op, "Str")
	}
	return &Term{Op: op, Sort: "Str"}
}

func (g *Gen) Select(a, i *Term) *Term {
	es := strings.TrimSuffix(strings.TrimPrefix(a.Sort, "(Array Int "), ")")
	if t := g.simplify("select", es, []*Term{a, i}); t != nil {
		return t
	}
	return mk("select", es, a, i)
}

func (g *Gen) Store(a, i, v *Term) *Term {
	return mk("store", a.Sort, unstore(a, i), i, v)
}

// unstore drops an earlier store to a cell about to be overwritten.
func unstore(a, i *Term) *Term {
	if a.Op != "store" {
		return a
	}
	if same(a.Args[1], i) {
		return a.Args[0]
	}
	if distinctRefs(a.Args[1], i) {
		if b := unstore(a.Args[0], i); b != a.Args[0] {
			return mk("store", a.Sort, b, a.Args[1], a.Args[2])
		}
	}
	return a
}

// distinctRefs: references that differ in every model of the entry assumptions: alloc0+i and alloc0+j, or a
// reference passed in (allocated before alloc0) and one allocated since.
func distinctRefs(a, b *Term) bool {
	if Eq(a, b).IsFalse() {
		return true
	}
	old := func(t *Term) bool { return len(t.Args) == 0 && strings.HasPrefix(t.Op, "in$") }
	fresh := func(t *Term) bool {
		d, ok := Sub(t, &Term{Op: "alloc0", Sort: "Int"}).isInt()
		return ok && d >= 0
	}
	return old(a) && fresh(b) || fresh(a) && old(b)
}

func (g *Gen) SeqLen(s *Term) *Term        { return g.App("len."+s.Sort, s) }
func (g *Gen) SeqAt(s, i *Term) *Term      { return g.App("at."+s.Sort, s, i) }
func (g *Gen) SeqPush(s, x *Term) *Term    { return g.App("push."+s.Sort, s, x) }
func (g *Gen) SeqCat(s, t *Term) *Term     { return g.App("cat."+s.Sort, s, t) }
func (g *Gen) SeqSub(s, a, b *Term) *Term  { return g.App("sub."+s.Sort, s, a, b) }
func (g *Gen) SeqUpd(s, i, x *Term) *Term  { return g.App("upd."+s.Sort, s, i, x) }
func (g *Gen) MapDom(m, k *Term) *Term     { return g.App("dom."+m.Sort, m, k) }
func (g *Gen) MapVal(m, k *Term) *Term     { return g.App("val."+m.Sort, m, k) }
func (g *Gen) MapUpd(m, k, v *Term) *Term  { return g.App("mupd."+m.Sort, m, k, v) }
func (g *Gen) MapDel(m, k *Term) *Term     { return g.App("mdel."+m.Sort, m, k) }
func (g *Gen) SetMem(s, x *Term) *Term     { return g.App("mem."+s.Sort, s, x) }
func (g *Gen) Sel(t *Term, f string) *Term { return g.App(t.Sort+"."+f, t) }

func clean(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$':
			sb.WriteRune(r)
		case r == '*':
			sb.WriteString("ptr-")
		case r == '[':
			sb.WriteString("<")
		case r == ']':
			sb.WriteString(">")
		case r == ' ':
		default:
			sb.WriteString("-")
		}
	}
	return sb.String()
}

func (g *Gen) Mangle(t types.Type) string {
	return clean(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
}

func qualName(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return n.Obj().Pkg().Name() + "." + n.Obj().Name()
}

func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/") || p.Path() == "govc")
}

func (g *Gen) immutPtr(elem types.Type) bool {
	n, ok := types.Unalias(elem).(*types.Named)
	if !ok {
		return false
	}
	if g.immut[qualName(n)] {
		return true
	}
	switch qualName(n) {
	case "strings.Builder", "bytes.Buffer", "frozen.MapBuilder", "frozen.SetBuilder":
		return false
	}
	// pointers to types of other packages are opaque references
	return !isRepoPkg(n.Obj().Pkg())
}

func (g *Gen) Sort(t types.Type) string {
	if s, ok := g.sortMem[t]; ok {
		return s
	}
	s := g.sort1(t)
	g.sortMem[t] = s
	return s
}

func (g *Gen) sort1(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		switch qualName(n) {
		case "strings.Builder", "bytes.Buffer":
			return "Str"
		case "frozen.Map", "frozen.MapBuilder":
			return g.MapSort(g.Sort(n.TypeArgs().At(0)), g.Sort(n.TypeArgs().At(1)))
		case "frozen.Set", "frozen.SetBuilder":
			return g.SetSort(g.Sort(n.TypeArgs().At(0)))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UntypedNil:
			return "Iface"
		}
		return g.opaque("Opq." + g.Mangle(t))
	case *types.Interface:
		return "Iface"
	case *types.Pointer:
		if g.immutPtr(u.Elem()) {
			return g.RefSort(u.Elem())
		}
		return "Int"
	case *types.Slice:
		return g.SeqSort(g.Sort(u.Elem()))
	case *types.Array:
		return g.SeqSort(g.Sort(u.Elem()))
	case *types.Map:
		return g.MapSort(g.Sort(u.Key()), g.Sort(u.Elem()))
	case *types.Signature:
		return "Func"
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && !isRepoPkg(n.Obj().Pkg()) {
			return g.opaque("Opq." + g.Mangle(t))
		}
		return g.StructSort(t, u)
	}
	return g.opaque("Opq." + g.Mangle(t))
}

func (g *Gen) opaque(n string) string {
	g.addSort(&SortInfo{Name: n, Kind: KOpaque})
	g.sym("zero$"+n, n)
	return n
}

func (g *Gen) StructSort(t types.Type, u *types.Struct) string {
	name := "S." + g.Mangle(t)
	if _, ok := g.sorts[name]; ok {
		return name
	}
	si := &SortInfo{Name: name, Kind: KStruct, GoType: t}
	g.sorts[name] = si
	g.building++
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		fn := f.Name()
		if fn == "_" {
			fn = fmt.Sprintf("_%d", i)
		}
		si.Fields = append(si.Fields, fn)
		si.FSorts = append(si.FSorts, g.Sort(f.Type()))
		si.FTypes = append(si.FTypes, f.Type())
	}
	g.order = append(g.order, name)
	g.syms["mk."+name] = &Sym{Args: si.FSorts, Res: name}
	for i, f := range si.Fields {
		g.sym(name+"."+f, si.FSorts[i], name)
		g.sel[name+"."+f] = i
	}
	if g.building--; g.building == 0 { // facts about types that contain themselves through a map
		for len(g.later) > 0 {
			f := g.later[0]
			g.later = g.later[1:]
			f()
		}
	}
	return name
}

func (g *Gen) RefSort(elem types.Type) string {
	name := "Ref." + g.Mangle(elem)
	if _, ok := g.sorts[name]; ok {
		return name
	}
	si := &SortInfo{Name: name, Kind: KRef, GoType: elem}
	g.addSort(si)
	g.sym("nilref$"+name, name)
	es := g.Sort(elem)
	si.Elem = es
	g.sym("deref$"+name, es, name)
	g.sym("mkref$"+name, name, es)
	x := bv("x", es)
	mr := mk("mkref$"+name, name, x)
	g.axiom("ref "+name, Forall([]*Term{x}, And(mk("=", "Bool", mk("deref$"+name, es, mr), x),
		mk("not", "Bool", mk("=", "Bool", mr, mk("nilref$"+name, name)))), []*Term{mr}), "mkref$"+name)
	return name
}

func (g *Gen) SeqSort(e string) string {
	s := "Seq." + e
	if _, ok := g.sorts[s]; ok {
		return s
	}
	g.addSort(&SortInfo{Name: s, Kind: KSeq, Elem: e})
	for _, d := range []struct {
		n, r string
		a    []string
	}{
		{"len", "Int", []string{s}}, {"at", e, []string{s, "Int"}}, {"empty", s, nil}, {"push", s, []string{s, e}},
		{"cat", s, []string{s, s}}, {"sub", s, []string{s, "Int", "Int"}}, {"upd", s, []string{s, "Int", e}},
		{"fill", s, []string{"Int", e}}, {"seqeq", "Bool", []string{s, s}},
	} {
		g.sym(d.n+"."+s, d.r, d.a...)
	}
	f := func(n string, a ...*Term) *Term { return mk(n+"."+s, g.syms[n+"."+s].Res, a...) }
	x, y, i, j, k, v := bv("s", s), bv("t", s), bv("i", "Int"), bv("j", "Int"), bv("k", "Int"), bv("v", e)
	eq := func(a, b *Term) *Term { return mk("=", "Bool", a, b) }
	in := func(i, n *Term) *Term { return And(Le(Int(0), i), Lt(i, n)) }
	ax := func(n string, t *Term, needs ...string) {
		for q := range needs {
			needs[q] += "." + s
		}
		g.axiom(n+" "+s, t, needs...)
	}
	ax("len>=0", Forall([]*Term{x}, Le(Int(0), f("len", x)), []*Term{f("len", x)}), "len")
	ax("len0", Forall([]*Term{x}, Imp(eq(f("len", x), Int(0)), eq(x, f("empty"))), []*Term{f("len", x)}), "len")
	ax("empty", eq(f("len", f("empty")), Int(0)), "empty")
	ax("push-len", Forall([]*Term{x, v}, eq(f("len", f("push", x, v)), Add(f("len", x), Int(1))), []*Term{f("push", x, v)}), "push")
	ax("push-at", Forall([]*Term{x, v, i}, And(Imp(eq(i, f("len", x)), eq(f("at", f("push", x, v), i), v)),
		Imp(in(i, f("len", x)), eq(f("at", f("push", x, v), i), f("at", x, i)))), []*Term{f("at", f("push", x, v), i)}), "push")
	ax("push-at0", Forall([]*Term{x, v}, eq(f("at", f("push", x, v), f("len", x)), v), []*Term{f("push", x, v)}), "push")
	ax("cat-len", Forall([]*Term{x, y}, eq(f("len", f("cat", x, y)), Add(f("len", x), f("len", y))), []*Term{f("cat", x, y)}), "cat")
	ax("cat-at", Forall([]*Term{x, y, i}, And(Imp(in(i, f("len", x)), eq(f("at", f("cat", x, y), i), f("at", x, i))),
		Imp(And(Le(f("len", x), i), Lt(i, Add(f("len", x), f("len", y)))), eq(f("at", f("cat", x, y), i), f("at", y, Sub(i, f("len", x)))))),
		[]*Term{f("at", f("cat", x, y), i)}), "cat")
	ax("sub-len", Forall([]*Term{x, i, j}, Imp(And(Le(Int(0), i), Le(i, j), Le(j, f("len", x))), eq(f("len", f("sub", x, i, j)), Sub(j, i))), []*Term{f("sub", x, i, j)}), "sub")
	ax("sub-at", Forall([]*Term{x, i, j, k}, Imp(And(Le(Int(0), i), Le(i, j), Le(j, f("len", x)), in(k, Sub(j, i))),
		eq(f("at", f("sub", x, i, j), k), f("at", x, Add(i, k)))), []*Term{f("at", f("sub", x, i, j), k)}), "sub")
	ax("upd-len", Forall([]*Term{x, i, v}, eq(f("len", f("upd", x, i, v)), f("len", x)), []*Term{f("upd", x, i, v)}), "upd")
	ax("upd-at", Forall([]*Term{x, i, v, k}, Imp(in(k, f("len", x)), eq(f("at", f("upd", x, i, v), k), Ite(eq(k, i), v, f("at", x, k)))), []*Term{f("at", f("upd", x, i, v), k)}), "upd")
	ax("fill-len", Forall([]*Term{i, v}, Imp(Le(Int(0), i), eq(f("len", f("fill", i, v)), i)), []*Term{f("fill", i, v)}), "fill")
	ax("fill-at", Forall([]*Term{i, v, k}, Imp(in(k, i), eq(f("at", f("fill", i, v), k), v)), []*Term{f("at", f("fill", i, v), k)}), "fill")
	ax("seqeq1", Forall([]*Term{x, y}, eq(f("seqeq", x, y), eq(x, y)), []*Term{f("seqeq", x, y)}), "seqeq")
	ax("seqeq2", Forall([]*Term{x, y}, Imp(And(eq(f("len", x), f("len", y)),
		Forall([]*Term{i}, Imp(in(i, f("len", x)), eq(f("at", x, i), f("at", y, i))), []*Term{f("at", x, i)}, []*Term{f("at", y, i)})),
		f("seqeq", x, y)), []*Term{f("seqeq", x, y)}), "seqeq")
	return s
}

func (g *Gen) MapSort(k, v string) string {
	s := "Map." + k + ".." + v
	if _, ok := g.sorts[s]; ok {
		return s
	}
	g.addSort(&SortInfo{Name: s, Kind: KMap, Key: k, Elem: v})
	for _, d := range []struct {
		n, r string
		a    []string
	}{
		{"dom", "Bool", []string{s, k}}, {"val", v, []string{s, k}}, {"mempty", s, nil}, {"mupd", s, []string{s, k, v}},
		{"mdel", s, []string{s, k}}, {"card", "Int", []string{s}}, {"mapeq", "Bool", []string{s, s}},
	} {
		g.sym(d.n+"."+s, d.r, d.a...)
	}
	f := func(n string, a ...*Term) *Term { return mk(n+"."+s, g.syms[n+"."+s].Res, a...) }
	m, n, x, y, z := bv("m", s), bv("n", s), bv("k", k), bv("j", k), bv("v", v)
	eq := func(a, b *Term) *Term { return mk("=", "Bool", a, b) }
	ax := func(n string, t *Term, needs ...string) {
		for q := range needs {
			needs[q] += "." + s
		}
		g.axiom(n+" "+s, t, needs...)
	}
	ax("mempty", Forall([]*Term{x}, Not(f("dom", f("mempty"), x)), []*Term{f("dom", f("mempty"), x)}), "mempty")
	mzero := func() {
		ax("mzero", Forall([]*Term{m, x}, Imp(Not(f("dom", m, x)), eq(f("val", m, x), g.ZeroSort(v))), []*Term{f("val", m, x)}), "val")
	}
	if g.building > 0 {
		g.later = append(g.later, mzero)
	} else {
		mzero()
	}
	ax("mupd-dom", Forall([]*Term{m, x, z, y}, eq(f("dom", f("mupd", m, x, z), y), Or(eq(x, y), f("dom", m, y))), []*Term{f("dom", f("mupd", m, x, z), y)}), "mupd")
	ax("mupd-val", Forall([]*Term{m, x, z, y}, eq(f("val", f("mupd", m, x, z), y), Ite(eq(x, y), z, f("val", m, y))), []*Term{f("val", f("mupd", m, x, z), y)}), "mupd")
	ax("mupd-self", Forall([]*Term{m, x, z}, And(f("dom", f("mupd", m, x, z), x), eq(f("val", f("mupd", m, x, z), x), z)), []*Term{f("mupd", m, x, z)}), "mupd")
	ax("mdel-dom", Forall([]*Term{m, x, y}, eq(f("dom", f("mdel", m, x), y), And(Not(eq(x, y)), f("dom", m, y))), []*Term{f("dom", f("mdel", m, x), y)}), "mdel")
	ax("mdel-val", Forall([]*Term{m, x, y}, Imp(Not(eq(x, y)), eq(f("val", f("mdel", m, x), y), f("val", m, y))), []*Term{f("val", f("mdel", m, x), y)}), "mdel")
	ax("card", Forall([]*Term{m}, And(Le(Int(0), f("card", m)), Imp(eq(f("card", m), Int(0)), eq(m, f("mempty")))), []*Term{f("card", m)}), "card")
	ax("card-empty", eq(f("card", f("mempty")), Int(0)), "card", "mempty")
	ax("card-upd", Forall([]*Term{m, x, z}, eq(f("card", f("mupd", m, x, z)), Ite(f("dom", m, x), f("card", m), Add(f("card", m), Int(1)))), []*Term{f("card", f("mupd", m, x, z))}), "card", "mupd")
	ax("card-del", Forall([]*Term{m, x}, eq(f("card", f("mdel", m, x)), Ite(f("dom", m, x), Sub(f("card", m), Int(1)), f("card", m))), []*Term{f("card", f("mdel", m, x))}), "card", "mdel")
	ax("card-one", Forall([]*Term{m, x, y}, Imp(And(eq(f("card", m), Int(1)), f("dom", m, x), f("dom", m, y)), eq(x, y)), []*Term{f("card", m), f("dom", m, x), f("dom", m, y)}), "card")
	ax("mapeq1", Forall([]*Term{m, n}, eq(f("mapeq", m, n), eq(m, n)), []*Term{f("mapeq", m, n)}), "mapeq")
	ax("mapeq2", Forall([]*Term{m, n}, Imp(
		Forall([]*Term{x}, And(eq(f("dom", m, x), f("dom", n, x)), Imp(f("dom", m, x), eq(f("val", m, x), f("val", n, x)))), []*Term{f("dom", m, x)}, []*Term{f("dom", n, x)}),
		f("mapeq", m, n)), []*Term{f("mapeq", m, n)}), "mapeq")
	return s
}

func (g *Gen) SetSort(k string) string {
	s := "Set." + k
	if _, ok := g.sorts[s]; ok {
		return s
	}
	g.addSort(&SortInfo{Name: s, Kind: KSet, Key: k})
	for _, d := range []struct {
		n, r string
		a    []string
	}{
		{"mem", "Bool", []string{s, k}}, {"sempty", s, nil}, {"swith", s, []string{s, k}}, {"swithout", s, []string{s, k}},
		{"sunion", s, []string{s, s}}, {"scard", "Int", []string{s}}, {"seteq", "Bool", []string{s, s}},
	} {
		g.sym(d.n+"."+s, d.r, d.a...)
	}
	f := func(n string, a ...*Term) *Term { return mk(n+"."+s, g.syms[n+"."+s].Res, a...) }
	m, n, x, y := bv("m", s), bv("n", s), bv("k", k), bv("j", k)
	eq := func(a, b *Term) *Term { return mk("=", "Bool", a, b) }
	ax := func(n string, t *Term, needs ...string) {
		for q := range needs {
			needs[q] += "." + s
		}
		g.axiom(n+" "+s, t, needs...)
	}
	ax("sempty", Forall([]*Term{x}, Not(f("mem", f("sempty"), x)), []*Term{f("mem", f("sempty"), x)}), "sempty")
	ax("swith", Forall([]*Term{m, x, y}, eq(f("mem", f("swith", m, x), y), Or(eq(x, y), f("mem", m, y))), []*Term{f("mem", f("swith", m, x), y)}), "swith")
	ax("swithout", Forall([]*Term{m, x, y}, eq(f("mem", f("swithout", m, x), y), And(Not(eq(x, y)), f("mem", m, y))), []*Term{f("mem", f("swithout", m, x), y)}), "swithout")
	ax("sunion", Forall([]*Term{m, n, y}, eq(f("mem", f("sunion", m, n), y), Or(f("mem", m, y), f("mem", n, y))), []*Term{f("mem", f("sunion", m, n), y)}), "sunion")
	ax("scard", Forall([]*Term{m}, And(Le(Int(0), f("scard", m)), eq(eq(f("scard", m), Int(0)), eq(m, f("sempty")))), []*Term{f("scard", m)}), "scard")
	ax("seteq1", Forall([]*Term{m, n}, eq(f("seteq", m, n), eq(m, n)), []*Term{f("seteq", m, n)}), "seteq")
	ax("seteq2", Forall([]*Term{m, n}, Imp(
		Forall([]*Term{x}, eq(f("mem", m, x), f("mem", n, x)), []*Term{f("mem", m, x)}, []*Term{f("mem", n, x)}),
		f("seteq", m, n)), []*Term{f("seteq", m, n)}), "seteq")
	return s
}

func (g *Gen) strAxioms() {
	S := "Str"
	g.sym("slen", "Int", S)
	g.sym("sat", "Int", S, "Int")
	g.sym("ssub", S, S, "Int", "Int")
	g.sym("scat", S, S, S)
	g.sym("sbyte", S, "Int")
	g.sym("streq", "Bool", S, S)
	g.sym("sprefix", "Bool", S, S) // sprefix(s, p): p is a prefix of s
	e := g.Str("")
	a, b, i, j, k, l := bv("a", S), bv("b", S), bv("i", "Int"), bv("j", "Int"), bv("k", "Int"), bv("l", "Int")
	f := func(n string, x ...*Term) *Term { return mk(n, g.syms[n].Res, x...) }
	eq := func(a, b *Term) *Term { return mk("=", "Bool", a, b) }
	n := func(x *Term) *Term { return f("slen", x) }
	rng := func(i, j, n *Term) *Term { return And(Le(Int(0), i), Le(i, j), Le(j, n)) }
	g.axiom("slen>=0", Forall([]*Term{a}, And(Le(Int(0), n(a)), Imp(eq(n(a), Int(0)), eq(a, e))), []*Term{n(a)}), "slen")
	g.axiom("sat-range", Forall([]*Term{a, i}, And(Le(Int(0), f("sat", a, i)), Lt(f("sat", a, i), Int(256))), []*Term{f("sat", a, i)}), "sat")
	g.axiom("ssub-len", Forall([]*Term{a, i, j}, Imp(rng(i, j, n(a)), eq(n(f("ssub", a, i, j)), Sub(j, i))), []*Term{f("ssub", a, i, j)}), "ssub")
	g.axiom("ssub-full", Forall([]*Term{a}, eq(f("ssub", a, Int(0), n(a)), a), []*Term{n(a)}), "ssub")
	g.axiom("ssub-empty", Forall([]*Term{a, i, j}, Imp(And(eq(i, j), rng(i, j, n(a))), eq(f("ssub", a, i, j), e)), []*Term{f("ssub", a, i, j)}), "ssub")
	g.axiom("ssub-ssub", Forall([]*Term{a, i, j, k, l}, Imp(And(rng(i, j, n(a)), rng(k, l, Sub(j, i))),
		eq(f("ssub", f("ssub", a, i, j), k, l), f("ssub", a, Add(i, k), Add(i, l)))), []*Term{f("ssub", f("ssub", a, i, j), k, l)}), "ssub")
	g.axiom("ssub-at", Forall([]*Term{a, i, j, k}, Imp(And(rng(i, j, n(a)), Le(Int(0), k), Lt(k, Sub(j, i))),
		eq(f("sat", f("ssub", a, i, j), k), f("sat", a, Add(i, k)))), []*Term{f("sat", f("ssub", a, i, j), k)}), "ssub", "sat")
	g.axiom("scat-len", Forall([]*Term{a, b}, eq(n(f("scat", a, b)), Add(n(a), n(b))), []*Term{f("scat", a, b)}), "scat")
	g.axiom("scat-at", Forall([]*Term{a, b, i}, And(Imp(And(Le(Int(0), i), Lt(i, n(a))), eq(f("sat", f("scat", a, b), i), f("sat", a, i))),
		Imp(And(Le(n(a), i), Lt(i, Add(n(a), n(b)))), eq(f("sat", f("scat", a, b), i), f("sat", b, Sub(i, n(a)))))), []*Term{f("sat", f("scat", a, b), i)}), "scat", "sat")
	g.axiom("scat-ssub", Forall([]*Term{a, i, j, k}, Imp(And(rng(i, j, n(a)), rng(j, k, n(a))),
		eq(f("scat", f("ssub", a, i, j), f("ssub", a, j, k)), f("ssub", a, i, k))), []*Term{f("scat", f("ssub", a, i, j), f("ssub", a, j, k))}), "scat", "ssub")
	g.axiom("ssub-scat", Forall([]*Term{a, b}, And(eq(f("ssub", f("scat", a, b), Int(0), n(a)), a), eq(f("ssub", f("scat", a, b), n(a), Add(n(a), n(b))), b)), []*Term{f("scat", a, b)}), "scat", "ssub")
	g.axiom("scat-empty", Forall([]*Term{a, b}, And(Imp(eq(a, e), eq(f("scat", a, b), b)), Imp(eq(b, e), eq(f("scat", a, b), a))), []*Term{f("scat", a, b)}), "scat")
	c := bv("c", S)
	g.axiom("scat-assoc", Forall([]*Term{a, b, c}, eq(f("scat", f("scat", a, b), c), f("scat", a, f("scat", b, c))), []*Term{f("scat", f("scat", a, b), c)}), "scat")
	g.axiom("sbyte", Forall([]*Term{i}, And(eq(n(f("sbyte", i)), Int(1)), Imp(And(Le(Int(0), i), Lt(i, Int(256))), eq(f("sat", f("sbyte", i), Int(0)), i))), []*Term{f("sbyte", i)}), "sbyte")
	g.axiom("sbyte-ssub", Forall([]*Term{a, i, j}, Imp(And(eq(j, Add(i, Int(1))), Le(Int(0), i), Lt(i, n(a))), eq(f("ssub", a, i, j), f("sbyte", f("sat", a, i)))), []*Term{f("ssub", a, i, j)}), "ssub", "sbyte")
	g.axiom("streq1", Forall([]*Term{a, b}, eq(f("streq", a, b), eq(a, b)), []*Term{f("streq", a, b)}), "streq")
	g.axiom("streq2", Forall([]*Term{a, b}, Imp(And(eq(n(a), n(b)), Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, n(a))), eq(f("sat", a, i), f("sat", b, i))), []*Term{f("sat", a, i)}, []*Term{f("sat", b, i)})),
		f("streq", a, b)), []*Term{f("streq", a, b)}), "streq")
	g.axiom("sprefix", Forall([]*Term{a, b}, eq(f("sprefix", a, b), And(Le(n(b), n(a)), eq(f("ssub", a, Int(0), n(b)), b))), []*Term{f("sprefix", a, b)}), "sprefix")
}

// ConvStruct converts between struct types with the same fields.
func (g *Gen) ConvStruct(v *Term, to string) (*Term, bool) {
	a, b := g.sorts[v.Sort], g.sorts[to]
	if a == nil || b == nil || a.Kind != KStruct || b.Kind != KStruct || len(a.Fields) != len(b.Fields) {
		return nil, false
	}
	var fs []*Term
	for i, f := range a.Fields {
		if b.Fields[i] != f || b.FSorts[i] != a.FSorts[i] {
			return nil, false
		}
		fs = append(fs, g.Sel(v, f))
	}
	return g.App("mk."+to, fs...), true
}

func (g *Gen) ZeroSort(s string) *Term {
	switch s {
	case "Int":
		return Int(0)
	case "Bool":
		return False
	case "Str":
		return g.Str("")
	case "Iface":
		return g.NilIface()
	case "Func":
		return &Term{Op: "nil$Func", Sort: "Func"}
	}
	si := g.sorts[s]
	switch si.Kind {
	case KSeq:
		return g.Const("empty."+s, s)
	case KMap:
		return g.Const("mempty."+s, s)
	case KSet:
		return g.Const("sempty."+s, s)
	case KRef:
		return g.Const("nilref$"+s, s)
	case KStruct:
		var a []*Term
		for _, f := range si.FSorts {
			a = append(a, g.ZeroSort(f))
		}
		return g.App("mk."+s, a...)
	}
	return g.Const("zero$"+s, s)
}

func (g *Gen) Zero(t types.Type) *Term {
	t = types.Unalias(t)
	if a, ok := t.Underlying().(*types.Array); ok {
		s := g.Sort(t)
		z := g.Zero(a.Elem())
		if a.Len() <= 8 {
			var el []*Term
			for i := int64(0); i < a.Len(); i++ {
				el = append(el, z)
			}
			return g.SeqLit(s, el...)
		}
		return g.App("fill."+s, Int(a.Len()), z)
	}
	if st, ok := t.Underlying().(*types.Struct); ok && g.sorts[g.Sort(t)].Kind == KStruct {
		var a []*Term
		for i := 0; i < st.NumFields(); i++ {
			a = append(a, g.Zero(st.Field(i).Type()))
		}
		return g.App("mk."+g.Sort(t), a...)
	}
	return g.ZeroSort(g.Sort(t))
}

// TypeID gives the dynamic type tag of a concrete type.
func (g *Gen) TypeID(t types.Type) int {
	t = types.Unalias(t)
	m := g.Mangle(t)
	if id, ok := g.typeID[m]; ok {
		return id
	}
	id := len(g.typeOf)
	g.typeID[m] = id
	g.typeOf = append(g.typeOf, t)
	s := g.Sort(t)
	g.sym("box$"+m, "Iface", s)
	g.sym("unbox$"+m, s, "Iface")
	x, i := bv("x", s), bv("i", "Iface")
	bx := mk("box$"+m, "Iface", x)
	g.axiom("box "+m, Forall([]*Term{x}, And(mk("=", "Bool", mk("typ", "Int", bx), Int(int64(id))), mk("=", "Bool", mk("unbox$"+m, s, bx), x)), []*Term{bx}), "box$"+m)
	ub := mk("unbox$"+m, s, i)
	g.axiom("unbox "+m, Forall([]*Term{i}, Imp(mk("=", "Bool", mk("typ", "Int", i), Int(int64(id))), mk("=", "Bool", mk("box$"+m, "Iface", ub), i)), []*Term{ub}), "unbox$"+m)
	// rank of the parts
	var facts []*Term
	g.rankFacts(s, x, bx, &facts, 0)
	if len(facts) > 0 {
		g.axiom("rank "+m, Forall([]*Term{x}, And(facts...), []*Term{bx}), "box$"+m, "rank")
	}
	return id
}

func (g *Gen) rankFacts(s string, x, whole *Term, out *[]*Term, depth int) {
	if depth > 4 {
		return
	}
	si := g.sorts[s]
	lt := func(part *Term) *Term { return Lt(mk("rank", "Int", part), mk("rank", "Int", whole)) }
	switch {
	case s == "Iface":
		*out = append(*out, lt(x))
	case si.Kind == KStruct:
		for i, f := range si.Fields {
			g.rankFacts(si.FSorts[i], mk(s+"."+f, si.FSorts[i], x), whole, out, depth+1)
		}
	case si.Kind == KSeq:
		i := bv("i", "Int")
		el := mk("at."+s, si.Elem, x, i)
		var inner []*Term
		g.rankFacts(si.Elem, el, whole, &inner, depth+1)
		if len(inner) > 0 {
			*out = append(*out, Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, mk("len."+s, "Int", x))), And(inner...)), []*Term{el}))
		}
	case si.Kind == KMap:
		k := bv("k", si.Key)
		el := mk("val."+s, si.Elem, x, k)
		var inner []*Term
		g.rankFacts(si.Elem, el, whole, &inner, depth+1)
		if len(inner) > 0 {
			*out = append(*out, Forall([]*Term{k}, Imp(mk("dom."+s, "Bool", x, k), And(inner...)), []*Term{el}))
		}
	case si.Kind == KRef && si.Elem != "" && g.sorts[si.Elem] != nil && g.sorts[si.Elem].Kind == KStruct && depth < 2:
		g.rankFacts(si.Elem, mk("deref$"+s, si.Elem, x), whole, out, depth+1)
	}
}

func (g *Gen) Box(t types.Type, v *Term) *Term {
	if types.IsInterface(t) {
		return v
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return g.NilIface()
	}
	t = types.Default(t)
	g.TypeID(t)
	m := g.Mangle(types.Unalias(t))
	// box(unbox(i)) = i under typ(i)=T is left to the axiom
	return g.App("box$"+m, v)
}

func (g *Gen) Unbox(t types.Type, v *Term) *Term {
	if types.IsInterface(t) {
		return v
	}
	g.TypeID(t)
	return g.App("unbox$"+g.Mangle(types.Unalias(t)), v)
}

// IsType tests the dynamic type of an interface value.
func (g *Gen) IsType(v *Term, t types.Type) *Term {
	if types.IsInterface(t) {
		it := t.Underlying().(*types.Interface)
		if it.NumMethods() == 0 {
			return Not(Eq(g.App("typ", v), Int(0)))
		}
		m := "impl$" + g.Mangle(types.Unalias(t))
		g.sym(m, "Bool", "Int")
		g.implIfs[m] = it
		ty := g.App("typ", v)
		if n, ok := ty.isInt(); ok {
			if n == 0 {
				return False
			}
			return boolT(types.Implements(g.typeOf[n], it))
		}
		return And(Not(Eq(ty, Int(0))), g.App(m, ty))
	}
	return Eq(g.App("typ", v), Int(int64(g.TypeID(t))))
}

// hasExt tells whether values of a sort contain sequences, maps, sets or strings (for which equality goals need extensionality).
func (g *Gen) hasExt(s string) bool {
	si := g.sorts[s]
	if si == nil {
		return false
	}
	switch si.Kind {
	case KSeq, KMap, KSet:
		return true
	case KStruct:
		for _, f := range si.FSorts {
			if g.hasExt(f) {
				return true
			}
		}
	}
	return false
}

// GoalEq expands an equality to be proved.
func (g *Gen) GoalEq(a, b *Term) *Term {
	if same(a, b) {
		return True
	}
	si := g.sorts[a.Sort]
	if a.Sort == "Iface" {
		if strings.HasPrefix(a.Op, "box$") && !strings.HasPrefix(b.Op, "box$") {
			a, b = b, a
		}
		if strings.HasPrefix(b.Op, "box$") {
			m := b.Op[4:]
			if strings.HasPrefix(a.Op, "box$") {
				if a.Op != b.Op {
					return False
				}
				return g.GoalEq(a.Args[0], b.Args[0])
			}
			if a.Op == "ite" {
				return And(Imp(a.Args[0], g.GoalEq(a.Args[1], b)), Imp(Not(a.Args[0]), g.GoalEq(a.Args[2], b)))
			}
			if g.hasExt(b.Args[0].Sort) {
				return Or(mk("=", "Bool", a, b), And(Eq(g.App("typ", a), Int(int64(g.typeID[m]))), g.GoalEq(g.App("unbox$"+m, a), b.Args[0])))
			}
		}
		if a.Op == "ite" || b.Op == "ite" {
			if a.Op != "ite" {
				a, b = b, a
			}
			return And(Imp(a.Args[0], g.GoalEq(a.Args[1], b)), Imp(Not(a.Args[0]), g.GoalEq(a.Args[2], b)))
		}
		return Eq(a, b)
	}
	if si == nil {
		return Eq(a, b)
	}
	switch si.Kind {
	case KSeq:
		return g.App("seqeq."+a.Sort, a, b)
	case KMap:
		return g.App("mapeq."+a.Sort, a, b)
	case KSet:
		return g.App("seteq."+a.Sort, a, b)
	case KStruct:
		var cs []*Term
		for _, f := range si.Fields {
			cs = append(cs, g.GoalEq(g.Sel(a, f), g.Sel(b, f)))
		}
		return And(cs...)
	case KRef:
		if strings.HasPrefix(a.Op, "mkref$") && strings.HasPrefix(b.Op, "mkref$") {
			return g.GoalEq(a.Args[0], b.Args[0])
		}
	}
	return Eq(a, b)
}

// ExpandGoal rewrites equalities in positive positions of a goal.
func (g *Gen) ExpandGoal(t *Term, pos bool) *Term {
	switch t.Op {
	case "and":
		var a []*Term
		for _, x := range t.Args {
			a = append(a, g.ExpandGoal(x, pos))
		}
		return And(a...)
	case "or":
		var a []*Term
		for _, x := range t.Args {
			a = append(a, g.ExpandGoal(x, pos))
		}
		return Or(a...)
	case "not":
		return Not(g.ExpandGoal(t.Args[0], !pos))
	case "=>":
		return Imp(g.ExpandGoal(t.Args[0], !pos), g.ExpandGoal(t.Args[1], pos))
	case "ite":
		if t.Sort == "Bool" {
			return And(Imp(t.Args[0], g.ExpandGoal(t.Args[1], pos)), Imp(Not(t.Args[0]), g.ExpandGoal(t.Args[2], pos)))
		}
	case "forall", "exists":
		if (t.Op == "forall") == pos {
			n := &Term{Op: t.Op, Sort: "Bool", Bound: t.Bound, Trig: t.Trig, Args: []*Term{g.ExpandGoal(t.Args[0], pos)}}
			return n
		}
	case "=":
		if t.Args[0].Sort == "Bool" {
			if pos {
				return And(g.ExpandGoal(Imp(t.Args[0], t.Args[1]), true), g.ExpandGoal(Imp(t.Args[1], t.Args[0]), true))
			}
			return t
		}
		if pos {
			return g.GoalEq(t.Args[0], t.Args[1])
		}
	}
	return t
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
