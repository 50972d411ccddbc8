package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// ---------- lexer ----------

type tok struct {
	kind string // ident int str char op eof
	s    string
	line int
}

func lex(file, src string) ([]tok, error) {
	var out []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", ":=", "++", "->"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"' || c == '`':
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' && c == '"' {
					j++
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("%s:%d: unterminated string", file, line)
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				return nil, fmt.Errorf("%s:%d: %v", file, line, err)
			}
			out = append(out, tok{"str", s, line})
			i = j + 1
		case c == '\'':
			j := i + 1
			for j < len(src) && src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				return nil, fmt.Errorf("%s:%d: %v", file, line, err)
			}
			out = append(out, tok{"int", strconv.Itoa(int(r)), line})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			out = append(out, tok{"int", src[i:j], line})
			i = j
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$':
			j := i
			for j < len(src) && (src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] == '_' || src[j] == '$' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{"ident", src[i:j], line})
			i = j
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o, line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				out = append(out, tok{"op", string(c), line})
				i++
			}
		}
	}
	out = append(out, tok{"eof", "", line})
	return out, nil
}

// ---------- AST ----------

type SType struct {
	Kind string // name ptr slice map array func
	Pkg  string
	Name string
	Elem *SType
	Key  *SType
	N    int
	Args []*SType
}

func (t *SType) String() string {
	switch t.Kind {
	case "ptr":
		return "*" + t.Elem.String()
	case "slice":
		return "[]" + t.Elem.String()
	case "map":
		return "map[" + t.Key.String() + "]" + t.Elem.String()
	case "array":
		return fmt.Sprintf("[%d]%s", t.N, t.Elem)
	}
	if t.Pkg != "" {
		return t.Pkg + "." + t.Name
	}
	return t.Name
}

type SParam struct {
	Name string
	Type *SType
}

type SExpr struct {
	Kind  string // ident int str bin un call field index slice assert is lit if quant let old seq deref addr upd
	Name  string
	Args  []*SExpr
	Type  *SType
	Vars  []SParam
	Trigs [][]*SExpr
	Keys  []string
	Line  int
	File  string
}

type Clause struct {
	Label string
	Props []string
	E     *SExpr
	Line  int
	File  string
	Metas []SParam // for inv templates
}

type Contract struct {
	Kind                  string // func iface functype extern closure
	Target                string // name as in funcName, or Iface.Method
	Pkg                   string
	Params                []string
	Results               []string
	Requires              []Clause
	Ensures               []Clause
	Assumes               []Clause // assumed postconditions (trusted), reported
	Whens                 []Clause // the case the postconditions are about
	Modifies              []*SExpr
	Mutates               []string
	Invs                  []Clause
	Decreases             []Clause
	Safe                  []string // properties for which panic freedom is an obligation
	SafeIf                []*SExpr // only where these hold on entry
	Fresh                 bool
	Trusted               string // reason; body is not verified
	Lets                  []SParam2
	Witness               []Clause
	Line                  int
	File                  string
	Used                  bool
	Sig                   *SType
	Term                  []string // termination obligations for these properties
	Frame                 []string // frame obligations (no writes outside modifies) belong to these properties
	Opts                  map[string]string
	AltParams, AltResults []string // names used by the interface contract merged into this one
	AltIface              types.Type
	Iface                 string
	Bound                 map[string]STm // closures: the parameters of the enclosing function
}

type SParam2 struct {
	Name string
	E    *SExpr
}

type FnDecl struct {
	Name    string
	Pkg     string
	Params  []SParam
	Result  *SType
	Reads   []*SType // mutable types looked at through pointers
	Body    *SExpr
	Rec     bool
	Opaque  bool
	Fuel    int
	File    string
	Line    int
	defined bool
}

// GhostDecl declares a variable of the specification; contracts say who changes it (modifies name).
type GhostDecl struct {
	Pkg, Name string
	Type      *SType
}

type AxiomDecl struct {
	Name   string
	Pkg    string
	E      *SExpr
	Lemma  bool
	Induct string
	Vars   []SParam
	Reads  []*SType
	Props  []string
	Reason string
	Line   int
	File   string
	Trigs  [][]*SExpr
	Fuel   int
}

type TraceDecl struct {
	Name    string
	Pkg     string
	Iface   string
	Method  string
	Params  []string
	Results []string
	Fields  []SParam
	Exprs   []*SExpr
}

type Spec struct {
	Immutable []string // pkg.Type
	Closed    map[string][]*SType
	ClosedPkg map[string]string
	Fns       map[string]*FnDecl
	FnOrder   []*FnDecl
	Ghosts    []GhostDecl
	Axioms    []*AxiomDecl
	Traces    []*TraceDecl
	Contracts []*Contract
	Invs      []*Contract // type invariants: Target = type, Requires = clauses, Params[0] = self
	Notes     []string
	LinkOK    map[string]bool
	NilSlice  map[string]bool // element types whose empty slices are nil
}

func NewSpec() *Spec {
	return &Spec{Closed: map[string][]*SType{}, ClosedPkg: map[string]string{}, Fns: map[string]*FnDecl{}, LinkOK: map[string]bool{}, NilSlice: map[string]bool{}}
}

// ---------- parser ----------

type sparser struct {
	toks []tok
	p    int
	file string
	pkg  string
}

type specErr string

func (p *sparser) cur() tok  { return p.toks[p.p] }
func (p *sparser) peek() tok { return p.toks[min(p.p+1, len(p.toks)-1)] }
func (p *sparser) fail(f string, a ...any) {
	panic(specErr(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.cur().line, fmt.Sprintf(f, a...), p.cur().s)))
}
func (p *sparser) is(s string) bool {
	return p.cur().s == s && (p.cur().kind == "op" || p.cur().kind == "ident")
}
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *sparser) ident() string {
	if p.cur().kind != "ident" {
		p.fail("expected identifier")
	}
	s := p.cur().s
	p.p++
	return s
}

func (p *sparser) typ() *SType {
	switch {
	case p.accept("*"):
		return &SType{Kind: "ptr", Elem: p.typ()}
	case p.accept("["):
		if p.accept("]") {
			return &SType{Kind: "slice", Elem: p.typ()}
		}
		n, _ := strconv.Atoi(p.cur().s)
		p.p++
		p.expect("]")
		return &SType{Kind: "array", N: n, Elem: p.typ()}
	case p.is("map") && p.peek().s == "[":
		p.p++
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &SType{Kind: "map", Key: k, Elem: p.typ()}
	case p.is("func"):
		p.p++
		t := &SType{Kind: "func"}
		p.expect("(")
		for !p.accept(")") {
			t.Args = append(t.Args, p.typ())
			p.accept(",")
		}
		if p.cur().kind == "ident" || p.is("*") || p.is("[") {
			t.Elem = p.typ()
		}
		return t
	}
	t := &SType{Kind: "name", Name: p.ident()}
	if p.is(".") && p.peek().kind == "ident" {
		p.p++
		t.Pkg, t.Name = t.Name, p.ident()
	}
	if t.Pkg != "" && p.is("[") && p.peek().s != "]" {
		p.p++
		for {
			t.Args = append(t.Args, p.typ())
			if !p.accept(",") {
				break
			}
		}
		p.expect("]")
	}
	return t
}

func (p *sparser) node(k string) *SExpr { return &SExpr{Kind: k, Line: p.cur().line, File: p.file} }

func (p *sparser) expr() *SExpr { return p.iff() }

func (p *sparser) bin(op string, a, b *SExpr) *SExpr {
	return &SExpr{Kind: "bin", Name: op, Args: []*SExpr{a, b}, Line: a.Line, File: p.file}
}

func (p *sparser) iff() *SExpr {
	a := p.imp()
	for p.accept("<==>") {
		a = p.bin("<==>", a, p.imp())
	}
	return a
}
func (p *sparser) imp() *SExpr {
	a := p.or()
	if p.accept("==>") {
		return p.bin("==>", a, p.imp())
	}
	return a
}
func (p *sparser) or() *SExpr {
	a := p.and()
	for p.accept("||") {
		a = p.bin("||", a, p.and())
	}
	return a
}
func (p *sparser) and() *SExpr {
	a := p.cmp()
	for p.accept("&&") {
		a = p.bin("&&", a, p.cmp())
	}
	return a
}
func (p *sparser) cmp() *SExpr {
	a := p.add()
	var res *SExpr
	for {
		op := p.cur().s
		if p.cur().kind == "str" {
			break
		}
		switch op {
		case "==", "!=", "<", "<=", ">", ">=", "in":
			p.p++
			b := p.add()
			c := p.bin(op, a, b)
			if res == nil {
				res = c
			} else {
				res = p.bin("&&", res, c)
			}
			a = b
			continue
		case "is":
			p.p++
			e := p.node("is")
			e.Args = []*SExpr{a}
			e.Type = p.typ()
			if res == nil {
				res = e
			} else {
				res = p.bin("&&", res, e)
			}
			a = e
			continue
		}
		break
	}
	if res == nil {
		return a
	}
	return res
}
func (p *sparser) add() *SExpr {
	a := p.mul()
	for p.cur().kind == "op" && (p.is("+") || p.is("-") || p.is("++")) {
		op := p.cur().s
		p.p++
		a = p.bin(op, a, p.mul())
	}
	return a
}
func (p *sparser) mul() *SExpr {
	a := p.unary()
	for p.cur().kind == "op" && (p.is("*") || p.is("/") || p.is("%")) {
		op := p.cur().s
		p.p++
		a = p.bin(op, a, p.unary())
	}
	return a
}
func (p *sparser) unary() *SExpr {
	if p.cur().kind == "op" {
		switch p.cur().s {
		case "!", "-", "*", "&":
			e := p.node("un")
			e.Name = p.cur().s
			p.p++
			e.Args = []*SExpr{p.unary()}
			return e
		}
	}
	return p.postfix(p.primary())
}
func (p *sparser) postfix(e *SExpr) *SExpr {
	for {
		switch {
		case p.is(".") && p.peek().s == "(":
			p.p += 2
			n := p.node("assert")
			n.Args = []*SExpr{e}
			n.Type = p.typ()
			p.expect(")")
			e = n
		case p.accept("."):
			n := p.node("field")
			n.Args = []*SExpr{e}
			n.Name = p.ident()
			e = n
		case p.accept("["):
			if p.accept(":") {
				n := p.node("slice")
				n.Args = []*SExpr{e, nil, p.expr()}
				p.expect("]")
				e = n
				continue
			}
			i := p.expr()
			if p.accept(":=") {
				n := p.node("upd")
				n.Args = []*SExpr{e, i, p.expr()}
				p.expect("]")
				e = n
				continue
			}
			if p.accept(":") {
				n := p.node("slice")
				n.Args = []*SExpr{e, i, nil}
				if !p.is("]") {
					n.Args[2] = p.expr()
				}
				p.expect("]")
				e = n
				continue
			}
			p.expect("]")
			n := p.node("index")
			n.Args = []*SExpr{e, i}
			e = n
		case p.is("(") && (e.Kind == "ident" || e.Kind == "field"):
			p.p++
			n := p.node("call")
			n.Args = []*SExpr{e}
			for !p.accept(")") {
				n.Args = append(n.Args, p.expr())
				if !p.is(")") {
					p.expect(",")
				}
			}
			e = n
		case p.is("{") && (e.Kind == "ident" || e.Kind == "field" && e.Args[0].Kind == "ident"):
			t := &SType{Kind: "name", Name: e.Name}
			if e.Kind == "field" {
				t.Pkg = e.Args[0].Name
			}
			e = p.complit(t)
		default:
			return e
		}
	}
}

func (p *sparser) complit(t *SType) *SExpr {
	n := p.node("lit")
	n.Type = t
	p.expect("{")
	for !p.accept("}") {
		if p.cur().kind == "ident" && p.peek().s == ":" && p.peek().kind == "op" {
			n.Keys = append(n.Keys, p.ident())
			p.expect(":")
		} else {
			n.Keys = append(n.Keys, "")
		}
		n.Args = append(n.Args, p.expr())
		if !p.is("}") {
			p.expect(",")
		}
	}
	return n
}

func (p *sparser) params() []SParam {
	var vs []SParam
	for {
		v := SParam{Name: p.ident()}
		v.Type = p.typ()
		vs = append(vs, v)
		if !p.accept(",") {
			return vs
		}
	}
}

func (p *sparser) primary() *SExpr {
	t := p.cur()
	switch t.kind {
	case "int":
		e := p.node("int")
		e.Name = t.s
		p.p++
		return e
	case "str":
		e := p.node("str")
		e.Name = t.s
		p.p++
		return e
	case "op":
		if t.s == "(" {
			p.p++
			e := p.expr()
			p.expect(")")
			return e
		}
		if t.s == "[" {
			ty := p.typ()
			return p.complit(ty)
		}
	case "ident":
		switch t.s {
		case "if":
			e := p.node("if")
			p.p++
			c := p.expr()
			p.expect("then")
			a := p.expr()
			p.expect("else")
			b := p.expr()
			e.Args = []*SExpr{c, a, b}
			return e
		case "forall", "exists":
			e := p.node("quant")
			e.Name = t.s
			p.p++
			e.Vars = p.params()
			p.expect("::")
			for p.is("{") {
				p.p++
				var tr []*SExpr
				for !p.accept("}") {
					tr = append(tr, p.expr())
					p.accept(",")
				}
				e.Trigs = append(e.Trigs, tr)
			}
			e.Args = []*SExpr{p.expr()}
			return e
		case "let":
			e := p.node("let")
			p.p++
			e.Name = p.ident()
			p.expect("=")
			v := p.expr()
			p.expect("in")
			e.Args = []*SExpr{v, p.expr()}
			return e
		case "map":
			if p.peek().s == "[" {
				ty := p.typ()
				return p.complit(ty)
			}
		case "seq":
			if p.peek().s == "(" {
				e := p.node("seq")
				p.p += 2
				e.Name = p.ident()
				p.expect(",")
				n := p.expr()
				p.expect(",")
				b := p.expr()
				p.expect(")")
				e.Args = []*SExpr{n, b}
				return e
			}
		case "frozen":
			if p.peek().s == "." {
				// typed literal of an external generic type
				save := p.p
				ty := p.typ()
				if p.is("{") {
					return p.complit(ty)
				}
				p.p = save
			}
		}
		e := p.node("ident")
		e.Name = t.s
		p.p++
		return e
	}
	p.fail("unexpected token")
	return nil
}

func (p *sparser) tags() (label string, props []string) {
	if p.accept("[") {
		for !p.accept("]") {
			s := p.ident()
			if len(s) == 3 && s[0] == 'C' && s[1] >= '0' && s[1] <= '9' {
				props = append(props, s)
			} else {
				label = s
			}
			p.accept(",")
		}
	}
	return
}

// reads parses the types of mutable values a fn or lemma looks at through pointers.
func (p *sparser) reads() []*SType {
	out := []*SType{p.typ()}
	for p.accept(",") {
		out = append(out, p.typ())
	}
	return out
}

func (p *sparser) names() []string {
	var out []string
	p.expect("(")
	for !p.accept(")") {
		out = append(out, p.ident())
		p.accept(",")
	}
	return out
}

// target parses  Name | (*T).Name | (T).Name | Iface.Name, with optional package prefix.
func (p *sparser) target() string {
	var sb strings.Builder
	for {
		if p.is("(") {
			// receiver?
			if p.peek().s == "*" || p.toks[p.p+2].s == ")" && p.toks[p.p+3].s == "." {
				sb.WriteString("(")
				p.p++
				if p.accept("*") {
					sb.WriteString("*")
				}
				sb.WriteString(p.ident())
				p.expect(")")
				sb.WriteString(")")
				p.expect(".")
				sb.WriteString(".")
				continue
			}
			return sb.String()
		}
		sb.WriteString(p.ident())
		if p.accept(".") {
			sb.WriteString(".")
			continue
		}
		return sb.String()
	}
}

func ParseSpec(sp *Spec, file, src string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", string(s))
				return
			}
			panic(r)
		}
	}()
	toks, err := lex(file, src)
	if err != nil {
		return err
	}
	p := &sparser{toks: toks, file: file}
	for p.cur().kind != "eof" {
		line := p.cur().line
		kw := p.ident()
		switch kw {
		case "package":
			p.pkg = p.ident()
			p.expect(";")
		case "note":
			sp.Notes = append(sp.Notes, p.cur().s)
			p.p++
			p.expect(";")
		case "ghost": // a ghost variable
			g := GhostDecl{Pkg: p.pkg, Name: p.ident()}
			g.Type = p.typ()
			sp.Ghosts = append(sp.Ghosts, g)
			p.expect(";")
		case "nilslice":
			sp.NilSlice[p.pkg+"."+p.ident()] = true
			p.expect(";")
		case "immutable":
			for {
				sp.Immutable = append(sp.Immutable, p.pkg+"."+p.ident())
				if !p.accept(",") {
					break
				}
			}
			p.expect(";")
		case "linking":
			for {
				sp.LinkOK[p.target()] = true
				if !p.accept(",") {
					break
				}
			}
			p.expect(";")
		case "closed":
			n := p.ident()
			p.expect("=")
			var ts []*SType
			for {
				ts = append(ts, p.typ())
				if !p.accept(",") {
					break
				}
			}
			p.expect(";")
			sp.Closed[p.pkg+"."+n] = ts
			sp.ClosedPkg[p.pkg+"."+n] = p.pkg
		case "fn", "rec", "opaque":
			f := &FnDecl{Pkg: p.pkg, File: file, Line: line, Fuel: 1}
			if kw == "rec" {
				f.Rec = true
				p.expect("fn")
			}
			if kw == "opaque" {
				f.Opaque = true
				p.expect("fn")
			}
			f.Name = p.ident()
			p.expect("(")
			if !p.is(")") {
				f.Params = p.params()
			}
			p.expect(")")
			f.Result = p.typ()
			if p.accept("reads") {
				f.Reads = p.reads()
			}
			if p.accept("fuel") {
				f.Fuel, _ = strconv.Atoi(p.cur().s)
				p.p++
			}
			if p.accept("=") {
				f.Body = p.expr()
			}
			p.expect(";")
			if _, dup := sp.Fns[f.Name]; dup {
				p.fail("duplicate fn %s", f.Name)
			}
			sp.Fns[f.Name] = f
			sp.FnOrder = append(sp.FnOrder, f)
		case "axiom", "lemma":
			a := &AxiomDecl{Pkg: p.pkg, File: file, Line: line, Lemma: kw == "lemma"}
			_, a.Props = p.tags()
			a.Name = p.ident()
			if p.accept("(") {
				a.Vars = p.params()
				p.expect(")")
			}
			if p.accept("reads") {
				a.Reads = p.reads()
			}
			if p.accept("induct") {
				a.Induct = p.ident()
			}
			if p.accept("because") {
				a.Reason = p.cur().s
				p.p++
			}
			p.expect(":")
			for p.is("{") {
				p.p++
				var tr []*SExpr
				for !p.accept("}") {
					tr = append(tr, p.expr())
					p.accept(",")
				}
				a.Trigs = append(a.Trigs, tr)
			}
			a.E = p.expr()
			p.expect(";")
			sp.Axioms = append(sp.Axioms, a)
		case "trace":
			t := &TraceDecl{Pkg: p.pkg}
			t.Name = p.ident()
			p.expect("on")
			t.Iface = p.ident()
			p.expect(".")
			t.Method = p.ident()
			t.Params = p.names()
			t.Results = p.names()
			p.expect("{")
			for !p.accept("}") {
				f := SParam{Name: p.ident()}
				f.Type = p.typ()
				p.expect("=")
				t.Fields = append(t.Fields, f)
				t.Exprs = append(t.Exprs, p.expr())
				p.expect(";")
			}
			sp.Traces = append(sp.Traces, t)
		case "func", "iface", "functype", "extern", "closure", "invariant":
			c := &Contract{Kind: kw, Pkg: p.pkg, Line: line, File: file, Opts: map[string]string{}}
			if kw == "closure" {
				p.expect("in")
				c.Target = p.target()
				p.expect("sig")
				c.Sig = p.typ()
			} else {
				c.Target = p.target()
			}
			c.Params = p.names()
			if p.is("(") {
				c.Results = p.names()
			}
			p.clauses(c)
			if kw == "invariant" {
				sp.Invs = append(sp.Invs, c)
			} else {
				sp.Contracts = append(sp.Contracts, c)
			}
		default:
			p.p--
			p.fail("unknown declaration")
		}
	}
	return nil
}

func (p *sparser) clauses(c *Contract) {
	p.expect("{")
	for !p.accept("}") {
		line := p.cur().line
		kw := p.ident()
		cl := Clause{Line: line, File: p.file}
		switch kw {
		case "requires", "ensures", "assumes", "witness", "decreases", "when":
			cl.Label, cl.Props = p.tags()
			if kw == "decreases" {
				cl.Metas = p.metas()
			}
			cl.E = p.expr()
			switch kw {
			case "requires":
				c.Requires = append(c.Requires, cl)
			case "when":
				if c.Kind != "func" && c.Kind != "iface" {
					p.fail("when is for func and iface contracts")
				}
				c.Whens = append(c.Whens, cl)
			case "ensures":
				c.Ensures = append(c.Ensures, cl)
			case "assumes":
				c.Assumes = append(c.Assumes, cl)
			case "witness":
				c.Witness = append(c.Witness, cl)
			case "decreases":
				c.Decreases = append(c.Decreases, cl)
			}
		case "inv":
			cl.Label, cl.Props = p.tags()
			cl.Metas = p.metas()
			cl.E = p.expr()
			c.Invs = append(c.Invs, cl)
		case "modifies":
			for {
				c.Modifies = append(c.Modifies, p.expr())
				if !p.accept(",") {
					break
				}
			}
		case "mutates":
			for {
				c.Mutates = append(c.Mutates, p.ident())
				if !p.accept(",") {
					break
				}
			}
		case "safe", "terminates", "frame":
			var ids []string
			_, ids = p.tags()
			switch kw {
			case "safe":
				c.Safe = append(c.Safe, ids...)
				if len(ids) == 0 {
					c.Safe = append(c.Safe, "")
				}
				if p.accept("if") {
					c.SafeIf = append(c.SafeIf, p.expr())
				}
			case "terminates":
				c.Term = append(c.Term, ids...)
			case "frame":
				c.Frame = append(c.Frame, ids...)
			}
		case "fresh":
			c.Fresh = true
		case "trusted":
			c.Trusted = p.cur().s
			p.p++
		case "let":
			n := p.ident()
			p.expect("=")
			c.Lets = append(c.Lets, SParam2{n, p.expr()})
		case "option":
			k := p.ident()
			v := "true"
			if p.accept("=") {
				v = p.cur().s
				p.p++
			}
			c.Opts[k] = v
		default:
			p.p--
			p.fail("unknown clause")
		}
		p.expect(";")
	}
}

// metas parses the optional parameter list of a template: for (x T, y *U): expr.
func (p *sparser) metas() []SParam {
	if !p.accept("for") {
		return nil
	}
	p.expect("(")
	m := p.params()
	p.expect(")")
	p.expect(":")
	return m
}
