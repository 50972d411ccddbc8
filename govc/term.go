package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is an SMT term (or a quantified formula).
type Term struct {
	Op    string
	Args  []*Term
	Sort  string
	Bound []*Term   // bound variables of forall/exists
	Trig  [][]*Term // triggers of a quantifier
	key   string
}

var (
	True  = &Term{Op: "true", Sort: "Bool"}
	False = &Term{Op: "false", Sort: "Bool"}
)

func mk(op, srt string, args ...*Term) *Term { return &Term{Op: op, Sort: srt, Args: args} }

func Int(n int64) *Term { return &Term{Op: strconv.FormatInt(n, 10), Sort: "Int"} }

func BigInt(s string) *Term { return &Term{Op: s, Sort: "Int"} }

func (t *Term) isInt() (int64, bool) {
	if t.Sort != "Int" || len(t.Args) > 0 {
		return 0, false
	}
	n, err := strconv.ParseInt(t.Op, 10, 64)
	return n, err == nil
}

func (t *Term) IsTrue() bool  { return t.Op == "true" }
func (t *Term) IsFalse() bool { return t.Op == "false" }

func symName(op string) string {
	if op == "" {
		return "||"
	}
	for _, r := range op {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.$!?<>=+-*/", r)) {
			return "|" + strings.ReplaceAll(op, "|", "_bar_") + "|"
		}
	}
	return op
}

// Key prints the term in SMT-LIB syntax (cached); it also serves as identity.
func (t *Term) Key() string {
	if t.key != "" {
		return t.key
	}
	var sb strings.Builder
	switch {
	case t.Op == "forall" || t.Op == "exists":
		sb.WriteString("(" + t.Op + " (")
		for i, b := range t.Bound {
			if i > 0 {
				sb.WriteByte(' ')
			}
			fmt.Fprintf(&sb, "(%s %s)", symName(b.Op), symName2(b.Sort))
		}
		sb.WriteString(") ")
		if len(t.Trig) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(t.Args[0].Key())
		if len(t.Trig) > 0 {
			for _, tr := range t.Trig {
				sb.WriteString(" :pattern (")
				for i, x := range tr {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(x.Key())
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	case len(t.Args) == 0:
		if n, ok := t.isInt(); ok && n < 0 {
			fmt.Fprintf(&sb, "(- %d)", -n)
		} else if t.Sort == "Int" && strings.HasPrefix(t.Op, "-") {
			fmt.Fprintf(&sb, "(- %s)", t.Op[1:])
		} else {
			sb.WriteString(symName(t.Op))
		}
	default:
		sb.WriteByte('(')
		sb.WriteString(symName(t.Op))
		for _, a := range t.Args {
			sb.WriteByte(' ')
			sb.WriteString(a.Key())
		}
		sb.WriteByte(')')
	}
	t.key = sb.String()
	return t.key
}

func symName2(s string) string {
	if strings.HasPrefix(s, "(") {
		return s
	}
	return symName(s)
}

func (t *Term) String() string { return t.Key() }

func same(a, b *Term) bool { return a == b || (a.Sort == b.Sort && a.Key() == b.Key()) }

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[string]bool{}
	for _, t := range ts {
		if t.IsTrue() {
			continue
		}
		if t.IsFalse() {
			return False
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !seen[a.Key()] {
					seen[a.Key()] = true
					out = append(out, a)
				}
			}
			continue
		}
		if !seen[t.Key()] {
			seen[t.Key()] = true
			out = append(out, t)
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", "Bool", out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.IsFalse() {
			continue
		}
		if t.IsTrue() {
			return True
		}
		if t.Op == "or" {
			out = append(out, t.Args...)
			continue
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", "Bool", out...)
}

func Not(t *Term) *Term {
	switch t.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return t.Args[0]
	}
	return mk("not", "Bool", t)
}

func Imp(a, b *Term) *Term {
	if a.IsTrue() {
		return b
	}
	if a.IsFalse() || b.IsTrue() {
		return True
	}
	if b.IsFalse() {
		return Not(a)
	}
	return mk("=>", "Bool", a, b)
}

func isCtor(t *Term) bool { return strings.HasPrefix(t.Op, "mk.") }

func Eq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s : %s vs %s : %s", a, a.Sort, b, b.Sort))
	}
	if same(a, b) {
		return True
	}
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok {
			return boolT(x == y)
		}
	}
	if a.Sort == "Int" {
		// cancel common linear parts:  x+1 = 0 stays, but  c1 = c2 + k normalises
		d := Sub(a, b)
		if n, ok := d.isInt(); ok {
			return boolT(n == 0)
		}
	}
	if a.Sort == "Bool" {
		if a.IsTrue() {
			return b
		}
		if b.IsTrue() {
			return a
		}
		if a.IsFalse() {
			return Not(b)
		}
		if b.IsFalse() {
			return Not(a)
		}
	}
	if strings.HasPrefix(a.Op, "str$") && strings.HasPrefix(b.Op, "str$") && len(a.Args) == 0 && len(b.Args) == 0 {
		return boolT(a.Op == b.Op)
	}
	if isCtor(a) && isCtor(b) && a.Op == b.Op {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if strings.HasPrefix(a.Op, "box$") && strings.HasPrefix(b.Op, "box$") {
		if a.Op != b.Op {
			return False
		}
		return Eq(a.Args[0], b.Args[0])
	}
	if a.Op == "nil$Iface" && strings.HasPrefix(b.Op, "box$") || b.Op == "nil$Iface" && strings.HasPrefix(a.Op, "box$") {
		return False
	}
	if strings.HasPrefix(a.Op, "mkref$") && strings.HasPrefix(b.Op, "mkref$") && a.Op == b.Op {
		return Eq(a.Args[0], b.Args[0])
	}
	if strings.HasPrefix(a.Op, "mkref$") && strings.HasPrefix(b.Op, "nilref$") || strings.HasPrefix(b.Op, "mkref$") && strings.HasPrefix(a.Op, "nilref$") {
		return False
	}
	return mk("=", "Bool", a, b)
}

func boolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Ite(c, a, b *Term) *Term {
	if c.IsTrue() || same(a, b) {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s (%s) %s (%s)", a, a.Sort, b, b.Sort))
	}
	if a.Sort == "Bool" {
		if a.IsTrue() {
			return Or(c, b)
		}
		if a.IsFalse() {
			return And(Not(c), b)
		}
		if b.IsTrue() {
			return Imp(c, a)
		}
		if b.IsFalse() {
			return And(c, a)
		}
	}
	return mk("ite", a.Sort, c, a, b)
}

// linear normal form for Int sums
type lin struct {
	c     int64
	terms map[string]int64
	tm    map[string]*Term
}

func linOf(t *Term) (lin, bool) {
	l := lin{terms: map[string]int64{}, tm: map[string]*Term{}}
	var add func(t *Term, k int64) bool
	add = func(t *Term, k int64) bool {
		if n, ok := t.isInt(); ok {
			if n > 1<<40 || n < -(1<<40) {
				return false
			}
			l.c += k * n
			return true
		}
		if _, err := strconv.ParseFloat(t.Op, 64); err == nil && len(t.Args) == 0 {
			return false
		}
		switch t.Op {
		case "+":
			for _, a := range t.Args {
				if !add(a, k) {
					return false
				}
			}
			return true
		case "-":
			if len(t.Args) == 1 {
				return add(t.Args[0], -k)
			}
			if !add(t.Args[0], k) {
				return false
			}
			for _, a := range t.Args[1:] {
				if !add(a, -k) {
					return false
				}
			}
			return true
		case "*":
			if n, ok := t.Args[0].isInt(); ok {
				return add(t.Args[1], k*n)
			}
			if n, ok := t.Args[1].isInt(); ok {
				return add(t.Args[0], k*n)
			}
		}
		l.terms[t.Key()] += k
		l.tm[t.Key()] = t
		return true
	}
	ok := add(t, 1)
	return l, ok
}

func (l lin) term() *Term {
	var keys []string
	for k, c := range l.terms {
		if c != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var args []*Term
	for _, k := range keys {
		c := l.terms[k]
		if c == 1 {
			args = append(args, l.tm[k])
		} else {
			args = append(args, mk("*", "Int", Int(c), l.tm[k]))
		}
	}
	if l.c != 0 || len(args) == 0 {
		args = append(args, Int(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", "Int", args...)
}

func Add(a, b *Term) *Term {
	t := mk("+", "Int", a, b)
	if l, ok := linOf(t); ok {
		return l.term()
	}
	return t
}

func Sub(a, b *Term) *Term {
	t := mk("-", "Int", a, b)
	if l, ok := linOf(t); ok {
		return l.term()
	}
	return t
}

func Mul(a, b *Term) *Term {
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok {
			return Int(x * y)
		}
		if x == 1 {
			return b
		}
	}
	if y, ok := b.isInt(); ok && y == 1 {
		return a
	}
	return mk("*", "Int", a, b)
}

func Le(a, b *Term) *Term {
	if l, ok := linOf(mk("-", "Int", b, a)); ok {
		if n, ok := l.term().isInt(); ok {
			return boolT(n >= 0)
		}
	}
	return mk("<=", "Bool", a, b)
}

func Lt(a, b *Term) *Term {
	if l, ok := linOf(mk("-", "Int", b, a)); ok {
		if n, ok := l.term().isInt(); ok {
			return boolT(n > 0)
		}
	}
	return mk("<", "Bool", a, b)
}

func Forall(bound []*Term, body *Term, trigs ...[]*Term) *Term {
	if len(bound) == 0 || body.IsTrue() || body.IsFalse() {
		return body
	}
	return &Term{Op: "forall", Sort: "Bool", Args: []*Term{body}, Bound: bound, Trig: trigs}
}

func Exists(bound []*Term, body *Term) *Term {
	if len(bound) == 0 || body.IsTrue() || body.IsFalse() {
		return body
	}
	return &Term{Op: "exists", Sort: "Bool", Args: []*Term{body}, Bound: bound}
}

// subst replaces nullary symbols by terms.
func (t *Term) subst(m map[string]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	if len(t.Args) == 0 {
		if r, ok := m[t.Op]; ok && r.Sort == t.Sort {
			return r
		}
		return t
	}
	if t.Op == "forall" || t.Op == "exists" {
		m2 := m
		for _, b := range t.Bound {
			if _, ok := m[b.Op]; ok {
				m2 = map[string]*Term{}
				for k, v := range m {
					m2[k] = v
				}
				for _, b := range t.Bound {
					delete(m2, b.Op)
				}
				break
			}
		}
		n := &Term{Op: t.Op, Sort: t.Sort, Bound: t.Bound, Args: []*Term{t.Args[0].subst(m2)}}
		for _, tr := range t.Trig {
			var ntr []*Term
			for _, x := range tr {
				ntr = append(ntr, x.subst(m2))
			}
			n.Trig = append(n.Trig, ntr)
		}
		return n
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = a.subst(m)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	return rebuild(t, args)
}

// renameOps renames function symbols.
func (t *Term) renameOps(m map[string]string) *Term {
	if t.Op == "forall" || t.Op == "exists" {
		n := &Term{Op: t.Op, Sort: t.Sort, Bound: t.Bound, Args: []*Term{t.Args[0].renameOps(m)}}
		for _, tr := range t.Trig {
			var ntr []*Term
			for _, x := range tr {
				ntr = append(ntr, x.renameOps(m))
			}
			n.Trig = append(n.Trig, ntr)
		}
		return n
	}
	op := t.Op
	if r, ok := m[op]; ok {
		op = r
	}
	if len(t.Args) == 0 {
		if op == t.Op {
			return t
		}
		return &Term{Op: op, Sort: t.Sort}
	}
	args := make([]*Term, len(t.Args))
	ch := op != t.Op
	for i, a := range t.Args {
		args[i] = a.renameOps(m)
		ch = ch || args[i] != a
	}
	if !ch {
		return t
	}
	return &Term{Op: op, Sort: t.Sort, Args: args}
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Imp(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	}
	if simp := theGen.simplify(t.Op, t.Sort, args); simp != nil {
		return simp
	}
	return &Term{Op: t.Op, Sort: t.Sort, Args: args}
}

// walk visits all subterms.
func (t *Term) walk(f func(*Term)) {
	f(t)
	for _, a := range t.Args {
		a.walk(f)
	}
	for _, tr := range t.Trig {
		for _, x := range tr {
			x.walk(f)
		}
	}
}

// freeVars collects the bound-variable-like constants (prefix "?") free in t.
func (t *Term) freeBV(out map[string]*Term, bound map[string]bool) {
	if t.Op == "forall" || t.Op == "exists" {
		nb := map[string]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, b := range t.Bound {
			nb[b.Op] = true
		}
		t.Args[0].freeBV(out, nb)
		return
	}
	if len(t.Args) == 0 && strings.HasPrefix(t.Op, "?") && !bound[t.Op] {
		out[t.Op] = t
	}
	for _, a := range t.Args {
		a.freeBV(out, bound)
	}
}
