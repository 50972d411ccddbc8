package main

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Query struct {
	PC    []*Term
	Goal  *Term
	Lemma int // only lemmas with a smaller ordinal may be used (0: all)
}

type prelude struct {
	text    string
	assumed []string
}

// buildPrelude emits declarations and axioms relevant for a set of terms.
func (g *Gen) buildPrelude(terms []*Term, maxLemma ...int) prelude {
	lim := 0
	if len(maxLemma) > 0 {
		lim = maxLemma[0]
	}
	ops := map[string]bool{}
	var queue []*Term
	queue = append(queue, terms...)
	visited := map[*Term]bool{}
	sortsUsed := map[string]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if visited[t] {
			return
		}
		visited[t] = true
		ops[t.Op] = true
		if t.Sort != "" {
			sortsUsed[t.Sort] = true
		}
		for _, b := range t.Bound {
			sortsUsed[b.Sort] = true
		}
		for _, a := range t.Args {
			visit(a)
		}
		for _, tr := range t.Trig {
			for _, x := range tr {
				visit(x)
			}
		}
	}
	for _, t := range queue {
		visit(t)
	}
	var inc []*Axiom
	used := map[*Axiom]bool{}
	for {
		changed := false
		for _, a := range g.axioms {
			if used[a] || lim > 0 && a.Lemma >= lim {
				continue
			}
			ok := true
			for _, n := range a.Needs {
				if !ops[n] {
					ok = false
					break
				}
			}
			if ok {
				used[a] = true
				inc = append(inc, a)
				visit(a.T)
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	var sb strings.Builder
	// sorts
	for op := range ops {
		if s, ok := g.syms[op]; ok {
			for _, a := range s.Args {
				sortsUsed[a] = true
			}
			sortsUsed[s.Res] = true
		}
	}
	var need func(s string)
	all := map[string]bool{}
	need = func(s string) {
		if strings.HasPrefix(s, "(Array Int ") {
			need(strings.TrimSuffix(strings.TrimPrefix(s, "(Array Int "), ")"))
			return
		}
		if all[s] {
			return
		}
		all[s] = true
		if si := g.sorts[s]; si != nil {
			for _, f := range si.FSorts {
				need(f)
			}
			if si.Elem != "" {
				need(si.Elem)
			}
			if si.Key != "" {
				need(si.Key)
			}
		}
	}
	for s := range sortsUsed {
		need(s)
	}
	for _, s := range g.order {
		si := g.sorts[s]
		if all[s] && si.Kind != KStruct && si.Kind != KPrim {
			fmt.Fprintf(&sb, "(declare-sort %s 0)\n", symName(s))
		}
	}
	done := map[string]bool{}
	var emit func(s string)
	emit = func(s string) {
		si := g.sorts[s]
		if si == nil || si.Kind != KStruct || done[s] {
			return
		}
		done[s] = true
		for _, f := range si.FSorts {
			emit(f)
		}
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", symName(s), symName("mk."+s))
		for i, f := range si.Fields {
			fmt.Fprintf(&sb, " (%s %s)", symName(s+"."+f), symName2(si.FSorts[i]))
		}
		sb.WriteString("))))\n")
	}
	for _, s := range g.order {
		if all[s] {
			emit(s)
		}
	}
	var names []string
	for op := range ops {
		names = append(names, op)
	}
	sort.Strings(names)
	var lits []string
	for _, op := range names {
		s, ok := g.syms[op]
		if !ok {
			continue
		}
		if strings.HasPrefix(op, "mk.") && g.sorts[op[3:]] != nil {
			continue
		}
		if _, ok := g.sel[op]; ok {
			continue
		}
		if _, ok := g.litVal[op]; ok {
			lits = append(lits, op)
		}
		var a []string
		for _, x := range s.Args {
			a = append(a, symName2(x))
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", symName(op), strings.Join(a, " "), symName2(s.Res))
	}
	// literals
	if len(lits) > 1 {
		fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	for _, l := range lits {
		v := g.litVal[l]
		if ops["slen"] {
			fmt.Fprintf(&sb, "(assert (= (slen %s) %d))\n", l, len(v))
		}
		if ops["sat"] && len(v) <= 24 {
			for i := 0; i < len(v); i++ {
				fmt.Fprintf(&sb, "(assert (= (sat %s %d) %d))\n", l, i, v[i])
			}
		}
		if ops["sbyte"] && len(v) == 1 {
			fmt.Fprintf(&sb, "(assert (= (sbyte %d) %s))\n", v[0], l)
		}
	}
	// interface implementation facts
	for _, op := range names {
		if it, ok := g.implIfs[op]; ok {
			for id := 1; id < len(g.typeOf); id++ {
				if types.Implements(g.typeOf[id], it) {
					fmt.Fprintf(&sb, "(assert (%s %d))\n", symName(op), id)
				} else {
					fmt.Fprintf(&sb, "(assert (not (%s %d)))\n", symName(op), id)
				}
			}
		}
	}
	var assumed []string
	for _, a := range inc {
		fmt.Fprintf(&sb, "(assert %s) ; %s\n", a.T.Key(), a.Name)
		if a.Assumed {
			assumed = append(assumed, a.Name)
		}
	}
	return prelude{sb.String(), assumed}
}

var (
	solverSem   = make(chan struct{}, 8)
	solverCalls int64
	solverNanos int64
	dumpDir     = os.Getenv("GOVC_DUMP")
	dumpSeq     int64
)

const relevancy0 = "(set-option :smt.relevancy 0)\n"
const z3opts = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.qi.eager_threshold 100)\n"

func runSolver(bin string, args []string, input string, timeout time.Duration) string {
	return runSolverHard(bin, args, input, timeout+2*time.Second)
}

func runSolverHard(bin string, args []string, input string, timeout time.Duration) string {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(input)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	atomic.AddInt64(&solverCalls, 1)
	atomic.AddInt64(&solverNanos, int64(time.Since(t0)))
	return out.String()
}

func lookSolver(names ...string) string {
	for _, n := range names {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return names[0]
}

var (
	z3new = lookSolver("z3-new", "z3")
	z3old = lookSolver("z3")
	cvc5  = lookSolver("cvc5")
)

type Result struct {
	Status  string // unsat (proved), sat, unknown
	Solver  string
	Output  string
	Assumed []string
	Millis  int64
}

// Prove tries to show PC => Goal.
func (g *Gen) Prove(q Query, timeout time.Duration, thorough bool) Result {
	gmu.Lock()
	locked := true
	unlock := func() {
		if locked {
			locked = false
			gmu.Unlock()
		}
	}
	defer unlock()
	goal := g.ExpandGoal(q.Goal, true)
	if goal.IsTrue() {
		return Result{Status: "unsat", Solver: "simplifier"}
	}
	neg := Not(goal)
	if goal.Op == "not" {
		neg = goal.Args[0]
	}
	terms := append(append([]*Term{}, q.PC...), neg)
	for _, t := range q.PC {
		if t.IsFalse() || same(t, goal) {
			return Result{Status: "unsat", Solver: "simplifier"}
		}
	}
	p := g.buildPrelude(terms, q.Lemma)
	var sb strings.Builder
	sb.WriteString(p.text)
	for _, t := range q.PC {
		fmt.Fprintf(&sb, "(assert %s)\n", t.Key())
	}
	fmt.Fprintf(&sb, "(assert %s)\n(check-sat)\n", neg.Key())
	body := sb.String()
	unlock()
	if dumpDir != "" {
		n := atomic.AddInt64(&dumpSeq, 1)
		_ = os.WriteFile(fmt.Sprintf("%s/q%05d.smt2", dumpDir, n), []byte(z3opts+body), 0o644)
	}
	t0 := time.Now()
	ms := timeout.Milliseconds()
	out := runSolver(z3new, []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)}, z3opts+body, timeout)
	st := status(out)
	r := Result{Status: st, Solver: "z3-5.3.2", Output: out, Assumed: p.assumed}
	if st != "unsat" {
		o := runSolver(z3new, []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)}, z3opts+relevancy0+body, timeout)
		if status(o) == "unsat" {
			st = "unsat"
			r = Result{Status: "unsat", Solver: "z3-5.3.2 (relevancy=0)", Output: o, Assumed: p.assumed}
		}
	}
	if st != "unsat" && thorough {
		for _, alt := range []struct {
			bin, name, pre string
			args           []string
		}{
			{z3old, "z3-4.8.12", z3opts, []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)}},
			{cvc5, "cvc5-1.1.2", "(set-logic ALL)\n", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)}},
		} {
			o := runSolver(alt.bin, alt.args, alt.pre+body, timeout)
			if status(o) == "unsat" {
				r = Result{Status: "unsat", Solver: alt.name, Output: o, Assumed: p.assumed}
				break
			}
		}
	}
	r.Millis = time.Since(t0).Milliseconds()
	return r
}

func status(out string) string {
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown":
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return "error"
		}
	}
	return "unknown"
}

// Candidate asks for a (candidate) model of a failed obligation.
func (g *Gen) Candidate(q Query) string {
	goal := g.ExpandGoal(q.Goal, true)
	terms := append(append([]*Term{}, q.PC...), Not(goal))
	gmu.Lock()
	p := g.buildPrelude(terms, q.Lemma)
	var sb strings.Builder
	sb.WriteString(p.text)
	for _, t := range q.PC {
		fmt.Fprintf(&sb, "(assert %s)\n", t.Key())
	}
	gmu.Unlock()
	fmt.Fprintf(&sb, "(assert %s)\n(check-sat)\n(get-model)\n", Not(goal).Key())
	return runSolver(z3new, []string{"-in", "-smt2", "-t:3000"}, z3opts+sb.String(), 4*time.Second)
}

// ProveMany checks several goals under one path condition and reports which hold.
func (g *Gen) ProveMany(pc []*Term, goals []*Term, timeout time.Duration) []bool {
	out := make([]bool, len(goals))
	var todo []int
	for i, gl := range goals {
		gl = g.ExpandGoal(gl, true)
		if gl.IsTrue() {
			out[i] = true
			continue
		}
		ok := false
		for _, t := range pc {
			if t.IsFalse() || same(t, gl) {
				ok = true
				break
			}
		}
		if ok {
			out[i] = true
			continue
		}
		goals[i] = gl
		todo = append(todo, i)
	}
	if len(todo) == 0 {
		return out
	}
	// split over several solver processes
	chunk := (len(todo) + 5) / 6
	if chunk < 3 {
		chunk = 3
	} else if chunk > 12 {
		chunk = 12
	}
	var wg sync.WaitGroup
	for s := 0; s < len(todo); s += chunk {
		e := s + chunk
		if e > len(todo) {
			e = len(todo)
		}
		wg.Add(1)
		go func(ids []int) {
			defer wg.Done()
			run := func(ids []int, pre string, timeout time.Duration) []int {
				if len(ids) == 0 {
					return nil
				}
				terms := append([]*Term{}, pc...)
				for _, i := range ids {
					terms = append(terms, goals[i])
				}
				gmu.Lock()
				p := g.buildPrelude(terms)
				var sb strings.Builder
				sb.WriteString(z3opts)
				sb.WriteString(pre)
				fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeout.Milliseconds())
				sb.WriteString(p.text)
				for _, t := range pc {
					fmt.Fprintf(&sb, "(assert %s)\n", t.Key())
				}
				for _, i := range ids {
					fmt.Fprintf(&sb, "(push)\n(assert %s)\n(check-sat)\n(pop)\n", Not(goals[i]).Key())
				}
				gmu.Unlock()
				if dumpDir != "" {
					n := atomic.AddInt64(&dumpSeq, 1)
					_ = os.WriteFile(fmt.Sprintf("%s/h%05d.smt2", dumpDir, n), []byte(sb.String()), 0o644)
				}
				t0 := time.Now()
				hard := timeout*time.Duration(len(ids)) + 2*time.Second
				if pre != "" { // without relevancy the solver may not heed its time limit
					hard -= 1800 * time.Millisecond
				}
				o := runSolverHard(z3new, []string{"-in", "-smt2"}, sb.String(), hard)
				var res []string
				for _, l := range strings.Split(o, "\n") {
					l = strings.TrimSpace(l)
					if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
						res = append(res, l)
					} else if strings.HasPrefix(l, "(error") {
						fmt.Fprintln(os.Stderr, "solver error:", l)
					}
				}
				var open []int
				if debugInv {
					fmt.Fprintf(os.Stderr, "  %d goals in %v: %v\n", len(ids), time.Since(t0).Round(time.Millisecond), res)
				}
				for k, i := range ids {
					out[i] = k < len(res) && res[k] == "unsat"
					if !out[i] {
						open = append(open, i)
					}
				}
				return open
			}
			run(run(ids, "", timeout), relevancy0, timeout/3)
		}(todo[s:e])
	}
	wg.Wait()
	return out
}

var gmu sync.Mutex
