package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// obOut is the outcome of one obligation, as it travels from a worker and into the replay file.
type obOut struct {
	Obligation, Pos, Kind, Spec, Status, Solver string
	OK                                          bool
	Millis                                      int64
	Assumed                                     []string `json:",omitempty"`
	Goal                                        string   `json:"goal,omitempty"`
	Path                                        []string `json:"path_condition,omitempty"`
	Model                                       string   `json:"candidate_model,omitempty"`
}

func (v *Verifier) describe(o *Obligation, model bool) *obOut {
	x := &obOut{Obligation: o.Name(), Pos: o.Pos, Kind: o.Kind, Spec: o.Spec, Status: o.Result.Status, Solver: o.Result.Solver, OK: o.OK, Millis: o.Result.Millis, Assumed: o.Result.Assumed}
	if o.OK {
		return x
	}
	x.Goal = o.Goal.Key()
	if len(x.Goal) > 4000 {
		x.Goal = x.Goal[:4000] + "..."
	}
	if model && o.Kind != "frame" {
		m := v.g.Candidate(Query{PC: o.PC, Goal: o.Goal, Lemma: o.Lemma})
		if len(m) > 12000 {
			m = m[:12000] + "..."
		}
		x.Model = m
		for _, p := range o.PC {
			k := p.Key()
			if len(k) > 500 {
				k = k[:500] + "..."
			}
			x.Path = append(x.Path, k)
		}
	}
	return x
}

// FnOut is the outcome of one function.
type FnOut struct {
	Name, Err, Trusted, Note string
	Extern, Skipped, Vacuous bool
	Obls                     []*obOut
	Loops                    map[string]int
	Inlined, Callees, Exts   []string
	Assumed                  []string
	SolverNs, SolverN        int64
}

// relevant tells whether an obligation with these tags counts for a property.
func relevant(ps []string, prop string) bool { return hasProp(ps, prop) || onlyLabels(ps) }

// frameProp is the property that the frame conditions of all functions reached establish; of their other obligations it
// takes those tagged with it.
const frameProp = "C12"

// concerns tells whether a contract says anything for a property, directly or by untagged clauses.
func (c *Contract) concerns(prop string) bool {
	if prop == frameProp {
		return true
	}
	for _, l := range [][]Clause{c.Ensures, c.Witness} {
		for _, cl := range l {
			if relevant(cl.Props, prop) {
				return true
			}
		}
	}
	return hasProp(c.props(), prop)
}

// process verifies one function for a property.
func (v *Verifier) process(n, prop, tier string) *FnOut {
	out := &FnOut{Name: n}
	c := v.byFunc[n]
	if c == nil {
		if v.byIface[n] != nil {
			out.Callees = v.implsOf(n)
		}
		out.Skipped = true
		out.Name = ""
		return out
	}
	if c.Kind == "extern" {
		out.Extern = true
		return out
	}
	if c.Trusted != "" {
		out.Trusted = c.Trusted
		return out
	}
	if tier != "thorough" && !c.concerns(prop) {
		out.Skipped = true
		return out
	}
	timeout := 10 * time.Second
	if tier == "thorough" {
		timeout = 40 * time.Second
	}
	ns0, n0 := atomic.LoadInt64(&solverNanos), atomic.LoadInt64(&solverCalls)
	r := v.VerifyFunc(n)
	out.Err = r.Err
	var obls []*Obligation
	for _, o := range r.Obls {
		if relevant(o.Props, prop) && (prop != frameProp || o.Kind == "frame" || !onlyLabels(o.Props)) {
			obls = append(obls, o)
		}
	}
	v.Discharge(obls, timeout, false)
	retry := 0
	for _, o := range obls {
		if !o.OK {
			o.Result.Status = ""
			retry++
		}
	}
	if retry > 0 && (retry <= 12 || tier == "thorough") {
		v.Discharge(obls, 2*timeout, true)
	}
	fails := 0
	for _, o := range obls {
		if !o.OK {
			fails++
		}
		out.Obls = append(out.Obls, v.describe(o, fails <= 2))
	}
	if fails == 0 && r.Err == "" {
		out.Vacuous = v.Vacuous(r)
	}
	out.Loops, out.Inlined, out.Exts = r.Loops, r.Inlined, r.Exts
	out.Assumed = r.Assumed
	for _, cl := range c.Assumes {
		out.Assumed = append(out.Assumed, "assumed of "+n+": "+exprString(cl.E))
	}
	out.Callees = append(out.Callees, r.Callees...)
	if c.Iface != "" {
		out.Callees = append(out.Callees, c.Iface)
	}
	out.Note = c.Opts["notes"]
	out.SolverNs, out.SolverN = atomic.LoadInt64(&solverNanos)-ns0, atomic.LoadInt64(&solverCalls)-n0
	return out
}

func cmdWorker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("verif", "/verif", "")
	tier := fs.String("tier", "quick", "")
	prop := fs.String("prop", "", "")
	fs.Parse(args)
	v, err := setupVerifier(*repo, *dir)
	if err == nil {
		_, err = v.Lemmas()
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	in := bufio.NewScanner(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	for in.Scan() {
		if enc.Encode(v.process(in.Text(), *prop, *tier)) != nil {
			return 2
		}
	}
	return 0
}

func setupVerifier(repo, dir string) (*Verifier, error) {
	sp, err := readSpecs(dir + "/specs")
	if err != nil {
		return nil, err
	}
	prog, err := Load(repo)
	if err != nil {
		return nil, err
	}
	return NewVerifier(prog, sp)
}

const nWorkers = 4

// runWorkers verifies the functions a property depends on in several processes.
func (v *Verifier) runWorkers(repo, dir, prop, tier string, deadline time.Time) []*FnOut {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	seen := map[string]bool{}
	var queue []string
	busy := 0
	var out []*FnOut
	push := func(ns []string) {
		for _, n := range ns {
			if !seen[n] {
				seen[n] = true
				queue = append(queue, n)
			}
		}
		sort.SliceStable(queue, func(i, j int) bool { return v.weight(queue[i]) > v.weight(queue[j]) })
	}
	push(v.propFuncs(prop))
	self, _ := os.Executable()
	var wg sync.WaitGroup
	for w := 0; w < nWorkers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var stdin io.WriteCloser
			var rd *bufio.Reader
			stop := func() {
				if cmd != nil {
					_ = stdin.Close()
					_ = cmd.Process.Kill()
					_ = cmd.Wait()
					cmd = nil
				}
			}
			defer stop()
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					return
				}
				n := queue[0]
				queue = queue[1:]
				busy++
				mu.Unlock()
				var res *FnOut
				for try := 0; try < 2 && res == nil; try++ {
					if time.Now().After(deadline) {
						res = &FnOut{Name: n, Err: "not reached within the time limit of this run"}
						break
					}
					if cmd == nil {
						cmd = exec.Command(self, "worker", "-repo", repo, "-verif", dir, "-prop", prop, "-tier", tier)
						cmd.Stderr = os.Stderr
						stdin, _ = cmd.StdinPipe()
						so, _ := cmd.StdoutPipe()
						rd = bufio.NewReaderSize(so, 1<<20)
						if err := cmd.Start(); err != nil {
							cmd = nil
							res = &FnOut{Name: n, Err: err.Error()}
							break
						}
					}
					timer := time.AfterFunc(time.Until(deadline), func(p *os.Process) func() { return func() { _ = p.Kill() } }(cmd.Process))
					fmt.Fprintln(stdin, n)
					line, err := rd.ReadBytes('\n')
					timer.Stop()
					x := &FnOut{}
					if err != nil || json.Unmarshal(line, x) != nil {
						stop()
						continue
					}
					res = x
				}
				if res == nil {
					res = &FnOut{Name: n, Err: "the verifier process ended without an answer"}
				}
				mu.Lock()
				busy--
				if res.Name != "" {
					out = append(out, res)
				}
				push(res.Callees)
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// weight guesses the cost of a function.
func (v *Verifier) weight(n string) int {
	if v.byIface[n] != nil {
		return 1 << 30
	}
	fi := v.prog.Funcs[n]
	c := v.byFunc[n]
	if fi == nil || c == nil || fi.Decl == nil {
		return 0
	}
	return int(fi.Decl.End()-fi.Decl.Pos()) * (1 + len(c.Ensures) + len(c.Invs))
}
