package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// harnessReport is what the replay harness prints.
type harnessReport struct {
	Evaluations int              `json:"evaluations"`
	Distinct    int              `json:"distinct_nontrivial"`
	Rule        string           `json:"rule"`
	Samples     []string         `json:"samples"`
	Failures    []harnessFailure `json:"failures"`
}

type harnessFailure struct {
	Key   string          `json:"key"`
	What  string          `json:"what"`
	Input json.RawMessage `json:"input"`
}

type known struct {
	Prop, Key, Text string
}

func readKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := known{}
		rest := strings.TrimPrefix(l, "known: ")
		for {
			f, r, _ := strings.Cut(rest, " ")
			if strings.HasPrefix(f, "property=") {
				k.Prop = f[9:]
			} else if strings.HasPrefix(f, "key=") {
				k.Key = f[4:]
			} else {
				break
			}
			rest = r
		}
		k.Text = rest
		out = append(out, k)
	}
	return out
}

func hasProp(ps []string, p string) bool {
	for _, x := range ps {
		if x == p {
			return true
		}
	}
	return false
}

func onlyLabels(ps []string) bool {
	for _, p := range ps {
		if isPropID(p) {
			return false
		}
	}
	return true
}

func isPropID(p string) bool {
	return len(p) == 3 && p[0] == 'C' && p[1] >= '0' && p[1] <= '9' && p[2] >= '0' && p[2] <= '9'
}

// propFuncs lists the functions to verify for a property: those whose contract names it, and all contracts these rely on.
func (v *Verifier) propFuncs(prop string) (direct []string) {
	for _, n := range sortedKeys(v.byFunc) {
		c := v.byFunc[n]
		if c.Kind == "extern" {
			continue
		}
		if hasProp(c.props(), prop) {
			direct = append(direct, n)
		}
	}
	return
}

// implsOf gives the functions whose contract implements an interface or function-type contract.
func (v *Verifier) implsOf(key string) []string {
	var out []string
	for _, n := range sortedKeys(v.byFunc) {
		if v.byFunc[n].Iface == key {
			out = append(out, n)
		}
	}
	return out
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("verif", "/verif", "")
	tier := fs.String("tier", "quick", "")
	nohar := fs.Bool("no-harness", false, "")
	noproof := fs.Bool("no-proof", false, "")
	fs.Parse(args)
	prop := fs.Arg(0)
	if fs.NArg() > 1 { // flags after the property
		fs.Parse(fs.Args()[1:])
		if fs.NArg() > 0 {
			prop = ""
		}
	}
	if prop == "" {
		fmt.Fprintln(os.Stderr, "usage: govc check PROPERTY")
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if t := os.Getenv("VERIF_TIER"); t != "" {
		*tier = t
	}
	t0 := time.Now()
	// the harness runs in parallel with the proofs
	type hres struct {
		rep  *harnessReport
		err  string
		secs float64
	}
	hch := make(chan hres, 1)
	hstart := make(chan bool, 1)
	go func() {
		<-hstart
		if *nohar {
			hch <- hres{}
			return
		}
		h0 := time.Now()
		rep, err := runHarness(*repo, *dir, prop, seed, *tier)
		hch <- hres{rep, err, time.Since(h0).Seconds()}
	}()

	var undecided, notes, fns, trusted []string
	var skipped []string
	var failing, all []*obOut
	var solverNs, solverN int64
	extset := map[string]bool{}
	assumed := map[string]bool{}
	backends := map[string]int{}
	timeout := 10 * time.Second
	if *tier == "thorough" {
		timeout = 40 * time.Second
	}
	deadline := t0.Add(500 * time.Second)
	if *tier == "thorough" {
		deadline = t0.Add(3 * time.Hour)
	}
	perFunc := map[string]any{}
	var v *Verifier
	if !*noproof {
		var err error
		if v, err = setupVerifier(*repo, *dir); err != nil {
			undecided = append(undecided, "setup: "+err.Error())
			v = nil
		}
	}
	if v != nil {
		lobls, err := v.Lemmas()
		if err != nil {
			undecided = append(undecided, "lemmas: "+err.Error())
		}
		hstart <- true
		v.Discharge(lobls, timeout, true)
		for _, o := range lobls {
			if hasProp(o.Props, prop) || onlyLabels(o.Props) {
				x := v.describe(o, !o.OK && len(failing) < 2)
				all = append(all, x)
				if !o.OK {
					failing = append(failing, x)
				}
			}
		}
		for _, s := range v.Scan() {
			if prop == frameProp {
				failing = append(failing, &obOut{Obligation: "immutability", Kind: "frame", Spec: s, Status: "violated"})
				all = append(all, failing[len(failing)-1])
			} else {
				undecided = append(undecided, "immutability: "+s)
			}
		}
		res := v.runWorkers(*repo, *dir, prop, *tier, deadline)
		for _, x := range res {
			if x.Extern {
				extset[x.Name] = true
				continue
			}
			if x.Skipped {
				skipped = append(skipped, x.Name)
				continue
			}
			if x.Trusted != "" {
				trusted = append(trusted, x.Name+": "+x.Trusted)
				continue
			}
			if x.Err != "" {
				undecided = append(undecided, x.Name+": "+x.Err)
			}
			nOK := 0
			var ms int64
			for _, o := range x.Obls {
				all = append(all, o)
				ms += o.Millis
				if o.OK {
					nOK++
					backends[o.Solver]++
					for _, a := range o.Assumed {
						assumed["axiom "+a] = true
					}
				} else if x.Err == "" || o.Kind != "terminates" {
					failing = append(failing, o)
				}
			}
			if x.Vacuous {
				undecided = append(undecided, x.Name+": contract is vacuous for this code (no return is reachable)")
			}
			perFunc[x.Name] = map[string]any{"obligations": len(x.Obls), "discharged": nOK, "solver_ms": ms, "loops": x.Loops, "inlined": x.Inlined, "error": x.Err, "vacuous": x.Vacuous}
			if x.Err == "" {
				fns = append(fns, x.Name)
			}
			for _, a := range x.Assumed {
				assumed[a] = true
			}
			for _, a := range x.Exts {
				extset[a] = true
			}
			solverNs += x.SolverNs
			solverN += x.SolverN
			if x.Note != "" {
				notes = append(notes, x.Name+": "+x.Note)
			}
		}
	} else {
		hstart <- true
	}
	proofSecs := time.Since(t0).Seconds()
	hr := <-hch
	kn := readKnown(filepath.Join(*dir, "known_findings.txt"))

	// verdict
	repDir := filepath.Join(*dir, "evidence", "replays")
	_ = os.MkdirAll(repDir, 0o755)
	nrep := 0
	replayFile := func(x any) string {
		nrep++
		f := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", prop, nrep))
		b, _ := json.MarshalIndent(x, "", " ")
		_ = os.WriteFile(f, append(b, '\n'), 0o644)
		return f
	}
	old, _ := filepath.Glob(filepath.Join(repDir, prop+"-*.json"))
	for _, f := range old {
		_ = os.Remove(f)
	}
	violations := 0
	failDesc := failing
	if len(failDesc) > 10 {
		failDesc = failDesc[:10]
	}
	knownHit := map[string]bool{}
	reported := map[string]bool{}
	if hr.rep != nil {
		for _, f := range hr.rep.Failures {
			isKnown := false
			for _, k := range kn {
				if k.Prop == prop && k.Key == f.Key {
					isKnown = true
					if !knownHit[k.Key] {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Text)
					}
					knownHit[k.Key] = true
				}
			}
			if isKnown || reported[f.Key] || violations >= 5 {
				continue
			}
			reported[f.Key] = true
			violations++
			rf := replayFile(map[string]any{"property": prop, "key": f.Key, "what": f.What, "input": f.Input,
				"replay_cmd": fmt.Sprintf("bash /verif/check.sh replay %s <this file>", prop), "failed_obligations": failDesc})
			fmt.Printf("  failing input: %s\n", f.What)
			for i, o := range failing {
				if i < 5 {
					fmt.Printf("  failed obligation: %s at %s: %s\n", o.Obligation, o.Pos, o.Spec)
				}
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rf)
		}
	}
	if violations == 0 && len(failing) > 0 {
		violations++
		for i, o := range failing {
			if i < 10 {
				fmt.Printf("  failed obligation: %s at %s (%s): %s\n", o.Obligation, o.Pos, o.Status, o.Spec)
			}
		}
		rf := replayFile(map[string]any{"property": prop, "no_failing_input_found": true, "failed_obligations": failDesc})
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rf)
	}
	for _, u := range undecided {
		fmt.Printf("note: not decided by proof, bounded check only: %s\n", u)
	}

	// evidence
	disch := 0
	for _, o := range all {
		if o.OK {
			disch++
		}
	}
	sort.Strings(fns)
	tb := []string{
		"govc (this repository's own condition generator, /verif/govc): Go semantics as encoded there",
		"z3 5.3.2 / 4.8.12 and cvc5 1.1.2",
		"go/parser, go/types",
	}
	for _, e := range sortedKeys(extset) {
		tb = append(tb, "external function taken as pure, with at most the contract in specs/*.spec: "+e)
	}
	tb = append(tb, trusted...)
	as := []string{
		"machine integers are treated as mathematical integers",
		"identity of pointers to immutable types is not observed; distinct map/slice variables passed in do not share storage",
		"recursive specification functions are well-founded; stack depth and memory are unbounded",
		"partial correctness unless an obligation of kind 'terminates' is listed: a path that panics or diverges satisfies the postconditions",
	}
	as = append(as, sortedKeys(assumed)...)
	kinds := map[string]int{}
	for _, o := range all {
		kinds[o.Kind]++
	}
	cov := map[string]any{
		"obligations": len(all), "discharged": disch,
		"checker_cmd":              fmt.Sprintf("bash /verif/check.sh %s", prop),
		"trusted_base":             tb,
		"functions_under_contract": fns,
		"per_function":             perFunc,
		"obligations_by_kind":      kinds,
		"discharged_by_back_end":   backends,
		"solver_seconds":           float64(atomic.LoadInt64(&solverNanos)+solverNs) / 1e9,
		"solver_calls":             atomic.LoadInt64(&solverCalls) + solverN,
		"proof_wall_s":             proofSecs,
		"undecided":                undecided,
		"contracts_relied_on_and_proved_by_other_properties_checks": skipped,
		"notes": notes,
	}
	if hr.rep != nil {
		cov["bounded_harness"] = map[string]any{"label": "bounded (not counted as proved)", "evaluations": hr.rep.Evaluations, "distinct_nontrivial": hr.rep.Distinct,
			"rule": hr.rep.Rule, "failures": len(hr.rep.Failures), "seconds": hr.secs}
		cov["evaluations"] = hr.rep.Evaluations
		cov["distinct_nontrivial"] = hr.rep.Distinct
		cov["rule"] = hr.rep.Rule
		cov["samples"] = hr.rep.Samples
	} else if hr.err != "" {
		cov["bounded_harness"] = map[string]any{"error": hr.err}
		fmt.Printf("note: replay harness: %s\n", hr.err)
	}
	ev := map[string]any{"property": prop, "tier": *tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": as,
		"wall_s": time.Since(t0).Seconds(), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*dir, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d/%d obligations discharged over %d functions in %.1fs (%d undecided); harness %s\n", prop, disch, len(all), len(fns), time.Since(t0).Seconds(), len(undecided), func() string {
		if hr.rep == nil {
			return "not run"
		}
		return fmt.Sprintf("%d evaluations, %d failures", hr.rep.Evaluations, len(hr.rep.Failures))
	}())
	if violations > 0 {
		return 1
	}
	if hr.rep == nil && !*nohar && len(undecided) > 0 {
		fmt.Println("note: neither proof nor harness could decide everything on this tree")
	}
	return 0
}

// runHarness builds the harness against the current tree and runs it.
func runHarness(repo, dir, prop string, seed int, tier string) (*harnessReport, string) {
	tmp, err := os.MkdirTemp("", "govc-h")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(tmp)
	bin, err := buildHarness(repo, dir, tmp)
	if err != nil {
		return nil, "does not build against this tree: " + err.Error()
	}
	limit := 60 * time.Second
	budget := "12s"
	if tier == "thorough" {
		budget, limit = "240s", 400*time.Second
	}
	run := func(extra ...string) (string, string, error) {
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, append([]string{"run", "-prop", prop, "-seed", fmt.Sprint(seed), "-budget", budget}, extra...)...)
		cmd.Dir = tmp
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOTRACEBACK=single")
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		err := cmd.Run()
		return out.String(), errb.String(), err
	}
	parse := func(s string) *harnessReport {
		i := strings.LastIndex(s, "\nREPORT ")
		if i < 0 {
			return nil
		}
		var r harnessReport
		if json.Unmarshal([]byte(strings.TrimSpace(s[i+8:])), &r) != nil {
			return nil
		}
		return &r
	}
	out, se, err := run()
	if r := parse("\n" + out); r != nil {
		return r, ""
	}
	// the process died (stack overflow, out of memory): find the case it was working on
	trace := filepath.Join(tmp, "trace")
	_, se2, _ := run("-trace", trace)
	if b, e := os.ReadFile(trace); e == nil && len(b) > 0 {
		first := se2
		if i := strings.IndexByte(first, '\n'); i > 0 {
			first = first[:i]
		}
		return &harnessReport{Evaluations: 1, Failures: []harnessFailure{{Key: "crash", What: "the code under test ended the process (" + first + ") on: " + string(b), Input: json.RawMessage(b)}}}, ""
	}
	if len(se) > 2000 {
		se = se[:2000]
	}
	return nil, fmt.Sprintf("ended without a report: %v %s", err, se)
}

func buildHarness(repo, dir, tmp string) (string, error) {
	fs, err := filepath.Glob(filepath.Join(dir, "harness", "*.go"))
	if err != nil || len(fs) == 0 {
		return "", fmt.Errorf("no harness sources")
	}
	rep := map[string]string{}
	for _, f := range fs {
		rep[filepath.Join(repo, "zz_verif_harness", filepath.Base(f))] = f
	}
	ov := filepath.Join(tmp, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(tmp, "harness")
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "./zz_verif_harness")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		s := string(out)
		if len(s) > 1500 {
			s = s[:1500]
		}
		return "", fmt.Errorf("%v: %s", err, s)
	}
	return bin, nil
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("verif", "/verif", "")
	fs.Parse(args)
	tmp, err := os.MkdirTemp("", "govc-h")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(tmp)
	bin, err := buildHarness(*repo, *dir, tmp)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	cmd := exec.Command(bin, append([]string{"replay"}, fs.Args()...)...)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	if cmd.Run() != nil {
		return 1
	}
	return 0
}
