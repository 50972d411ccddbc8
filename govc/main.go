package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc verify|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		os.Exit(cmdVerify(os.Args[2:]))
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "worker":
		os.Exit(cmdWorker(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

func cmdVerify(args []string) int {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "/verif/specs", "")
	pat := fs.String("f", "", "functions (regexp)")
	ob := fs.String("o", "", "show obligations matching")
	to := fs.Duration("t", 10*time.Second, "")
	dump := fs.Bool("dump", false, "dump failing obligations")
	thorough := fs.Bool("all", false, "all solvers")
	fs.Parse(args)
	t0 := time.Now()
	sp, err := readSpecs(*specs)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	prog, err := Load(*repo)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	v, err := NewVerifier(prog, sp)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, s := range v.Scan() {
		fmt.Println("immutability:", s)
	}
	lobls, err := v.Lemmas()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	re := regexp.MustCompile(*pat)
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	bad := 0
	var sel []*Obligation
	for _, o := range lobls {
		if re.MatchString(o.Func) {
			sel = append(sel, o)
		}
	}
	v.Discharge(sel, *to, *thorough)
	report := func(name string, obls []*Obligation, extra string) {
		ok := 0
		var ms int64
		for _, o := range obls {
			if o.OK {
				ok++
			}
			ms += o.Result.Millis
		}
		st := "ok  "
		if ok < len(obls) || strings.Contains(extra, "ERROR") || strings.Contains(extra, "VACUOUS") {
			st = "FAIL"
			bad++
		}
		fmt.Printf("%s %s: %d/%d obligations, %d ms solver%s\n", st, name, ok, len(obls), ms, extra)
		seen := map[string]int{}
		for _, o := range obls {
			if !o.OK {
				seen[o.Label+o.Pos]++
				if seen[o.Label+o.Pos] > 1 && !*dump {
					continue
				}
			}
			if !o.OK || *ob != "" && strings.Contains(o.Label, *ob) {
				fmt.Printf("     %s %s [%s] %s (%s, %d ms): %s\n", map[bool]string{true: "+", false: "-"}[o.OK], o.Pos, o.Kind, o.Label, o.Result.Status, o.Result.Millis, o.Spec)
				if *dump && !o.OK {
					for _, p := range o.PC {
						fmt.Println("         ", p.Key())
					}
					fmt.Println("       ⊢", o.Goal.Key())
				}
				if o.Result.Status == "error" {
					fmt.Println(o.Result.Output)
				}
			}
		}
	}
	for _, o := range sel {
		report(o.Func, []*Obligation{o}, "")
	}
	names := sortedKeys(v.byFunc)
	sort.Strings(names)
	for _, n := range names {
		c := v.byFunc[n]
		if !re.MatchString(n) || c.Kind == "extern" {
			continue
		}
		if c.Trusted != "" {
			fmt.Printf("trusted %s: %s\n", n, c.Trusted)
			continue
		}
		r := v.VerifyFunc(n)
		v.Discharge(r.Obls, *to, *thorough)
		r.Vacuous = v.Vacuous(r)
		ex := fmt.Sprintf(", %.1fs", r.Seconds)
		if r.Vacuous {
			ex += " VACUOUS"
			bad++
		}
		if r.Err != "" {
			ex += " ERROR " + r.Err
			bad++
		}
		if len(r.Inlined) > 0 {
			ex += " inlined " + strings.Join(r.Inlined, ",")
		}
		if len(r.Assumed) > 0 {
			ex += " assumed " + strings.Join(r.Assumed, "; ")
		}
		report(n, r.Obls, ex)
	}
	fmt.Printf("total %.1fs\n", time.Since(t0).Seconds())
	if bad > 0 {
		return 1
	}
	return 0
}
