// Replay harness: runs the real code on generated inputs and compares it with independent oracles.
// It is built inside the module under test through an overlay and uses only exported API.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sync/atomic"
	"time"
)

// Case is one input; Kind selects how to run it.
type Case struct {
	Kind  string          `json:"kind"`
	Data  json.RawMessage `json:"data"`
	value any
}

type failure struct {
	Key   string          `json:"key"`
	What  string          `json:"what"`
	Input json.RawMessage `json:"input"`
}

type report struct {
	Evaluations int       `json:"evaluations"`
	Distinct    int       `json:"distinct_nontrivial"`
	Rule        string    `json:"rule"`
	Samples     []string  `json:"samples"`
	Failures    []failure `json:"failures"`
}

// H drives the generation of cases for one property.
type H struct {
	prop     string
	rng      *rand.Rand
	deadline time.Time
	rep      report
	seen     map[string]bool
	keys     map[string]int
	trace    string
	started  int64 // UnixNano of the running case, 0 when idle
	current  atomic.Value
}

type kind struct {
	decode func(json.RawMessage) (any, error)
	run    func(prop string, v any) (nontrivial bool, problem string)
}

var kinds = map[string]kind{}

type propDef struct {
	rule string
	gen  func(h *H)
}

var props = map[string]propDef{}

func (h *H) done() bool {
	return len(h.rep.Failures) >= 5 || time.Now().After(h.deadline)
}

func safely(f func() (bool, string)) (nt bool, problem string) {
	defer func() {
		if r := recover(); r != nil {
			nt, problem = true, fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}

// Try runs one case; key names the class of the input for the known-findings file.
func (h *H) Try(k string, v any, key string) {
	data, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	id := k + string(data)
	if h.seen[id] {
		return
	}
	if len(h.seen) < 2_000_000 {
		h.seen[id] = true
	}
	c, _ := json.Marshal(Case{Kind: k, Data: data})
	if h.trace != "" {
		_ = os.WriteFile(h.trace, c, 0o644)
	}
	h.current.Store(string(c))
	atomic.StoreInt64(&h.started, time.Now().UnixNano())
	nt, problem := safely(func() (bool, string) { return kinds[k].run(h.prop, v) })
	atomic.StoreInt64(&h.started, 0)
	h.rep.Evaluations++
	if nt {
		h.rep.Distinct++
		if len(h.rep.Samples) < 5 && (h.rep.Distinct%97 == 1) {
			h.rep.Samples = append(h.rep.Samples, string(c))
		}
	}
	if problem != "" {
		if key == "" {
			key = "new"
		}
		h.keys[key]++
		if h.keys[key] <= 2 {
			h.rep.Failures = append(h.rep.Failures, failure{Key: key, What: fmt.Sprintf("%s on %s", problem, c), Input: c})
		}
	}
}

func (h *H) emit() {
	if h.rep.Failures == nil {
		h.rep.Failures = []failure{}
	}
	if h.rep.Samples == nil {
		h.rep.Samples = []string{}
	}
	b, _ := json.Marshal(h.rep)
	fmt.Printf("REPORT %s\n", b)
}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		fs := flag.NewFlagSet("run", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		seed := fs.Int64("seed", 1, "")
		budget := fs.Duration("budget", 10*time.Second, "")
		trace := fs.String("trace", "", "")
		fs.Parse(os.Args[2:])
		p, ok := props[*prop]
		if !ok {
			fmt.Println("REPORT {\"evaluations\":0,\"failures\":[],\"samples\":[],\"rule\":\"no harness for this property\"}")
			return
		}
		h := &H{prop: *prop, rng: rand.New(rand.NewSource(*seed)), deadline: time.Now().Add(*budget), seen: map[string]bool{}, keys: map[string]int{}, trace: *trace}
		h.rep.Rule = p.rule
		go func() { // a case that does not come to an end
			for {
				time.Sleep(100 * time.Millisecond)
				s := atomic.LoadInt64(&h.started)
				if s != 0 && time.Since(time.Unix(0, s)) > 5*time.Second {
					c := h.current.Load().(string)
					r := report{Evaluations: h.rep.Evaluations + 1, Distinct: h.rep.Distinct, Rule: h.rep.Rule, Samples: []string{c},
						Failures: []failure{{Key: "hang", What: "no answer within 5s on " + c, Input: json.RawMessage(c)}}}
					b, _ := json.Marshal(r)
					fmt.Printf("REPORT %s\n", b)
					os.Exit(0)
				}
			}
		}()
		p.gen(h)
		h.emit()
	case "replay": // replay PROPERTY FILE
		if len(os.Args) != 4 {
			os.Exit(2)
		}
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var f struct {
			Input json.RawMessage `json:"input"`
		}
		var c Case
		if err := json.Unmarshal(b, &f); err == nil && len(f.Input) > 0 {
			b = f.Input
		}
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		k, ok := kinds[c.Kind]
		if !ok {
			fmt.Println("the replay file names no failing input")
			os.Exit(2)
		}
		v, err := k.decode(c.Data)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		done := make(chan string, 1)
		go func() {
			_, p := safely(func() (bool, string) { return k.run(os.Args[2], v) })
			done <- p
		}()
		select {
		case p := <-done:
			if p != "" {
				fmt.Println("fails:", p)
				os.Exit(1)
			}
			fmt.Println("holds")
		case <-time.After(10 * time.Second):
			fmt.Println("fails: no answer within 10s")
			os.Exit(1)
		}
	}
}

// pick returns a random element.
func pick[T any](h *H, xs ...T) T { return xs[h.rng.Intn(len(xs))] }

// words calls f with every string over the alphabet up to the length, shortest first.
func words(alphabet string, max int, f func(string) bool) {
	level := []string{""}
	for n := 0; n <= max; n++ {
		var next []string
		for _, w := range level {
			if !f(w) {
				return
			}
			if n < max {
				for _, c := range alphabet {
					next = append(next, w+string(c))
				}
			}
		}
		level = next
	}
}

func decodeAs[T any](b json.RawMessage) (any, error) {
	var v T
	err := json.Unmarshal(b, &v)
	return v, err
}
