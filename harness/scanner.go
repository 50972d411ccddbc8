package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// scanCase: a piece of text, cut by a series of operations, each compared with plain string arithmetic.
type scanCase struct {
	Text string   `json:"text"`
	Ops  []scanOp `json:"ops"`
}

type scanOp struct {
	Op string `json:"op"`
	A  int    `json:"a,omitempty"`
	B  int    `json:"b,omitempty"`
	S  string `json:"s,omitempty"`
}

func init() {
	kinds["scan"] = kind{decodeAs[scanCase], func(_ string, v any) (bool, string) { return runScan(v.(scanCase)) }}
	props["C09"] = propDef{
		rule: "all texts over {a,b,newline} up to length 5 (plus random longer ones, multi-byte included) with series of slice/skip/eat/eatstring/eatregexp/merge operations; non-trivial: at least one operation succeeded on non-empty text",
		gen:  genScan,
	}
}

var scanREs = []string{`\Aa`, `\Aa*`, `\A(a)(b)?`, `\A(a)|\A(b)`, `\A(?:(a)|(b))*`, `\A(a*)(b*)(a*)`, `\A`, `\Ab+`, `\A(x)?(a)`, `\A()(a|b)`, `\A(a)(b)(a)(b)`}

func genScan(h *H) {
	words("ab\n", 4, func(w string) bool {
		for a := 0; a <= len(w); a++ {
			h.Try("scan", scanCase{w, []scanOp{{Op: "skip", A: a}}}, "")
			h.Try("scan", scanCase{w, []scanOp{{Op: "eat", A: a}}}, "")
			for b := a; b <= len(w); b++ {
				h.Try("scan", scanCase{w, []scanOp{{Op: "slice", A: a, B: b}}}, "")
				for _, re := range scanREs {
					h.Try("scan", scanCase{w, []scanOp{{Op: "slice", A: a, B: b}, {Op: "re", S: re, A: h.rng.Intn(5)}}}, "")
				}
				h.Try("scan", scanCase{w, []scanOp{{Op: "slice", A: a, B: b}, {Op: "eatstring", S: "a"}, {Op: "eatstring", S: "ab"}}}, "")
				for c := 0; c <= b-a; c++ {
					h.Try("scan", scanCase{w, []scanOp{{Op: "slice", A: a, B: b}, {Op: "skip", A: c}}}, "")
					h.Try("scan", scanCase{w, []scanOp{{Op: "slice", A: a, B: b}, {Op: "eat", A: c}}}, "")
				}
			}
		}
		return !h.done()
	})
	for !h.done() {
		n := h.rng.Intn(30)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(pick(h, "a", "b", "\n", "ab", "é", "\r\n", "日"))
		}
		c := scanCase{Text: sb.String()}
		for i := h.rng.Intn(6) + 1; i > 0; i-- {
			c.Ops = append(c.Ops, scanOp{Op: pick(h, "skip", "slice", "eat", "eatstring", "re", "slice"), A: h.rng.Intn(12), B: h.rng.Intn(12), S: pick(h, "a", "ab", "b", "", "\n")})
			o := &c.Ops[len(c.Ops)-1]
			if o.Op == "re" {
				o.S = pick(h, scanREs...)
				o.A %= 5
			}
		}
		h.Try("scan", c, "")
	}
}

type piece struct{ a, b int }

func runScan(c scanCase) (bool, string) {
	text := c.Text
	s := *parser.NewScanner(text)
	at := piece{0, len(text)}
	nt := false
	type pp struct {
		s parser.Scanner
		p piece
	}
	var ps []pp
	same := func(what string, x parser.Scanner, p piece) string {
		if got, want := x.String(), text[p.a:p.b]; got != want {
			return fmt.Sprintf("%s: text %q, want %q", what, got, want)
		}
		if x.Offset() != p.a {
			return fmt.Sprintf("%s: offset %d, want %d", what, x.Offset(), p.a)
		}
		l, col := x.Position()
		wl, wc := 1, 1
		for _, b := range []byte(text[:p.a]) {
			wc++
			if b == '\n' {
				wl, wc = wl+1, 1
			}
		}
		if l != wl || col != wc {
			return fmt.Sprintf("%s: position %d:%d, want %d:%d", what, l, col, wl, wc)
		}
		if x.IsNil() {
			return what + ": reported as nil"
		}
		ps = append(ps, pp{x, p})
		return ""
	}
	if e := same("NewScanner", s, at); e != "" {
		return nt, e
	}
	for i, o := range c.Ops {
		n := at.b - at.a
		a, b := o.A, o.B
		if a > n {
			a = n
		}
		if b > n {
			b = n
		}
		if b < a {
			a, b = b, a
		}
		what := fmt.Sprintf("op %d %s", i, o.Op)
		nt = nt || n > 0
		switch o.Op {
		case "skip":
			s = *s.Skip(a)
			at.a += a
		case "slice":
			s = *s.Slice(a, b)
			at = piece{at.a + a, at.a + b}
		case "eat":
			var e parser.Scanner
			if r := s.Eat(a, &e); r != &s {
				return nt, what + ": does not return its receiver"
			}
			if p := same(what+" eaten", e, piece{at.a, at.a + a}); p != "" {
				return nt, p
			}
			at.a += a
		case "eatstring":
			var e parser.Scanner
			ok := s.EatString(o.S, &e)
			if ok != strings.HasPrefix(text[at.a:at.b], o.S) {
				return nt, fmt.Sprintf("%s: %v", what, ok)
			}
			if ok {
				if p := same(what+" eaten", e, piece{at.a, at.a + len(o.S)}); p != "" {
					return nt, p
				}
				at.a += len(o.S)
			} else if !e.IsNil() {
				return nt, what + ": failed but wrote its output"
			}
		case "re":
			re := regexp.MustCompile(o.S)
			loc := re.FindStringSubmatchIndex(text[at.a:at.b])
			var m parser.Scanner
			caps := make([]parser.Scanner, o.A)
			cnt, ok := s.EatRegexp(re, &m, caps)
			if ok != (loc != nil) {
				return nt, fmt.Sprintf("%s: matched %v", what, ok)
			}
			if !ok {
				if cnt != 0 || !m.IsNil() {
					return nt, what + ": failed but produced output"
				}
				for _, c := range caps {
					if !c.IsNil() {
						return nt, what + ": failed but wrote a capture"
					}
				}
				break
			}
			if p := same(what+" match", m, piece{at.a, at.a + loc[1]}); p != "" {
				return nt, p
			}
			if cnt != len(loc)/2-1 {
				return nt, fmt.Sprintf("%s: %d captures, want %d", what, cnt, len(loc)/2-1)
			}
			for k := range caps {
				if k >= cnt {
					if !caps[k].IsNil() {
						return nt, what + ": wrote past the captures"
					}
					continue
				}
				if loc[2*k+2] < 0 {
					continue
				}
				if p := same(fmt.Sprintf("%s capture %d", what, k), caps[k], piece{at.a + loc[2*k+2], at.a + loc[2*k+3]}); p != "" {
					return nt, p
				}
			}
			at.a += loc[1]
		}
		if p := same(what, s, at); p != "" {
			return nt, p
		}
	}
	for i, x := range ps {
		for j, y := range ps {
			if got, want := x.s.Contains(y.s), x.p.a <= y.p.a && y.p.b <= x.p.b; got != want {
				return nt, fmt.Sprintf("Contains(%v,%v) = %v", x.p, y.p, got)
			}
			for _, k := range []int{0, len(ps) / 2} {
				z := ps[k]
				m, err := parser.MergeScanners(x.s, y.s, z.s)
				lo, hi := x.p.a, x.p.b
				for _, q := range []piece{y.p, z.p} {
					if q.a < lo {
						lo = q.a
					}
					if q.b > hi {
						hi = q.b
					}
				}
				if err != nil {
					return nt, "MergeScanners: " + err.Error()
				}
				if m.Offset() != lo || m.String() != text[lo:hi] {
					return nt, fmt.Sprintf("MergeScanners(%v,%v,%v) = %d %q", x.p, y.p, z.p, m.Offset(), m.String())
				}
			}
			_ = i
			_ = j
		}
	}
	other := *parser.NewScanner(text + "!")
	if other.Contains(s) || s.Contains(other) {
		return nt, "Contains across sources"
	}
	if _, err := parser.MergeScanners(s, other); err == nil {
		return nt, "MergeScanners across sources succeeds"
	}
	if _, err := parser.MergeScanners(); err == nil {
		return nt, "MergeScanners of nothing succeeds"
	}
	f := parser.NewScannerWithFilename(text, "f.x")
	if f.Filename() != "f.x" || f.Skip(0).Filename() != "f.x" || f.String() != text {
		return nt, "NewScannerWithFilename"
	}
	return nt, ""
}
