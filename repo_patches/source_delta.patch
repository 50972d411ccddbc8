From c199d147d45786da121b1cc85b98e59d07a9370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:15 +0000
Subject: [PATCH 01/30] fix: regexp tokens with several or unmatched capture
 groups

---
 parser/parser.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a1f6ff7..d5a8b6b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -194,12 +194,23 @@ func getErrorStrings(input *Scanner) string {
 }
 
 func eatRegexp(input *Scanner, re *regexp.Regexp, output *TreeElement) bool {
-	var eaten [2]Scanner
-	if n, ok := input.EatRegexp(re, nil, eaten[:]); ok {
-		*output = eaten[n-1]
-		return true
-	}
-	return false
+	var match Scanner
+	var captures [2]Scanner
+	n, ok := input.EatRegexp(re, &match, captures[:])
+	if !ok {
+		return false
+	}
+	// The first capture is the whole token (within any .wrapRE text), the second
+	// is the first group of the token's own regexp. A group that took no part in
+	// the match doesn't lie inside it.
+	*output = match
+	if n > 0 && captures[0].Offset() >= match.Offset() {
+		*output = captures[0]
+	}
+	if n > 1 && captures[1].Offset() >= match.Offset() {
+		*output = captures[1]
+	}
+	return true
 }
 
 func applyWrapRE(re string, prepare func(string) string, c cache) string {
-- 
2.43.0


From d314a6fc9e46528ecff771aa3153fd1a75dac64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:45 +0000
Subject: [PATCH 02/30] fix: unbounded repetition of a term that matches
 nothing never ends

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index d5a8b6b..bd30fa9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -586,7 +586,12 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 			break
 		}
 		result = append(result, v)
+		empty := start.Offset() == input.Offset()
 		*input = start
+		if empty && p.t.Max == 0 && len(result) >= p.t.Min {
+			// An unbounded term that consumes nothing would match forever.
+			break
+		}
 	}
 
 	if len(result) >= p.t.Min {
-- 
2.43.0


From 643bd7b2dab85eca2087ad120e7b5215169ae0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:31 +0000
Subject: [PATCH 03/30] fix: a back reference matched a tree with another
 number of children

With parse escapes in play the text read again for a back reference may come
out as a tree of another shape. nodesEqual took any two nodes whose child
counts differ to be equal.
---
 parser/parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index bd30fa9..c66f30c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -327,11 +327,12 @@ func nodesEqual(a, b any) bool {
 		switch a := a.(type) {
 		case Node:
 			b := b.(Node)
-			if a.Count() == b.Count() {
-				for i := range a.Children {
-					if !nodesEqual(a.Children[i], b.Children[i]) {
-						return false
-					}
+			if a.Count() != b.Count() {
+				return false
+			}
+			for i := range a.Children {
+				if !nodesEqual(a.Children[i], b.Children[i]) {
+					return false
 				}
 			}
 			return true
-- 
2.43.0


From 7ff10efb6f3364e90cb1922ea4d525b651503b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:16 +0000
Subject: [PATCH 04/30] fix: a back reference to a list with a leading or
 trailing separator panicked

The Empty that stands for the missing term had no term to read it again with.
---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index c66f30c..0ac51ce 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -321,6 +321,10 @@ func identFromTerm(term Term) string {
 }
 
 func nodesEqual(a, b any) bool {
+	if _, ok := b.(Empty); ok { // stands for no text at all: see termFromRefVal
+		n, ok := a.(Node)
+		return ok && n.Count() == 0
+	}
 	aType := reflect.TypeOf(a)
 	bType := reflect.TypeOf(b)
 	if aType == bType {
@@ -695,6 +699,8 @@ func termFromRefVal(from TreeElement) Term {
 		term = s
 	case Scanner:
 		term = S(n.String())
+	case Empty:
+		term = Seq{}
 	}
 	return term
 }
-- 
2.43.0


From 1fe69074d44742e61226af1b6c23a34ab1158228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:08 +0000
Subject: [PATCH 05/30] fix: a list could not end with its separator where the
 separator is a unique literal

The separator of a list that may end with one is read in two places, so it must
not become a commit point, as is already the case for a leading separator.
---
 wbnf/cutpoints.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 2e2cc76..424951d 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -85,8 +85,8 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 		case parser.Delim:
 			out = out.Merge(forTerm(t.Term), mergeFn)
 			out = out.Merge(forTerm(t.Sep), mergeFn)
-			if t.CanStartWithSep {
-				// ensure that a starting sep will never be a cutpoint
+			if t.CanStartWithSep || t.CanEndWithSep {
+				// ensure that a starting or ending sep will never be a cutpoint
 				out = out.Merge(forTerm(t.Sep), mergeFn)
 			}
 		case parser.Quant:
-- 
2.43.0


From 20e70ab70dabc6c6993ff8571d190d0cd607a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 06/30] fix: the error of a failed repetition never ended

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0ac51ce..7c941f1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -603,10 +603,11 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 		return p.put(output, nil, result...)
 	}
 
+	cause := out // not out itself, which by then is the error made here
 	return newParseError(p.rule,
 		"quant failed, expected: (%d, %d), have %d value(s)",
 		p.t.Min, p.t.Max, len(result),
-	)(prevcp, func() error { return out }, func() error { return stk })
+	)(prevcp, func() error { return cause }, func() error { return stk })
 }
 func (p *quantParser) AsTerm() Term { return p.t }
 
-- 
2.43.0


From f32e7abfcf1631ad25ad0c3c2c7d625b7f4c12c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 07/30] fix: numeric escapes in quoted literals

---
 wbnf/compile.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index d89e7ab..3fe17c6 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -32,33 +32,33 @@ func parseString(s string) string {
 			i++
 			switch s[i] {
 			case 'x':
-				n, err := strconv.ParseInt(s[i:i+2], 16, 8)
+				n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
 				if err != nil {
 					panic(err)
 				}
 				sb.WriteByte(uint8(n))
-				i++
+				i += 2
 			case 'u':
-				n, err := strconv.ParseInt(s[i:i+4], 16, 16)
+				n, err := strconv.ParseUint(s[i+1:i+5], 16, 16)
 				if err != nil {
 					panic(err)
 				}
-				sb.WriteByte(uint8(n))
-				i += 2
+				sb.WriteRune(rune(n))
+				i += 4
 			case 'U':
-				n, err := strconv.ParseInt(s[i:i+8], 16, 32)
+				n, err := strconv.ParseUint(s[i+1:i+9], 16, 32)
 				if err != nil {
 					panic(err)
 				}
-				sb.WriteByte(uint8(n))
-				i += 4
+				sb.WriteRune(rune(n))
+				i += 8
 			case '0', '1', '2', '3', '4', '5', '6', '7':
-				n, err := strconv.ParseInt(s[i:i+3], 8, 8)
+				n, err := strconv.ParseUint(s[i:i+3], 8, 8)
 				if err != nil {
 					panic(err)
 				}
 				sb.WriteByte(uint8(n))
-				i++
+				i += 2
 			case 'a':
 				sb.WriteByte('\a')
 			case 'b':
-- 
2.43.0


From 02a84a561cde5db675ebe691b52aff108bef4bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 08/30] fix: an escaped double quote in a single-quoted literal
 panicked

---
 wbnf/compile.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 3fe17c6..c55a09f 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -77,8 +77,8 @@ func parseString(s string) string {
 				sb.WriteByte('\\')
 			case '\'':
 				sb.WriteByte('\'')
-			case quote:
-				sb.WriteByte(quote)
+			case '"':
+				sb.WriteByte('"')
 			default:
 				panic(fmt.Errorf("unrecognized \\-escape: %q", s[i]))
 			}
-- 
2.43.0


From 6edc567127ddc788dbc714615c0cefe95bcb0a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 09/30] fix: commit points for literals that are used more than
 once

A literal inside a lookahead was not counted, and one that occurs more
than once inside a nested grammar was not counted outside it.
---
 wbnf/cutpoints.go   | 11 ++++++-----
 wbnf/wbnfgrammar.go |  6 +++---
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 424951d..b480cfa 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -95,15 +95,16 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 			out = out.Merge(forTerm(t.Term), mergeFn)
 		case parser.ScopedGrammar:
 			out = out.Merge(forTerm(t.Term), mergeFn)
-			incoming := frozen.NewMapFromKeys(
-				findUniqueStrings(t.Grammar),
-				func(string) int { return 1 })
-			out = out.Merge(incoming, mergeFn)
+			for _, t := range t.Grammar {
+				out = out.Merge(forTerm(t), mergeFn)
+			}
 		case parser.REF:
 			out = out.Merge(forTerm(t.Default), mergeFn)
 		case parser.CutPoint:
 			out = out.Merge(forTerm(t.Term), mergeFn)
-		case parser.RE, parser.Rule, parser.ExtRef, parser.LookAhead: // do nothing
+		case parser.LookAhead:
+			out = out.Merge(forTerm(t.Term), mergeFn)
+		case parser.RE, parser.Rule, parser.ExtRef: // do nothing
 		default:
 			panic(fmt.Errorf("findUniqueStrings: unexpected term type: %v %[1]T", t))
 		}
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index b7bf441..d9d1f87 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -58,7 +58,7 @@ func Grammar() parser.Parsers {
 							parser.RE(`[a-zA-Z0-9.:]+`)},
 							Sep:             parser.S(`/`),
 							CanStartWithSep: true}),
-					parser.Opt(parser.CutPoint{parser.S(`;`)})},
+					parser.Opt(parser.S(`;`))},
 				"macrodef": parser.Seq{parser.CutPoint{parser.S(`.macro`)},
 					parser.Eq(`name`,
 						parser.Rule(`IDENT`)),
@@ -70,11 +70,11 @@ func Grammar() parser.Parsers {
 					parser.S(`{`),
 					parser.Rule(`term`),
 					parser.S(`}`),
-					parser.Opt(parser.CutPoint{parser.S(`;`)})}}},
+					parser.Opt(parser.S(`;`))}}},
 		"prod": parser.Seq{parser.Rule(`IDENT`),
 			parser.CutPoint{parser.S(`->`)},
 			parser.Some(parser.Rule(`term`)),
-			parser.CutPoint{parser.S(`;`)}},
+			parser.S(`;`)},
 		"quant": parser.Oneof{parser.Eq(`op`,
 			parser.RE(`[?*+]`)),
 			parser.Seq{parser.S(`{`),
-- 
2.43.0


From 5c08ab2f3cd31aa5d30c44884aaac55b92bbc71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 10/30] fix: content equality ignored a name that the other
 tree lacks

---
 ast/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/node.go b/ast/node.go
index 46b9c30..93a584c 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -199,8 +199,8 @@ func (b Branch) ContentEquals(other Node) bool {
 					return false
 				}
 			case Many:
-				otherNodes := other.Many(k)
-				if len(v) != len(otherNodes) {
+				otherNodes, ok := other[k].(Many)
+				if !ok || len(v) != len(otherNodes) {
 					return false
 				}
 				for i, n := range v {
-- 
2.43.0


From 0c8b8058124264ccce06ee6aec85bf15bccf9343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 11/30] fix: the extent of a node with an empty child panicked

---
 ast/node_string.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast/node_string.go b/ast/node_string.go
index bd19985..56590a7 100644
--- a/ast/node_string.go
+++ b/ast/node_string.go
@@ -117,7 +117,9 @@ func (c One) Scanner() parser.Scanner {
 func (c Many) Scanner() parser.Scanner {
 	childrenScanners := make([]parser.Scanner, 0, len(c))
 	for _, n := range c {
-		childrenScanners = append(childrenScanners, n.Scanner())
+		if s := n.Scanner(); !s.IsNil() {
+			childrenScanners = append(childrenScanners, s)
+		}
 	}
 
 	if len(childrenScanners) > 0 {
-- 
2.43.0


From 199c6a9e5d58fbb9070cebd6b16a4fc5e2ef9e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:41 +0000
Subject: [PATCH 12/30] fix: external references always compared equal

---
 parser/diff/terms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/diff/terms.go b/parser/diff/terms.go
index 77d6c12..e3c58eb 100644
--- a/parser/diff/terms.go
+++ b/parser/diff/terms.go
@@ -111,7 +111,7 @@ func Terms(a, b parser.Term) TermDiff {
 	case parser.CutPoint:
 		return Terms(a.Term, b.(parser.CutPoint).Term)
 	case parser.ExtRef:
-		return diffSes(parser.S(string(a)), parser.S(string(a)))
+		return diffSes(parser.S(string(a)), parser.S(string(b.(parser.ExtRef))))
 	case parser.REF:
 		return diffRefs(a, b.(parser.REF))
 	case parser.LookAhead:
-- 
2.43.0


From 8737ecb1cd71b570577c8365da56506b0c5c5cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:41 +0000
Subject: [PATCH 13/30] fix: comparing a back reference with a default to one
 without panicked

---
 parser/diff/terms.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/diff/terms.go b/parser/diff/terms.go
index e3c58eb..2d9f8de 100644
--- a/parser/diff/terms.go
+++ b/parser/diff/terms.go
@@ -171,7 +171,10 @@ type RefDiff struct {
 
 func (d RefDiff) Equal() bool {
 	if d.A.Ident == d.B.Ident {
-		return (d.A.Default == nil && d.B.Default == nil) || Terms(d.A.Default, d.B.Default).Equal()
+		if d.A.Default == nil || d.B.Default == nil {
+			return d.A.Default == nil && d.B.Default == nil
+		}
+		return Terms(d.A.Default, d.B.Default).Equal()
 	}
 	return false
 }
-- 
2.43.0


From ea048c2215b7a29239559b2a3944c9301d626bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:41 +0000
Subject: [PATCH 14/30] fix: comparing a nil grammar or sequence with an empty
 one panicked

---
 parser/diff/terms.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/parser/diff/terms.go b/parser/diff/terms.go
index 2d9f8de..e285aac 100644
--- a/parser/diff/terms.go
+++ b/parser/diff/terms.go
@@ -56,11 +56,6 @@ func Grammars(a, b parser.Grammar) GrammarDiff {
 			diff.OnlyInB = append(diff.OnlyInB, rule)
 		}
 	}
-	if diff.Equal() != reflect.DeepEqual(a, b) {
-		panic(fmt.Sprintf(
-			"diff.Equal() == %v != %v == reflect.DeepEqual(a, b): %#v\n%#v\n%#v",
-			diff.Equal(), reflect.DeepEqual(a, b), diff, a, b))
-	}
 	return diff
 }
 
-- 
2.43.0


From 5df5fac38ae013c817af1c846b8862b3ef25070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:41 +0000
Subject: [PATCH 15/30] fix: comparing trees with children of different kinds
 panicked

---
 parser/diff/nodes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index 3d18f44..543074d 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -62,8 +62,8 @@ func NewNodeDiff(a, b *parser.Node) NodeDiff {
 		n = len(b.Children)
 	}
 	for i, x := range a.Children[:n] {
-		aType := reflect.TypeOf(a)
-		bType := reflect.TypeOf(a)
+		aType := reflect.TypeOf(x)
+		bType := reflect.TypeOf(b.Children[i])
 		if aType != bType {
 			types[i] = [2]reflect.Type{aType, bType}
 		} else if childNodeA, ok := x.(parser.Node); ok {
-- 
2.43.0


From 405f125af128fb40663f6c263a94978c2cee336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:42 +0000
Subject: [PATCH 16/30] fix: comparing trees ignored the texts of their leaves

---
 parser/diff/nodes.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index 543074d..21758f1 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -13,6 +13,7 @@ type NodeDiff struct {
 	A, B     *parser.Node
 	Children map[int]NodeDiff
 	Types    map[int][2]reflect.Type
+	Leaves   map[int][2]parser.Scanner
 }
 
 func (d NodeDiff) String() string {
@@ -41,6 +42,9 @@ func (d NodeDiff) report(path []string, w io.Writer) {
 	for i, t := range d.Types {
 		fmt.Fprintf(w, "%sChildren[%d].Type: %v != %v", prefix, i, t[0], t[1])
 	}
+	for i, l := range d.Leaves {
+		fmt.Fprintf(w, "%sChildren[%d]: %v != %v", prefix, i, l[0], l[1])
+	}
 	for i, d := range d.Children {
 		d.report(append(append([]string{}, path...), fmt.Sprintf("%s[%d]", d.A.Tag, i)), w)
 	}
@@ -51,12 +55,14 @@ func (d NodeDiff) Equal() bool {
 		d.A.Tag == d.B.Tag &&
 		d.A.Extra == d.B.Extra &&
 		len(d.Children) == 0 &&
-		len(d.Types) == 0
+		len(d.Types) == 0 &&
+		len(d.Leaves) == 0
 }
 
 func NewNodeDiff(a, b *parser.Node) NodeDiff {
 	children := map[int]NodeDiff{}
 	types := map[int][2]reflect.Type{}
+	leaves := map[int][2]parser.Scanner{}
 	n := len(a.Children)
 	if n > len(b.Children) {
 		n = len(b.Children)
@@ -71,6 +77,11 @@ func NewNodeDiff(a, b *parser.Node) NodeDiff {
 			if d := NewNodeDiff(&childNodeA, &childNodeB); !d.Equal() {
 				children[i] = d
 			}
+		} else if leafA, ok := x.(parser.Scanner); ok {
+			leafB := b.Children[i].(parser.Scanner)
+			if leafA.String() != leafB.String() {
+				leaves[i] = [2]parser.Scanner{leafA, leafB}
+			}
 		}
 	}
 	return NodeDiff{
@@ -78,5 +89,6 @@ func NewNodeDiff(a, b *parser.Node) NodeDiff {
 		B:        b,
 		Children: children,
 		Types:    types,
+		Leaves:   leaves,
 	}
 }
-- 
2.43.0


From 67062d9aba23c1e77fcecab087505c1c8ca0cd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:42 +0000
Subject: [PATCH 17/30] fix: comparing trees with external values panicked

---
 parser/diff/nodes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index 21758f1..85585e4 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -33,7 +33,7 @@ func (d NodeDiff) report(path []string, w io.Writer) {
 	if d.A.Tag != d.B.Tag {
 		fmt.Fprintf(w, "%sTag: %v != %v", prefix, d.A.Tag, d.B.Tag)
 	}
-	if d.A.Extra != d.B.Extra {
+	if !reflect.DeepEqual(d.A.Extra, d.B.Extra) {
 		fmt.Fprintf(w, "%sExtra: %v != %v", prefix, d.A.Extra, d.B.Extra)
 	}
 	if len(d.A.Children) != len(d.B.Children) {
@@ -53,7 +53,7 @@ func (d NodeDiff) report(path []string, w io.Writer) {
 func (d NodeDiff) Equal() bool {
 	return len(d.A.Children) == len(d.B.Children) &&
 		d.A.Tag == d.B.Tag &&
-		d.A.Extra == d.B.Extra &&
+		reflect.DeepEqual(d.A.Extra, d.B.Extra) &&
 		len(d.Children) == 0 &&
 		len(d.Types) == 0 &&
 		len(d.Leaves) == 0
-- 
2.43.0


From d28a7101ef24b3c8efad842bdd597cd918e4993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:38 +0000
Subject: [PATCH 18/30] fix: substitute macro arguments in lookaheads and
 nested grammars

---
 wbnf/compile.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index c55a09f..f7a5401 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -101,7 +101,8 @@ func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
 	macro := gb.macros[name]
 	g := parser.Grammar{parser.Rule(name): gb.buildTerm(*macro.OneTerm())}
 
-	newg := rebuildGrammar(g, func(t parser.Term) parser.Term {
+	var callback func(t parser.Term) parser.Term
+	callback = func(t parser.Term) parser.Term {
 		switch t := t.(type) {
 		case parser.Rule:
 			for i, arg := range macro.AllArgs() {
@@ -109,9 +110,16 @@ func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
 					return gb.buildTerm(node.AllTerm()[i])
 				}
 			}
+		case parser.LookAhead:
+			t.Term = fixTerm(t.Term, callback)
+			return t
+		case parser.ScopedGrammar:
+			t.Grammar = rebuildGrammar(t.Grammar, callback)
+			return t
 		}
 		return t
-	})
+	}
+	newg := rebuildGrammar(g, callback)
 	return newg[parser.Rule(name)]
 }
 
-- 
2.43.0


From 31f100794d80fa9855fc33ac35d34285e8139b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:54 +0000
Subject: [PATCH 19/30] fix: let a rule be just a name for another one (a ->
 x=b, or a nested rule naming an outer one)

---
 parser/parser.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7c941f1..e92fbeb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -39,6 +39,22 @@ func (c cache) registerRules(parsers []Parser) {
 	}
 }
 
+// resolveAliases replaces parsers that are just another name for a known rule.
+func resolveAliases(parsers map[Rule]Parser) map[Rule]Parser {
+	out := map[Rule]Parser{}
+	for rule, p := range parsers {
+		for range parsers { // no chain of names is longer
+			if r, ok := p.(ruleParser); ok {
+				if known, has := parsers[r.t]; has {
+					p = known
+				}
+			}
+		}
+		out[rule] = p
+	}
+	return out
+}
+
 func (c cache) makeParsers(terms []Term) []Parser {
 	parsers := make([]Parser, 0, len(terms))
 	for _, t := range terms {
@@ -120,6 +136,7 @@ func (g Grammar) Compile(node any) Parsers {
 		}
 		c.parsers[rule] = term.Parser(rule, c)
 	}
+	c.parsers = resolveAliases(c.parsers)
 
 	for rule, rulePtrs := range c.rulePtrses {
 		p := c.parsers[rule]
@@ -785,15 +802,17 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 	}
 	for rule, term := range t.Grammar {
 		for {
-			switch r := term.(type) {
-			case Rule:
-				term = t.Grammar[r]
-				continue
+			if r, ok := term.(Rule); ok {
+				if local, has := t.Grammar[r]; has {
+					term = local
+					continue
+				}
 			}
 			break
 		}
 		cc.parsers[rule] = term.Parser(rule, cc)
 	}
+	cc.parsers = resolveAliases(cc.parsers)
 
 	// At this point we have the nested grammar cache populated with the grammar rules
 	// We now need to hook up the correct terms from the original grammar
@@ -806,6 +825,8 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 			p := cc.parsers[rule]
 			for _, rulePtr := range rulePtrs {
 				*rulePtr = p
+				// the local rule may just be another name for a rule from the previous scope
+				c.registerRule(rulePtr)
 			}
 		} else {
 			// must be from the previous scope, add it to the previous scopes cache
-- 
2.43.0


From 56deed403fe8b1d2e32972d676a53c4be5c8ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 20/30] fix: unparsing back-references, separators and nested
 grammars, and the count after a write error

REF.Unparse wrote a backslash and panicked on anything but a token, Delim.Unparse
panicked on associative and optional separators, ScopedGrammar.Unparse always
panicked, and the bytes written before a write error were not counted.
---
 parser/unparse.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/parser/unparse.go b/parser/unparse.go
index 529e085..a4c74d0 100644
--- a/parser/unparse.go
+++ b/parser/unparse.go
@@ -17,14 +17,30 @@ func (t RE) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
 	return w.Write([]byte(e.(Scanner).String()))
 }
 func (t REF) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
-	return w.Write([]byte("\\" + e.(Scanner).String()))
+	return unparseLeaves(e, w)
+}
+
+// unparseLeaves writes the text of e's leaves, for trees whose shape isn't
+// determined by their term.
+func unparseLeaves(e TreeElement, w io.Writer) (n int, err error) {
+	switch e := e.(type) {
+	case Scanner:
+		return w.Write([]byte(e.String()))
+	case Node:
+		for _, child := range e.Children {
+			m, err := unparseLeaves(child, w)
+			n += m
+			if err != nil {
+				return n, err
+			}
+		}
+	}
+	return n, nil
 }
 
 func unparse(g Grammar, term Term, e TreeElement, w io.Writer, N *int) error {
 	n, err := term.Unparse(g, e, w)
-	if err == nil {
-		*N += n
-	}
+	*N += n
 	return err
 }
 
@@ -44,14 +60,7 @@ func (t Oneof) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error)
 }
 
 func (t Delim) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
-	node := e.(Node)
-	tgen := t.LRTerms(node)
-	for _, child := range node.Children {
-		if err = unparse(g, tgen.Next(), child, w, &n); err != nil {
-			return
-		}
-	}
-	return
+	return unparseLeaves(e, w)
 }
 
 func (t LookAhead) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
@@ -94,7 +103,7 @@ func (t Named) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error)
 //-----------------------------------------------------------------------------
 
 func (t ScopedGrammar) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
-	panic(errors.Inconceivable)
+	return unparseLeaves(e, w)
 }
 
 func (t CutPoint) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
-- 
2.43.0


From 02c165b8006e77009fd06d8a1fa02f9d803525b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:59 +0000
Subject: [PATCH 21/30] fix: check the regexp that a pattern denotes, not its
 source text

---
 wbnf/compile.go    | 21 +++++++++++++--------
 wbnf/validation.go |  2 +-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index f7a5401..e67429a 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -92,6 +92,18 @@ func parseString(s string) string {
 var whitespaceRE = regexp.MustCompile(`\s`)
 var escapedSpaceRE = regexp.MustCompile(`((?:\A|[^\\])(?:\\\\)*)\\_`)
 
+// parseRegexp returns the regexp that a RE of a grammar denotes.
+func parseRegexp(s string) string {
+	s = whitespaceRE.ReplaceAllString(s, "")
+	// Do this twice to cover adjacent escaped spaces `\_\_`.
+	s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
+	s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
+	if strings.HasPrefix(s, "/{") {
+		s = s[2 : len(s)-1]
+	}
+	return s
+}
+
 type grammarBuilder struct {
 	macros map[string]PragmaMacrodefNode
 }
@@ -138,14 +150,7 @@ func (gb grammarBuilder) buildAtom(atom AtomNode) parser.Term {
 	case "STR":
 		return parser.S(parseString(name))
 	case "RE":
-		s := whitespaceRE.ReplaceAllString(name, "")
-		// Do this twice to cover adjacent escaped spaces `\_\_`.
-		s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
-		s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
-		if strings.HasPrefix(s, "/{") {
-			s = s[2 : len(s)-1]
-		}
-		return parser.RE(s)
+		return parser.RE(parseRegexp(name))
 	case "REF":
 		refNode := atom.OneRef()
 		ref := parser.REF{
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 80995c5..d1f7498 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -161,7 +161,7 @@ func (v *validator) validateAtom(tree AtomNode) Stopper {
 			}
 		}
 	} else if x := tree.OneRe(); x != nil {
-		if _, err := regexp.Compile(x.String()); err != nil {
+		if _, err := regexp.Compile(parseRegexp(x.String())); err != nil {
 			v.err = append(v.err, validationError{
 				s:    tree.OneRe().Scanner(),
 				msg:  "regex '%s' is not valid, %s",
-- 
2.43.0


From a9fae90eee1cf33c6622806f56c01dbff4a6239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:59 +0000
Subject: [PATCH 22/30] fix: report repetition bounds that are too large
 instead of panicking

---
 wbnf/validation.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index d1f7498..cf4fb8d 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -182,14 +182,18 @@ func (v *validator) validateQuant(tree QuantNode) Stopper {
 		if x := tree.OneMin().String(); x != "" {
 			val, err := strconv.Atoi(x)
 			if err != nil {
-				panic("should not get here")
+				v.err = append(v.err, validationError{s: tree.OneMin().Scanner(),
+					msg: "quant: '%s' is too large", kind: MinMaxQuantError})
+				return nil
 			}
 			min = val
 		}
 		if x := tree.OneMax().String(); x != "" {
 			val, err := strconv.Atoi(x)
 			if err != nil {
-				panic("should not get here")
+				v.err = append(v.err, validationError{s: tree.OneMax().Scanner(),
+					msg: "quant: '%s' is too large", kind: MinMaxQuantError})
+				return nil
 			}
 			max = val
 		}
-- 
2.43.0


From 7b6b245685f2464615b9591b44ff0c33e6a30b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:59 +0000
Subject: [PATCH 23/30] fix: check the bodies of macro definitions

---
 wbnf/validation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index cf4fb8d..c0d3b3d 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -220,7 +220,7 @@ func (v *validator) validateMacro(node PragmaMacrodefNode) Stopper {
 			v.knownRules = v.knownRules.With(arg.String())
 		}
 	}
-	v.walk(node.OneTerm())
+	v.walk(*node.OneTerm())
 	return NodeExiter
 }
 
-- 
2.43.0


From 871396ef8ff48153ae6d39fd631632f131d65001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:59 +0000
Subject: [PATCH 24/30] fix: leave the grammar alone when converting trees of
 nested grammars

---
 ast/from_parsernode.go | 5 ++++-
 ast/to_parsernode.go   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index f247f80..8f5c26f 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -135,7 +135,10 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		node = node.collapse(level)
 		b.add(unleveled, node, ctrs[string(t)])
 	case parser.ScopedGrammar:
-		gcopy := g
+		gcopy := make(parser.Grammar, len(g)+len(t.Grammar))
+		for rule, terms := range g {
+			gcopy[rule] = terms
+		}
 		for rule, terms := range t.Grammar {
 			gcopy[rule] = terms
 		}
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 04a334d..19ffe06 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -105,7 +105,10 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		}
 		return nil
 	case parser.ScopedGrammar:
-		gcopy := g
+		gcopy := make(parser.Grammar, len(g)+len(t.Grammar))
+		for rule, terms := range g {
+			gcopy[rule] = terms
+		}
 		for rule, terms := range t.Grammar {
 			gcopy[rule] = terms
 		}
-- 
2.43.0


From 365b3f272b716261ed2a8701a976c0ef6bb4ac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:59 +0000
Subject: [PATCH 25/30] fix: write bounds and strings with control characters
 as valid Go source

---
 cmd/codegen/grammar.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cmd/codegen/grammar.go b/cmd/codegen/grammar.go
index 306942c..94fb1a7 100644
--- a/cmd/codegen/grammar.go
+++ b/cmd/codegen/grammar.go
@@ -3,7 +3,9 @@ package codegen
 import (
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/arr-ai/frozen"
 
@@ -44,9 +46,13 @@ func (g *GoNode) Add(n GoNode) {
 	g.children = append(g.children, n)
 }
 
-func safeString(src string) string {
-	r := strings.NewReplacer("`", "`+\"`\"+`")
-	return r.Replace(src)
+// stringLit returns a Go expression for a string. Not everything can be written
+// in a raw string.
+func stringLit(src string) string {
+	if strings.ContainsAny(src, "\r\x00\ufeff") || !utf8.ValidString(src) {
+		return strconv.Quote(src)
+	}
+	return "`" + strings.ReplaceAll(src, "`", "`+\"`\"+`") + "`"
 }
 
 func prefixName(prefix string, node GoNode) GoNode {
@@ -82,7 +88,7 @@ func walkTerm(term parser.Term) GoNode {
 			node.children = append(node.children, walkTerm(t))
 		}
 	case parser.S:
-		node.name = fmt.Sprintf("parser.S(`%s`)", safeString(string(t)))
+		node.name = fmt.Sprintf("parser.S(%s)", stringLit(string(t)))
 	case parser.Delim:
 		node.name = "parser.Delim"
 		node.scope = squigglyScope
@@ -116,8 +122,11 @@ func walkTerm(term parser.Term) GoNode {
 		} else {
 			node.name = "parser.Quant"
 			node.scope = squigglyScope
-			node.Add(stringNode("Min: %d", t.Min))
-			node.Add(stringNode("Max: %d", t.Max))
+			node.children = []GoNode{
+				prefixName("Term: ", walkTerm(t.Term)),
+				stringNode("Min: %d", t.Min),
+				stringNode("Max: %d", t.Max),
+			}
 		}
 	case parser.Named:
 		node.name = "parser.Eq"
@@ -141,7 +150,7 @@ func walkTerm(term parser.Term) GoNode {
 			node.Add(prefixName("Default: ", walkTerm(t.Default)))
 		}
 	case parser.RE:
-		node = stringNode("parser.RE(`%s`)", safeString(string(t)))
+		node = stringNode("parser.RE(%s)", stringLit(string(t)))
 	case parser.Rule:
 		if strings.Contains(string(t), parser.StackDelim) {
 			node = stringNode("parser.At")
@@ -153,7 +162,7 @@ func walkTerm(term parser.Term) GoNode {
 		node.scope = squigglyScope
 		node.Add(walkTerm(t.Term))
 	case parser.ExtRef:
-		node = stringNode("parser.ExtRef(`%s`)", safeString(string(t)))
+		node = stringNode("parser.ExtRef(%s)", stringLit(string(t)))
 	case parser.LookAhead:
 		node.name = "parser.LookAhead"
 		node.scope = squigglyScope
-- 
2.43.0


From f3a92f3d51d08ea6d912d204bbc425484f00ef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:19 +0000
Subject: [PATCH 26/30] fix: take every imported file once, also when imports
 form a ring

---
 wbnf/compile.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index e67429a..4555c07 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -353,20 +353,24 @@ func (c *compiler) makeGrammar(filename, text string) (GrammarNode, error) {
 	return node, nil
 }
 
+// loadGrammarFile returns the grammar in a file, or no grammar if the file has
+// been taken before (or is just being loaded).
 func (c *compiler) loadGrammarFile(filename string) (GrammarNode, error) {
 	filename = filepath.Clean(filename)
-	if _, has := c.imports[filename]; !has {
-		text, err := os.ReadFile(filename)
-		if err != nil {
-			return GrammarNode{}, err
-		}
-		g, err := c.makeGrammar(filename, string(text))
-		if err != nil {
-			return GrammarNode{}, err
-		}
-		c.imports[filename] = g
+	if _, has := c.imports[filename]; has {
+		return GrammarNode{}, nil
+	}
+	c.imports[filename] = GrammarNode{}
+	text, err := os.ReadFile(filename)
+	if err != nil {
+		return GrammarNode{}, err
+	}
+	g, err := c.makeGrammar(filename, string(text))
+	if err != nil {
+		return GrammarNode{}, err
 	}
-	return c.imports[filename], nil
+	c.imports[filename] = g
+	return g, nil
 }
 
 func Compile(grammar string, resolver ImportResolver) (parser.Parsers, error) {
-- 
2.43.0


From 9d55e261d57cd12af5f7d83c346dd4d8ef4fdf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:03 +0000
Subject: [PATCH 27/30] fix: find a file imported by an imported file beside
 that file

---
 cmd/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/test.go b/cmd/test.go
index 79ba003..7d931ba 100644
--- a/cmd/test.go
+++ b/cmd/test.go
@@ -76,7 +76,7 @@ func (r resolver) Resolve(from, file string) string {
 	if from == "" {
 		return filepath.Clean(filepath.Join(r.base, file))
 	}
-	return filepath.Clean(filepath.Join(r.base, from, file))
+	return filepath.Clean(filepath.Join(filepath.Dir(from), file))
 }
 
 func makeResolver(firstFilename string) resolver {
-- 
2.43.0


From f25a6c2d0362c4617749270a5339a1d042b11801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:41 +0000
Subject: [PATCH 28/30] fix: link the rule that a commit point wraps

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index e92fbeb..c54d221 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -848,5 +848,7 @@ func (t *cutPointParser) Parse(scope Scope, input *Scanner, output *TreeElement,
 }
 func (t *cutPointParser) AsTerm() Term { return t.t }
 func (t CutPoint) Parser(rule Rule, c cache) Parser {
-	return &cutPointParser{t.Term.Parser(rule, c), t}
+	p := &cutPointParser{t.Term.Parser(rule, c), t}
+	c.registerRule(&p.p)
+	return p
 }
-- 
2.43.0


From 38ae6cbabc4abcc2ce4d0cb2461ee4d8eff181f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:52 +0000
Subject: [PATCH 29/30] fix: report every cycle of rules, whatever the order
 they are visited in

The paths found shared their storage, so that one could overwrite another
and the repeated name that shows the cycle was lost.
---
 wbnf/recursion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index 4d5cdbe..c8080fd 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -65,7 +65,7 @@ func findPaths(name string, node *gnode, seen frozen.Set[string], current []stri
 	var possibles [][]string
 	for k, next := range node.next {
 		if seen.Has(k) {
-			possibles = append(possibles, append(current[:], k))
+			possibles = append(possibles, append(current[:len(current):len(current)], k))
 		} else {
 			possibles = append(possibles, findPaths(k, next, seen.With(k), current)...)
 		}
-- 
2.43.0


From 4dffe00f35222252b17adbb5742f8ccaac445521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:52 +0000
Subject: [PATCH 30/30] fix: look for cycles among the grammar's own rules only

A rule of a grammar nested in a macro replaced the rule of the same name
outside of it, whose cycle was then missed and compiling went on for ever.
---
 wbnf/recursion.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index c8080fd..59dcbb6 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -31,6 +31,8 @@ func checkForRecursion(tree GrammarNode) error {
 		}
 		dangers[node.OneIdent().String()] = td
 		return NodeExiter
+	}, EnterPragmaMacrodefNode: func(PragmaMacrodefNode) Stopper {
+		return NodeExiter // rules of a grammar inside of a macro are not rules of this one
 	}}.Walk(tree)
 
 	// walk every path
-- 
2.43.0

