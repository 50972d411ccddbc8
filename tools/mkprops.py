#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script because JSON lines are hard to edit by hand).
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Parse trees are made only of genuine, in-place pieces of the input",
 "Every leaf of a tree that a parse produces is an in-bounds, contiguous piece of the very text that was given to parse, reported at the offset where it really sits, and never starts before the point where the parse of its construct began. A construct only ever moves the read position forward, and never moves the end of the input.",
 ["inputs","programs"],"every grammar, every start rule and every input text, whether or not the parse succeeds (grammars without external handlers or escapes)",
 "The tests compare the printed tree of a few dozen grammar/input pairs; offsets and bounds for other regexps, capture groups, nestings and failure paths are never reached.",
 ["parser/parser.go","parser/scanner.go"],
 [("every construct's Parse method and the token matcher","parser/parser.go Parse methods, eatRegexp"),("slice arithmetic of the scanner","parser/scanner.go Eat, Skip, Slice, EatRegexp")],
 ["leaves of the tree returned by Parsers.Parse: Scanner.Offset/String","Residue of an unconsumed-input error"])

prop("C02","A parse succeeds exactly when its rule matched and all input was consumed",
 "Parsing returns a tree and no error exactly when the start rule matched and no text was left over. If the rule matched but text is left, the error is an unconsumed-input error that carries the partial tree and precisely the text that was left; if the rule did not match, its own error is returned and no tree.",
 ["inputs","programs"],"every compiled grammar, start rule, input text and set of external handlers",
 "Tests check full matches and a handful of failures by message; they cannot show that no grammar/input pair leaks a partial tree as a success or loses the residue.",
 ["parser/terms.go","parser/error.go"],
 [("whole-input check after the start rule","parser/terms.go Parsers.ParseWithExternals"),("the error that carries residue and partial tree","parser/error.go UnconsumedInput, Result, Residue")],
 ["result and error of Parsers.Parse / ParseWithExternals / MustParse"])

prop("C03","A sequence matches all its parts in order, each where the previous stopped",
 "A sequence succeeds exactly when each of its parts, tried once and in written order, matches starting where the previous part stopped; the result then has exactly one child per part in that order and the position is where the last part stopped. When a part fails the sequence fails without trying later parts, and values bound to the names of earlier parts are what later parts see.",
 ["inputs","programs"],"every sequence of any length, every behaviour of its parts, every input position and surrounding scope",
 "Sequences of any length over arbitrary parts: tests run a few short concrete ones.",
 ["parser/parser.go","parser/scope.go"],
 [("loop over the parts, threading position and scope","parser/parser.go seqParser.Parse"),("names under which values are bound","parser/parser.go identFromTerm; parser/scope.go WithVal, GetVal")],
 ["children and tag of the node, input position after the parse"])

prop("C04","Ordered choice takes the first alternative that matches, with no trace of others",
 "A choice tries its alternatives in written order, each from the same starting position and with the same bound names, and succeeds with the first one that matches: the recorded choice number is that alternative's index, the single child is its result, and the position is where it stopped. If none matches the choice fails.",
 ["inputs","programs"],"every number of alternatives, every behaviour of the alternatives, every input position and scope",
 "Which alternative wins depends on all combinations of earlier failures and how far they read; tests exercise a few two- or three-way choices.",
 ["parser/parser.go"],
 [("loop over the alternatives on a copy of the position","parser/parser.go oneofParser.Parse")],
 ["Choice recorded in the node, its child, input position"])

prop("C05","Repetition is greedy, stays within its bounds and always comes to an end",
 "A repetition collects matches of its term back to back until the term fails, the upper bound is reached or, without an upper bound and with the minimum reached, a match consumes nothing, and then succeeds exactly if it has at least the minimum number of them, with the position after the last match counted. The number of children lies within the bounds, a failed last attempt consumes nothing, the repetition ends on every input, and so does the message of its failure.",
 ["inputs","programs"],"every minimum and maximum (0 = unbounded), every term including ones that match the empty text, every input",
 "Termination and bounds for arbitrary counts and terms are universally quantified; tests cover *, +, ? and two literal counts on non-empty terms.",
 ["parser/parser.go","parser/terms.go"],
 [("the repetition loop","parser/parser.go quantParser.Parse"),("bound helpers","parser/terms.go Quant.Contains, MaxLessThan, Opt, Any, Some")],
 ["number of children, input position; that the call returns"])

prop("C06","Delimited lists keep terms and separators in input order, nested as declared",
 "A delimited list yields its terms and separators in input order without losing, repeating or reordering any; without associativity they form one flat node, with left associativity each node holds everything to the left, one separator and one term, and with right associativity the mirror image. An optional leading or trailing separator appears, next to an empty marker, exactly when it was present in the text and the grammar allows it.",
 ["inputs","programs"],"every number of terms, associativity and leading/trailing permission, every term and separator",
 "Shape must be right for every list length and option combination; tests check a few lengths of some combinations.",
 ["parser/parser.go","parser/terms.go"],
 [("desugaring into a sequence with repetitions","parser/parser.go Delim.Parser"),("reshaping of the desugared result","parser/parser.go delimParser.Parse"),("associativity marks","parser/terms.go NewAssociativity")],
 ["tag, Extra and children of the delimiter nodes"])

prop("C07","Lookahead consumes nothing and back-references only match the earlier text",
 "A lookahead succeeds exactly when its term matches here, and leaves the read position where it was in every case. A back-reference succeeds only with a value whose text pieces equal those bound to its name at that point, uses the default only when nothing is bound, and fails when there is neither.",
 ["inputs","programs"],"every term, every earlier bound value (leaf or nested), every input position",
 "Positions and bound values range over all inputs; tests use two or three fixed ones.",
 ["parser/parser.go","parser/scope.go"],
 [("lookahead on a copy of the position","parser/parser.go lookaheadParser.Parse"),("back-reference lookup and comparison","parser/parser.go REF.Parse, nodesEqual, termFromRefVal; parser/scope.go GetVal")],
 ["input position after the construct, value produced"])

prop("C08","Past a commit point a failure is final; before it alternatives are still tried",
 "A choice or repetition gives up and reports a failure at once exactly when the failure was committed inside it past a commit point set for an enclosing construct or by a stop error; a failure committed to itself, or not committed at all, lets it go on with the next alternative or end the repetition. A sequence starts committing its later parts only after it passed a commit point, and always passes a committed failure on unchanged.",
 ["inputs","programs"],"every nesting of choices, repetitions and sequences, every position of commit points, every kind of error",
 "Commit handling depends on nestings of constructs and on error identity; tests cover a few nestings through whole parses.",
 ["parser/parser.go","parser/error.go","parser/scope.go"],
 [("classification of errors","parser/error.go isFatal, isNotMyFatalError, newParseError"),("commit identity carried in the scope","parser/scope.go ReplaceCutPoint, GetCutPoint"),("uses","parser/parser.go seqParser, oneofParser, quantParser, cutPointParser Parse")],
 ["whether later alternatives are attempted; kind of error returned"])

prop("C09","Source positions and slices are exact",
 "A piece of source denotes exactly the text between its start and end offsets; taking sub-pieces, skipping and consuming text split it without gap, overlap or loss, so consumed part plus remainder is the original. Line and column are those of the start offset (1-based, lines ended by newline), merging pieces of one source gives the smallest piece covering them all, and containment means exactly being the same source and lying inside.",
 ["inputs"],"every source text, every valid start, length, cut point, pattern and collection of pieces",
 "Offset arithmetic must be right for all offsets and texts; tests probe a dozen.",
 ["parser/scanner.go"],
 [("slice arithmetic","parser/scanner.go Slice, Skip, Eat, EatString, EatRegexp"),("derived positions","parser/scanner.go Position, lineColumn, MergeScanners, Contains")],
 ["Scanner.String, Offset, Position, Contains, MergeScanners"])

prop("C10","Literals match exactly their text; pattern tokens yield the captured text",
 "A literal succeeds exactly when the remaining text starts with it (after any whitespace wrapping the grammar declares), consumes exactly the matched stretch and yields exactly the literal's text; a pattern succeeds exactly when it matches at the current position, consumes the whole match and yields its first capturing group, or the whole pattern's text if it has none or the group took no part. When a token does not match, nothing is consumed.",
 ["inputs","programs"],"every literal text, every pattern with any number of groups, every wrapping declaration, every input position",
 "Patterns with several or unused groups and arbitrary literal characters are not enumerable by tests; only simple tokens are tested.",
 ["parser/parser.go","parser/scanner.go"],
 [("pattern construction with wrapping","parser/parser.go applyWrapRE, S.Parser, RE.Parser"),("matching","parser/parser.go eatRegexp, sParser.Parse, reParser.Parse; parser/scanner.go EatRegexp")],
 ["leaf text/offset and input position after a token"])

prop("C11","Precedence levels refer to the next tighter level; the tightest wraps around",
 "Preparing a grammar replaces a rule with n precedence levels by n rules, the loosest under the rule's own name, each being its level with every self-reference mark redirected to the next level and, at the last level, back to the loosest. Substituting a rule name in a grammar term changes exactly the references to that name, keeps everything else (commit-point marks aside) and leaves the original term alone; rules without levels are unchanged.",
 ["programs"],"every grammar, every number of levels, every nesting of terms in a level",
 "The rewriting must be right for every term shape and number of levels; tests run a single arithmetic grammar or two.",
 ["parser/parser.go","parser/resolve.go"],
 [("substitution","parser/resolve.go Resolve methods"),("level renaming","parser/parser.go resolveStacks, Compile")],
 ["Parsers.Grammar() after Compile; parse trees of stacked grammars"])

prop("C12","Compiling, parsing and converting never modify the grammar or tree given",
 "Compiling a grammar, parsing with it, and converting between parse trees and syntax trees leave the grammar, the tree and the values they were given unchanged, so a compiled grammar can be used any number of times, by any number of readers, with the same outcome.",
 ["histories","programs","inputs"],"every sequence of uses of one grammar, including grammars with nested (scoped) grammars, and every tree",
 "Needs absence of writes on every path over all histories of use; tests use each compiled grammar once.",
 ["parser/parser.go","parser/terms.go","ast/from_parsernode.go","ast/to_parsernode.go","wbnf/cutpoints.go"],
 [("copy before rewriting","parser/parser.go Grammar.clone, Compile, ScopedGrammar.Parser"),("conversions with nested grammars","ast/from_parsernode.go, ast/to_parsernode.go"),("deep copy of syntax trees","ast/node.go clone methods")],
 ["Parsers.Grammar() and the argument trees before and after the calls"])

prop("C13","A comparison reports equal exactly for equal grammars, terms and trees",
 "Comparing two grammars, two terms or two parse trees reports no difference if and only if they are structurally the same: every kind of term, every attribute, default, nested grammar, child, tag and piece of text counts. The comparison itself always gives an answer for well-formed arguments.",
 ["programs","inputs"],"every pair of grammars, terms and parse trees",
 "An equality must hold for all pairs; the only use in the suite is one self-comparison that happens to be equal.",
 ["parser/diff/terms.go","parser/diff/nodes.go"],
 [("per-term comparison","parser/diff/terms.go Terms, Grammars and the Equal methods"),("tree comparison","parser/diff/nodes.go NewNodeDiff, NodeDiff.Equal")],
 ["Equal() of the reports of diff.Terms, diff.Grammars, diff.NewNodeDiff"])

prop("C14","Automatic commit points wrap only literals used once; nothing else changes",
 "Preparing a grammar wraps a literal as a commit point only if that literal text is counted exactly once in the grammar it belongs to, where a list separator that may also lead or trail the list never counts as unique. Apart from those wrappers the grammar stays exactly the same: same rules, same terms, same order, same attributes.",
 ["programs"],"every grammar, every nesting of terms and nested grammars",
 "Uniqueness and faithful copying range over all grammars; tests print two small ones.",
 ["wbnf/cutpoints.go"],
 [("counting literals","wbnf/cutpoints.go findUniqueStrings"),("rewriting","wbnf/cutpoints.go insertCutPoints, rebuildGrammar, fixTerm")],
 ["Grammar() of a compiled grammar versus the grammar as written"])

prop("C15","Quoted text in a grammar denotes exactly the text its escapes spell",
 "A quoted literal in grammar text denotes its characters with each escape replaced by the byte or character it spells (control letters, quotes, backslash, two-digit hex bytes, octal bytes, four- and eight-digit code points); characters outside escapes are kept as they are. A backquoted literal keeps everything except that a doubled backquote denotes one.",
 ["inputs"],"every quoted literal the grammar syntax admits",
 "Every combination and position of escapes; tests have only a few of the letter escapes.",
 ["wbnf/compile.go"],
 [("unescaping","wbnf/compile.go parseString")],
 ["terms of Grammar() for a grammar with quoted literals"])

prop("C16","Grammar notation means the documented terms",
 "Each piece of grammar notation builds the term it is documented to mean: *, + and ? and {m,n} build repetitions with exactly those bounds, ':', ':>' and '<:' build lists with that associativity and with leading/trailing permission exactly where a comma is written, suffixes apply right to left, 'name=' names exactly its term, alternatives, levels and sequences keep all their parts in order, and a macro call is the macro's term with every parameter replaced by its argument.",
 ["programs"],"every grammar text accepted by the grammar parser",
 "All combinations of notation: tests hold about forty grammars, mostly checked through their parses.",
 ["wbnf/compile.go","parser/terms.go"],
 [("builder","wbnf/compile.go buildQuant, buildNamed, buildAtom, buildTerm, buildProd, buildGrammar")],
 ["Grammar() of a compiled grammar"])

prop("C17","Grammar checking reports a mistake exactly when there is one",
 "Checking a grammar reports an unknown rule, a name clash, a repeated name in a sequence, bad repetition bounds (out of order, or too large to count), an invalid pattern, a call of something that is not a macro or with the wrong number of arguments exactly where the grammar - macro bodies included - has that mistake, one report per mistake and of that kind; a grammar without mistakes yields no report, and no earlier report is ever lost. (Rules defined twice are reported alone; terms that carry a nested grammar are not checked, as the code documents. A pattern is invalid when what it denotes, after the grammar's own escapes, is no regular expression.)",
 ["programs"],"every grammar tree whose names, numbers and literals are single pieces of text, and every set of defined rules and macros",
 "Both directions of an equivalence over all grammars; tests have one or two examples per kind of mistake.",
 ["wbnf/validation.go"],
 [("one validator per construct","wbnf/validation.go validateAtom, validateNamed, validateQuant, validateTerm, validateMacro, validateMacroCall, validate")],
 ["error of wbnf.Compile"])

prop("C18","Converting a parse tree to a syntax tree keeps every piece of text exactly once",
 "Converting a parse tree into a syntax tree keeps each leaf of the parse tree exactly as often as it occurs there, with its text and offset, and adds no leaf that was not there (external values aside).",
 ["programs","inputs"],"every grammar and every parse tree of it for which the conversion returns",
 "Counting all leaves over all term shapes and nestings; tests compare a few printed trees.",
 ["ast/from_parsernode.go","ast/counter.go"],
 [("conversion","ast/from_parsernode.go FromParserNode, fromParserNode, add, one, many")],
 ["leaves of the syntax tree returned by FromParserNode"])

prop("C19","Syntax-tree queries return what the tree holds",
 "Looking up the first, all, or one of several named children of a syntax-tree node returns exactly the children stored under that name in order, the choice number is the first recorded one or -1, and content equality of two trees holds exactly if they have the same names and leaf texts in the same arrangement, wherever the text came from. A node's source extent is the smallest piece of source covering all its leaves.",
 ["inputs","programs"],"every syntax tree and every name",
 "Universally quantified over trees and names; tests look at a handful of trees.",
 ["ast/helpers.go","ast/node.go","ast/node_string.go"],
 [("lookups","ast/helpers.go First, All, Which, Choice"),("content equality","ast/node.go ContentEquals"),("extent","ast/node_string.go Scanner methods")],
 ["results of ast.First/All/Which/Choice, ContentEquals, Scanner"])

prop("C20","Generated grammar source denotes the same grammar",
 "The Go source that the generator writes for a grammar denotes, when read as Go, the same grammar: every rule, term, attribute, bound, associativity, name, literal and pattern (precedence levels reassembled), so that a generated parser accepts and structures text exactly like the grammar it came from.",
 ["programs"],"every compiled grammar",
 "Has to hold for all terms and all literal texts; the suite compares the generated text of one grammar.",
 ["cmd/codegen/grammar.go"],
 [("term to source","cmd/codegen/grammar.go walkTerm, MakeGrammarString, GoNode.String, safeString")],
 ["text of MakeGrammarString(g)"])

prop("C21","Unparsing writes back exactly the tree's text and counts its bytes",
 "Unparsing a parse tree writes the text of its leaves in order, nothing else, and reports the number of bytes written; it stops at and returns the first write error.",
 ["programs","inputs"],"every grammar without external handlers (back-references, lookaheads, nested grammars and every separator included), every parse tree of it, named by its rule where all of Parsers unparses it, and every writer",
 "All trees and all points at which a writer may fail; tests unparse one expression.",
 ["parser/unparse.go","parser/terms.go"],
 [("per-term unparse","parser/unparse.go Unparse methods, unparse")],
 ["bytes written and count returned"])

prop("C22","Every rule reference in a compiled grammar reaches the parser of that rule",
 "In a compiled grammar every reference to a rule, at any depth and under any name or commit point, behaves as the rule it names, with inner grammars' rules shadowing outer ones.",
 ["programs"],"every grammar accepted by the checker",
 "References can sit under every combination of terms; tests cover common ones only.",
 ["parser/parser.go"],
 [("registration and patching of references","parser/parser.go cache.registerRule, makeParsers, Compile, ScopedGrammar.Parser")],
 ["parsing with the compiled grammar"])

prop("C23","Parse tree to syntax tree and back is the identity",
 "Converting a parse tree to a syntax tree and back yields the same parse tree for grammars whose terms are all named.",
 ["programs","inputs"],"every such grammar and parse tree",
 "All shapes of trees; tests round-trip a few.",
 ["ast/from_parsernode.go","ast/to_parsernode.go","ast/counter.go"],
 [("the two conversions","ast/from_parsernode.go FromParserNode, ast/to_parsernode.go ToParserNode")])

prop("C24","Rules that lead back to themselves are rejected",
 "A rule leads to the rules its definition can be seen to begin with: a reference leads to its rule, and a group to what its content leads to, unless it must occur (suffix +, {n,...} with n other than 0, or a list); a choice leads to what any alternative leads to; a sequence, or the levels of a stack, to what its items lead to, from the first on and no further than the first item that leads to nothing, except that a token written in a sequence with a suffix that lets it be left out is passed over. Compiling reports possible cycles for every grammar in which a rule leads, through any number of rules, back to itself, whatever the order the rules are written or visited in, and for no other grammar. The rules of grammars nested in a macro or a rule do not count, nor replace those outside. No grammar is accepted in which a rule comes back to itself with nothing before it that must occur.",
 ["programs"],"every grammar",
 "Reachability over all rule graphs, in every order of visiting; tests list about fifteen grammars.",
 ["wbnf/recursion.go"],
 [("cycle search","wbnf/recursion.go checkForRecursion, findPaths, walkRule, getSequenceDangerTerms")])

prop("C25","Imported grammars are merged completely, once each",
 "A grammar that imports files has exactly the rules of its own text and of all files it imports directly or indirectly, each file taken once however often it is imported.",
 ["programs","configurations"],"every set of files and imports between them",
 "All import graphs; tests have a single chain.",
 ["wbnf/compile.go"],
 [("import loading and merging","wbnf/compile.go makeGrammar, loadGrammarFile, mergeGrammarNodes")])

prop("C26","Printed trees show every node exactly once, in order and correctly indented",
 "Printing a tree yields the root's text followed by every node below it exactly once in depth-first order, one line per text line, each prefixed by its depth and by whether it and its ancestors are last children.",
 ["inputs"],"every tree of texts",
 "All tree shapes; tests print a few fixed ones.",
 ["gotree/gotree.go"],
 [("recursive printing","gotree/gotree.go Print, printItems, printText")],
 ["text returned by Print"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],p["title"][80:])
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
