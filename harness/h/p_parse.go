package main

import (
	"fmt"
	"runtime"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/mewmew/typast/typst/syntax"
)

// parseBound is the number of nodes the input may legitimately need: every
// byte yields at most a few nodes.
func parseChecked(c *Case, text string) *syntax.SyntaxNode {
	c.Input = text
	return syntax.Parse(text)
}

func init() {
	// P01: the tree holds the text.
	lossless := func(name string, text func(c *Case) string) Group {
		return Group{Name: name, Run: func(c *Case) {
			src := text(c)
			root := parseChecked(c, src)
			c.Eval(1)
			if got := sourceText(root); got != src {
				c.Fail("the leaves of the tree spell %q, the source is %q", got, src)
			}
			off := 0
			for _, f := range flatten(root) {
				if !f.leaf {
					continue
				}
				if f.start != off {
					c.Fail("leaf starts at %d, previous leaf ended at %d", f.start, off)
				}
				off = f.end
				t, _ := leafText(f.n)
				if t == "" && f.kind != syntax.SyntaxKindError && !emptyAllowed(f.kind) {
					c.Fail("empty %s token at byte %d", f.kind.Name(), f.start)
				}
				if !utf8.ValidString(t) && utf8.ValidString(src) {
					c.Fail("token %q at byte %d splits a character", t, f.start)
				}
				c.Cover("leaf " + f.kind.Name())
			}
			if countErrors(root) > 0 {
				c.Cover("trees with errors")
			} else {
				c.Cover("trees without errors")
			}
			if len(src) > 0 {
				c.Distinct(shape(root))
			}
			if len(src) > 10 && len(src) < 120 {
				c.Sample(fmt.Sprintf("%q", src))
			}
		}}
	}
	withN := func(g Group, q, t int) Group { g.Quick, g.Thorough = q, t; return g }
	register(&Prop{
		ID:   "P01",
		Rule: "a parsed text counts by the shape of its tree (kinds and nesting)",
		Groups: []Group{
			withN(lossless("soup", func(c *Case) string { return soup(c, 40) }), 30000, 900000),
			withN(lossless("chars", func(c *Case) string { return charSoup(c, 24) }), 40000, 1200000),
			withN(lossless("tiny", func(c *Case) string { return soup(c, 4) }), 30000, 600000),
			withN(lossless("documents", func(c *Case) string { return genDocument(c, 200) }), 4000, 100000),
			withN(lossless("mutated", func(c *Case) string { return mutate(c, genDocument(c, 150), 1+c.IntN(4)) }), 12000, 300000),
			withN(lossless("large", func(c *Case) string { return mutate(c, genDocument(c, 8000), c.IntN(6)) }), 60, 1500),
		},
	})

	// P02: the parser ends, gives the same tree every time, and its work
	// grows with the size of the text.
	register(&Prop{
		ID:   "P02",
		Rule: "a text counts by the shape of its tree; a nesting family counts by its name and depth",
		Groups: []Group{
			{Name: "deterministic", Quick: 20000, Thorough: 600000, Run: func(c *Case) {
				src := anyText(c, 160)
				a := parseChecked(c, src)
				b := syntax.Parse(strings.Clone(src))
				c.Eval(1)
				if x, y := sexp(a), sexp(b); x != y {
					c.Fail("two parses of the same text differ:\n%s\n%s", pretty(a), pretty(b))
				}
				c.Distinct(shape(a))
				if len(src) < 100 {
					c.Sample(fmt.Sprintf("%q", src))
				}
			}},
			{Name: "layers", Serial: true, Quick: 500, Thorough: 20000, Run: layersCase},
			{Name: "nesting", Serial: true, Quick: len(nestFamilies) * 1, Thorough: len(nestFamilies) * 3, Run: func(c *Case) {
				fam := nestFamilies[c.Index%len(nestFamilies)]
				level := c.Index / len(nestFamilies)
				sizes := []int{12, 24, 48, 96}
				if level > 0 {
					sizes = []int{16 + c.IntN(16), 40 + c.IntN(20), 100 + c.IntN(50), 250 + c.IntN(50)}
				}
				c.Input = "nesting family " + fam.name
				var prev, prevLen float64
				for _, n := range sizes {
					src := fam.make(n)
					work := mallocs(func() {
						root := syntax.Parse(src)
						if got := sourceText(root); got != src {
							c.Fail("text lost at depth %d", n)
						}
					})
					c.Eval(1)
					c.Distinct(fam.name, n)
					l := float64(len(src))
					// The number of allocations is the clock: it may grow at
					// most a little faster than the square of the length
					// ratio (constant work per token, at most a few re-reads).
					if prev > 0 {
						ratio := work / prev
						lim := 3 * (l / prevLen) * (l / prevLen)
						if ratio > lim {
							c.Fail("%s: growing the text from %.0f to %.0f bytes takes %.1f times the work (%.0f -> %.0f allocations)", fam.name, prevLen, l, ratio, prev, work)
						}
					}
					if work > 20000+l*l*40 {
						c.Fail("%s: %.0f allocations for %.0f bytes", fam.name, work, l)
					}
					prev, prevLen = work, l
				}
				c.Cover("nesting " + fam.name)
				c.Sample(fam.name + ": " + fam.make(3))
			}},
			{Name: "random nesting", Serial: true, Quick: 150, Thorough: 4000, Run: func(c *Case) {
				// A random repeated context: prefix^n core suffix^n.
				pre := soupTokens[c.IntN(len(soupTokens))] + openers[c.IntN(len(openers))] + soupTokens[c.IntN(len(soupTokens))]
				post := soupTokens[c.IntN(len(soupTokens))] + closers[c.IntN(len(closers))] + soupTokens[c.IntN(len(soupTokens))]
				start := []string{"", "#", "#{", "#[", "#("}[c.IntN(5)]
				mk := func(n int) string { return start + strings.Repeat(pre, n) + "x" + strings.Repeat(post, n) }
				c.Input = mk(20)
				var prev, prevLen float64
				for _, n := range []int{10, 20, 40} {
					src := mk(n)
					work := mallocs(func() { syntax.Parse(src) })
					c.Eval(1)
					l := float64(len(src))
					if prev > 0 && work/prev > 4*(l/prevLen)*(l/prevLen) && work > 20000 {
						c.Fail("growing %q^n from %.0f to %.0f bytes takes %.1f times the work (%.0f -> %.0f allocations)", pre+"…"+post, prevLen, l, work/prev, prev, work)
					}
					prev, prevLen = work, l
				}
				c.Distinct(pre, post, start)
			}},
			{Name: "long texts", Serial: true, Quick: 350, Thorough: 12000, Run: longText},
			{Name: "long flat", Serial: true, Quick: 20, Thorough: 200, Run: func(c *Case) {
				// A random unit repeated many times.
				u := soup(c, 6)
				mk := func(n int) string { return strings.Repeat(u, n) }
				c.Input = mk(3)
				var prev, prevLen float64
				for _, n := range []int{50, 100, 200, 400} {
					src := mk(n)
					work := mallocs(func() { syntax.Parse(src) })
					c.Eval(1)
					l := float64(len(src))
					if prev > 0 && work/prev > 4*(l/prevLen)*(l/prevLen) {
						c.Fail("growing %q^n from %.0f to %.0f bytes takes %.1f times the work", u, prevLen, l, work/prev)
					}
					prev, prevLen = work, l
				}
				c.Distinct(u)
			}},
		},
	})

	// P03: what the nodes say about themselves.
	bookkeeping := func(name string, text func(c *Case) string, q, t int) Group {
		return Group{Name: name, Quick: q, Thorough: t, Run: func(c *Case) {
			src := text(c)
			root := parseChecked(c, src)
			checkTree(c, root, src)
			c.Distinct(shape(root))
			if len(src) > 10 && len(src) < 100 {
				c.Sample(fmt.Sprintf("%q", src))
			}
		}}
	}
	register(&Prop{
		ID:   "P03",
		Rule: "a parsed text counts by the shape of its tree",
		Groups: []Group{
			bookkeeping("soup", func(c *Case) string { return soup(c, 40) }, 30000, 900000),
			bookkeeping("chars", func(c *Case) string { return charSoup(c, 24) }, 30000, 900000),
			bookkeeping("mutated", func(c *Case) string { return mutate(c, genDocument(c, 150), 1+c.IntN(4)) }, 15000, 300000),
			bookkeeping("large", func(c *Case) string { return mutate(c, genDocument(c, 6000), c.IntN(6)) }, 60, 1500),
			{Name: "repaired", Quick: 15000, Thorough: 300000, Run: func(c *Case) {
				// Mistakes that come and go in texts without any.
				src := blockText(c)
				if c.IntN(2) == 0 {
					src = genDocument(c, 20+c.IntN(200))
				}
				h := newHistory(c, src)
				for i := 0; i < 3; i++ {
					a := boundary(c, h.text)
					b := a
					if c.IntN(3) == 0 && a < len(h.text) {
						_, w := utf8.DecodeRuneInString(h.text[a:])
						b += w
					}
					h.edit(a, b, []string{"*", "#(", "]", "#", "\"", "#let", "}", "_", "$", "/*", ")", "", "1x"}[c.IntN(13)])
					checkTree(c, h.s.Root, h.text)
					h.undo()
					checkTree(c, h.s.Root, h.text)
				}
				c.Distinct(shape(h.s.Root))
			}},
			{Name: "edited", Quick: 12000, Thorough: 100000, Run: func(c *Case) {
				// The same facts after edits of a source file.
				src := anyText(c, 80)
				h := newHistory(c, src)
				for i := 0; i < 4; i++ {
					h.step()
					checkTree(c, h.s.Root, h.text)
				}
				c.Distinct(shape(h.s.Root))
			}},
		},
	})
}

// emptyAllowed says which tokens may be empty: the pieces of raw text.
func emptyAllowed(k syntax.SyntaxKind) bool {
	return k == syntax.SyntaxKindText || k == syntax.SyntaxKindRawTrimmed
}

// checkTree checks a whole tree against its source text.
func checkTree(c *Case, root *syntax.SyntaxNode, src string) {
	c.Eval(1)
	if k := nodeKind(root); k != syntax.SyntaxKindMarkup {
		c.Fail("the root of a document is a %s node", k.Name())
	}
	if msg := checkBookkeeping(root); msg != "" {
		c.Fail("%s\n%s", msg, pretty(root))
	}
	fl := flatten(root)
	if got := fl[0].end; got != len(src) {
		c.Fail("the tree covers %d bytes of %d", got, len(src))
	}
	seen := map[*syntax.SyntaxNode]bool{}
	for _, f := range fl {
		if seen[f.n] {
			c.Fail("the %s node at byte %d occurs twice in the tree", f.kind.Name(), f.start)
		}
		seen[f.n] = true
		c.Cover("node " + f.kind.Name())
		if e, ok := f.n.Repr.(*syntax.ErrorNode); ok {
			if e.Error == nil || e.Error.Message == "" {
				c.Fail("error node at byte %d has no message", f.start)
			}
			continue
		}
		if f.kind == syntax.SyntaxKindEnd {
			c.Fail("end token inside the tree at byte %d", f.start)
		}
		if f.kind == syntax.SyntaxKindError {
			c.Fail("node at byte %d has the error kind but is no error node", f.start)
		}
		inner := innerKinds[f.kind]
		if f.leaf && inner {
			c.Fail("%s at byte %d is a leaf", f.kind.Name(), f.start)
		}
		if !f.leaf && !inner && !(f.kind == syntax.SyntaxKindMathIdent) {
			c.Fail("%s at byte %d has children", f.kind.Name(), f.start)
		}
	}
	if len(fl) > 1 {
		c.Cover("trees")
	}
}

// innerKinds are the kinds that group other nodes.
var innerKinds = map[syntax.SyntaxKind]bool{}

func init() {
	for _, k := range []syntax.SyntaxKind{
		syntax.SyntaxKindMarkup, syntax.SyntaxKindStrong, syntax.SyntaxKindEmph, syntax.SyntaxKindRaw, syntax.SyntaxKindRef, syntax.SyntaxKindHeading,
		syntax.SyntaxKindListItem, syntax.SyntaxKindEnumItem, syntax.SyntaxKindTermItem, syntax.SyntaxKindEquation, syntax.SyntaxKindMath,
		syntax.SyntaxKindMathDelimited, syntax.SyntaxKindMathAttach, syntax.SyntaxKindMathPrimes, syntax.SyntaxKindMathFrac, syntax.SyntaxKindMathRoot,
		syntax.SyntaxKindCode, syntax.SyntaxKindCodeBlock, syntax.SyntaxKindContentBlock, syntax.SyntaxKindParenthesized, syntax.SyntaxKindArray,
		syntax.SyntaxKindDict, syntax.SyntaxKindNamed, syntax.SyntaxKindKeyed, syntax.SyntaxKindUnary, syntax.SyntaxKindBinary, syntax.SyntaxKindFieldAccess,
		syntax.SyntaxKindFuncCall, syntax.SyntaxKindArgs, syntax.SyntaxKindSpread, syntax.SyntaxKindClosure, syntax.SyntaxKindParams, syntax.SyntaxKindLetBinding,
		syntax.SyntaxKindSetRule, syntax.SyntaxKindShowRule, syntax.SyntaxKindContextual, syntax.SyntaxKindConditional, syntax.SyntaxKindWhileLoop,
		syntax.SyntaxKindForLoop, syntax.SyntaxKindModuleImport, syntax.SyntaxKindImportItems, syntax.SyntaxKindImportItemPath,
		syntax.SyntaxKindRenamedImportItem, syntax.SyntaxKindModuleInclude, syntax.SyntaxKindLoopBreak, syntax.SyntaxKindLoopContinue,
		syntax.SyntaxKindFuncReturn, syntax.SyntaxKindDestructuring, syntax.SyntaxKindDestructAssignment,
	} {
		innerKinds[k] = true
	}
}

// mallocs counts the allocations of fn.
func mallocs(fn func()) float64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	fn()
	runtime.ReadMemStats(&b)
	return float64(b.Mallocs - a.Mallocs)
}

func allocated(fn func()) float64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	fn()
	runtime.ReadMemStats(&b)
	return float64(b.TotalAlloc - a.TotalAlloc)
}

// longText repeats a few pieces, line after line. As long as the tree does not
// get deeper, six times the text may take about six times the work: the bytes
// allocated are the clock, and with a wide margin the time.
func longText(c *Case) {
	kind := c.IntN(3)
	pieces := [][]string{refCodePieces, refMarkupPieces, refMathPieces}[kind]
	around := [][][2]string{
		{{"#{\n", "\n}"}, {"#(", ")"}, {"#f(", ")"}, {"#(", ") => a"}},
		{{"", ""}, {"#[", "]"}, {"- ", ""}, {"= ", ""}},
		{{"$", "$"}, {"$fn(", ")$"}, {"$ ", ""}},
	}[kind]
	out := around[c.IntN(len(around))]
	unit := ""
	for i, n := 0, 1+c.IntN(3); i < n; i++ {
		unit += pieces[c.IntN(len(pieces))] + []string{"", " ", ", "}[c.IntN(3)]
	}
	unit += "\n"
	c.Input = fmt.Sprintf("%q, a repetition of %q, %q", out[0], unit, out[1])
	mk := func(size int) string { return out[0] + strings.Repeat(unit, size/len(unit)+1) + out[1] }
	small, large := mk(4000), mk(24000)
	depth := func(text string) int {
		d := 0
		var rec func(n *syntax.SyntaxNode, k int)
		rec = func(n *syntax.SyntaxNode, k int) {
			d = max(d, k)
			for _, ch := range children(n) {
				rec(ch, k+1)
			}
		}
		rec(syntax.Parse(text), 0)
		return d
	}
	c.Eval(1)
	if depth(small) != depth(large) {
		c.Cover("texts that nest")
		return
	}
	for _, f := range flatten(syntax.Parse(small)) {
		// What is nested can end up as the text of one mistake.
		if f.kind == syntax.SyntaxKindError && f.end-f.start > 200 {
			c.Cover("texts with a long mistake")
			return
		}
	}
	a, b := allocated(func() { syntax.Parse(small) }), allocated(func() { syntax.Parse(large) })
	if b/a > 12 {
		c.Fail("six times the text, from %d to %d bytes, allocates %.1f times as much (%.0f and %.0f bytes)", len(small), len(large), b/a, a, b)
	}
	fastest := func(text string, n int) time.Duration {
		best := time.Hour
		for i := 0; i < n; i++ {
			t := time.Now()
			syntax.Parse(text)
			best = min(best, time.Since(t))
		}
		return best
	}
	huge := mk(120000)
	if t := fastest(huge, 1); t > 3*time.Second {
		// Five times the text of large: a linear parser takes five times as long.
		l, h := fastest(large, 5), fastest(huge, 3)
		if h > 15*l {
			c.Fail("%d bytes take %v, %d bytes %v", len(large), l, len(huge), h)
		}
	}
	c.Cover("long texts")
	c.Distinct(unit, out[0])
	c.Sample(c.Input)
}

type nestFamily struct {
	name string
	make func(n int) string
}

func rep(pre, core, post string) func(n int) string {
	return func(n int) string { return strings.Repeat(pre, n) + core + strings.Repeat(post, n) }
}

func wrapRep(start, pre, core, post, end string) func(n int) string {
	f := rep(pre, core, post)
	return func(n int) string { return start + f(n) + end }
}

// nestFamilies are contexts that can be nested to any depth. Constructs whose
// meaning is only known at their end (closures, destructuring) are the ones
// where a backtracking parser can take exponential time.
var nestFamilies = []nestFamily{
	{"parens", wrapRep("#{", "(", "1", ")", "}")},
	{"closure defaults", wrapRep("#{", "(x: ", "1", ") => y", "}")},
	{"closure defaults in parens", wrapRep("#", "(x: (", "1", ")) => y", "")},
	{"closure bodies", wrapRep("#{", "(x) => ", "1", "", "}")},
	{"closure in args", wrapRep("#{", "f((x: ", "1", ") => y)", "}")},
	{"destructuring", wrapRep("#{", "(a, (b: ", "c", ")) = 1", "}")},
	{"nested destructuring", wrapRep("#{", "(a, ", "c", ")", " = 1}")},
	{"let destructuring", wrapRep("#{let ", "(a, ", "c", ")", " = 1}")},
	{"destructuring values", wrapRep("#{", "(a, b) = ", "c", "", "}")},
	{"arrays", wrapRep("#", "(1, ", "1", ")", "")},
	{"dicts", wrapRep("#{", "(a: ", "1", ")", "}")},
	{"dict of closures", wrapRep("#{", "(a: (b) => ", "1", ")", "}")},
	{"content blocks", rep("#[", "x", "]")},
	{"code blocks", wrapRep("#", "{", "x", "}", "")},
	{"mixed blocks", wrapRep("#{", "[#{", "x", "}]", "}")},
	{"calls", wrapRep("#{", "f(", "x", ")", "}")},
	{"strong emph", func(n int) string { return strings.Repeat("*_", n) + "x" + strings.Repeat("_*", n) }},
	{"unary", wrapRep("#{", "- ", "x", "", "}")},
	{"not", wrapRep("#{", "not ", "x", "", "}")},
	{"additions", wrapRep("#{x", " + x", "", "", "}")},
	{"ifs", wrapRep("#", "if a { ", "x", " } else { y }", "")},
	{"else ifs", wrapRep("#{if a {}", " else if b {}", "", "", "}")},
	{"unclosed parens", wrapRep("#{", "(", "", "", "")},
	{"unclosed closures", wrapRep("#{", "(x: ", "", "", "")},
	{"unclosed brackets", rep("#[", "", "")},
	{"unclosed args", wrapRep("#", "f(", "", "", "")},
	{"half closures", wrapRep("#{", "(x: ", "1", ") =>", "}")},
	{"spreads", wrapRep("#{", "(..", "a", ")", "}")},
	{"sinks", wrapRep("#{", "(..a, b: ", "1", ") => c", "}")},
	{"lists", func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(strings.Repeat(" ", i) + "- x\n")
		}
		return b.String()
	}},
	{"list on one line", rep("- ", "x", "")},
	{"block comments", rep("/*", "x", "*/")},
	{"backticks", func(n int) string { return strings.Repeat("` ", n) + strings.Repeat("``` ", n) }},
	{"show rules", wrapRep("#", "show: ", "x", "", "")},
	{"context", wrapRep("#{", "context ", "x", "", "}")},
	{"keyed closures", wrapRep("#{", "((x): (", "1", ") => y)", "}")},
	{"assign chain", wrapRep("#{", "a = ", "1", "", "}")},
	{"paren closures both sides", wrapRep("#{", "((a) => (b), c: ", "1", ") => d", "}")},
}

var openers = []string{"(", "[", "{", "(x: ", "f(", "(a, ", "*", "_", "#[", "#{", "if a {", "(x) => ", "\n- ", ""}
var closers = []string{")", "]", "}", ") => y", ") = 1", ",)", "*", "_", ")[", ""}

// codeLayers are contexts of a code expression that are code expressions.
var codeLayers = [][2]string{
	{"(", ")"}, {"(", ",)"}, {"(a, ", ")"}, {"(a: ", ")"}, {"(..", ")"}, {"(\"a\": ", ", b: 1)"}, {"(((", ")))"},
	{"f(", ")"}, {"f(a: ", ")"}, {"f(..", ", b)"}, {"f[#(", ")]"}, {"f(x)[#", "][y]"}, {"(", ")(y)"}, {"(f(", ").a, b)"},
	{"[#(", ")]"}, {"[#{", "}]"}, {"[$#(", ")$]"}, {"$fn(#(", "))$"}, {"[- #{", "}]"}, {"{", "}"}, {"{let x = ", "}"}, {"{", "; y}"}, {"{let (a, b) = ", "}"},
	{"(x: ", ") => y"}, {"(x, (a: ", ")) => y"}, {"(x) => ", ""}, {"x => ", ""}, {"(", ") => y"}, {"((", ")) => y"}, {"(..x, y: ", ") => z"}, {"(_, (", ")) => y"},
	{"(", ").a"}, {"1 + ", ""}, {"", " + 1"}, {"not ", ""}, {"-", ""}, {"(", ") + (1)"},
	{"(", ",) = 1"}, {"(a, ", ") = 1"}, {"(a: ", ") = 1"}, {"(", ").a = 1"}, {"(f(", ").a,) = 1"}, {"(a: f(", ").b) = c"}, {"((", ",),) = 1"}, {"(..(", ")) = 1"}, {"(a, b) = ", ""}, {"({", "},) = 1"}, {"([#(", ")],) = 1"}, {"(a: (b, ", ")) = 1"},
	{"((x: ", ") => y)(z)"}, {"(a: (x: ", ") => y)"}, {"f((x: ", ") => y, z)"}, {"((x: ", ") => y).a"}, {"((x: ", ") => y,) = 1"},
	{"if ", " {}"}, {"if a { ", " } else { b }"}, {"if (", ") == 1 {} else if b {}"}, {"while ", " {}"}, {"for x in ", " {}"}, {"for (a, (b: ", ")) in c {}"}, {"for x in y { ", " }"},
	{"let (a, ", ") = 1"}, {"let f(x: ", ") = y"}, {"let f((a: ", ")) = y"}, {"let x = ", ""}, {"show ", ": y"}, {"show x: ", ""}, {"set f(", ")"}, {"set f(a) if ", ""}, {"context ", ""}, {"return ", ""}, {"import ", ": a"}, {"include ", ""},
	{"(x: (", ") =>"}, {"(x: ", ") ="}, {"(x: ", " => y"}, {"(", " = 1"}, {"(a, ", ") => "}, {"(a b ", ") => y"}, {"(1, ", ") => y"}, {"(a: , ", ") => y"}, {"(a =, ", ") = y"},
}

// layersCase nests a few random layers into each other again and again. A
// text that is read more than a bounded number of times because of each layer
// takes exponential time, which shows at the first steps.
func layersCase(c *Case) {
	n := 1 + c.IntN(4)
	pre, post := "", ""
	for i := 0; i < n; i++ {
		l := codeLayers[c.IntN(len(codeLayers))]
		// Line ends and comments between the layers.
		gap := func() string { return "" }
		if c.IntN(3) == 0 {
			gap = func() string { return []string{"", "", "\n", "\n\n", " ", "/*-*/", "//-\n"}[c.IntN(7)] }
			c.Cover("layers with line ends")
		}
		pre, post = pre+gap()+l[0]+gap(), gap()+l[1]+gap()+post
	}
	outer := [][2]string{{"#{", "}"}, {"#(", ")"}, {"#let x = ", ""}, {"#f(", ")"}, {"$#(", ")$"}, {"#(", ") => y"}, {"#{(", ") = 1}"}}[c.IntN(7)]
	core := []string{"x", "1", "(x)", "(x) => y", "", "(a, b) = c"}[c.IntN(6)]
	if c.IntN(4) == 0 {
		// Layers that are never closed.
		post = []string{"", ")", "]", "}"}[c.IntN(4)]
	}
	mk := func(k int) string {
		return outer[0] + strings.Repeat(pre, k) + core + strings.Repeat(post, k) + outer[1]
	}
	c.Input = mk(8)
	var prev, prevLen float64
	for _, k := range []int{2, 5, 8, 11, 14, 20} {
		src := mk(k)
		c.Input = src
		work := mallocs(func() {
			if got := sourceText(syntax.Parse(src)); got != src {
				c.Fail("the leaves of the tree spell %q, the source is %q", got, src)
			}
		})
		c.Eval(1)
		l := float64(len(src))
		if prev > 0 && work/prev > 4*(l/prevLen)*(l/prevLen) && work > 3000 || work > 20000+l*l*40 {
			c.Fail("growing %q^n from %.0f to %.0f bytes takes %.1f times the work (%.0f -> %.0f allocations)", pre+"…"+post, prevLen, l, work/prev, prev, work)
		}
		prev, prevLen = work, l
	}
	c.Cover(fmt.Sprintf("layers %d", n))
	c.Distinct(pre, post, core, outer[0])
	c.Sample(strings.Repeat(pre, 2) + core + strings.Repeat(post, 2))
}
