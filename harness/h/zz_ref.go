package main

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// The groups that compare whole texts with the reference parser.

func addGroups(id string, gs ...Group) { props[id].Groups = append(props[id].Groups, gs...) }

func init() {
	nc, nm, nx := len(refCodePieces), len(refMarkupPieces), len(refMathPieces)
	group := func(name string, q, t int, text func(c *Case) string, mistakes bool) Group {
		return Group{Name: name, Quick: q, Thorough: t, Run: func(c *Case) { refCase(c, text(c), mistakes) }}
	}
	short := func(c *Case) string { return refCodeText(c, 5) }
	tail := func(c *Case) string {
		// What follows code behind a hash.
		g := newGen(c, 12)
		return "#" + g.primary(nlAll, 2).n.src() + piecesOf(c, refMarkupPieces, 3)
	}
	tailStmt := func(c *Case) string {
		g := newGen(c, 12)
		return "#" + g.keywordExpr(nlAll, 2).n.src() + piecesOf(c, refMarkupPieces, 3)
	}
	firstLine := func(c *Case) string {
		// A first line for the shell, up to the end of a line of any kind.
		var b strings.Builder
		b.WriteString([]string{"#!", "#!", "#!", "#! ", "#!/", " #!", "#", "\n#!"}[c.IntN(8)])
		for i, n := 0, c.IntN(6); i < n; i++ {
			b.WriteString([]string{"sh", " ", "\t", "#!", "*a*", "//", "/*", "é", "[", "\\", "\u00a0", "\ufeff", "$"}[c.IntN(13)])
		}
		b.WriteString([]string{"", "\n", "\r", "\r\n", "\v", "\f", "\u0085", "\u2028", "\u2029", "\n\n", "\r\r"}[c.IntN(11)])
		return b.String() + piecesOf(c, refMarkupPieces, 3)
	}
	number := func(c *Case) string {
		t := numText(c)
		switch c.IntN(3) {
		case 0:
			// Another base, with digits and units that look like each other.
			t = "0" + pick(c, []string{"b", "o", "x"}, 1)
			for i, n := 0, c.IntN(5); i < n; i++ {
				t += []string{"0", "1", "7", "8", "f", "e", "em", "cm", "pt", "deg", "rad", "in", "fr", "%", "g", "ffffffffffffffff", "7fffffffffffffff", ".5"}[c.IntN(18)]
			}
		case 1:
			t += []string{"em", "EM", "e", "pt", "p", "mm", "cm", "in", "deg", "rad", "fr", "%", "%%", "x", "ptx", "e5pt", "e+5em"}[c.IntN(17)]
		}
		return [][2]string{{"#", ""}, {"#", " "}, {"#{", "}"}, {"#(", ", a)"}, {"#f(", ")"}, {"#{a", "}"}, {"$#", "$"}}[c.IntN(7)][0] + t + []string{"", " b", "}", ")", "$"}[c.IntN(5)]
	}
	shaped := func(text func(c *Case) string) func(c *Case) {
		return func(c *Case) {
			src := text(c)
			root := parseChecked(c, src)
			c.Eval(1)
			if got := sourceText(root); got != src {
				c.Fail("the leaves of the tree spell %q, the source is %q", got, src)
			}
			c.Distinct(shape(root))
		}
	}
	addGroups("P01",
		Group{Name: "statements and lists", Quick: 40000, Thorough: 1000000, Run: shaped(refShaped)},
		Group{Name: "shapes of markup", Quick: 20000, Thorough: 600000, Run: shaped(func(c *Case) string { return refMarkupShape(c, 2) })},
	)
	addGroups("P07",
		group("first line", 6000, 200000, firstLine, false),
	)
	addGroups("P04",
		Group{Name: "pairs in a block", Quick: nc, Thorough: 40 * nc, Run: refPairs(refCodePieces, "#{", "}", false)},
		Group{Name: "pairs in parentheses", Quick: nc, Thorough: 20 * nc, Run: refPairs(refCodePieces, "#(", ")", false)},
		group("pieces of code", 50000, 2000000, short, false),
		group("statements and lists", 40000, 1500000, refShaped, false),
		group("behind an expression", 25000, 800000, tail, false),
		group("pieces in a document", 8000, 300000, func(c *Case) string { return refEdited(c, refCodePieces) }, false),
	)
	addGroups("P05",
		Group{Name: "pairs behind a hash", Quick: nc, Thorough: 40 * nc, Run: refPairs(refCodePieces, "#", "", false)},
		Group{Name: "pairs in a block", Quick: nc, Thorough: 20 * nc, Run: refPairs(refCodePieces, "#{", "}", false)},
		group("pieces of code", 50000, 2000000, short, false),
		group("statements and lists", 40000, 1500000, refShaped, false),
		group("behind a statement", 25000, 800000, tailStmt, false),
		group("behind an expression", 15000, 400000, tail, false),
		group("pieces in a document", 8000, 300000, func(c *Case) string { return refEdited(c, refCodePieces) }, false),
	)
	addGroups("P06",
		Group{Name: "every character", Quick: 0x110000 / 512, Thorough: 0x110000 / 512, Run: everyCharIn("%s", "a%s_b_", "*%s*", "-%s", "@a%s", "#a%s.b", "/ a%s: b", "https://%s.a")},
		Group{Name: "pairs", Quick: nm, Thorough: 40 * nm, Run: refPairs(refMarkupPieces, "", "", false)},
		Group{Name: "pairs on a line", Quick: nm, Thorough: 20 * nm, Run: refPairs(refMarkupPieces, "- a\n  b ", "\nc", false)},
		group("pieces of markup", 60000, 2000000, func(c *Case) string { return piecesOf(c, refMarkupPieces, 12) }, false),
		group("shapes of markup", 60000, 2000000, func(c *Case) string { return refMarkupShape(c, 2) }, false),
		group("pieces of all kinds", 25000, 800000, func(c *Case) string { return refAnyText(c, 6) }, false),
		group("pieces in a document", 8000, 300000, func(c *Case) string { return refEdited(c, refMarkupPieces) }, false),
	)
	addGroups("P08",
		Group{Name: "pairs in a block", Quick: nc, Thorough: 20 * nc, Run: refPairs(refCodePieces, "#{", "}", true)},
		Group{Name: "pairs behind a hash", Quick: nc, Thorough: 20 * nc, Run: refPairs(refCodePieces, "#", "", true)},
		Group{Name: "pairs of arguments", Quick: nc, Thorough: 20 * nc, Run: refPairs(refCodePieces, "#f(", ")", true)},
		Group{Name: "pairs in parentheses", Quick: nc, Thorough: 20 * nc, Run: refPairs(refCodePieces, "#{(", ") => a}", true)},
		Group{Name: "pairs in a pattern", Quick: nc, Thorough: 20 * nc, Run: refPairs(refCodePieces, "#let (", ") = a", true)},
		Group{Name: "pairs of markup", Quick: nm, Thorough: 20 * nm, Run: refPairs(refMarkupPieces, "", "", true)},
		Group{Name: "pairs of math", Quick: nx, Thorough: 20 * nx, Run: refPairs(refMathPieces, "$", "$", true)},
		group("several mistakes in code", 50000, 1500000, func(c *Case) string { return refCodeText(c, 9) }, true),
		group("mistakes in statements and lists", 80000, 2000000, refShaped, true),
		group("several mistakes in markup", 25000, 800000, func(c *Case) string { return piecesOf(c, refMarkupPieces, 12) }, true),
		group("mistakes in shapes of markup", 40000, 1500000, func(c *Case) string { return refMarkupShape(c, 2) }, true),
		group("several mistakes in math", 25000, 800000, func(c *Case) string { return refMathText(c, 10) }, true),
		group("several mistakes", 25000, 800000, func(c *Case) string { return refAnyText(c, 8) }, true),
		group("mistakes in a document", 10000, 300000, func(c *Case) string {
			return refEdited(c, [][]string{refCodePieces, refMarkupPieces}[c.IntN(2)])
		}, true),
		group("numbers", 20000, 600000, number, true),
		group("soup", 10000, 300000, refSoup, true),
	)
	addGroups("P29",
		Group{Name: "every character", Quick: 0x110000 / 512, Thorough: 0x110000 / 512, Run: everyCharIn("$%s$", "$fn(%s x)$", "$%s a)/2$", "$(a %s/2$", "$%s(a)^b$", "$a_%sb$", "$a%s'$")},
		Group{Name: "pairs with code", Quick: nx, Thorough: 40 * nx, Run: refPairs(refMathPieces, "$", "$", false)},
		Group{Name: "pairs of arguments", Quick: nx, Thorough: 40 * nx, Run: refPairs(refMathPieces, "$sin(", ")$", false)},
		Group{Name: "starts of arguments", Quick: len(argStarts), Thorough: len(argStarts), Run: argStartCase},
		group("pieces with code", 50000, 2000000, func(c *Case) string { return refMathText(c, 8) }, false),
		group("pieces of arguments", 30000, 1000000, func(c *Case) string {
			return "$" + pick(c, refMathPieces, c.IntN(2)) + []string{"f(", "sin(", "mat(", "a.b("}[c.IntN(4)] + piecesOf(c, refMathPieces, 7) + ")" + pick(c, refMathPieces, c.IntN(2)) + "$"
		}, false),
	)
}

// argStarts are starts of arguments of a call in math; argStartCase puts all
// short strings of the characters that decide their meaning behind each.
var argStarts = []string{"", "a", "ab", "_", "_a", "a-b", "a.b", "1", "é", "#x", ".", "(a)", "a'"}

func argStartCase(c *Case) {
	const alphabet = ":=. ,x"
	var rec func(t string, n int)
	rec = func(t string, n int) {
		for _, around := range []string{"$sin(%s)$", "$sin(b, %s c)$"} {
			text := strings.Replace(around, "%s", t, 1)
			mathCase(c, text)
			refCase(c, text, false)
		}
		if n > 0 {
			for _, r := range alphabet {
				rec(t+string(r), n-1)
			}
		}
	}
	rec(argStarts[c.Index], 4)
}

// everyCharIn puts every character into each of some texts, 512 per case.
func everyCharIn(texts ...string) func(c *Case) {
	return func(c *Case) {
		for r := rune(c.Index) * 512; r < rune(c.Index+1)*512; r++ {
			boring := !unicode.In(r, unicode.L, unicode.M, unicode.N, unicode.P, unicode.S, unicode.Z, unicode.Cc, unicode.Cf) || unicode.In(r, unicode.Han, unicode.Hangul)
			if !utf8.ValidRune(r) || boring && (int(r)+int(c.Seed))%16 != 0 {
				continue
			}
			for _, t := range texts {
				refCase(c, strings.Replace(t, "%s", string(r), 1), false)
			}
		}
	}
}
