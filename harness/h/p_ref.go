package main

import "strings"

// Pieces for the reference parser.

var refCodePieces = []string{
	" ", " ", " ", "\n", "\n  ", "\n\n", "/* c */", "// c\n",
	"a", "b", "x", "f", "_", "1", "2.5", "3pt", "4%", "\"s\"", "\"k\"", "none", "auto", "true", "<l>", "`r`", "$x$", "$ a/b $",
	"(", ")", "[", "]", "{", "}", "()", "[]", "{}", "(,)", "(:)", "(a)", "(a,)", "(a: 1)", "(..a)", "(a, b)", "(\"k\": 1)", "(a, (b))",
	",", ", ", ";", "; ", ":", ": ", ".", "..", "=", " = ", "==", "!=", "<", "<=", ">", "+", "-", "*", "/", "+=", "-=", "=>", " => ", "−",
	"let ", "let", "set ", "show ", "if ", "else ", "else", "for ", "in ", " in ", "while ", "import ", "include ", "context ", "return ", "return", "break", "continue", " as ", "as", "not ", " and ", " or ", " not in ",
	"x => ", "(x) => ", "(x, y) => ", "(a: ", "(a, b) = ", "(a,) = ", "f(", "f[", "f(x)", "f(x)[y]", "f(a: 1)", ".at(0)", ".b", "a.b", "let x = ", "let f(x) = ", "let (a, b) = ",
	"if a {b}", "if a [b]", "while a {", "for x in y {", "for (k, v) in ", "set f(", "set f(a)", "show: ", "show a: ", "import \"a\"", "import \"a\": ", "import \"a\": b", "\"a\": (", "as b",
	"?", "!", "&", "5xyz", "0b12", "1e", "*/", "\"", "`", "<l",
}

var refMarkupPieces = []string{
	" ", " ", " ", "  ", "\n", "\n", "\n\n", "\n  ", "\n    ", "\r\n", "\t", "/* c */", "// c\n",
	"a", "word", "b c", "x", "1", "é", "日", "h", "*", "*", "_", "_", "*a*", "_a_", "`r`", "```t r```", "<l>", "@r", "@r[", "@r.", "http://a.b", "https://a.b/(", "~", "--", "...", "-?", "'", "\"",
	"= ", "== ", "\n= ", "\n== h", "- ", "\n- ", "\n  - ", "+ ", "\n+ ", "1. ", "\n2. ", "\n / ", "/ ", "/ t", "\n/ t: ", "/ a: b", ":", ": ", "[", "]", "[", "]", "\\", "\\ ", "\\#", "\\u{41}", "\\u{zz}", "\\u{",
	"#", "#x", "#x ", "#f(1)", "#f[", "#[", "#{", "}", "#(", ")", ";", ".", ".y", "#x.y", "#1", "#1pt", "#\"s\"", "#none", "(", "#let x = 1", "#let x = 1\n", "#let f(x) = ", "#if a {}", "#if a [", "else", " else ", "\nelse ", "else {}",
	"#for x in y {", "#while a [b]", "#set f(a)", "#set f(a)\n", "#show: f\n", "#show a: b", "#import \"a\": b", "#include \"a\"\n", "#context x", "#return", "#break", "=>", " => ", "=", "+", "-", "$x$", "$", "$ x ", "#_", "<l", "*/", "!", "?", "`", ",",
	"[a]", "{a}", "(a)",
}

var refMathPieces = []string{" ", " ", "a", "x", "ab", "f", "pi", "a.b", "1", "2.5", "(", ")", "[", "]", "{", "}", "|", "||", "[|", "|]", "_", "^", "/", "'", "''", "!", "&", "√", "∛", "+", "-", "*", ",", ";", ":", ":=", "->", "...", "..", ".",
	"\"s\"", "\\$", "\\ ", "\\u{41}", "\\u{zz}", "#x", "#f(x)", "#(1)", "#{1}", "#", "#x;", "#[a]", "#let x = 1", "f(", "f(a, b", "mat(", "mat(1; 2", "sin(x: ", "sin(..", "x:", "_:", "\"", "\n", "/* c */", "*/", "`", "é", "⟨", "⟩", "<", "∑", "⎰", "⎱", "⟅", "⟆"}

func piecesOf(c *Case, from []string, n int) string { return pick(c, from, 1+c.IntN(n)) }

// A text of code pieces in a block, in parentheses or directly behind a hash.
func refCodeText(c *Case, n int) string {
	t := piecesOf(c, refCodePieces, n)
	switch c.IntN(8) {
	case 0:
		return "#" + t
	case 1:
		return "#(" + t + ")"
	case 2:
		return "#f(" + t + ")"
	case 3:
		return "#let " + t
	case 4:
		return "#{" + t
	default:
		return "#{" + t + "}"
	}
}

func refMathText(c *Case, n int) string {
	t := "$" + piecesOf(c, refMathPieces, n)
	if c.IntN(8) > 0 {
		t += "$"
	}
	return t
}

// refAnyText mixes all of them.
func refAnyText(c *Case, n int) string {
	var b strings.Builder
	for i, k := 0, 1+c.IntN(4); i < k; i++ {
		switch c.IntN(4) {
		case 0:
			b.WriteString(refCodeText(c, n))
		case 1:
			if c.IntN(2) == 0 {
				b.WriteString(refMathText(c, n))
			}
		default:
			b.WriteString(piecesOf(c, refMarkupPieces, n))
		}
	}
	return b.String()
}

// refPairs judges all pairs of pieces that start with one of them.
func refPairs(from []string, pre, post string, mistakes bool) func(c *Case) {
	return func(c *Case) {
		a := from[c.Index%len(from)]
		if k := c.Index / len(from); k > 0 {
			a += from[c.IntN(len(from))]
		}
		for _, b := range from {
			refCase(c, pre+a+b+post, mistakes)
		}
	}
}

// refEdited is a well-formed text with a few pieces put in or left out.
func refEdited(c *Case, from []string) string {
	t := genDocument(c, 10+c.IntN(30))
	if c.IntN(3) == 0 {
		return mutate(c, t, 1+c.IntN(2))
	}
	for i, n := 0, 1+c.IntN(2); i < n; i++ {
		at := boundary(c, t)
		t = t[:at] + from[c.IntN(len(from))] + t[at:]
	}
	return t
}

// refSoup draws from the fragments of the other generators, as far as their
// characters have an undisputed class.
func refSoup(c *Case) string {
	for {
		t := pick(c, soupTokens, 1+c.IntN(10))
		if !strings.ContainsAny(t, "\u00ad\u200b\u0000\ufffd\U0001F600\u0301") {
			return t
		}
	}
}

// Statements and lists with places for pieces.
var refTemplates = []string{
	"for § in § §", "for §, § in § §", "for §,§ in § {§}", "for §in§§", "let § = §", "let §=§;§", "let §(§) = §", "let (§, §) = §", "set §(§)", "set §§ if §", "set §.§(§)if§", "show §: §", "show: §", "show §:§ §",
	"import §: §", "import §: §, §", "import § as §", "import § as §: §", "import §: (§, §)", "import §: § as §, §.§", "import §: *§", "include §§", "context §", "return §", "return§",
	"if § §", "if § § else §", "if § {§} else if § {§}", "if §§else§§", "while § §", "while §§§", "§ => §", "(§) => §", "(§, §) => §", "(§, §) = §", "§(§)", "§(§, §)§", "§[§](§)", "§.§", "§.§(§)", "§ + §", "§ = §", "§ in §", "§ not in §", "not § in §", "- §", "§ and § or §",
	"{§; §}", "{§\n§}", "[§]", "(§: §)", "(§: §, §: §)", "(§, §: §)", "(..§, §)", "(..§, ..§)", "f(§: §, §)", "f(..§, §: §)", "break §", "continue§", "{break§continue}", "§ /* § */ §", "§ // §\n §",
}

var refItems = []string{"a", "b", "a", "..a", "..b", "..", "..c", "a: 1", "b: 2", "a: (b)", "\"a\": 1", "\"b\": c", "", " ", "_", "(a)", "(b, c)", "1", "none", "(a: b)", "..(a)", "a.b", "f(a)", "a: b: c", "a b", "if", "\"a\"", "a => b", "(a): 1", "a = 1", "..a: 1", "[ ]", "{ }", "[\n]", "[/**/]", "f[ ]", "$ $", "[a\r]", "{\r}", "f(\n)", "/**/a", "\na", "*", ":", "x: ", ": x", "a:", ":a"}

// refTemplateText fills a template; the places take pieces, small expressions
// and templates again.
func refTemplateText(c *Case, depth int) string {
	t := refTemplates[c.IntN(len(refTemplates))]
	var b strings.Builder
	for _, part := range strings.SplitAfter(t, "§") {
		rest, hole := strings.CutSuffix(part, "§")
		b.WriteString(rest)
		if !hole {
			continue
		}
		switch k := c.IntN(10); {
		case k < 4:
			b.WriteString(refItems[c.IntN(len(refItems))])
		case k < 6:
			b.WriteString(refCodePieces[c.IntN(len(refCodePieces))])
		case k < 8 && depth > 0:
			b.WriteString(refTemplateText(c, depth-1))
		case k < 9:
			b.WriteString([]string{"{a}", "[b]", "(c)", "x"}[c.IntN(4)])
		}
	}
	return b.String()
}

// refListText is a list in one of the places where lists stand.
func refListText(c *Case) string {
	var items []string
	for i, n := 0, c.IntN(6); i < n; i++ {
		items = append(items, refItems[c.IntN(len(refItems))])
	}
	l := strings.Join(items, []string{",", ", ", ",\n"}[c.IntN(3)])
	if c.IntN(4) == 0 {
		l += ","
	}
	around := [][2]string{{"(", ")"}, {"f(", ")"}, {"(", ") => x"}, {"(", ") = x"}, {"let (", ") = x"}, {"let f(", ") = x"}, {"for (", ") in x {}"}, {"import \"m\": ", ""}, {"import \"m\": (", ")"}, {"set f(", ")"}, {"f[](", ")[]"}, {"let (x, (", ")) = y"}, {"(x: (", ")) => y"}, {"((", "), x) = y"}, {"let (x: (", ")) = y"}}[c.IntN(15)]
	return around[0] + l + around[1]
}

func refShaped(c *Case) string {
	t := ""
	if c.IntN(3) == 0 {
		t = refListText(c)
	} else {
		t = refTemplateText(c, 2)
	}
	w := [][2]string{{"#{", "}"}, {"#{", "}"}, {"#", ""}, {"#", ""}, {"#", "\n" + refMarkupPieces[c.IntN(len(refMarkupPieces))]}, {"#(", ")"}, {"#[#", "]"}, {"$#", "$"}, {"- #", "\n  b"}, {"= #", ""}, {"#{a\n", "\nb}"}, {"*#", "*"}}[c.IntN(12)]
	return w[0] + t + w[1]
}

// Markup with places for pieces.
var refMarkupTemplates = []string{
	"§- §", "§+ §", "§1. §", "§/ §: §", "/ §§: §", "/ §\n§: §", "§= §", "== §§", "- §\n§- §", "- §\n§- §\n§- §", "+ §\n §+ §\n§", "- §\n\n§", "/ §: §\n §/ §: §", "= §\n§", "= §§<l>§",
	"*§*", "*§*§", "_§_", "_§_§", "*§_§_§*", "*§\n§*", "_§\n\n§_ §", "*§", "_§", "[§]", "[§[§]§]", "§]", "[§", "\"§\"", "'§'",
	"#[§]", "#[§- §]", "#[§]§", "#f[§]§", "#f(§)[§]§", "#f[§][§]", "#[§\n§]§", "#[*§]§", "#[_§]", "#[= §]§", "#[- §]§", "#[/ §]§", "#[/ §: §]",
	"@a§", "@a[§]§", "@a[§][§]", "@a.§", "@§", "<§>", "§<l>§", "http://a§", "https://a.b/§ §", "\\§", "\\u{§}", "§~§", "§--§", "§...§", "`§`", "```§```", "``` §\n§```", "$§$", "$ §", "#§", "#x§", "#x;§", "#x.§", "#(§)§", "#let x = §\n§", "#set f(§)\n§", "#show: §\n§", "#if a [§] else [§]§", "#if a [§]\n§", "#{§}§",
	"§\n§", "§\n\n§", "§\n  §", "§\n\t§", "§ // §\n§", "§/*§*/§", "§/* §", "//§\n§", "§\r\n§", "§\u2028§", "§:§", "§\\\n§", "§\\ §",
}

var refMarkupHoles = []string{"", "", " ", " ", "  ", "\n", "\n  ", "\n\n", "a", "b c", "é", "1", "- ", "+ ", "= ", "/ ", "2. ", "*", "_", "[", "]", ":", "/* c */", "/* c\n */", "// c\n", "\t", "<l>", "@r", "#x", "#x ", "$x$", "`r`", "\\", "~", "- a", "/ t: d", "= h", "*s*", "_e_", "#[c]", "(", ")", ".", ";", "\"", "#", "$", "http://x.y"}

// refMarkupShape fills a template of markup.
func refMarkupShape(c *Case, depth int) string {
	t := refMarkupTemplates[c.IntN(len(refMarkupTemplates))]
	var b strings.Builder
	for _, part := range strings.SplitAfter(t, "§") {
		rest, hole := strings.CutSuffix(part, "§")
		b.WriteString(rest)
		if !hole {
			continue
		}
		for n := c.IntN(4); n > 0; n-- {
			if depth > 0 && c.IntN(5) == 0 {
				b.WriteString(refMarkupShape(c, depth-1))
			} else {
				b.WriteString(refMarkupHoles[c.IntN(len(refMarkupHoles))])
			}
		}
	}
	return b.String()
}
