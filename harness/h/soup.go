package main

import (
	"strings"
	"unicode/utf8"
)

// soupTokens are fragments that hit lexer and parser special cases.
var soupTokens = []string{
	" ", " ", " ", "  ", "\n", "\n", "\n\n", "\r\n", "\r", "\t", "\n  ", "\n\t", "\v", "\f", "\u0085", "\u2028", "\u00a0",
	"a", "b", "x", "foo", "hello", "h", "ht", "http", "w0rd", "é", "日本", "한", "हिन्दी", "Ⅷ", "a·b", "a‿b", "ำ", "Ⓐ", "\U0001F600", "\ufffd", "e\u0301", "ß", "Ω",
	"#", "#", "#", "#let ", "#set ", "#show ", "#if ", "#for ", "#while ", "#import ", "#include ", "#context ", "#return ",
	"#break", "#continue", "#{", "#[", "#(", "let ", "set ", "show ", "if ", "else ", "for ", "in ", "while ", "import ",
	"include ", "context ", "return ", "break", "continue", "as ", "not ", "and ", "or ", "not in ", "none", "auto", "true", "false",
	"(", ")", "[", "]", "{", "}", "()", "[]", "{}", "(,)", "(:)", "(a)", "(a,)", "(a: 1)", "(..a)", "(a, b)", "(\"k\": 1)", "((a, b), c)",
	",", ";", ":", ".", "..", "...", "=", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "+=", "-=", "*=", "/=", "=>", "=> ", "−", "−=", "!", "%", "^", "&", "|", "~", "?",
	"_", "__", "*a*", "_a_", "**", "--", "---", "-?", "-1", "'", "\"", "\"str\"", "\"a\\\"b\"", "\"\\u{41}\"",
	"`", "``", "```", "`a`", "```rust fn```", "```\n a\n b\n```", "````", "`` ` ``",
	"= ", "== ", "\n= ", "\n== ", "- ", "\n- ", "\n  - ", "+ ", "\n+ ", "1. ", "\n2. ", "/ ", "\n/ T: d", "/ a: b",
	"//", "// c\n", "/*", "*/", "/* c */", "/* /* */ */", "#!", "#!sh\n",
	"\\", "\\\\", "\\#", "\\\n", "\\ ", "\\u{1F600}", "\\u{110000}", "\\u{", "\\u{zz}", "\\]",
	"<l>", "<", ">", "<a.b:c>", "@r", "@r.", "@r[s]", "@", "@a:b.", "https://a.b/c?d=e", "http://x(y)[z]", "https://", "https://a]",
	"1", "12", "0", "1.5", ".5", "1.", "1e3", "1e", "1E-5", "2em", "3pt", "4%", "5xyz", "0x1F", "0b12", "0o7", "0xg", "1..2", "1.foo", "100deg", "1e3em",
	"x.y", ".at(0)", "f(x)", "f(x)[y]", "f[x]", "f(..a)", "f(a: 1, 2)", "x => y", "(x, y) => z", "(x) = 1", "(x, y) = z", "let x = 1", "let f(x) = y", "let (a, b: c, ..d) = e",
	"if a {b} else {c}", "if a [b] else if c [d] else [e]", "while a {b}", "for x in y {z}", "for (k, v) in d [e]", "set f(a)", "set f(a) if b", "show: f", "show a: set b(c)", "show a: b",
	"import \"a.typ\"", "import \"a.typ\": b, c as d", "import \"a.typ\": *", "import \"a.typ\" as q", "import x: (a.b.c, d)", "import \"@ns/p:1.2.3\"", "include \"c.typ\"", "context x",
	"return", "return x", "x += 1", "-x", "not x", "+x", "a or b and c == d + e * f", "a.b.c(d).e", "[*a* _b_]", "{let y = 2; y}", "none.x", "\u00ad", "\u200b", "\u0000",
}

func soup(c *Case, maxTokens int) string {
	var b strings.Builder
	n := 1 + c.IntN(maxTokens)
	for i := 0; i < n; i++ {
		switch {
		case c.IntN(60) == 0:
			b.WriteString([]string{"$", "$ x $", "$x^2$", "$ a_b $"}[c.IntN(4)])
		case c.IntN(100) == 0:
			b.WriteString(mathSoup(c, 6))
		case c.IntN(40) == 0:
			b.WriteRune(randRune(c))
		default:
			b.WriteString(soupTokens[c.IntN(len(soupTokens))])
		}
	}
	return b.String()
}

// mathTokens are fragments that hit special cases of math.
var mathTokens = []string{
	"a", "b", "x", "y", "f", "pi", "sin", "alpha", "vec", "arrow.r", "a.b", "pi.alt.x", "é", "日", "e\u0301", "कि", "ि", "Ⅷ", "a·b", "x‿y", "ำ", "Ⓐ", "𝔸", "Ω", "1", "2", "12", "3.14", "1.", "٣", ".5",
	"(", ")", "(", ")", "[", "]", "{", "}", "|", "||", "[|", "|]", "⌊", "⌋", "⟨", "⟩", "(x)", "(a, b)", "()", "f(x)", "sin(x)", "vec(a; b)", "mat(1, 2; 3, 4)", "f(x: 1)", "f(..a)", "f(_: 1)",
	"_", "^", "_", "^", "/", "/", "'", "'", "''", "!", "!", "√", "∛", "∜", "&", "\\", "\\ ", "\\#", "\\u{41}", "#x", "#f(y)", "#{1}", "#", "#let z = 1;", "\"str\"", "\"", "...", "..", ".",
	",", ";", ":", ":=", "::=", "-", "->", "-->", "->>", "*", "~", "~>", "~~>", "<-", "<--", "<=", "<==", "<==>", "<->", "<-->", "<=>", "<<", "<<<", "<<-", "<-<", "<~", "<~~", ">->", ">=", ">>", ">>>",
	"=", "==>", "=>", "=:", "!=", "|->", "|=>", "<", ">", "+", "?", "@", "%", "√x", "√(a+b)", "x_1^2", "a/b", "a_b/c", "(a)/(b)", "x'^2", "x_(a)", "`", "//", "/*", "*/", "// c\n", "/* c */",
	" ", " ", " ", " ", "  ", "\n", "\t", "\r\n", "\u00a0", "\ufffd", "\u0000", "\u200d",
}

// mathSoup is an equation of such fragments.
func mathSoup(c *Case, maxTokens int) string {
	var b strings.Builder
	b.WriteByte('$')
	if c.IntN(4) == 0 {
		b.WriteByte(' ')
	}
	for i, n := 0, c.IntN(maxTokens+1); i < n; i++ {
		switch {
		case c.IntN(40) == 0:
			b.WriteRune(randRune(c))
		case c.IntN(30) == 0:
			b.WriteString(soupTokens[c.IntN(len(soupTokens))])
		default:
			b.WriteString(mathTokens[c.IntN(len(mathTokens))])
		}
	}
	if c.IntN(8) != 0 {
		b.WriteByte('$')
	}
	return b.String()
}

func randRune(c *Case) rune {
	for {
		var r rune
		switch c.IntN(6) {
		case 0, 1:
			r = rune(c.IntN(128))
		case 2:
			r = rune(c.IntN(0x800))
		case 3:
			r = rune(c.IntN(0x10000))
		case 4:
			r = rune(0x2000 + c.IntN(0x100))
		default:
			r = rune(c.IntN(0x110000))
		}
		if utf8.ValidRune(r) && r != '$' {
			return r
		}
	}
}

// charSoup is a string over a small alphabet of significant characters.
func charSoup(c *Case, maxLen int) string {
	alpha := []rune("ab1 #[](){}*_`\"\\/-+=.,:;<>@~'!\nhé日\r𝔸")
	var b strings.Builder
	for i, n := 0, c.IntN(maxLen+1); i < n; i++ {
		if c.IntN(12) == 0 {
			b.WriteRune(randRune(c))
		} else {
			b.WriteRune(alpha[c.IntN(len(alpha))])
		}
	}
	return b.String()
}

// boundary picks a random character boundary of s.
func boundary(c *Case, s string) int {
	i := c.IntN(len(s) + 1)
	for i > 0 && i < len(s) && !utf8.RuneStart(s[i]) {
		i--
	}
	return i
}

// mutate applies a few random edits to s.
func mutate(c *Case, s string, n int) string {
	for i := 0; i < n; i++ {
		a, b := boundary(c, s), boundary(c, s)
		if a > b {
			a, b = b, a
		}
		if b-a > 12 {
			b = a + boundary(c, s[a:a+12+utf8Rest(s[a+12:])])
		}
		switch c.IntN(5) {
		case 0:
			s = s[:a] + s[b:]
		case 1:
			s = s[:a] + soupTokens[c.IntN(len(soupTokens))] + s[a:]
		case 2:
			s = s[:a] + soupTokens[c.IntN(len(soupTokens))] + s[b:]
		case 3:
			s = s[:b] + s[a:b] + s[b:]
		case 4:
			d := boundary(c, s)
			s = s[:d] + s[a:b] + s[d:]
		}
	}
	return s
}

// utf8Rest is the number of continuation bytes at the start of s.
func utf8Rest(s string) int {
	n := 0
	for n < len(s) && !utf8.RuneStart(s[n]) {
		n++
	}
	return n
}

// anyText draws a text from all generators.
func anyText(c *Case, size int) string {
	switch c.IntN(7) {
	case 6:
		t := mathSoup(c, 1+size/4)
		if c.IntN(3) == 0 {
			t = soup(c, 4) + t + soup(c, 4)
		}
		return t
	case 0:
		return charSoup(c, size)
	case 1, 2:
		return soup(c, 1+size/4)
	case 3:
		return genDocument(c, size)
	default:
		return mutate(c, genDocument(c, size), 1+c.IntN(3))
	}
}
