package main

import "strings"

// Texts that make the parser guess wrong, and texts whose structure depends on
// the column something starts in.

// refBacktrack nests parentheses that turn out to be parameters or patterns
// only behind their end, with lines, blocks and mistakes inside, so that one
// place is parsed several times in different surroundings.
func refBacktrack(c *Case) string {
	left := 14
	var b strings.Builder
	var expr, paren func(d int)
	w := func(s ...string) { b.WriteString(s[c.IntN(len(s))]) }
	atom := func() { w("x", "y", "1", "\"k\"", "_", "x.y", "-1", "..", "none", "a b", "[m]", "context") }
	stray := func() {
		if c.IntN(6) == 0 {
			w("\n-1", "\n+ 1", "\n.z", "\n(z)", "\n[z]", " else", "\nelse {}", " in", "\nnot in z", ";", " )", " ]", " }", " let", "\n= 1", " => z", "<l>", "\n\n-1", "\n// c\n- 1", " /* \n */ + 1", "\"")
		}
	}
	sep := func() { w(",", ",", ",", ", ", "\n,", ",\n", " ", "", ";") }
	item := func(d int) {
		switch c.IntN(7) {
		case 0:
			w("x: ", "y: ", "\"k\": ", "1: ", "x: x: ", "(x): ", "y\n:\n")
			expr(d)
		case 1:
			w("..", ".. ")
			if c.IntN(3) > 0 {
				expr(d)
			}
		default:
			expr(d)
		}
	}
	paren = func(d int) {
		b.WriteString("(")
		for i, n := 0, c.IntN(4); i < n; i++ {
			item(d)
			stray()
			sep()
		}
		b.WriteString(")")
		switch c.IntN(5) {
		case 0, 1:
			w(" => ", "=>", "\n=> ", " =>\n")
			if c.IntN(5) > 0 {
				expr(d)
			}
		case 2, 3:
			w(" = ", "=", "\n= ", " =\n")
			if c.IntN(5) > 0 {
				expr(d)
			}
		}
	}
	expr = func(d int) {
		left--
		if d == 0 || left < 0 {
			atom()
			return
		}
		switch c.IntN(9) {
		case 0, 1, 2, 3:
			paren(d - 1)
		case 4, 5:
			w("f(", "f.g(", "#f(", "(f)(")
			for i, n := 0, c.IntN(3); i < n; i++ {
				item(d - 1)
				stray()
				sep()
			}
			b.WriteString(")")
			w("", "", "[t]", ".a", "(1)")
		case 6, 7:
			w("{", "{ ", "{\n")
			for i, n := 0, 1+c.IntN(3); i < n; i++ {
				expr(d - 1)
				stray()
				w("\n", "\n", "; ", " ", "\n-", "\n+", "\n\n")
			}
			b.WriteString("}")
		default:
			w("if ", "while ", "for x in ", "not ", "-", "return ", "let f = ", "set f", "show x: ", "context ", "include ", "import ", "[#", "$#")
			expr(d - 1)
			w("", " {}", " []", "]", "$")
		}
	}
	w("#", "#", "#{", "#{\n", "#let a = ", "#f(", "#(")
	n := b.String()
	paren(4)
	stray()
	switch n {
	case "#{", "#{\n":
		w("}", "\nz}", "\n-1}", "")
	case "#f(", "#(":
		w(")", ", z) => 1", ") = 2", "")
	}
	w("", " t", "\n- t", "]")
	return b.String()
}

// refColumns starts lists, terms and enumerations behind other things on the
// line and follows them with lines that are indented about as much.
func refColumns(c *Case) string {
	var b strings.Builder
	w := func(s ...string) { b.WriteString(s[c.IntN(len(s))]) }
	marker := func() { w("- ", "+ ", "1. ", "/ t: ", "-\t", "-", "/ é: ") }
	col := 0 // In characters.
	for i, n := 0, 2+c.IntN(4); i < n; i++ {
		line := b.Len()
		if i == 0 || c.IntN(3) == 0 {
			w("", " ", "\t", "/* é */", "/* 😀 é */ ", "/*a*/", "/*\n*/", "/*\né*/", "/*\u2028*/ ")
			if c.IntN(2) == 0 {
				w("é", "😀 ", "a", "", "\u0301", "\u00a0")
				w("#[", "#{[", "#f(\"é\")[", "#let é = [", "#(é: [", "$é #[", "*#[", "- #[", "#f[é][")
				if c.IntN(4) == 0 {
					w("/* é */", " ", "\t", "\n", "\n ")
				}
			}
		} else {
			for j, m := 0, max(0, col+c.IntN(5)-2); j < m; j++ {
				w(" ", " ", " ", " ", "\t")
			}
			w("", "", "", "/* é */")
		}
		s := b.String()
		if k := strings.LastIndexAny(s, "\n\v\f\r\u0085\u2028\u2029"); k >= line {
			line = k
		}
		col = len([]rune(s[min(line, len(s)):]))
		if c.IntN(4) > 0 {
			marker()
		}
		w("a", "b é", "é", "*c*", "#d", "]", "#{1}", "$x$", "`r`", "")
		w("\n", "\n", "\n", "\r\n", "\r", "\u2028", "\n\n", "\n//c\n", "\n/**/")
	}
	w("", "]", "]}", "])")
	return b.String()
}

func init() {
	group := func(name string, q, t int, text func(c *Case) string, mistakes bool) Group {
		return Group{Name: name, Quick: q, Thorough: t, Run: func(c *Case) { refCase(c, text(c), mistakes) }}
	}
	addGroups("P04", group("wrong guesses", 30000, 1500000, refBacktrack, false))
	addGroups("P05", group("wrong guesses", 15000, 800000, refBacktrack, false))
	addGroups("P06", group("columns", 25000, 1000000, refColumns, false))
	addGroups("P08", group("wrong guesses", 20000, 1000000, refBacktrack, true), group("columns", 10000, 500000, refColumns, true))
}
