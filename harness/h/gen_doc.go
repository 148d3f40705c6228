package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/mewmew/typast/typst/syntax"
)

// The generator in this file writes well-formed documents together with the
// syntax tree that the language rules give them. It is the reference model of
// the structure properties: the tree is never derived from the parser.

// gn is a node of an expected tree: a leaf with text, or an inner node.
type gn struct {
	kind syntax.SyntaxKind
	text string
	leaf bool
	kids []*gn
}

func lf(kind syntax.SyntaxKind, text string) *gn { return &gn{kind: kind, text: text, leaf: true} }
func in(kind syntax.SyntaxKind, kids ...*gn) *gn { return &gn{kind: kind, kids: kids} }

func (g *gn) write(b *strings.Builder) {
	if g.leaf {
		b.WriteString(g.text)
		return
	}
	for _, k := range g.kids {
		k.write(b)
	}
}

func (g *gn) src() string {
	var b strings.Builder
	g.write(&b)
	return b.String()
}

func (g *gn) sexp() string {
	var b strings.Builder
	var rec func(n *gn)
	rec = func(n *gn) {
		if n.leaf {
			fmt.Fprintf(&b, "%d%q", n.kind, n.text)
			return
		}
		fmt.Fprintf(&b, "(%d", n.kind)
		for _, k := range n.kids {
			b.WriteByte(' ')
			rec(k)
		}
		b.WriteByte(')')
	}
	rec(g)
	return b.String()
}

func (g *gn) pretty() string {
	var b strings.Builder
	var rec func(n *gn)
	rec = func(n *gn) {
		name := strings.ReplaceAll(n.kind.Name(), " ", "-")
		if n.leaf {
			fmt.Fprintf(&b, "%s%q", name, n.text)
			return
		}
		fmt.Fprintf(&b, "(%s", name)
		for _, k := range n.kids {
			b.WriteByte(' ')
			rec(k)
		}
		b.WriteByte(')')
	}
	rec(g)
	return b.String()
}

func (g *gn) shape(b *strings.Builder) {
	b.WriteByte(byte(g.kind))
	if !g.leaf {
		b.WriteByte('(')
		for _, k := range g.kids {
			if k.kind != syntax.SyntaxKindSpace {
				k.shape(b)
			}
		}
		b.WriteByte(')')
	}
}

func (g *gn) first() string {
	if g.leaf {
		return g.text
	}
	for _, k := range g.kids {
		if s := k.first(); s != "" {
			return s
		}
	}
	return ""
}

func (g *gn) lastText() string {
	if g.leaf {
		return g.text
	}
	for i := len(g.kids) - 1; i >= 0; i-- {
		if s := g.kids[i].lastText(); s != "" {
			return s
		}
	}
	return ""
}

func (g *gn) walk(fn func(*gn)) {
	fn(g)
	for _, k := range g.kids {
		k.walk(fn)
	}
}

// nlMode says where newlines may appear in code trivia.
type nlMode int

const (
	nlStop nlMode = iota // a newline ends the expression (code embedded in markup)
	nlCtx                // a newline ends the expression unless `else` or `.` follows
	nlAll                // newlines are plain whitespace
)

// gen writes documents.
type gen struct {
	c      *Case
	budget int
	names  int
	noMath bool
	// plainTrivia keeps trivia to single spaces and newlines.
	plainTrivia bool
	noComments  bool
	used        map[string]int
}

func newGen(c *Case, size int) *gen {
	return &gen{c: c, budget: size, used: map[string]int{}}
}

func (g *gen) note(s string) { g.used[s]++ }

func (g *gen) spend() bool { g.budget--; return g.budget > 0 }

func (g *gen) pct(p int) bool { return g.c.IntN(100) < p }

// wordy says whether a character can continue an identifier or a number.
func wordy(r rune) bool {
	return r == '_' || r == '-' || r == '%' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= 0x80 && r != '−'
}

const opChars = "=<>+-*/!.−"

// mustSep says whether two adjacent code tokens would be read differently when
// nothing separates them.
func mustSep(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	x, _ := utf8.DecodeLastRuneInString(a)
	y, _ := utf8.DecodeRuneInString(b)
	if wordy(x) && (wordy(y) || y == '.' || y == '"' && false) {
		return true
	}
	if x == '<' || y == '<' && false {
		return true
	}
	if x == '.' && (y >= '0' && y <= '9') {
		return true
	}
	return strings.ContainsRune(opChars, x) && strings.ContainsRune(opChars, y)
}

// trivia makes code trivia. If must is set it is not empty.
func (g *gen) trivia(nl bool, must bool) []*gn {
	if !must && g.pct(45) {
		return nil
	}
	sp := func(s string) *gn { return lf(syntax.SyntaxKindSpace, s) }
	if g.plainTrivia || g.pct(75) {
		return []*gn{sp(" ")}
	}
	ws := []string{" ", "  ", "\t"}
	if nl {
		ws = append(ws, "\n", "\n  ", "\r\n", "\n\n", " \n\t")
	}
	out := []*gn{sp(ws[g.c.IntN(len(ws))])}
	if g.noComments {
		return out
	}
	if g.pct(25) {
		g.note("comment")
		out = append(out, lf(syntax.SyntaxKindBlockComment, []string{"/* c */", "/**/", "/* /* n */ */", "/* \" */", "/*]*/"}[g.c.IntN(5)]))
		if g.pct(50) {
			out = append(out, sp(ws[g.c.IntN(len(ws))]))
		}
		if nl && g.pct(50) && out[len(out)-1].kind == syntax.SyntaxKindSpace {
			out = append(out, lf(syntax.SyntaxKindLineComment, []string{"// c", "//", "// (", "//x */"}[g.c.IntN(4)]), sp("\n"))
		}
		if out[len(out)-1].kind == syntax.SyntaxKindBlockComment && must {
			out = append(out, sp(" "))
		}
	}
	return out
}

// seq joins code tokens with optional trivia. A nil entry means that the
// neighbours must touch; the string entries "must" and "dot" ask for trivia.
type glue int

const (
	opt   glue = iota // trivia allowed
	tight             // nothing in between
	must              // whitespace needed
)

type part struct {
	n    *gn
	glue glue // before n
	nl   *bool
}

func (g *gen) seq(kind syntax.SyntaxKind, nl bool, parts ...part) *gn {
	out := in(kind)
	for i, p := range parts {
		if i > 0 {
			last := ""
			for j := len(out.kids) - 1; j >= 0 && last == ""; j-- {
				last = out.kids[j].lastText()
			}
			n := nl
			if p.nl != nil {
				n = *p.nl
			}
			switch {
			case p.glue == tight:
			case p.glue == must || mustSep(last, p.n.first()):
				out.kids = append(out.kids, g.trivia(n, true)...)
			default:
				out.kids = append(out.kids, g.trivia(n, false)...)
			}
		}
		out.kids = append(out.kids, p.n)
	}
	return out
}

func yes() *bool { b := true; return &b }
func no() *bool  { b := false; return &b }

func o(n *gn) part { return part{n: n} }
func t(n *gn) part { return part{n: n, glue: tight} }
func m(n *gn) part { return part{n: n, glue: must} }

var identPool = []string{"a", "b", "x", "y", "foo", "bar", "w_1", "k-v", "é", "日本", "हिन्दी", "a·b", "x‿", "_p", "text", "heading", "lettuce", "iffy", "nota", "inn", "ein", "pt", "em", "e1"}

func (g *gen) identName() string { return identPool[g.c.IntN(len(identPool))] }

func (g *gen) fresh() string {
	g.names++
	return fmt.Sprintf("n%d%s", g.names, []string{"", "a", "-b", "_c", "é"}[g.c.IntN(5)])
}

func (g *gen) ident() *gn { return lf(syntax.SyntaxKindIdent, g.identName()) }

func kw(kind syntax.SyntaxKind, text string) *gn { return lf(kind, text) }

// ex is a generated expression. re is the smallest precedence of an operator
// that would be swallowed by the right end of the expression (99 if none);
// top is the precedence of the operator at the top (99 if none).
type ex struct {
	n       *gn
	top, re int
	// postfix says whether a call or field access may be attached.
	postfix bool
	// atomic says whether it can be embedded in markup with a hash.
	atomic bool
}

type binop struct {
	prec  int
	right bool
	toks  []*gn
}

func (g *gen) binop() binop {
	type e struct {
		p int
		k syntax.SyntaxKind
		t string
	}
	tab := []e{
		{6, syntax.SyntaxKindStar, "*"}, {6, syntax.SyntaxKindSlash, "/"},
		{5, syntax.SyntaxKindPlus, "+"}, {5, syntax.SyntaxKindMinus, "-"}, {5, syntax.SyntaxKindMinus, "−"},
		{4, syntax.SyntaxKindEqEq, "=="}, {4, syntax.SyntaxKindExclEq, "!="}, {4, syntax.SyntaxKindLt, "<"}, {4, syntax.SyntaxKindLtEq, "<="},
		{4, syntax.SyntaxKindGt, ">"}, {4, syntax.SyntaxKindGtEq, ">="}, {4, syntax.SyntaxKindIn, "in"}, {4, syntax.SyntaxKindNot, "not"},
		{3, syntax.SyntaxKindAnd, "and"}, {2, syntax.SyntaxKindOr, "or"},
		{1, syntax.SyntaxKindEq, "="}, {1, syntax.SyntaxKindPlusEq, "+="}, {1, syntax.SyntaxKindHyphEq, "-="}, {1, syntax.SyntaxKindHyphEq, "−="},
		{1, syntax.SyntaxKindStarEq, "*="}, {1, syntax.SyntaxKindSlashEq, "/="},
	}
	x := tab[g.c.IntN(len(tab))]
	if x.k == syntax.SyntaxKindNot {
		g.note("op not in")
		return binop{prec: 4, toks: []*gn{lf(syntax.SyntaxKindNot, "not"), lf(syntax.SyntaxKindIn, "in")}}
	}
	g.note("op " + x.t)
	return binop{prec: x.p, right: x.p == 1, toks: []*gn{lf(x.k, x.t)}}
}

func closed(n *gn) ex { return ex{n: n, top: 99, re: 99, postfix: true, atomic: true} }

// paren wraps an expression in parentheses.
func (g *gen) paren(e ex) ex {
	return closed(g.seq(syntax.SyntaxKindParenthesized, true, o(lf(syntax.SyntaxKindLeftParen, "(")), o(e.n), o(lf(syntax.SyntaxKindRightParen, ")"))))
}

// expr makes an expression. nl is the newline mode of its surroundings.
func (g *gen) expr(nl nlMode, depth int) ex {
	e := g.anyExpr(nl, depth)
	if nl == nlAll && openImport(e.n) {
		// The items of an import take the commas that follow.
		return g.paren(e)
	}
	return e
}

// openImport says whether the expression ends with import items that no
// parenthesis closes.
func openImport(n *gn) bool {
	for !n.leaf && len(n.kids) > 0 {
		n = n.kids[len(n.kids)-1]
		if n.kind == syntax.SyntaxKindImportItems {
			return true
		}
	}
	return false
}

func (g *gen) anyExpr(nl nlMode, depth int) ex {
	if depth <= 0 || !g.spend() {
		return g.atom()
	}
	switch k := g.c.IntN(100); {
	case k < 34:
		return g.binary(nl, depth)
	case k < 44:
		return g.unary(nl, depth)
	case k < 48:
		return g.keywordExpr(nl, depth)
	default:
		return g.primary(nl, depth)
	}
}

func (g *gen) binary(nl nlMode, depth int) ex {
	op := g.binop()
	var l ex
	if op.prec == 1 {
		// The target of an assignment: a name, a field or a call.
		l = closed(g.ident())
		if g.pct(40) {
			l = g.postfixOn(l, nl, depth-1)
		}
	} else {
		l = g.expr(nl, depth-1)
		if op.prec >= l.re {
			l = g.paren(l)
		}
	}
	minp := op.prec + 1
	if op.right {
		minp = op.prec
	}
	r := g.expr(nl, depth-1)
	if r.top < minp {
		r = g.paren(r)
	}
	all := nl == nlAll
	parts := []part{o(l.n)}
	for i, tk := range op.toks {
		p := o(tk)
		if i > 0 {
			p = m(tk)
		}
		parts = append(parts, p)
	}
	parts = append(parts, o(r.n))
	return ex{n: g.seq(syntax.SyntaxKindBinary, all, parts...), top: op.prec, re: min(minp, r.re)}
}

func (g *gen) unary(nl nlMode, depth int) ex {
	type e struct {
		p int
		k syntax.SyntaxKind
		t string
	}
	x := []e{{7, syntax.SyntaxKindMinus, "-"}, {7, syntax.SyntaxKindPlus, "+"}, {4, syntax.SyntaxKindNot, "not"}, {7, syntax.SyntaxKindMinus, "−"}}[g.c.IntN(4)]
	g.note("unary " + x.t)
	r := g.expr(nl, depth-1)
	if r.top < x.p {
		r = g.paren(r)
	}
	return ex{n: g.seq(syntax.SyntaxKindUnary, nl == nlAll, o(lf(x.k, x.t)), o(r.n)), top: 99, re: min(x.p, r.re)}
}

func (g *gen) atom() ex {
	switch g.c.IntN(14) {
	case 0:
		return closed(lf(syntax.SyntaxKindNone, "none"))
	case 1:
		return closed(lf(syntax.SyntaxKindAuto, "auto"))
	case 2:
		return closed(lf(syntax.SyntaxKindBool, []string{"true", "false"}[g.c.IntN(2)]))
	case 3, 4:
		return closed(lf(syntax.SyntaxKindInt, []string{"0", "1", "42", "0x1F", "0b101", "0o17", "00", "9223372036854775807"}[g.c.IntN(8)]))
	case 5:
		return closed(lf(syntax.SyntaxKindFloat, []string{"1.5", "0.25", "1e3", "2.5e-3", "1E+2", "7.0"}[g.c.IntN(6)]))
	case 6:
		return closed(lf(syntax.SyntaxKindNumeric, []string{"2em", "3pt", "4%", "1.5cm", "90deg", "1fr", "2mm", "3in", "1rad", "1e2pt"}[g.c.IntN(10)]))
	case 7:
		return closed(lf(syntax.SyntaxKindStr, []string{`""`, `"s"`, `"a b"`, `"\""`, `"\\"`, `"é]"`, `"//"`, `"#{"`, "\"l\nm\"", `"\u{41}"`}[g.c.IntN(10)]))
	case 8:
		if g.pct(50) {
			return closed(g.rawInline())
		}
		e := closed(lf(syntax.SyntaxKindLabel, []string{"<l>", "<a-b>", "<a.b:c>", "<x_1>"}[g.c.IntN(4)]))
		e.atomic = false
		return e
	default:
		return closed(g.ident())
	}
}

func (g *gen) rawInline() *gn {
	d := lf(syntax.SyntaxKindRawDelim, "`")
	switch g.c.IntN(4) {
	case 0:
		return in(syntax.SyntaxKindRaw, d, d)
	case 1:
		return in(syntax.SyntaxKindRaw, d, lf(syntax.SyntaxKindText, "a"), lf(syntax.SyntaxKindRawTrimmed, "\n"), lf(syntax.SyntaxKindText, " b*["), d)
	default:
		return in(syntax.SyntaxKindRaw, d, lf(syntax.SyntaxKindText, []string{"x", "a b", "{#]", " ", "/*", "//", "$"}[g.c.IntN(7)]), d)
	}
}

func (g *gen) primary(nl nlMode, depth int) ex {
	if depth <= 0 || !g.spend() {
		return g.atom()
	}
	switch g.c.IntN(16) {
	case 0:
		e := g.expr(nlAll, depth-1)
		g.note("parenthesized")
		return g.paren(e)
	case 1, 2:
		return closed(g.array(depth))
	case 3, 4:
		return closed(g.dict(depth))
	case 5, 6, 7, 8:
		base := closed(g.ident())
		if g.pct(30) {
			base = g.primary(nl, depth-1)
			if !base.postfix {
				base = g.paren(base)
			}
		}
		e := g.postfixOn(base, nl, depth-1)
		for g.pct(30) {
			e = g.postfixOn(e, nl, depth-1)
		}
		return e
	case 9, 10:
		return closed(g.codeBlock(depth - 1))
	case 11, 12:
		return closed(g.contentBlock(depth - 1))
	case 13:
		return g.closure(nl, depth-1)
	default:
		return g.atom()
	}
}

func tri(toks []part, g *gen, kind syntax.SyntaxKind) *gn { return g.seq(kind, true, toks...) }

func (g *gen) array(depth int) *gn {
	g.note("array")
	parts := []part{o(lf(syntax.SyntaxKindLeftParen, "("))}
	n := g.c.IntN(4)
	spread := false
	for i := 0; i < n; i++ {
		it := g.expr(nlAll, depth-1).n
		if g.pct(15) {
			it = g.seq(syntax.SyntaxKindSpread, true, o(lf(syntax.SyntaxKindDots, "..")), o(it))
			spread = true
		}
		parts = append(parts, o(it))
		if i+1 < n || n == 1 && !spread || g.pct(30) {
			parts = append(parts, o(lf(syntax.SyntaxKindComma, ",")))
		}
	}
	parts = append(parts, o(lf(syntax.SyntaxKindRightParen, ")")))
	return tri(parts, g, syntax.SyntaxKindArray)
}

func (g *gen) dict(depth int) *gn {
	g.note("dict")
	parts := []part{o(lf(syntax.SyntaxKindLeftParen, "("))}
	n := g.c.IntN(4)
	colon := n == 0 || g.pct(15)
	if colon {
		parts = append(parts, o(lf(syntax.SyntaxKindColon, ":")))
	}
	for i := 0; i < n; i++ {
		var it *gn
		switch k := g.c.IntN(10); {
		case k < 2 && colon:
			it = g.seq(syntax.SyntaxKindSpread, true, o(lf(syntax.SyntaxKindDots, "..")), o(g.expr(nlAll, depth-1).n))
		case k < 6:
			it = g.seq(syntax.SyntaxKindNamed, true, o(lf(syntax.SyntaxKindIdent, g.fresh())), o(lf(syntax.SyntaxKindColon, ":")), o(g.expr(nlAll, depth-1).n))
		case k < 9:
			it = g.seq(syntax.SyntaxKindKeyed, true, o(lf(syntax.SyntaxKindStr, `"`+g.fresh()+`"`)), o(lf(syntax.SyntaxKindColon, ":")), o(g.expr(nlAll, depth-1).n))
		default:
			it = g.seq(syntax.SyntaxKindKeyed, true, o(g.paren(g.expr(nlAll, depth-2)).n), o(lf(syntax.SyntaxKindColon, ":")), o(g.expr(nlAll, depth-1).n))
		}
		parts = append(parts, o(it))
		if i+1 < n || g.pct(30) {
			parts = append(parts, o(lf(syntax.SyntaxKindComma, ",")))
		}
	}
	parts = append(parts, o(lf(syntax.SyntaxKindRightParen, ")")))
	return tri(parts, g, syntax.SyntaxKindDict)
}

// args makes an argument list.
func (g *gen) args(depth int) *gn {
	out := in(syntax.SyntaxKindArgs)
	if g.pct(85) {
		parts := []part{o(lf(syntax.SyntaxKindLeftParen, "("))}
		n := g.c.IntN(4)
		for i := 0; i < n; i++ {
			var it *gn
			switch k := g.c.IntN(10); {
			case k < 2:
				it = g.seq(syntax.SyntaxKindSpread, true, o(lf(syntax.SyntaxKindDots, "..")), o(g.expr(nlAll, depth-1).n))
			case k < 5:
				it = g.seq(syntax.SyntaxKindNamed, true, o(lf(syntax.SyntaxKindIdent, g.fresh())), o(lf(syntax.SyntaxKindColon, ":")), o(g.expr(nlAll, depth-1).n))
			default:
				it = g.expr(nlAll, depth-1).n
			}
			parts = append(parts, o(it))
			if i+1 < n || g.pct(25) {
				parts = append(parts, o(lf(syntax.SyntaxKindComma, ",")))
			}
		}
		parts = append(parts, o(lf(syntax.SyntaxKindRightParen, ")")))
		out.kids = g.seq(syntax.SyntaxKindArgs, true, parts...).kids
		for g.pct(15) {
			out.kids = append(out.kids, g.contentBlock(depth-1))
		}
	} else {
		out.kids = append(out.kids, g.contentBlock(depth-1))
		for g.pct(25) {
			out.kids = append(out.kids, g.contentBlock(depth-1))
		}
	}
	return out
}

// postfixOn attaches a call or a field access.
func (g *gen) postfixOn(e ex, nl nlMode, depth int) ex {
	if g.pct(50) {
		g.note("call")
		a := g.args(depth)
		for e.n.kind == syntax.SyntaxKindFuncCall && a.kids[0].kind == syntax.SyntaxKindContentBlock {
			// A block behind a call belongs to its arguments.
			a = g.args(depth)
		}
		return ex{n: in(syntax.SyntaxKindFuncCall, e.n, a), top: 99, re: 99, postfix: true, atomic: e.atomic}
	}
	g.note("field access")
	atomic := e.atomic
	name := g.identName()
	if g.pct(20) {
		name = []string{"in", "if", "not", "let", "none", "as", "auto", "true"}[g.c.IntN(8)]
		g.note("keyword field")
	}
	out := in(syntax.SyntaxKindFieldAccess, e.n)
	_, isInt := map[syntax.SyntaxKind]bool{syntax.SyntaxKindInt: true, syntax.SyntaxKindFloat: true, syntax.SyntaxKindNumeric: true}[e.n.kind]
	if g.pct(15) && nl != nlStop {
		out.kids = append(out.kids, g.trivia(true, true)...)
		atomic = false
		g.note("dot on next line")
	} else if isInt {
		out.kids = append(out.kids, g.trivia(false, true)...)
		atomic = false
	}
	out.kids = append(out.kids, lf(syntax.SyntaxKindDot, "."), lf(syntax.SyntaxKindIdent, name))
	return ex{n: out, top: 99, re: 99, postfix: true, atomic: atomic}
}

func (g *gen) pattern(depth int, seen func() string) *gn {
	switch k := g.c.IntN(10); {
	case k < 2:
		return lf(syntax.SyntaxKindUnderscore, "_")
	case k < 4 && depth > 0:
		return g.destructuring(depth, func() *gn { return lf(syntax.SyntaxKindIdent, g.fresh()) })
	}
	return lf(syntax.SyntaxKindIdent, g.fresh())
}

// destructuring makes a parenthesized pattern with leaves from leaf.
func (g *gen) destructuring(depth int, leaf func() *gn) *gn {
	g.note("destructuring")
	var sub func(depth int) *gn
	sub = func(depth int) *gn {
		switch k := g.c.IntN(10); {
		case k < 1:
			return lf(syntax.SyntaxKindUnderscore, "_")
		case k < 3 && depth > 0:
			return g.destructuring(depth-1, leaf)
		}
		return leaf()
	}
	parts := []part{o(lf(syntax.SyntaxKindLeftParen, "("))}
	n := g.c.IntN(4)
	plain := n == 1
	sink := false
	for i := 0; i < n; i++ {
		var it *gn
		switch k := g.c.IntN(10); {
		case k < 2 && !sink:
			sink = true
			plain = false
			if g.pct(60) {
				it = g.seq(syntax.SyntaxKindSpread, true, o(lf(syntax.SyntaxKindDots, "..")), o(leaf()))
			} else {
				it = in(syntax.SyntaxKindSpread, lf(syntax.SyntaxKindDots, ".."))
			}
		case k < 5:
			plain = false
			it = g.seq(syntax.SyntaxKindNamed, true, o(lf(syntax.SyntaxKindIdent, g.identName())), o(lf(syntax.SyntaxKindColon, ":")), o(sub(depth-1)))
		default:
			it = sub(depth - 1)
		}
		parts = append(parts, o(it))
		if i+1 < n || g.pct(30) {
			plain = false
			parts = append(parts, o(lf(syntax.SyntaxKindComma, ",")))
		}
	}
	parts = append(parts, o(lf(syntax.SyntaxKindRightParen, ")")))
	kind := syntax.SyntaxKindDestructuring
	if plain {
		kind = syntax.SyntaxKindParenthesized
	}
	return g.seq(kind, true, parts...)
}

// params makes a parameter list.
func (g *gen) params(depth int) *gn {
	parts := []part{o(lf(syntax.SyntaxKindLeftParen, "("))}
	n := g.c.IntN(4)
	sink := false
	for i := 0; i < n; i++ {
		var it *gn
		switch k := g.c.IntN(10); {
		case k < 2 && !sink:
			sink = true
			if g.pct(60) {
				it = g.seq(syntax.SyntaxKindSpread, true, o(lf(syntax.SyntaxKindDots, "..")), o(lf(syntax.SyntaxKindIdent, g.fresh())))
			} else {
				it = in(syntax.SyntaxKindSpread, lf(syntax.SyntaxKindDots, ".."))
			}
		case k < 5:
			it = g.seq(syntax.SyntaxKindNamed, true, o(lf(syntax.SyntaxKindIdent, g.fresh())), o(lf(syntax.SyntaxKindColon, ":")), o(g.expr(nlAll, depth-1).n))
		default:
			it = g.pattern(depth-1, g.fresh)
		}
		parts = append(parts, o(it))
		if i+1 < n || g.pct(25) {
			parts = append(parts, o(lf(syntax.SyntaxKindComma, ",")))
		}
	}
	parts = append(parts, o(lf(syntax.SyntaxKindRightParen, ")")))
	return g.seq(syntax.SyntaxKindParams, true, parts...)
}

func (g *gen) closure(nl nlMode, depth int) ex {
	g.note("closure")
	var ps *gn
	switch g.c.IntN(4) {
	case 0:
		ps = in(syntax.SyntaxKindParams, g.ident())
	case 1:
		ps = in(syntax.SyntaxKindParams, lf(syntax.SyntaxKindUnderscore, "_"))
	default:
		ps = g.params(depth)
	}
	body := g.expr(nl, depth-1)
	return ex{n: g.seq(syntax.SyntaxKindClosure, nl == nlAll, o(ps), o(lf(syntax.SyntaxKindArrow, "=>")), o(body.n)), top: 99, re: 0}
}

// simpleCond is an expression that a block can follow.
func (g *gen) simpleCond(nl nlMode, depth int) *gn {
	e := g.expr(nl, min(depth, 2))
	bad := false
	e.n.walk(func(n *gn) {
		switch n.kind {
		case syntax.SyntaxKindFuncReturn, syntax.SyntaxKindConditional, syntax.SyntaxKindWhileLoop, syntax.SyntaxKindForLoop, syntax.SyntaxKindLetBinding,
			syntax.SyntaxKindSetRule, syntax.SyntaxKindShowRule:
			bad = true
		}
	})
	if bad || e.re == 0 {
		return g.paren(e).n
	}
	return e.n
}

func (g *gen) block(depth int) *gn {
	if g.pct(50) {
		return g.contentBlock(depth)
	}
	return g.codeBlock(depth)
}

// keywordExpr makes a statement-like expression.
func (g *gen) keywordExpr(nl nlMode, depth int) ex {
	all := nl == nlAll
	eq := lf(syntax.SyntaxKindEq, "=")
	res := func(n *gn) ex { return ex{n: n, top: 99, re: 0, atomic: true} }
	g.spend()
	switch g.c.IntN(17) {
	case 0:
		g.note("let")
		return res(g.seq(syntax.SyntaxKindLetBinding, all, o(kw(syntax.SyntaxKindLet, "let")), m(lf(syntax.SyntaxKindIdent, g.identName()))))
	case 1, 2:
		g.note("let")
		return res(g.seq(syntax.SyntaxKindLetBinding, all, o(kw(syntax.SyntaxKindLet, "let")), m(g.ident()), o(eq), o(g.expr(nl, depth-1).n)))
	case 3:
		g.note("let function")
		cl := g.seq(syntax.SyntaxKindClosure, all, o(g.ident()), t(g.params(depth-1)), o(eq), o(g.expr(nl, depth-1).n))
		return res(g.seq(syntax.SyntaxKindLetBinding, all, o(kw(syntax.SyntaxKindLet, "let")), m(cl)))
	case 4:
		g.note("let pattern")
		var pat *gn
		if g.pct(25) {
			pat = lf(syntax.SyntaxKindUnderscore, "_")
		} else {
			pat = g.destructuring(2, func() *gn { return lf(syntax.SyntaxKindIdent, g.fresh()) })
		}
		return res(g.seq(syntax.SyntaxKindLetBinding, all, o(kw(syntax.SyntaxKindLet, "let")), o(pat), o(eq), o(g.expr(nl, depth-1).n)))
	case 5:
		g.note("destructuring assignment")
		var pat *gn
		if g.pct(25) {
			pat = lf(syntax.SyntaxKindUnderscore, "_")
		} else {
			for pat == nil || pat.kind == syntax.SyntaxKindParenthesized {
				pat = g.destructuring(1, func() *gn {
					e := closed(g.ident())
					if g.pct(30) {
						e = closed(in(syntax.SyntaxKindFieldAccess, e.n, lf(syntax.SyntaxKindDot, "."), g.ident()))
					}
					return e.n
				})
			}
		}
		e := res(g.seq(syntax.SyntaxKindDestructAssignment, all, o(pat), o(eq), o(g.expr(nl, depth-1).n)))
		e.atomic = false
		return e
	case 6:
		g.note("set")
		target := g.ident()
		for g.pct(25) {
			target = in(syntax.SyntaxKindFieldAccess, target, lf(syntax.SyntaxKindDot, "."), g.ident())
		}
		parts := []part{o(kw(syntax.SyntaxKindSet, "set")), m(target), t(g.args(depth - 1))}
		if g.pct(30) {
			g.note("set if")
			parts = append(parts, o(kw(syntax.SyntaxKindIf, "if")), o(g.expr(nl, depth-1).n))
		}
		return res(g.seq(syntax.SyntaxKindSetRule, all, parts...))
	case 7:
		g.note("show")
		parts := []part{o(kw(syntax.SyntaxKindShow, "show"))}
		if g.pct(65) {
			parts = append(parts, o(g.simpleCond(nl, depth-1)))
		}
		parts = append(parts, o(lf(syntax.SyntaxKindColon, ":")), o(g.expr(nl, depth-1).n))
		return res(g.seq(syntax.SyntaxKindShowRule, all, parts...))
	case 8:
		g.note("context")
		b := g.expr(nl, depth-1)
		e := res(g.seq(syntax.SyntaxKindContextual, all, o(kw(syntax.SyntaxKindContext, "context")), o(b.n)))
		e.atomic = b.atomic
		return e
	case 9, 10:
		return g.conditional(nl, depth-1)
	case 11:
		g.note("while")
		return res(g.seq(syntax.SyntaxKindWhileLoop, all, o(kw(syntax.SyntaxKindWhile, "while")), o(g.simpleCond(nl, depth-1)), m(g.block(depth-1))))
	case 12:
		g.note("for")
		var pat *gn
		if g.pct(60) {
			pat = lf(syntax.SyntaxKindIdent, g.identName())
		} else {
			pat = g.destructuring(1, func() *gn { return lf(syntax.SyntaxKindIdent, g.fresh()) })
		}
		return res(g.seq(syntax.SyntaxKindForLoop, all, o(kw(syntax.SyntaxKindFor, "for")), o(pat), m(kw(syntax.SyntaxKindIn, "in")), o(g.simpleCond(nl, depth-1)), m(g.block(depth-1))))
	case 13:
		return res(g.importStmt(nl))
	case 14:
		g.note("include")
		return res(g.seq(syntax.SyntaxKindModuleInclude, all, o(kw(syntax.SyntaxKindInclude, "include")), o(lf(syntax.SyntaxKindStr, `"c.typ"`))))
	case 15:
		g.note("break/continue")
		if g.pct(50) {
			return res(in(syntax.SyntaxKindLoopBreak, kw(syntax.SyntaxKindBreak, "break")))
		}
		return res(in(syntax.SyntaxKindLoopContinue, kw(syntax.SyntaxKindContinue, "continue")))
	default:
		g.note("return")
		if g.pct(30) {
			return res(in(syntax.SyntaxKindFuncReturn, kw(syntax.SyntaxKindReturn, "return")))
		}
		return res(g.seq(syntax.SyntaxKindFuncReturn, all, o(kw(syntax.SyntaxKindReturn, "return")), o(g.expr(nl, depth-1).n)))
	}
}

func (g *gen) conditional(nl nlMode, depth int) ex {
	g.note("if")
	all := nl == nlAll
	elseNL := no()
	if nl != nlStop {
		elseNL = yes()
	}
	parts := []part{o(kw(syntax.SyntaxKindIf, "if")), o(g.simpleCond(nl, depth)), m(g.block(depth))}
	if g.pct(50) {
		g.note("else")
		parts = append(parts, part{n: kw(syntax.SyntaxKindElse, "else"), nl: elseNL})
		if g.pct(35) {
			parts = append(parts, m(g.conditional(nl, depth-1).n))
		} else {
			parts = append(parts, o(g.block(depth)))
		}
	}
	return ex{n: g.seq(syntax.SyntaxKindConditional, all, parts...), top: 99, re: 0, atomic: true}
}

func (g *gen) importStmt(nl nlMode) *gn {
	g.note("import")
	all := nl == nlAll
	src := lf(syntax.SyntaxKindStr, []string{`"a.typ"`, `"@preview/p:1.2.3"`, `"../b c.typ"`}[g.c.IntN(3)])
	if g.pct(25) {
		src = g.ident()
	}
	parts := []part{o(kw(syntax.SyntaxKindImport, "import")), o(src)}
	if g.pct(30) {
		g.note("import as")
		parts = append(parts, o(kw(syntax.SyntaxKindAs, "as")), m(g.ident()))
	}
	colon := lf(syntax.SyntaxKindColon, ":")
	items := func(inParens bool) *gn {
		var ps []part
		n := 1 + g.c.IntN(3)
		if inParens {
			n = g.c.IntN(4)
		}
		in_ := all || inParens
		for i := 0; i < n; i++ {
			path := in(syntax.SyntaxKindImportItemPath, g.ident())
			for g.pct(25) {
				path.kids = append(path.kids, lf(syntax.SyntaxKindDot, "."), g.ident())
			}
			it := path
			if g.pct(30) {
				g.note("import rename")
				it = g.seq(syntax.SyntaxKindRenamedImportItem, in_, o(path), m(kw(syntax.SyntaxKindAs, "as")), m(g.ident()))
			}
			ps = append(ps, o(it))
			if i+1 < n || inParens && g.pct(40) {
				ps = append(ps, o(lf(syntax.SyntaxKindComma, ",")))
			}
		}
		return g.seq(syntax.SyntaxKindImportItems, in_, ps...)
	}
	switch g.c.IntN(4) {
	case 0:
		parts = append(parts, o(colon), o(lf(syntax.SyntaxKindStar, "*")))
		g.note("import *")
	case 1:
		parts = append(parts, o(colon), o(items(false)))
		g.note("import items")
	case 2:
		g.note("import (items)")
		it := items(true)
		lp, rp := lf(syntax.SyntaxKindLeftParen, "("), lf(syntax.SyntaxKindRightParen, ")")
		out := g.seq(syntax.SyntaxKindModuleImport, all, append(parts, o(colon), o(lp))...)
		if len(it.kids) > 0 {
			out.kids = append(out.kids, g.trivia(true, false)...)
			out.kids = append(out.kids, it)
			out.kids = append(out.kids, g.trivia(true, false)...)
		} else {
			// The empty item list stands directly behind the parenthesis.
			out.kids = append(out.kids, it)
			out.kids = append(out.kids, g.trivia(true, false)...)
		}
		out.kids = append(out.kids, rp)
		return out
	}
	return g.seq(syntax.SyntaxKindModuleImport, all, parts...)
}

// codeBlock makes a block of statements.
func (g *gen) codeBlock(depth int) *gn {
	g.note("code block")
	lb, rb := lf(syntax.SyntaxKindLeftBrace, "{"), lf(syntax.SyntaxKindRightBrace, "}")
	code := in(syntax.SyntaxKindCode)
	n := 0
	if depth > 0 {
		n = g.c.IntN(4)
	}
	out := in(syntax.SyntaxKindCodeBlock, lb)
	if n == 0 {
		out.kids = append(out.kids, code)
		out.kids = append(out.kids, g.trivia(true, false)...)
		out.kids = append(out.kids, rb)
		return out
	}
	out.kids = append(out.kids, g.trivia(true, false)...)
	for i := 0; i < n; i++ {
		var e ex
		if g.pct(45) {
			e = g.keywordExpr(nlCtx, depth-1)
		} else {
			e = g.expr(nlCtx, depth-1)
		}
		code.kids = append(code.kids, e.n)
		last := i+1 == n
		if last && g.pct(60) {
			break
		}
		if g.pct(50) {
			// A semicolon ends the statement.
			code.kids = append(code.kids, g.trivia(false, false)...)
			code.kids = append(code.kids, lf(syntax.SyntaxKindSemicolon, ";"))
			if !last {
				code.kids = append(code.kids, g.trivia(true, false)...)
			}
		} else if !last {
			// A newline ends the statement.
			g.note("newline between statements")
			s := []string{"\n", "\n\n  ", " \n", "\r\n", "\n\t"}[g.c.IntN(5)]
			if !g.noComments && g.pct(15) {
				code.kids = append(code.kids, lf(syntax.SyntaxKindSpace, " "), lf(syntax.SyntaxKindLineComment, "// c }"), lf(syntax.SyntaxKindSpace, "\n"))
			} else {
				code.kids = append(code.kids, lf(syntax.SyntaxKindSpace, s))
			}
		}
	}
	out.kids = append(out.kids, code)
	out.kids = append(out.kids, g.trivia(true, false)...)
	out.kids = append(out.kids, rb)
	return out
}

// contentBlock makes a content block.
func (g *gen) contentBlock(depth int) *gn {
	g.note("content block")
	mk := in(syntax.SyntaxKindMarkup)
	switch {
	case depth <= 0 || g.pct(25):
		if g.pct(60) {
			mk.kids = append(mk.kids, g.text())
		}
	case g.pct(70):
		if g.pct(25) {
			mk.kids = append(mk.kids, lf(syntax.SyntaxKindSpace, []string{" ", "\n", "  "}[g.c.IntN(3)]))
		}
		mk.kids = append(mk.kids, g.inline(inlineCtx{depth: depth - 1}, 1+g.c.IntN(3))...)
		if g.pct(25) || needsSpace(mk) {
			mk.kids = append(mk.kids, lf(syntax.SyntaxKindSpace, []string{" ", "\n", "\n "}[g.c.IntN(3)]))
		}
	default:
		ind := g.c.IntN(4)
		mk.kids = append(mk.kids, lf(syntax.SyntaxKindSpace, "\n"+strings.Repeat(" ", ind)))
		mk.kids = append(mk.kids, g.blocks(-1, ind, depth-1, 1+g.c.IntN(3))...)
		mk.kids = append(mk.kids, lf(syntax.SyntaxKindSpace, "\n"))
	}
	return in(syntax.SyntaxKindContentBlock, lf(syntax.SyntaxKindLeftBracket, "["), mk, lf(syntax.SyntaxKindRightBracket, "]"))
}

// needsSpace says whether the last item would swallow a closing bracket.
func needsSpace(mk *gn) bool {
	if len(mk.kids) == 0 {
		return false
	}
	return mk.kids[len(mk.kids)-1].kind == syntax.SyntaxKindLinebreak
}

var wordPool = []string{"word", "the", "a", "hello", "h", "http", "héé", "日本", "हिन्दी", "x1", "B", "over", "and", "letting", "12", "7", "e", "ß", "naïve", "don", "é"}

func (g *gen) text() *gn {
	n := 1 + g.c.IntN(3)
	var ws []string
	for i := 0; i < n; i++ {
		ws = append(ws, wordPool[g.c.IntN(len(wordPool))])
	}
	return lf(syntax.SyntaxKindText, strings.Join(ws, " "))
}

type inlineCtx struct {
	depth        int
	strong, emph bool
}

// inline makes inline markup items separated by whitespace.
func (g *gen) inline(x inlineCtx, n int) []*gn {
	var out []*gn
	for i := 0; i < n; i++ {
		g.spend()
		item := g.inlineItem(x)
		if i > 0 {
			ws := " "
			switch g.c.IntN(12) {
			case 0:
				ws = "  "
			case 1:
				ws = "\t"
			}
			prev := out[len(out)-1]
			if ws == " " && prev.kind == syntax.SyntaxKindText && prev.leaf && isWordText(prev.text) && item[0].kind == syntax.SyntaxKindText && isWordText(item[0].text) {
				// A single space between words is part of the text.
				prev2 := lf(syntax.SyntaxKindText, prev.text+" "+item[0].text)
				out[len(out)-1] = prev2
				out = append(out, item[1:]...)
				continue
			}
			if ws == " " && prev.kind == syntax.SyntaxKindText && prev.leaf && isWordText(prev.text) && item[0].kind == syntax.SyntaxKindLink {
				// Text runs up to the first letter of the link.
				out[len(out)-1] = lf(syntax.SyntaxKindText, prev.text+" ")
				out = append(out, item...)
				continue
			}
			if !g.noComments && g.pct(6) {
				g.note("comment")
				out = append(out, lf(syntax.SyntaxKindSpace, ws), lf(syntax.SyntaxKindBlockComment, "/* c ] */"), lf(syntax.SyntaxKindSpace, " "))
			} else {
				out = append(out, lf(syntax.SyntaxKindSpace, ws))
			}
		}
		out = append(out, item...)
	}
	return out
}

func isWordText(s string) bool {
	return s != "[" && s != "]" && s != ":"
}

func (g *gen) inlineItem(x inlineCtx) []*gn {
	one := func(k syntax.SyntaxKind, s string) []*gn { return []*gn{lf(k, s)} }
	k := g.c.IntN(100)
	if x.depth <= 0 && (k >= 60) {
		k = g.c.IntN(60)
	}
	switch {
	case k < 30:
		return []*gn{g.text()}
	case k < 34:
		return one(syntax.SyntaxKindEscape, []string{`\#`, `\*`, `\[`, `\u{41}`, `\u{1F600}`, `\\`, `\/`, `\é`}[g.c.IntN(8)])
	case k < 37:
		return one(syntax.SyntaxKindShorthand, []string{"~", "--", "---", "...", "-?"}[g.c.IntN(5)])
	case k < 39:
		return one(syntax.SyntaxKindSmartQuote, []string{"'", "\""}[g.c.IntN(2)])
	case k < 41:
		return one(syntax.SyntaxKindLinebreak, `\`)
	case k < 44:
		return one(syntax.SyntaxKindLink, []string{"https://a.b/c?d=e", "http://x.org/(y)[z]", "https://é"[:8] + "h.org/#f", "http://a"}[g.c.IntN(4)])
	case k < 48:
		return []*gn{g.rawInline()}
	case k < 51:
		return one(syntax.SyntaxKindLabel, []string{"<l>", "<a-b>", "<a.b:c>"}[g.c.IntN(3)])
	case k < 55:
		g.note("reference")
		r := in(syntax.SyntaxKindRef, lf(syntax.SyntaxKindRefMarker, []string{"@r", "@a-b", "@a.b", "@é:1"}[g.c.IntN(4)]))
		if g.pct(30) && x.depth > 0 {
			r.kids = append(r.kids, g.contentBlock(x.depth-1))
		}
		return []*gn{r}
	case k < 58:
		// Balanced brackets are text.
		g.note("text brackets")
		out := one(syntax.SyntaxKindText, "[")
		out = append(out, g.inline(inlineCtx{depth: 0, strong: x.strong, emph: x.emph}, 1)...)
		if out[len(out)-1].kind == syntax.SyntaxKindLinebreak {
			out = append(out, lf(syntax.SyntaxKindSpace, " "))
		}
		return append(out, lf(syntax.SyntaxKindText, "]"))
	case k < 60:
		return one(syntax.SyntaxKindLinebreak, `\`)
	case k < 72 && !x.strong:
		g.note("strong")
		mk := in(syntax.SyntaxKindMarkup, g.styled(inlineCtx{depth: x.depth - 1, strong: true})...)
		return []*gn{in(syntax.SyntaxKindStrong, lf(syntax.SyntaxKindStar, "*"), mk, lf(syntax.SyntaxKindStar, "*"))}
	case k < 84 && !x.emph:
		g.note("emph")
		mk := in(syntax.SyntaxKindMarkup, g.styled(inlineCtx{depth: x.depth - 1, emph: true})...)
		return []*gn{in(syntax.SyntaxKindEmph, lf(syntax.SyntaxKindUnderscore, "_"), mk, lf(syntax.SyntaxKindUnderscore, "_"))}
	default:
		return g.embed(x.depth-1, false)
	}
}

// styled is the inside of strong or emph: inline items, perhaps with a line
// break that is not a paragraph break.
func (g *gen) styled(x inlineCtx) []*gn {
	// The first item must not glue to the opening delimiter and the last must
	// end where the closing delimiter can be read.
	var out []*gn
	if g.pct(15) {
		out = append(out, lf(syntax.SyntaxKindSpace, " "))
	}
	out = append(out, g.inline(x, 1+g.c.IntN(3))...)
	if g.pct(20) {
		g.note("line break inside strong/emph")
		out = append(out, lf(syntax.SyntaxKindSpace, "\n"))
		out = append(out, g.inline(x, 1)...)
	}
	last := out[len(out)-1]
	lt := last.lastText()
	if last.kind == syntax.SyntaxKindLinebreak || last.kind == syntax.SyntaxKindLink || last.kind == syntax.SyntaxKindRef || last.kind == syntax.SyntaxKindSpace ||
		last.kind == syntax.SyntaxKindShorthand || g.pct(10) || !safeBeforeDelim(last, lt) {
		out = append(out, lf(syntax.SyntaxKindSpace, " "))
	}
	return out
}

// safeBeforeDelim says whether a star or underscore directly behind the node
// ends the strong or emph.
func safeBeforeDelim(n *gn, last string) bool {
	switch n.kind {
	case syntax.SyntaxKindText, syntax.SyntaxKindStrong, syntax.SyntaxKindEmph, syntax.SyntaxKindRaw, syntax.SyntaxKindLabel:
		return true
	}
	return false
}

// embed makes a hash expression. If block is set it stands alone on its line
// and may be a statement that ends with the line.
func (g *gen) embed(depth int, block bool) []*gn {
	hash := lf(syntax.SyntaxKindHash, "#")
	semi := lf(syntax.SyntaxKindSemicolon, ";")
	var e ex
	for {
		if g.pct(40) {
			e = g.keywordExpr(nlStop, depth)
		} else {
			e = g.primary(nlStop, depth)
		}
		if e.atomic {
			break
		}
	}
	g.note("embedded code")
	stmt := false
	switch e.n.kind {
	case syntax.SyntaxKindLetBinding, syntax.SyntaxKindSetRule, syntax.SyntaxKindShowRule, syntax.SyntaxKindModuleImport, syntax.SyntaxKindModuleInclude, syntax.SyntaxKindFuncReturn:
		stmt = true
	}
	out := []*gn{hash, e.n}
	if stmt {
		if !block || g.pct(25) {
			out = append(out, g.trivia(false, false)...)
			out = append(out, semi)
		}
	} else if g.pct(15) || e.n.kind == syntax.SyntaxKindContextual && !block {
		out = append(out, semi)
	}
	return out
}

// line makes the inline content of one line; it does not start with a marker.
func (g *gen) line(depth int) []*gn {
	return g.inline(inlineCtx{depth: depth}, 1+g.c.IntN(4))
}

func spaces(n int) string { return strings.Repeat(" ", n) }

// blocks makes n block-level elements whose lines start at column col. The
// caller has written the indentation of the first. min is the column of the
// list item they belong to (-1 if none).
func (g *gen) blocks(minCol, col, depth, n int) []*gn {
	var out []*gn
	for i := 0; i < n; i++ {
		if i > 0 {
			// A list item swallows lines that are indented deeper than its
			// marker, so siblings stay at most at its column.
			out = append(out, g.newline(col))
		}
		g.spend()
		switch k := g.c.IntN(100); {
		case k < 20:
			g.note("heading")
			marks := strings.Repeat("=", 1+g.c.IntN(4))
			h := in(syntax.SyntaxKindHeading, lf(syntax.SyntaxKindHeadingMarker, marks), lf(syntax.SyntaxKindSpace, []string{" ", "  ", "\t"}[g.c.IntN(3)]))
			body := g.headingLine(depth)
			h.kids = append(h.kids, in(syntax.SyntaxKindMarkup, body...))
			out = append(out, h)
			if g.pct(25) {
				g.note("heading label")
				out = append(out, lf(syntax.SyntaxKindSpace, " "), lf(syntax.SyntaxKindLabel, "<sec>"))
			}
		case k < 55 && depth > 0:
			out = append(out, g.item(col, depth))
		case k < 65:
			out = append(out, g.embed(depth, true)...)
		default:
			out = append(out, g.line(depth)...)
		}
	}
	return out
}

// headingLine is a line without labels (a label ends the heading).
func (g *gen) headingLine(depth int) []*gn {
	for {
		l := g.line(depth)
		ok := true
		for _, n := range l {
			if n.kind == syntax.SyntaxKindLabel {
				ok = false
			}
		}
		if ok {
			return l
		}
	}
}

// newline is the whitespace between two lines.
func (g *gen) newline(col int) *gn {
	if g.pct(25) {
		g.note("paragraph break")
		return lf(syntax.SyntaxKindParbreak, []string{"\n\n", "\n \n", "\n\n\n", "\r\n\r\n"}[g.c.IntN(4)]+spaces(col))
	}
	return lf(syntax.SyntaxKindSpace, []string{"\n", "\n", " \n", "\r\n"}[g.c.IntN(4)]+spaces(col))
}

// item makes a list item whose marker stands at column col.
func (g *gen) item(col, depth int) *gn {
	sp := lf(syntax.SyntaxKindSpace, []string{" ", " ", "  "}[g.c.IntN(3)])
	mk := in(syntax.SyntaxKindMarkup)
	var it *gn
	var markLen int
	first := func(inner int) {
		if g.pct(10) && depth > 1 {
			g.note("item directly in item")
			mk.kids = append(mk.kids, g.item(inner, depth-1))
		} else {
			mk.kids = append(mk.kids, g.line(depth-1)...)
		}
	}
	switch g.c.IntN(4) {
	case 0, 1:
		g.note("list item")
		it = in(syntax.SyntaxKindListItem, lf(syntax.SyntaxKindListMarker, "-"), sp)
		markLen = 1
		first(col + markLen + len(sp.text))
	case 2:
		g.note("enum item")
		mark := []string{"+", "1.", "12.", "0."}[g.c.IntN(4)]
		it = in(syntax.SyntaxKindEnumItem, lf(syntax.SyntaxKindEnumMarker, mark), sp)
		first(col + len(mark) + len(sp.text))
	default:
		g.note("term item")
		term := in(syntax.SyntaxKindMarkup, g.inline(inlineCtx{depth: 0}, 1)...)
		for term.kids[0].kind == syntax.SyntaxKindLink || term.kids[0].kind == syntax.SyntaxKindRef {
			term.kids = g.inline(inlineCtx{depth: 0}, 1)
		}
		if term.kids[len(term.kids)-1].kind == syntax.SyntaxKindLinebreak {
			term.kids = []*gn{g.text()}
		}
		it = in(syntax.SyntaxKindTermItem, lf(syntax.SyntaxKindTermMarker, "/"), sp, term, lf(syntax.SyntaxKindColon, ":"), lf(syntax.SyntaxKindSpace, " "))
		mk.kids = append(mk.kids, g.line(depth-1)...)
	}
	// Further lines of the item: nested items or continuation text.
	limit := 1 << 30
	if k := mk.kids[0].kind; k == syntax.SyntaxKindListItem || k == syntax.SyntaxKindEnumItem || k == syntax.SyntaxKindTermItem {
		limit = col + 1
	}
	for depth > 1 && g.pct(40) && g.spend() {
		c2 := col + 1 + g.c.IntN(4)
		if c2 > limit {
			c2 = limit
		}
		if c2 <= col {
			break
		}
		mk.kids = append(mk.kids, g.newline(c2))
		if g.pct(60) {
			g.note("nested item")
			mk.kids = append(mk.kids, g.item(c2, depth-1))
			limit = c2
		} else {
			g.note("continuation line")
			mk.kids = append(mk.kids, g.line(depth-1)...)
			limit = 1 << 30
		}
	}
	it.kids = append(it.kids, mk)
	return it
}

// document makes a whole document.
func (g *gen) document(depth, n int) *gn {
	col := 0
	root := in(syntax.SyntaxKindMarkup)
	if g.pct(10) {
		root.kids = append(root.kids, lf(syntax.SyntaxKindSpace, "\n"))
	}
	root.kids = append(root.kids, g.blocks(-1, col, depth, n)...)
	if g.pct(40) {
		root.kids = append(root.kids, lf(syntax.SyntaxKindSpace, "\n"))
	}
	return root
}

// genDocument is the text of a random well-formed document.
func genDocument(c *Case, size int) string {
	g := newGen(c, 2+size/6)
	return g.document(3, 1+c.IntN(1+size/20)).src()
}
