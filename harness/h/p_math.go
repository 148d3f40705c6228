package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/graphemes"
	"github.com/mewmew/typast/typst/syntax"
)

// The reference for math: a tokenizer and a parser written from the language
// rules. It gives the expected tree of an equation without its white space and
// comments, or says that the equation is wrong.

const (
	clsNone = iota
	clsOpen
	clsClose
	clsAlpha
)

// mathClassOf is the reference for the classes which decide the structure; the
// characters are those of the generators and of mathdata.go.
func mathClassOf(text string) int {
	switch text {
	case "[|":
		return clsOpen
	case "|]":
		return clsClose
	}
	rs := []rune(text)
	if len(rs) != 1 {
		return clsNone
	}
	switch {
	case strings.ContainsRune("([{⌈⌊⟦⟨⟪⟮⦃⎰⟅", rs[0]):
		return clsOpen
	case strings.ContainsRune(")]}⌉⌋⟧⟩⟫⟯⦄⎱⟆", rs[0]):
		return clsClose
	case refAlpha(rs[0]):
		return clsAlpha
	}
	return clsNone
}

var mathShorthands = []string{"<==>", "<-->",
	"->>", "-->", "::=", "...", "<--", "<-<", "<->", "<<-", "<<<", "<=>", "<==", "<~~", ">->", ">>>", "==>", "|->", "|=>", "~~>",
	"->", ":=", "!=", "[|", "<=", "<<", "<-", "<~", "=>", "=:", ">=", ">>", "|]", "||", "~>",
	"*", "-", "~"}

// mtok is a math token; trivia says whether white space or a comment precedes.
type mtok struct {
	kind   syntax.SyntaxKind
	text   string
	node   *gn // of a field access
	start  int
	trivia bool
}

// mathWrong ends the reference parser: the equation has an error.
type mathWrong struct{}

type mparser struct {
	r   rd
	cur mtok
}

func (p *mparser) wrong() { panic(mathWrong{}) }

func mathStart(c rune) bool { return refXIDStart(c) }
func mathCont(c rune) bool  { return c != '_' && refXIDContinue(c) }

// next reads the next token from the reader's position.
func (p *mparser) next() {
	trivia := false
	for {
		if p.r.while(unicode.IsSpace) > 0 {
			trivia = true
			continue
		}
		if k, ok := p.r.comment(); ok {
			if k == tokError {
				p.wrong()
			}
			trivia = true
			continue
		}
		break
	}
	p.read(trivia)
}

func (p *mparser) read(trivia bool) {
	r := &p.r
	start := r.i
	p.cur = mtok{start: start, trivia: trivia}
	set := func(k syntax.SyntaxKind) {
		p.cur.kind, p.cur.text = k, string(r.s[start:r.i])
	}
	c := r.at(0)
	if c < 0 {
		set(syntax.SyntaxKindEnd)
		return
	}
	switch c {
	case '\\':
		if r.at(1) == 'u' && r.at(2) == '{' {
			r.i += 3
			n := r.while(func(c rune) bool { return refAlnum(c) })
			hex := string(r.s[r.i-n : r.i])
			if r.at(0) != '}' {
				p.wrong()
			}
			r.i++
			var v uint32
			if _, err := fmt.Sscanf(hex, "%x", &v); err != nil || fmt.Sprintf("%x", v) != strings.TrimLeft(strings.ToLower(hex), "0") || v > 0x10FFFF || v >= 0xD800 && v < 0xE000 {
				p.wrong()
			}
			set(syntax.SyntaxKindEscape)
			return
		}
		r.i++
		if r.at(0) < 0 || unicode.IsSpace(r.at(0)) {
			set(syntax.SyntaxKindLinebreak)
			return
		}
		r.i++
		set(syntax.SyntaxKindEscape)
		return
	case '"':
		r.i++
		for esc := false; ; r.i++ {
			if r.at(0) < 0 {
				p.wrong()
			}
			if r.at(0) == '"' && !esc {
				break
			}
			esc = !esc && r.at(0) == '\\'
		}
		r.i++
		set(syntax.SyntaxKindStr)
		return
	}
	for _, sh := range mathShorthands {
		if r.has(sh) {
			r.i += len(sh)
			set(syntax.SyntaxKindMathShorthand)
			return
		}
	}
	single := map[rune]syntax.SyntaxKind{'.': syntax.SyntaxKindDot, ',': syntax.SyntaxKindComma, ';': syntax.SyntaxKindSemicolon,
		')': syntax.SyntaxKindRightParen, '#': syntax.SyntaxKindHash, '_': syntax.SyntaxKindUnderscore, '$': syntax.SyntaxKindDollar,
		'/': syntax.SyntaxKindSlash, '^': syntax.SyntaxKindHat, '\'': syntax.SyntaxKindPrime, '&': syntax.SyntaxKindMathAlignPoint,
		'√': syntax.SyntaxKindRoot, '∛': syntax.SyntaxKindRoot, '∜': syntax.SyntaxKindRoot}
	if k, ok := single[c]; ok {
		r.i++
		set(k)
		return
	}
	switch {
	case mathStart(c) && mathCont(r.at(1)):
		r.while(mathCont)
		node := lf(syntax.SyntaxKindMathIdent, string(r.s[start:r.i]))
		for r.at(0) == '.' && mathStart(r.at(1)) {
			r.i++
			from := r.i
			r.i++
			r.while(mathCont)
			node = in(syntax.SyntaxKindFieldAccess, node, lf(syntax.SyntaxKindDot, "."), lf(syntax.SyntaxKindIdent, string(r.s[from:r.i])))
		}
		set(node.kind)
		p.cur.node = node
	case unicode.IsNumber(c):
		r.while(unicode.IsNumber)
		if r.at(0) == '.' && unicode.IsNumber(r.at(1)) {
			r.i++
			r.while(unicode.IsNumber)
		}
		set(syntax.SyntaxKindMathText)
	default:
		// A character together with what joins it, such as combining marks.
		if n := clusterLen(r.s[r.i:]); n > 1 {
			r.i += n
			set(syntax.SyntaxKindText)
		} else {
			r.i++
			set(syntax.SyntaxKindMathText)
		}
	}
}

// clusterLen counts the characters of the grapheme cluster that a text begins with.
func clusterLen(s []rune) int {
	for k := min(16, len(s)); ; k = min(2*k, len(s)) {
		seg := graphemes.NewSegmenter([]byte(string(s[:k])))
		seg.Next()
		if n := utf8.RuneCount(seg.Bytes()); n < k || k == len(s) {
			return n
		}
	}
}

func (p *mparser) at(kinds ...syntax.SyntaxKind) bool {
	for _, k := range kinds {
		if p.cur.kind == k {
			return true
		}
	}
	return false
}

func (p *mparser) direct(k syntax.SyntaxKind) bool { return p.cur.kind == k && !p.cur.trivia }

// eat takes the current token as a leaf, as another kind if one is given.
func (p *mparser) eat(as ...syntax.SyntaxKind) *gn {
	n := p.cur.node
	if n == nil {
		n = lf(p.cur.kind, p.cur.text)
	}
	if len(as) > 0 {
		n = lf(as[0], p.cur.text)
	}
	p.next()
	return n
}

// mathCanStart says whether an expression may start with the token.
func (p *mparser) canStart() bool {
	return !p.at(syntax.SyntaxKindUnderscore, syntax.SyntaxKindHat, syntax.SyntaxKindSlash, syntax.SyntaxKindDollar, syntax.SyntaxKindEnd)
}

// exprs reads expressions up to one of the given tokens.
func (p *mparser) exprs(stop ...syntax.SyntaxKind) []*gn {
	var out []*gn
	for !p.at(stop...) {
		if !p.canStart() {
			p.wrong()
		}
		out = append(out, p.expr(0, syntax.SyntaxKindEnd)...)
	}
	return out
}

func (p *mparser) delimited() *gn {
	open := p.eat()
	var body []*gn
	for !p.at(syntax.SyntaxKindDollar, syntax.SyntaxKindEnd) {
		if mathClassOf(p.cur.text) == clsClose {
			closing := syntax.SyntaxKindMathText
			if p.at(syntax.SyntaxKindMathShorthand) {
				closing = syntax.SyntaxKindMathShorthand
			}
			return in(syntax.SyntaxKindMathDelimited, open, in(syntax.SyntaxKindMath, body...), p.eat(closing))
		}
		if !p.canStart() {
			p.wrong()
		}
		body = append(body, p.expr(0, syntax.SyntaxKindEnd)...)
	}
	return in(syntax.SyntaxKindMath, append([]*gn{open}, body...)...)
}

// unparen drops the parentheses around the first of the nodes.
func unparen(nodes []*gn) {
	if len(nodes) == 0 || nodes[0].kind != syntax.SyntaxKindMathDelimited {
		return
	}
	k := nodes[0].kids
	if a, b := k[0], k[len(k)-1]; a.text == "(" && b.text == ")" {
		nodes[0] = in(syntax.SyntaxKindMath, append(append([]*gn{lf(syntax.SyntaxKindLeftParen, "(")}, k[1:len(k)-1]...), lf(syntax.SyntaxKindRightParen, ")"))...)
	}
}

func (p *mparser) primes() *gn {
	kids := []*gn{p.eat()}
	for p.direct(syntax.SyntaxKindPrime) {
		kids = append(kids, p.eat())
	}
	return in(syntax.SyntaxKindMathPrimes, kids...)
}

// hash reads embedded code: a variable, and a semicolon directly after it.
func (p *mparser) hash() []*gn {
	out := []*gn{lf(syntax.SyntaxKindHash, "#")}
	r := &p.r
	from := r.i
	if !refIDStart(r.at(0)) {
		p.wrong()
	}
	r.while(refIDContinue)
	out = append(out, lf(syntax.SyntaxKindIdent, string(r.s[from:r.i])))
	if r.at(0) == ';' {
		r.i++
		out = append(out, lf(syntax.SyntaxKindSemicolon, ";"))
	}
	p.next()
	return out
}

func (p *mparser) expr(min int, stop syntax.SyntaxKind) []*gn {
	var acc []*gn
	wrap := func(k syntax.SyntaxKind) { acc = []*gn{in(k, acc...)} }
	continuable := false
	switch {
	case p.at(syntax.SyntaxKindHash):
		acc = p.hash()
	case p.at(syntax.SyntaxKindMathIdent, syntax.SyntaxKindFieldAccess):
		acc = append(acc, p.eat())
		continuable = true
		if min < 3 && p.direct(syntax.SyntaxKindMathText) && p.cur.text == "(" {
			acc = append(acc, p.args())
			wrap(syntax.SyntaxKindFuncCall)
			continuable = false
		}
	case p.at(syntax.SyntaxKindDot, syntax.SyntaxKindComma, syntax.SyntaxKindSemicolon, syntax.SyntaxKindRightParen):
		acc = append(acc, p.eat(syntax.SyntaxKindMathText))
	case p.at(syntax.SyntaxKindText, syntax.SyntaxKindMathText, syntax.SyntaxKindMathShorthand):
		cls := mathClassOf(p.cur.text)
		continuable = !strings.ContainsFunc(p.cur.text, func(c rune) bool { return !refAlpha(c) })
		if cls == clsOpen {
			acc = append(acc, p.delimited())
		} else {
			acc = append(acc, p.eat())
		}
	case p.at(syntax.SyntaxKindLinebreak, syntax.SyntaxKindMathAlignPoint):
		acc = append(acc, p.eat())
	case p.at(syntax.SyntaxKindEscape, syntax.SyntaxKindStr):
		acc = append(acc, p.eat())
		continuable = true
	case p.at(syntax.SyntaxKindRoot):
		if min < 3 {
			acc = append(acc, p.eat())
			arg := p.expr(2, stop)
			unparen(arg)
			acc = append(acc, arg...)
			wrap(syntax.SyntaxKindMathRoot)
		}
	case p.at(syntax.SyntaxKindPrime):
		continuable = true
		for p.at(syntax.SyntaxKindPrime) {
			acc = append(acc, p.primes())
		}
	default:
		p.wrong()
	}
	if continuable && min < 3 && !p.cur.trivia && mathClassOf(p.cur.text) == clsOpen {
		acc = append(acc, p.delimited())
		wrap(syntax.SyntaxKindMath)
	}
	primed := false
	for !p.at(syntax.SyntaxKindEnd, stop) {
		if p.direct(syntax.SyntaxKindMathText) && p.cur.text == "!" {
			acc = append(acc, p.eat())
			wrap(syntax.SyntaxKindMath)
			continue
		}
		if p.direct(syntax.SyntaxKindPrime) {
			acc = append(acc, p.primes())
			primed = true
			if p.at(stop) {
				wrap(syntax.SyntaxKindMathAttach)
			}
			continue
		}
		frac := p.at(syntax.SyntaxKindSlash)
		attach := p.at(syntax.SyntaxKindUnderscore, syntax.SyntaxKindHat)
		if primed && !attach {
			wrap(syntax.SyntaxKindMathAttach)
		}
		if !frac && !attach || frac && min > 1 {
			break
		}
		if frac {
			unparen(acc)
			acc = append(acc, p.eat())
			arg := p.expr(2, syntax.SyntaxKindEnd)
			unparen(arg)
			acc = append(acc, arg...)
			// A quirk of the language: what may follow an attachment may also
			// follow a denominator.
			p.second(&acc, 2)
			wrap(syntax.SyntaxKindMathFrac)
			continue
		}
		other := syntax.SyntaxKindHat
		if p.at(syntax.SyntaxKindHat) {
			other = syntax.SyntaxKindUnderscore
		}
		acc = append(acc, p.eat())
		arg := p.expr(3, other)
		unparen(arg)
		acc = append(acc, arg...)
		p.second(&acc, 3)
		wrap(syntax.SyntaxKindMathAttach)
	}
	return acc
}

// second reads the other attachment.
func (p *mparser) second(acc *[]*gn, min int) {
	if p.at(syntax.SyntaxKindUnderscore, syntax.SyntaxKindHat) {
		*acc = append(*acc, p.eat())
		arg := p.expr(min, syntax.SyntaxKindEnd)
		unparen(arg)
		*acc = append(*acc, arg...)
	}
}

func (p *mparser) args() *gn {
	ends := []syntax.SyntaxKind{syntax.SyntaxKindEnd, syntax.SyntaxKindDollar, syntax.SyntaxKindRightParen}
	var out, row []*gn // row: what belongs to the current array
	out = append(out, p.eat(syntax.SyntaxKindLeftParen))
	arrays, positional := false, true
	seen := map[string]bool{}
	flush := func() { out = append(out, row...); row = nil }
	for !p.at(ends...) {
		var arg []*gn
		arg, positional = p.arg(seen)
		row = append(row, arg...)
		switch {
		case p.at(syntax.SyntaxKindComma):
			row = append(row, p.eat())
			if !positional {
				flush()
			}
		case p.at(syntax.SyntaxKindSemicolon):
			if !positional {
				flush()
			}
			out = append(out, in(syntax.SyntaxKindArray, row...), p.eat())
			row = nil
			arrays = true
		case p.at(ends...):
		default:
			p.wrong()
		}
	}
	if len(row) > 0 && arrays && positional {
		row = []*gn{in(syntax.SyntaxKindArray, row...)}
	}
	flush()
	if !p.at(syntax.SyntaxKindRightParen) {
		p.wrong()
	}
	out = append(out, p.eat())
	return in(syntax.SyntaxKindArgs, out...)
}

func (p *mparser) arg(seen map[string]bool) ([]*gn, bool) {
	r := &p.r
	if p.at(syntax.SyntaxKindDot) {
		back := r.i
		r.i = p.cur.start
		if r.has("..") {
			r.i += 2
			if r.at(0) >= 0 && !unicode.IsSpace(r.at(0)) && r.at(0) != '.' && !r.has("//") && !r.has("/*") {
				p.next()
				return []*gn{in(syntax.SyntaxKindSpread, append([]*gn{lf(syntax.SyntaxKindDots, "..")}, p.need()...)...)}, true
			}
		}
		r.i = back
	}
	var named []*gn
	if p.at(syntax.SyntaxKindMathText, syntax.SyntaxKindMathIdent, syntax.SyntaxKindUnderscore) && refIDStart([]rune(p.cur.text)[0]) {
		back := r.i
		r.i = p.cur.start
		r.while(refIDContinue)
		name := string(r.s[p.cur.start:r.i])
		if r.at(0) == ':' && !r.has(":=") && !r.has("::=") {
			if name == "_" || seen[name] {
				p.wrong()
			}
			seen[name] = true
			r.i++
			named = []*gn{lf(syntax.SyntaxKindIdent, name), lf(syntax.SyntaxKindColon, ":")}
			p.next()
		} else {
			r.i = back
		}
	}
	val := p.countedExprs()
	if named != nil {
		if len(val.kids) == 0 {
			p.wrong()
		}
		return []*gn{in(syntax.SyntaxKindNamed, append(named, val.flat()...)...)}, false
	}
	return val.flat(), true
}

// need reads one expression.
func (p *mparser) need() []*gn {
	if !p.canStart() {
		p.wrong()
	}
	return p.expr(0, syntax.SyntaxKindEnd)
}

type counted struct {
	kids  []*gn
	count int
}

func (v counted) flat() []*gn {
	if v.count == 1 {
		return v.kids
	}
	return []*gn{in(syntax.SyntaxKindMath, v.kids...)}
}

func (p *mparser) countedExprs() counted {
	var v counted
	for !p.at(syntax.SyntaxKindEnd, syntax.SyntaxKindDollar, syntax.SyntaxKindComma, syntax.SyntaxKindSemicolon, syntax.SyntaxKindRightParen) {
		v.kids = append(v.kids, p.need()...)
		v.count++
	}
	return v
}

// refEquation gives the tree of an equation, or nil if it is wrong.
func refEquation(src string) (eq *gn) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(mathWrong); !ok {
				panic(e)
			}
			eq = nil
		}
	}()
	p := &mparser{r: rd{s: []rune(src)}}
	p.next()
	open := p.eat()
	body := p.exprs(syntax.SyntaxKindDollar, syntax.SyntaxKindEnd)
	if !p.at(syntax.SyntaxKindDollar) || p.r.i != len(p.r.s) {
		p.wrong()
	}
	return in(syntax.SyntaxKindMarkup, in(syntax.SyntaxKindEquation, open, in(syntax.SyntaxKindMath, body...), lf(syntax.SyntaxKindDollar, "$")))
}

// plainTree is a tree without white space and comments.
func plainTree(n *syntax.SyntaxNode) *gn {
	if text, ok := leafText(n); ok {
		return lf(nodeKind(n), text)
	}
	out := in(nodeKind(n))
	for _, k := range children(n) {
		if !nodeKind(k).IsTrivia() {
			out.kids = append(out.kids, plainTree(k))
		}
	}
	return out
}

// dropSingleAttach removes attachments of nothing, which stand for their base.
func dropSingleAttach(n *gn) *gn {
	for i, k := range n.kids {
		n.kids[i] = dropSingleAttach(k)
	}
	if n.kind == syntax.SyntaxKindMathAttach && len(n.kids) == 1 {
		return n.kids[0]
	}
	return n
}

var mathPieces = []string{"a", "b", "x", "ab", "pi", "sin", "mat", "a.b", "vec.x.y", "α", "é", "कि", "ि", "Ⅷ", "Ⓐ", "a·b", "1", "12", "3.14", "½", "(", ")", "[", "]", "{", "}", "⟨", "⟩", "[|", "|]", "|", "||",
	"_", "^", "/", "'", "''", "!", "&", "√", "∛", "+", "-", "*", "=", "<", ">", "~", ":", ":=", "::=", "->", "->>", "-->", "<=", "<==>", "<-", "=>", "!=", "...", "..", ".", ",", ";",
	"\"s\"", "\"a$\"", "\\$", "\\ ", "\\(", "\\u{41}", " ", " ", " ", "\n", "/* c */", "// c\n", "#x", "#y;", "#z ", "`", "%", "é", "+\u0301", "(\u0302", "∑", "∫", "%\u0303", "x:", "a-b:", "..", "_:", "?", "@", "☺", "⎰", "⟆", "⟅", "⎱"}

// mathSoupText joins random pieces.
func mathSoupText(c *Case) string {
	var b strings.Builder
	b.WriteString("$")
	for i, n := 0, 1+c.IntN(10); i < n; i++ {
		piece := mathPieces[c.IntN(len(mathPieces))]
		if strings.HasPrefix(piece, "#") && c.IntN(3) > 0 {
			piece = "x"
		}
		b.WriteString(piece)
	}
	b.WriteString("$")
	return b.String()
}

// mathGen writes an equation that is well-formed for the most part.
func mathGen(c *Case, b *strings.Builder, depth int) {
	sp := func() {
		switch c.IntN(9) {
		case 0, 1:
			b.WriteString(" ")
		case 2:
			if c.IntN(4) == 0 {
				b.WriteString([]string{"\n", "/* c */", " // c\n", "\t"}[c.IntN(4)])
			}
		}
	}
	atom := func() {
		switch c.IntN(14) {
		case 0, 1, 2:
			b.WriteString([]string{"a", "b", "x", "α", "1", "12", "3.14"}[c.IntN(7)])
		case 3, 4:
			b.WriteString([]string{"pi", "sin", "ab", "a.b", "vec.x"}[c.IntN(5)])
		case 5, 6:
			if depth > 0 {
				i := c.IntN(5)
				b.WriteString([]string{"(", "[", "{", "⟨", "[|"}[i])
				mathGen(c, b, depth-1)
				if c.IntN(8) == 0 {
					i = c.IntN(5)
				}
				b.WriteString([]string{")", "]", "}", "⟩", "|]"}[i])
			}
		case 7, 8, 9:
			if depth > 0 {
				mathCall(c, b, depth-1)
			}
		case 10:
			b.WriteString([]string{"√", "∛", "√ "}[c.IntN(3)])
			if depth > 0 {
				b.WriteString("(")
				mathGen(c, b, depth-1)
				b.WriteString(")")
			} else {
				b.WriteString("x")
			}
		case 11:
			b.WriteString([]string{"\"s\"", "\\$", "\\(", "&", "\\\n", "\"a$b\""}[c.IntN(6)])
		case 12:
			b.WriteString([]string{"#x ", "#y;", "#z\n"}[c.IntN(3)])
		default:
			if c.IntN(4) == 0 {
				b.WriteString(mathPieces[c.IntN(len(mathPieces))])
			} else {
				b.WriteString("x")
			}
			b.WriteString(" ")
		}
	}
	for i, n := 0, 1+c.IntN(3); i < n; i++ {
		atom()
		for c.IntN(3) > 0 {
			switch c.IntN(8) {
			case 0, 1:
				sp()
				b.WriteString("_")
				sp()
				atom()
			case 2, 3:
				sp()
				b.WriteString("^")
				sp()
				atom()
			case 4, 5:
				sp()
				b.WriteString("/")
				sp()
				atom()
			case 6:
				b.WriteString([]string{"'", "''", "!", "' '"}[c.IntN(4)])
			default:
				b.WriteString("(")
				if depth > 0 {
					mathGen(c, b, depth-1)
				}
				b.WriteString(")")
			}
		}
		b.WriteString([]string{" ", " ", "", " + ", "=", " -> ", "\n"}[c.IntN(7)])
	}
}

// mathCall writes a call.
func mathCall(c *Case, b *strings.Builder, depth int) {
	b.WriteString([]string{"sin", "mat", "f.g", "cal"}[c.IntN(4)])
	b.WriteString("(")
	for i, n := 0, c.IntN(5); i < n; i++ {
		named := false
		switch c.IntN(8) {
		case 0, 1, 2:
			named = true
			b.WriteString([]string{"k: ", "size:", "a-b: ", "_x:", "kk: ", "m:"}[(i+c.IntN(30)/29)%6])
		case 4:
			b.WriteString([]string{"k::=", "k:=", "k :", "kk::= "}[c.IntN(4)])
		case 3:
			b.WriteString([]string{"..", "..#x "}[c.IntN(2)])
		}
		switch {
		case c.IntN(3) == 0:
			b.WriteString([]string{"a", "12", "x y", "pi", "a b c", "#x", "\"s\"", "a/b", "x_1"}[c.IntN(9)])
		case c.IntN(5) > 0 || named:
			mathGen(c, b, depth)
		}
		if i < n-1 || c.IntN(3) == 0 {
			b.WriteString([]string{",", ", ", " ,", ";", "; ", "\n;"}[c.IntN(6)])
		}
	}
	b.WriteString(")")
}

// usableMath leaves out embedded code that the reference does not read.
func usableMath(text string) bool {
	for i := 0; i < len(text); i++ {
		if text[i] != '#' {
			continue
		}
		j := i + 1
		for j < len(text) && ('a' <= text[j] && text[j] <= 'z' || text[j] == '-' || text[j] == '_' || '0' <= text[j] && text[j] <= '9') {
			j++
		}
		if j == i+1 || j-i > 2 || text[j-1] < 'x' || j < len(text) && strings.IndexByte(";,)/^'$ \n+*=", text[j]) < 0 {
			return false
		}
	}
	return true
}

func mathCase(c *Case, text string) {
	if !usableMath(text) {
		return
	}
	c.Input = text
	want := refEquation(text)
	root := syntax.Parse(text)
	bad := countErrors(root) > 0
	c.Eval(1)
	if bad != (want == nil) {
		if bad {
			c.Fail("the equation %q is well-formed, but the parser reports errors\n%s", text, pretty(root))
		}
		c.Fail("the equation %q has a mistake that is not reported\n%s", text, pretty(root))
	}
	if bad {
		c.Cover("wrong equation")
		return
	}
	c.Cover("well-formed equation")
	want = dropSingleAttach(want)
	got := dropSingleAttach(plainTree(root))
	if want.sexp() != got.sexp() {
		c.Fail("the equation %q parses as\n%s\nwant\n%s", text, got.pretty(), want.pretty())
	}
	want.walk(func(n *gn) {
		if !n.leaf {
			c.Cover(n.kind.Name())
		}
	})
	var sh strings.Builder
	want.shape(&sh)
	c.Distinct(sh.String())
	if len(text) < 60 {
		c.Sample(text)
	}
}

func init() {
	register(&Prop{
		ID:   "P29",
		Rule: "an equation counts by the shape of its expected tree",
		Groups: []Group{
			{Name: "structure", Quick: 60000, Thorough: 2500000, Run: func(c *Case) {
				var b strings.Builder
				b.WriteString("$")
				mathGen(c, &b, 2)
				b.WriteString("$")
				if strings.Contains(b.String(), ":ि") {
					// The colon and the mark are one character for a reader and
					// one token; the groups with the reference parser judge it.
					c.Cover("marks on a colon, left out")
					return
				}
				mathCase(c, b.String())
			}},
			{Name: "pieces", Quick: 80000, Thorough: 3000000, Run: func(c *Case) { mathCase(c, mathSoupText(c)) }},
			{Name: "pairs", Quick: len(mathPieces) * len(mathPieces), Thorough: len(mathPieces) * len(mathPieces) * len(mathPieces), Run: func(c *Case) {
				text := "$"
				for n, k := c.Index, 0; k < 2 || n > 0; k++ {
					text += mathPieces[n%len(mathPieces)]
					n /= len(mathPieces)
				}
				mathCase(c, text+"$")
			}},
		},
		Assumptions: []string{"the math classes of characters are those of Unicode's MathClass.txt, filled in by the harness where the stand-in module has none"},
	})
}
