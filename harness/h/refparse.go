package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"

	"github.com/mewmew/typast/typst/syntax"
)

// The reference parser reads a whole text (markup with code and math) and gives
// its tree, errors included. It is plain recursive descent on immutable nodes;
// where the meaning of a parenthesis shows only behind it, it goes back and
// reads again, so it is only used on small texts. Raw text is a leaf.

type rn struct {
	kind  syntax.SyntaxKind
	text  string
	leaf  bool
	kids  []*rn
	msg   string
	hints []string
}

const kErr = syntax.SyntaxKindError

func (n *rn) isErr() bool { return n.kind == kErr }

func (n *rn) allText() string {
	if n.leaf {
		return n.text
	}
	var b strings.Builder
	for _, k := range n.kids {
		b.WriteString(k.allText())
	}
	return b.String()
}

func (n *rn) String() string {
	var b strings.Builder
	var rec func(n *rn)
	rec = func(n *rn) {
		switch {
		case n.isErr():
			fmt.Fprintf(&b, "ERROR%q{%s|%s}", n.text, n.msg, strings.Join(n.hints, "|"))
		case n.leaf:
			fmt.Fprintf(&b, "%s%q", strings.ReplaceAll(refKindName[n.kind], " ", "-"), n.text)
		default:
			fmt.Fprintf(&b, "(%s", strings.ReplaceAll(refKindName[n.kind], " ", "-"))
			for _, k := range n.kids {
				b.WriteByte(' ')
				rec(k)
			}
			b.WriteByte(')')
		}
	}
	rec(n)
	return b.String()
}

func errLeaf(msg, text string, hints ...string) *rn {
	return &rn{kind: kErr, leaf: true, text: text, msg: msg, hints: hints}
}

// rnOf converts a parsed tree.
func rnOf(n *syntax.SyntaxNode) *rn {
	switch r := n.Repr.(type) {
	case *syntax.LeafNode:
		return &rn{kind: r.Kind, leaf: true, text: r.Text}
	case *syntax.ErrorNode:
		return errLeaf(r.Error.Message, r.Text, r.Error.Hints...)
	case *syntax.InnerNode:
		if r.Kind == syntax.SyntaxKindRaw {
			return &rn{kind: r.Kind, leaf: true, text: sourceText(n)}
		}
		out := &rn{kind: r.Kind}
		for _, k := range r.Children {
			out.kids = append(out.kids, rnOf(k))
		}
		return out
	}
	panic("harness: unknown repr")
}

type refMode int

const (
	mMarkup refMode = iota
	mMath
	mCode
)

// What a line break does to the construct that is being read.
type refNL struct {
	how int
	col int
}

var (
	nlGoOn       = refNL{how: 0} // nothing
	nlEnds       = refNL{how: 1} // it ends it
	nlContinuers = refNL{how: 2} // it ends it unless `else` or a dot follows
	nlBlankLine  = refNL{how: 3} // a blank line ends it
)

func nlIndent(col int) refNL { return refNL{how: 4, col: col} }

type refTok struct {
	kind     syntax.SyntaxKind // as the parser sees it
	node     *rn
	trivia   int
	newline  bool
	blank    bool
	col      int // -1 outside of markup
	from     int // rune index
	prevEnd  int
	textSpan string
}

type refParser struct {
	s    []rune
	pos  int
	mode refMode
	nl   refNL
	out  []*rn
	tok  refTok
	work int
}

type refGiveUp struct{}

// --- tokens ---

func (p *refParser) slice(a, b int) string { return string(p.s[a:b]) }

func (p *refParser) column(at int) int {
	n := 0
	for at > 0 && !refNewline(p.s[at-1]) {
		at--
		n++
	}
	return n
}

func refTrivia(k syntax.SyntaxKind) bool {
	switch k {
	case syntax.SyntaxKindShebang, syntax.SyntaxKindLineComment, syntax.SyntaxKindBlockComment, syntax.SyntaxKindSpace, syntax.SyntaxKindParbreak:
		return true
	}
	return false
}

func refEnds(k syntax.SyntaxKind) bool {
	switch k {
	case syntax.SyntaxKindEnd, syntax.SyntaxKindSemicolon, syntax.SyntaxKindRightBrace, syntax.SyntaxKindRightParen, syntax.SyntaxKindRightBracket:
		return true
	}
	return false
}

func refKeyword(n *rn) bool {
	if !n.leaf || n.isErr() || n.kind == syntax.SyntaxKindBool {
		return false
	}
	k, ok := refKeywords[n.text]
	return ok && k == n.kind
}

// token reads one token at the position.
func (p *refParser) token() *rn {
	if p.work++; p.work > 4000 {
		panic(refGiveUp{})
	}
	r := &rd{s: p.s, i: p.pos}
	start := p.pos
	done := func(k syntax.SyntaxKind) *rn {
		p.pos = r.i
		return &rn{kind: k, leaf: true, text: p.slice(start, r.i)}
	}
	bad := func(msg string, hints ...string) *rn {
		p.pos = r.i
		return errLeaf(msg, p.slice(start, r.i), hints...)
	}
	escape := func() *rn {
		k := r.markupTok()
		if k == tokError {
			t := p.slice(start, r.i)
			if strings.HasSuffix(t, "}") {
				return bad("invalid Unicode codepoint: " + t[3:len(t)-1])
			}
			return bad("unclosed Unicode escape sequence")
		}
		return done(k)
	}
	c := r.at(0)
	if c < 0 {
		return done(syntax.SyntaxKindEnd)
	}
	switch {
	case p.mode == mMarkup && (c == ' ' || c == '\t' || refNewline(c)):
		return done(r.markupTok())
	case p.mode != mMarkup && unicode.IsSpace(c):
		r.while(unicode.IsSpace)
		return done(syntax.SyntaxKindSpace)
	case start == 0 && r.has("#!"):
		r.while(func(c rune) bool { return !refNewline(c) })
		return done(syntax.SyntaxKindShebang)
	}
	if k, ok := r.comment(); ok {
		if k == tokError {
			return bad("unexpected end of block comment", "consider escaping the `*` with a backslash or opening the block comment with `/*`")
		}
		return done(k)
	}
	if c == '`' && p.mode != mMath {
		if r.rawText() == tokError {
			return bad("unclosed raw text")
		}
		return done(syntax.SyntaxKindRaw)
	}
	str := func() *rn {
		r.i++
		for r.i < len(r.s) {
			if r.s[r.i] == '\\' {
				r.i = min(r.i+2, len(r.s))
				continue
			}
			r.i++
			if r.s[r.i-1] == '"' {
				return done(syntax.SyntaxKindStr)
			}
		}
		return bad("unclosed string")
	}
	switch p.mode {
	case mMarkup:
		switch c {
		case '#':
			r.i++
			return done(syntax.SyntaxKindHash)
		case '$':
			r.i++
			return done(syntax.SyntaxKindDollar)
		case '\\':
			return escape()
		}
		k := r.markupTok()
		if k != tokError {
			return done(k)
		}
		if c == '<' {
			return bad("unclosed label")
		}
		return bad("automatic links cannot contain unbalanced brackets, use the `link` function instead")
	case mMath:
		switch c {
		case '\\':
			return escape()
		case '"':
			return str()
		}
		m := &mparser{r: *r}
		m.read(false)
		r.i = m.r.i
		n := done(m.cur.kind)
		if m.cur.node != nil {
			return rnOfGn(m.cur.node)
		}
		return n
	}
	// Code.
	switch {
	case c == '<' && refIDContinue(r.at(1)):
		if r.label() == tokError {
			return bad("unclosed label")
		}
		return done(syntax.SyntaxKindLabel)
	case isDigit(c) || c == '.' && isDigit(r.at(1)):
		rest := string(r.s[r.i:min(len(r.s), r.i+600)])
		num, kind := refNumber(rest)
		if c == '.' {
			n2, k2 := refNumber("0" + rest)
			num, kind = n2[1:], k2
		}
		r.i += len(num)
		if kind == tokError {
			msg, hints := refNumberError(num)
			return bad(msg, hints...)
		}
		return done(kind)
	case c == '"':
		return str()
	case refIDStart(c):
		r.while(refIDContinue)
		w := p.slice(start, r.i)
		if k, ok := refKeywords[w]; ok {
			before := func(k int) rune { return (&rd{s: p.s, i: start}).at(-k) }
			if !(before(1) == '@' || before(1) == '.' && before(2) != '.') {
				return done(k)
			}
		}
		if w == "_" {
			return done(syntax.SyntaxKindUnderscore)
		}
		return done(syntax.SyntaxKindIdent)
	case c == '[':
		r.i++
		return done(syntax.SyntaxKindLeftBracket)
	case c == ']':
		r.i++
		return done(syntax.SyntaxKindRightBracket)
	case c == '$':
		r.i++
		return done(syntax.SyntaxKindDollar)
	}
	for _, o := range refOps {
		if r.has(o.text) {
			r.i += len([]rune(o.text))
			return done(o.kind)
		}
	}
	r.i++
	return bad(fmt.Sprintf("the character `%c` is not valid in code", c))
}

func rnOfGn(g *gn) *rn {
	out := &rn{kind: g.kind, leaf: g.leaf, text: g.text}
	for _, k := range g.kids {
		out.kids = append(out.kids, rnOfGn(k))
	}
	return out
}

// refNumberError says what is wrong with a number.
func refNumberError(text string) (string, []string) {
	badSuffix := func(s string) string { return "invalid number suffix: " + s }
	if num := reRadix.FindString(text); num != "" {
		suffix := text[len(num):]
		name := map[byte]string{'b': "binary", 'o': "octal", 'x': "hexadecimal"}[num[1]]
		v, err := strconv.ParseInt(num[2:], map[byte]int{'b': 2, 'o': 8, 'x': 16}[num[1]], 64)
		msg := fmt.Sprintf("invalid %s number: %s", name, num)
		var hints []string
		if suffix != "" && !units[suffix] {
			hints = []string{badSuffix(suffix)}
		}
		if err == nil {
			msg = fmt.Sprintf("%s numbers cannot have a suffix", name)
			if hints == nil {
				hints = []string{fmt.Sprintf("try using a decimal number: %d%s", v, suffix)}
			}
		}
		return msg, hints
	}
	// The number ends behind its digits, point and exponent.
	i := 0
	digits := func() int {
		n := 0
		for i < len(text) && isDigit(rune(text[i])) {
			i++
			n++
		}
		return n
	}
	digits()
	if i < len(text) && text[i] == '.' {
		i++
		digits()
	}
	noExp := false
	if i < len(text) && (text[i] == 'e' || text[i] == 'E') && !strings.HasPrefix(text[i:], "em") {
		i++
		if i < len(text) && (text[i] == '+' || text[i] == '-') {
			i++
		}
		noExp = digits() == 0
	}
	suffix := text[i:]
	wrong := suffix != "" && !units[suffix]
	switch {
	case noExp && wrong:
		return "invalid floating point number: " + text[:i], []string{badSuffix(suffix)}
	case noExp:
		return "invalid floating point number: " + text[:i], nil
	}
	return badSuffix(suffix), nil
}

// lex prepares the next token; white space and comments go to the output.
func (p *refParser) lex() {
	t := refTok{prevEnd: p.pos, col: -1}
	for {
		t.from = p.pos
		t.node = p.token()
		if !refTrivia(t.node.kind) {
			break
		}
		t.trivia++
		p.out = append(p.out, t.node)
		switch t.node.kind {
		case syntax.SyntaxKindParbreak:
			t.blank = true
			t.newline = true
		case syntax.SyntaxKindSpace:
			t.newline = t.newline || strings.ContainsFunc(t.node.text, refNewline)
		}
	}
	if t.newline && p.mode == mMarkup {
		t.col = p.column(t.from)
	}
	p.tok = t
	p.seeToken()
}

// seeToken says what kind the token has for the construct being read.
func (p *refParser) seeToken() {
	t := &p.tok
	t.kind = t.node.kind
	if !t.newline {
		return
	}
	stop := false
	switch p.nl.how {
	case 1:
		stop = true
	case 2:
		stop = t.kind != syntax.SyntaxKindElse && t.kind != syntax.SyntaxKindDot
	case 3:
		stop = t.blank
	case 4:
		stop = t.col >= 0 && t.col <= p.nl.col
	}
	if stop {
		t.kind = syntax.SyntaxKindEnd
	}
}

func (p *refParser) at(kinds ...syntax.SyntaxKind) bool {
	for _, k := range kinds {
		if p.tok.kind == k {
			return true
		}
	}
	return false
}

func (p *refParser) direct(k syntax.SyntaxKind) bool { return p.at(k) && p.tok.trivia == 0 }
func (p *refParser) text() string                    { return p.slice(p.tok.from, p.pos) }
func (p *refParser) mark() int                       { return len(p.out) }
func (p *refParser) early() int                      { return len(p.out) - p.tok.trivia }

func (p *refParser) eat() {
	p.out = append(p.out, p.tok.node)
	p.lex()
}

func (p *refParser) eatAs(k syntax.SyntaxKind) {
	n := *p.tok.node
	n.kind = k
	p.tok.node = &n
	p.eat()
}

func (p *refParser) eatIf(k syntax.SyntaxKind) bool {
	if p.at(k) {
		p.eat()
		return true
	}
	return false
}

func (p *refParser) insert(at int, n *rn) {
	p.out = append(p.out[:at:at], append([]*rn{n}, p.out[at:]...)...)
}

func (p *refParser) wrap(from int, k syntax.SyntaxKind) {
	to := p.early()
	from = min(from, to)
	kids := append([]*rn{}, p.out[from:to]...)
	rest := append([]*rn{{kind: k, kids: kids}}, p.out[to:]...)
	p.out = append(p.out[:from:from], rest...)
}

func (p *refParser) inNL(nl refNL, f func()) {
	old := p.nl
	p.nl = nl
	f()
	p.nl = old
	if nl != old && p.tok.newline {
		p.seeToken()
	}
}

func (p *refParser) inMode(m refMode, nl refNL, f func()) {
	old := p.mode
	p.mode = m
	p.inNL(nl, f)
	if m != old {
		p.mode = old
		p.pos = p.tok.prevEnd
		p.out = p.out[:p.early()]
		p.lex()
	}
}

// --- mistakes ---

func (p *refParser) toErr(i int, msg string) {
	if n := p.out[i]; !n.isErr() {
		p.out[i] = errLeaf(msg, n.allText())
	}
}

func (p *refParser) hintAt(i int, hint string) {
	if i >= 0 && i < len(p.out) && p.out[i].isErr() {
		n := *p.out[i]
		n.hints = append(append([]string{}, n.hints...), hint)
		p.out[i] = &n
	}
}

func (p *refParser) hint(h string) { p.hintAt(p.early()-1, h) }

// wanted turns a node into an error about what should stand there.
func (p *refParser) wanted(i int, thing string) {
	n := p.out[i]
	kw := refKeyword(n)
	p.toErr(i, "expected "+thing+", found "+refKindName[n.kind])
	if kw && (thing == "identifier" || thing == "pattern") {
		p.hintAt(i, fmt.Sprintf("keyword `%[1]s` is not allowed as an identifier; try `%[1]s_` instead", n.text))
	}
}

// missing reports that something is missing before the token, unless the
// mistake there was reported already.
func (p *refParser) missing(thing string) {
	i := p.early()
	if i > 0 && p.out[i-1].isErr() {
		return
	}
	p.insert(i, errLeaf("expected "+thing, ""))
}

func (p *refParser) dropMissing() {
	i := p.early()
	j := i
	for j > 0 && p.out[j-1].isErr() && p.out[j-1].text == "" {
		j--
	}
	p.out = append(p.out[:j:j], p.out[i:]...)
}

func (p *refParser) unexpected() {
	p.dropMissing()
	i := p.mark()
	p.eat()
	p.toErr(i, "unexpected "+refKindName[p.out[i].kind])
}

func (p *refParser) expect(k syntax.SyntaxKind) bool {
	switch {
	case p.eatIf(k):
		return true
	case k == syntax.SyntaxKindIdent && !p.at(syntax.SyntaxKindEnd) && refKeyword(p.tok.node):
		p.dropMissing()
		i := p.mark()
		p.eat()
		p.wanted(i, refKindName[k])
	default:
		p.missing(refKindName[k])
	}
	return false
}

func (p *refParser) close(open int, k syntax.SyntaxKind) {
	if !p.eatIf(k) {
		p.toErr(open, "unclosed delimiter")
	}
}

// --- markup ---

func (p *refParser) markupItems(atStart bool, stop ...syntax.SyntaxKind) {
	atStart = atStart || p.tok.newline
	depth := 0
	for !p.at(stop...) || depth > 0 && p.at(syntax.SyntaxKindRightBracket) {
		p.markupItem(atStart, &depth)
		atStart = p.tok.newline
	}
}

func (p *refParser) markupGroup(atStart, withTrivia bool, stop ...syntax.SyntaxKind) {
	from := p.mark()
	if withTrivia {
		from = p.early()
	}
	p.markupItems(atStart, stop...)
	if withTrivia {
		p.tok.trivia = 0
		p.tok.prevEnd = p.tok.from
	}
	p.wrap(from, syntax.SyntaxKindMarkup)
}

func (p *refParser) markupItem(atStart bool, depth *int) {
	const end, rb = syntax.SyntaxKindEnd, syntax.SyntaxKindRightBracket
	m := p.mark()
	styled := func(delim, kind syntax.SyntaxKind) {
		p.inNL(nlBlankLine, func() {
			p.eat()
			p.markupGroup(false, true, delim, rb, end)
			p.close(m, delim)
			p.wrap(m, kind)
		})
	}
	item := func(kind syntax.SyntaxKind) {
		col := p.column(p.tok.from)
		p.inNL(nlIndent(col), func() {
			if kind == syntax.SyntaxKindTermItem {
				p.inNL(nlEnds, func() {
					p.eat()
					p.markupGroup(false, false, syntax.SyntaxKindColon, rb, end)
				})
				p.expect(syntax.SyntaxKindColon)
			} else {
				p.eat()
			}
			p.markupGroup(true, false, rb, end)
			p.wrap(m, kind)
		})
	}
	k := p.tok.kind
	switch k {
	case syntax.SyntaxKindLeftBracket:
		*depth++
		p.eatAs(syntax.SyntaxKindText)
	case rb:
		if *depth > 0 {
			*depth--
			p.eatAs(syntax.SyntaxKindText)
		} else {
			p.unexpected()
			p.hint("try using a backslash escape: \\]")
		}
	case syntax.SyntaxKindShebang, syntax.SyntaxKindText, syntax.SyntaxKindLinebreak, syntax.SyntaxKindEscape, syntax.SyntaxKindShorthand,
		syntax.SyntaxKindSmartQuote, syntax.SyntaxKindLink, syntax.SyntaxKindLabel, syntax.SyntaxKindRaw:
		p.eat()
	case syntax.SyntaxKindHash:
		p.embedded()
	case syntax.SyntaxKindStar:
		styled(k, syntax.SyntaxKindStrong)
	case syntax.SyntaxKindUnderscore:
		styled(k, syntax.SyntaxKindEmph)
	case syntax.SyntaxKindHeadingMarker, syntax.SyntaxKindListMarker, syntax.SyntaxKindEnumMarker, syntax.SyntaxKindTermMarker:
		switch {
		case !atStart:
			p.eatAs(syntax.SyntaxKindText)
		case k == syntax.SyntaxKindHeadingMarker:
			p.inNL(nlEnds, func() {
				p.eat()
				p.markupGroup(false, false, syntax.SyntaxKindLabel, rb, end)
				p.wrap(m, syntax.SyntaxKindHeading)
			})
		case k == syntax.SyntaxKindListMarker:
			item(syntax.SyntaxKindListItem)
		case k == syntax.SyntaxKindEnumMarker:
			item(syntax.SyntaxKindEnumItem)
		default:
			item(syntax.SyntaxKindTermItem)
		}
	case syntax.SyntaxKindRefMarker:
		p.eat()
		if p.direct(syntax.SyntaxKindLeftBracket) {
			p.contentBlock()
		}
		p.wrap(m, syntax.SyntaxKindRef)
	case syntax.SyntaxKindDollar:
		p.equation()
	case syntax.SyntaxKindColon:
		p.eatAs(syntax.SyntaxKindText)
	default:
		p.unexpected()
	}
}

// --- math ---

func (p *refParser) equation() {
	m := p.mark()
	p.inMode(mMath, nlGoOn, func() {
		p.eat()
		m2 := p.mark()
		p.mathItems(syntax.SyntaxKindDollar, syntax.SyntaxKindEnd)
		p.wrap(m2, syntax.SyntaxKindMath)
		p.close(m, syntax.SyntaxKindDollar)
	})
	p.wrap(m, syntax.SyntaxKindEquation)
}

func (p *refParser) atMathItem() bool {
	return p.at(syntax.SyntaxKindHash, syntax.SyntaxKindMathIdent, syntax.SyntaxKindFieldAccess, syntax.SyntaxKindDot, syntax.SyntaxKindComma,
		syntax.SyntaxKindSemicolon, syntax.SyntaxKindRightParen, syntax.SyntaxKindText, syntax.SyntaxKindMathText, syntax.SyntaxKindMathShorthand,
		syntax.SyntaxKindLinebreak, syntax.SyntaxKindMathAlignPoint, syntax.SyntaxKindEscape, syntax.SyntaxKindStr, syntax.SyntaxKindRoot, syntax.SyntaxKindPrime)
}

func (p *refParser) mathItems(stop ...syntax.SyntaxKind) int {
	n := 0
	for !p.at(stop...) {
		if p.atMathItem() {
			p.mathItem(0, syntax.SyntaxKindEnd)
			n++
		} else {
			p.unexpected()
		}
	}
	return n
}

func (p *refParser) mathDelimited() bool {
	if mathClassOf(p.text()) != clsOpen {
		return false
	}
	m := p.mark()
	p.eat()
	m2 := p.mark()
	for !p.at(syntax.SyntaxKindDollar, syntax.SyntaxKindEnd) {
		switch {
		case mathClassOf(p.text()) == clsClose:
			p.wrap(m2, syntax.SyntaxKindMath)
			if p.at(syntax.SyntaxKindRightParen) {
				p.eatAs(syntax.SyntaxKindMathText)
			} else {
				p.eat()
			}
			p.wrap(m, syntax.SyntaxKindMathDelimited)
			return true
		case p.atMathItem():
			p.mathItem(0, syntax.SyntaxKindEnd)
		default:
			p.unexpected()
		}
	}
	p.wrap(m, syntax.SyntaxKindMath)
	return true
}

func (p *refParser) mathUnparen(i int) {
	if i >= len(p.out) || p.out[i].kind != syntax.SyntaxKindMathDelimited {
		return
	}
	k := p.out[i].kids
	if a, b := k[0], k[len(k)-1]; a.text == "(" && b.text == ")" {
		n := &rn{kind: syntax.SyntaxKindMath, kids: append([]*rn{}, k...)}
		n.kids[0] = &rn{kind: syntax.SyntaxKindLeftParen, leaf: true, text: "("}
		n.kids[len(k)-1] = &rn{kind: syntax.SyntaxKindRightParen, leaf: true, text: ")"}
		p.out[i] = n
	}
}

func (p *refParser) mathItem(min int, stop syntax.SyntaxKind) {
	const prime = syntax.SyntaxKindPrime
	m := p.mark()
	joins := false // whether a delimiter right behind belongs to it
	primes := func() {
		m := p.mark()
		p.eat()
		for p.direct(prime) {
			p.eat()
		}
		p.wrap(m, syntax.SyntaxKindMathPrimes)
	}
	switch p.tok.kind {
	case syntax.SyntaxKindHash:
		p.embedded()
	case syntax.SyntaxKindMathIdent, syntax.SyntaxKindFieldAccess:
		joins = true
		p.eat()
		if min < 3 && p.direct(syntax.SyntaxKindMathText) && p.text() == "(" {
			p.mathArgs()
			p.wrap(m, syntax.SyntaxKindFuncCall)
			joins = false
		}
	case syntax.SyntaxKindDot, syntax.SyntaxKindComma, syntax.SyntaxKindSemicolon, syntax.SyntaxKindRightParen:
		p.eatAs(syntax.SyntaxKindMathText)
	case syntax.SyntaxKindText, syntax.SyntaxKindMathText, syntax.SyntaxKindMathShorthand:
		joins = mathClassOf(p.text()) == clsAlpha || !strings.ContainsFunc(p.text(), func(c rune) bool { return !refAlpha(c) })
		if !p.mathDelimited() {
			p.eat()
		}
	case syntax.SyntaxKindLinebreak, syntax.SyntaxKindMathAlignPoint:
		p.eat()
	case syntax.SyntaxKindEscape, syntax.SyntaxKindStr:
		joins = true
		p.eat()
	case syntax.SyntaxKindRoot:
		if min < 3 {
			p.eat()
			m2 := p.mark()
			p.mathItem(2, stop)
			p.mathUnparen(m2)
			p.wrap(m, syntax.SyntaxKindMathRoot)
		}
	case prime:
		joins = true
		for p.at(prime) {
			primes()
		}
	default:
		p.missing("expression")
	}
	if joins && min < 3 && p.tok.trivia == 0 && p.mathDelimited() {
		p.wrap(m, syntax.SyntaxKindMath)
	}
	primed := false
	for !p.at(syntax.SyntaxKindEnd, stop) {
		if p.direct(syntax.SyntaxKindMathText) && p.text() == "!" {
			p.eat()
			p.wrap(m, syntax.SyntaxKindMath)
			continue
		}
		if p.direct(prime) {
			primes()
			if p.at(stop) {
				p.wrap(m, syntax.SyntaxKindMathAttach)
			}
			primed = true
			continue
		}
		kind, until, prec, next := syntax.SyntaxKindMathAttach, syntax.SyntaxKindHat, 3, 3
		switch p.tok.kind {
		case syntax.SyntaxKindUnderscore:
		case syntax.SyntaxKindHat:
			until = syntax.SyntaxKindUnderscore
		case syntax.SyntaxKindSlash:
			kind, until, prec, next = syntax.SyntaxKindMathFrac, syntax.SyntaxKindEnd, 1, 2
		default:
			if primed {
				p.wrap(m, syntax.SyntaxKindMathAttach)
			}
			return
		}
		if primed && prec == 1 {
			p.wrap(m, syntax.SyntaxKindMathAttach)
		}
		if prec < min {
			return
		}
		if prec == 1 {
			p.mathUnparen(m)
		}
		operand := func(until syntax.SyntaxKind) {
			p.eat()
			m := p.mark()
			p.mathItem(next, until)
			p.mathUnparen(m)
		}
		operand(until)
		if p.at(syntax.SyntaxKindUnderscore, syntax.SyntaxKindHat) {
			operand(syntax.SyntaxKindEnd)
		}
		p.wrap(m, kind)
	}
}

func (p *refParser) mathArgs() {
	const end, dollar, comma, semi, rp = syntax.SyntaxKindEnd, syntax.SyntaxKindDollar, syntax.SyntaxKindComma, syntax.SyntaxKindSemicolon, syntax.SyntaxKindRightParen
	m := p.mark()
	p.eatAs(syntax.SyntaxKindLeftParen)
	positional, arrays := true, false
	row := p.mark()
	seen := map[string]bool{}
	for !p.at(end, dollar, rp) {
		positional = p.mathArg(seen)
		if p.at(comma, semi) {
			isSemi := p.at(semi)
			if isSemi {
				if !positional {
					row = p.mark()
				}
				p.wrap(row, syntax.SyntaxKindArray)
				arrays = true
			}
			p.eat()
			if isSemi || !positional {
				row = p.mark()
			}
		} else if !p.at(end, dollar, rp) {
			p.missing("comma or semicolon")
		}
	}
	if row != p.mark() && arrays && positional {
		p.wrap(row, syntax.SyntaxKindArray)
	}
	p.close(m, rp)
	p.wrap(m, syntax.SyntaxKindArgs)
}

func (p *refParser) mathArg(seen map[string]bool) bool {
	m := p.mark()
	r := &rd{s: p.s, i: p.tok.from}
	if p.at(syntax.SyntaxKindDot) && r.has("..") {
		r.i += 2
		if !r.spaceOrEnd() && r.at(0) != '.' {
			p.pos = r.i
			p.tok.node = &rn{kind: syntax.SyntaxKindDots, leaf: true, text: ".."}
			p.eat()
			p.mathItem(0, syntax.SyntaxKindEnd)
			p.wrap(m, syntax.SyntaxKindSpread)
			return true
		}
	}
	named := false
	if p.at(syntax.SyntaxKindMathText, syntax.SyntaxKindMathIdent, syntax.SyntaxKindUnderscore) && refIDStart(r.at(0)) {
		r.while(refIDContinue)
		if r.has(":") && !r.has(":=") && !r.has("::=") {
			named = true
			name := p.slice(p.tok.from, r.i)
			p.pos = r.i
			p.tok.node = &rn{kind: syntax.SyntaxKindIdent, leaf: true, text: name}
			if name == "_" {
				p.tok.node = errLeaf("expected identifier, found underscore", name)
			}
			p.eat()
			p.eatAs(syntax.SyntaxKindColon)
			if seen[name] {
				p.toErr(m, "duplicate argument: "+name)
			}
			seen[name] = true
		}
	}
	from := p.mark()
	n := p.mathItems(syntax.SyntaxKindEnd, syntax.SyntaxKindDollar, syntax.SyntaxKindComma, syntax.SyntaxKindSemicolon, syntax.SyntaxKindRightParen)
	if n == 0 {
		if named {
			p.missing("expression")
		}
		p.tok.trivia = 0
		p.tok.prevEnd = p.tok.from
	}
	if n != 1 {
		p.wrap(from, syntax.SyntaxKindMath)
	}
	if named {
		p.wrap(m, syntax.SyntaxKindNamed)
	}
	return !named
}

// --- code ---

func (p *refParser) atAtom() bool {
	switch k := p.tok.kind; k {
	case syntax.SyntaxKindIdent, syntax.SyntaxKindLeftBrace, syntax.SyntaxKindLeftBracket, syntax.SyntaxKindLeftParen, syntax.SyntaxKindDollar,
		syntax.SyntaxKindNone, syntax.SyntaxKindAuto, syntax.SyntaxKindInt, syntax.SyntaxKindFloat, syntax.SyntaxKindBool, syntax.SyntaxKindNumeric,
		syntax.SyntaxKindStr, syntax.SyntaxKindLabel, syntax.SyntaxKindRaw,
		syntax.SyntaxKindLet, syntax.SyntaxKindSet, syntax.SyntaxKindShow, syntax.SyntaxKindContext, syntax.SyntaxKindIf, syntax.SyntaxKindWhile,
		syntax.SyntaxKindFor, syntax.SyntaxKindImport, syntax.SyntaxKindInclude, syntax.SyntaxKindBreak, syntax.SyntaxKindContinue, syntax.SyntaxKindReturn:
		return true
	}
	return false
}

func (p *refParser) atUnary() bool {
	return p.at(syntax.SyntaxKindPlus, syntax.SyntaxKindMinus, syntax.SyntaxKindNot)
}

func (p *refParser) atExpr() bool {
	return p.atAtom() || p.at(syntax.SyntaxKindUnderscore) || p.atUnary()
}

func (p *refParser) atItem() bool { return p.atExpr() || p.at(syntax.SyntaxKindDots) }

func (p *refParser) atPattern() bool { return p.atAtom() || p.at(syntax.SyntaxKindUnderscore) }

func (p *refParser) codeItems(stop ...syntax.SyntaxKind) {
	for !p.at(stop...) {
		p.inNL(nlContinuers, func() {
			if !p.atExpr() {
				p.unexpected()
				return
			}
			p.expr(0)
			if !p.at(stop...) && !p.eatIf(syntax.SyntaxKindSemicolon) {
				p.missing("semicolon or line break")
				if p.at(syntax.SyntaxKindLabel) {
					p.hint("labels can only be applied in markup mode")
					p.hint("try wrapping your code in a markup block (`[ ]`)")
				}
			}
		})
	}
}

func (p *refParser) embedded() {
	p.inMode(mCode, nlEnds, func() {
		p.eat()
		if p.tok.trivia > 0 || p.at(syntax.SyntaxKindEnd) {
			p.missing("expression")
			return
		}
		stmt := p.at(syntax.SyntaxKindLet, syntax.SyntaxKindSet, syntax.SyntaxKindShow, syntax.SyntaxKindImport, syntax.SyntaxKindInclude, syntax.SyntaxKindReturn)
		known := p.atAtom()
		p.operand(true, 0)
		if !known {
			p.unexpected()
		}
		semi := (stmt || p.tok.trivia == 0) && p.eatIf(syntax.SyntaxKindSemicolon)
		if stmt && !semi && !p.at(syntax.SyntaxKindEnd, syntax.SyntaxKindRightBracket) {
			p.missing("semicolon or line break")
		}
	})
}

func (p *refParser) expr(min int) { p.operand(false, min) }

var refPrec = map[syntax.SyntaxKind]int{
	syntax.SyntaxKindStar: 6, syntax.SyntaxKindSlash: 6, syntax.SyntaxKindPlus: 5, syntax.SyntaxKindMinus: 5,
	syntax.SyntaxKindEqEq: 4, syntax.SyntaxKindExclEq: 4, syntax.SyntaxKindLt: 4, syntax.SyntaxKindLtEq: 4, syntax.SyntaxKindGt: 4, syntax.SyntaxKindGtEq: 4,
	syntax.SyntaxKindIn: 4, syntax.SyntaxKindNot: 4, syntax.SyntaxKindAnd: 3, syntax.SyntaxKindOr: 2,
	syntax.SyntaxKindEq: 1, syntax.SyntaxKindPlusEq: 1, syntax.SyntaxKindHyphEq: 1, syntax.SyntaxKindStarEq: 1, syntax.SyntaxKindSlashEq: 1,
}

func (p *refParser) operand(atomic bool, min int) {
	m := p.mark()
	if !atomic && p.atUnary() {
		prec := 7
		if p.at(syntax.SyntaxKindNot) {
			prec = 4
		}
		p.eat()
		p.expr(prec)
		p.wrap(m, syntax.SyntaxKindUnary)
	} else {
		p.primary(atomic)
	}
	for {
		if p.direct(syntax.SyntaxKindLeftParen) || p.direct(syntax.SyntaxKindLeftBracket) {
			p.args()
			p.wrap(m, syntax.SyntaxKindFuncCall)
			continue
		}
		if atomic {
			// Only a dot directly before a name goes on.
			field := p.direct(syntax.SyntaxKindDot)
			if field {
				q := &refParser{s: p.s, pos: p.pos, mode: p.mode, work: p.work}
				field = q.token().kind == syntax.SyntaxKindIdent
			}
			if !field {
				return
			}
		}
		if p.eatIf(syntax.SyntaxKindDot) {
			p.expect(syntax.SyntaxKindIdent)
			p.wrap(m, syntax.SyntaxKindFieldAccess)
			continue
		}
		prec, ok := refPrec[p.tok.kind]
		if !ok {
			return
		}
		if p.at(syntax.SyntaxKindNot) {
			if min > prec {
				return
			}
			p.eat()
			if !p.at(syntax.SyntaxKindIn) {
				p.missing("keyword `in`")
				return
			}
		}
		if prec < min {
			return
		}
		if prec > 1 {
			prec++
		}
		p.eat()
		p.expr(prec)
		p.wrap(m, syntax.SyntaxKindBinary)
	}
}

func (p *refParser) primary(atomic bool) {
	m := p.mark()
	sub := func(kind syntax.SyntaxKind, fs ...func()) {
		p.eat()
		for _, f := range fs {
			f()
		}
		p.wrap(m, kind)
	}
	expr := func() { p.expr(0) }
	switch p.tok.kind {
	case syntax.SyntaxKindIdent:
		p.eat()
		if !atomic && p.at(syntax.SyntaxKindArrow) {
			p.wrap(m, syntax.SyntaxKindParams)
			sub(syntax.SyntaxKindClosure, expr)
		}
	case syntax.SyntaxKindUnderscore:
		if atomic {
			p.missing("expression")
			return
		}
		p.eat()
		switch {
		case p.at(syntax.SyntaxKindArrow):
			p.wrap(m, syntax.SyntaxKindParams)
			sub(syntax.SyntaxKindClosure, expr)
		case p.at(syntax.SyntaxKindEq):
			sub(syntax.SyntaxKindDestructAssignment, expr)
		default:
			p.wanted(m, "expression")
		}
	case syntax.SyntaxKindLeftBrace:
		p.codeBlock()
	case syntax.SyntaxKindLeftBracket:
		p.contentBlock()
	case syntax.SyntaxKindLeftParen:
		p.parenthesis(atomic)
	case syntax.SyntaxKindDollar:
		p.equation()
	case syntax.SyntaxKindLet:
		p.let()
	case syntax.SyntaxKindSet:
		p.eat()
		m2 := p.mark()
		p.expect(syntax.SyntaxKindIdent)
		for p.eatIf(syntax.SyntaxKindDot) {
			p.expect(syntax.SyntaxKindIdent)
			p.wrap(m2, syntax.SyntaxKindFieldAccess)
		}
		p.args()
		if p.eatIf(syntax.SyntaxKindIf) {
			p.expr(0)
		}
		p.wrap(m, syntax.SyntaxKindSetRule)
	case syntax.SyntaxKindShow:
		p.eat()
		colon := p.early()
		if !p.at(syntax.SyntaxKindColon) {
			p.expr(0)
		}
		if p.eatIf(syntax.SyntaxKindColon) {
			p.expr(0)
		} else {
			p.insert(colon, errLeaf("expected colon", ""))
		}
		p.wrap(m, syntax.SyntaxKindShowRule)
	case syntax.SyntaxKindContext:
		sub(syntax.SyntaxKindContextual, func() { p.operand(atomic, 0) })
	case syntax.SyntaxKindIf:
		p.conditional()
	case syntax.SyntaxKindWhile:
		sub(syntax.SyntaxKindWhileLoop, expr, p.block)
	case syntax.SyntaxKindFor:
		sub(syntax.SyntaxKindForLoop, p.loopPattern, func() { p.expect(syntax.SyntaxKindIn) }, expr, p.block)
	case syntax.SyntaxKindImport:
		sub(syntax.SyntaxKindModuleImport, expr, p.importRest)
	case syntax.SyntaxKindInclude:
		sub(syntax.SyntaxKindModuleInclude, expr)
	case syntax.SyntaxKindBreak:
		sub(syntax.SyntaxKindLoopBreak)
	case syntax.SyntaxKindContinue:
		sub(syntax.SyntaxKindLoopContinue)
	case syntax.SyntaxKindReturn:
		sub(syntax.SyntaxKindFuncReturn, func() {
			if p.atExpr() {
				p.expr(0)
			}
		})
	default:
		if p.atAtom() {
			p.eat()
		} else {
			p.missing("expression")
		}
	}
}

func (p *refParser) block() {
	switch p.tok.kind {
	case syntax.SyntaxKindLeftBrace:
		p.codeBlock()
	case syntax.SyntaxKindLeftBracket:
		p.contentBlock()
	default:
		p.missing("block")
	}
}

func (p *refParser) codeBlock() {
	const rb, end = syntax.SyntaxKindRightBrace, syntax.SyntaxKindEnd
	m := p.mark()
	p.inMode(mCode, nlGoOn, func() {
		p.eat()
		m2 := p.mark()
		p.codeItems(rb, syntax.SyntaxKindRightBracket, syntax.SyntaxKindRightParen, end)
		p.wrap(m2, syntax.SyntaxKindCode)
		p.close(m, rb)
	})
	p.wrap(m, syntax.SyntaxKindCodeBlock)
}

func (p *refParser) contentBlock() {
	m := p.mark()
	p.inMode(mMarkup, nlGoOn, func() {
		p.eat()
		p.markupGroup(true, true, syntax.SyntaxKindRightBracket, syntax.SyntaxKindEnd)
		p.close(m, syntax.SyntaxKindRightBracket)
	})
	p.wrap(m, syntax.SyntaxKindContentBlock)
}

func (p *refParser) let() {
	m := p.mark()
	p.eat()
	m2 := p.mark()
	closure, must := false, false
	if p.eatIf(syntax.SyntaxKindIdent) {
		if p.direct(syntax.SyntaxKindLeftParen) {
			p.params()
			closure, must = true, true
		}
	} else {
		p.pattern(false, map[string]bool{}, "binding")
		must = true
	}
	if p.at(syntax.SyntaxKindEq) {
		p.eat()
		p.expr(0)
	} else if must {
		p.missing("equals sign")
	}
	if closure {
		p.wrap(m2, syntax.SyntaxKindClosure)
	}
	p.wrap(m, syntax.SyntaxKindLetBinding)
}

func (p *refParser) conditional() {
	m := p.mark()
	p.eat()
	p.expr(0)
	p.block()
	if p.eatIf(syntax.SyntaxKindElse) {
		if p.at(syntax.SyntaxKindIf) {
			p.conditional()
		} else {
			p.block()
		}
	}
	p.wrap(m, syntax.SyntaxKindConditional)
}

func (p *refParser) loopPattern() {
	seen := map[string]bool{}
	p.pattern(false, seen, "binding")
	if p.at(syntax.SyntaxKindComma) {
		i := p.mark()
		p.eat()
		p.toErr(i, "unexpected comma")
		p.hintAt(i, "destructuring patterns must be wrapped in parentheses")
		if p.atPattern() {
			p.pattern(false, seen, "binding")
		}
	}
}

func (p *refParser) importRest() {
	if p.eatIf(syntax.SyntaxKindAs) {
		p.expect(syntax.SyntaxKindIdent)
	}
	if !p.eatIf(syntax.SyntaxKindColon) {
		return
	}
	switch {
	case p.at(syntax.SyntaxKindLeftParen):
		m := p.mark()
		p.inNL(nlGoOn, func() {
			p.eat()
			p.importItems()
			p.close(m, syntax.SyntaxKindRightParen)
		})
	case !p.eatIf(syntax.SyntaxKindStar):
		p.importItems()
	}
}

func (p *refParser) importItems() {
	m := p.mark()
	for !refEnds(p.tok.kind) {
		item := p.mark()
		if !p.eatIf(syntax.SyntaxKindIdent) {
			p.unexpected()
		}
		for p.eatIf(syntax.SyntaxKindDot) {
			p.expect(syntax.SyntaxKindIdent)
		}
		p.wrap(item, syntax.SyntaxKindImportItemPath)
		if p.eatIf(syntax.SyntaxKindAs) {
			p.expect(syntax.SyntaxKindIdent)
			p.wrap(item, syntax.SyntaxKindRenamedImportItem)
		}
		if !refEnds(p.tok.kind) {
			p.expect(syntax.SyntaxKindComma)
		}
	}
	p.wrap(m, syntax.SyntaxKindImportItems)
}

// parenthesis reads what starts with a parenthesis. What stands behind it says
// whether it was an expression, parameters or a pattern.
func (p *refParser) parenthesis(atomic bool) {
	before := *p
	before.out = append([]*rn{}, p.out...)
	kind := p.group()
	if atomic {
		return
	}
	back := func() {
		w := p.work
		*p = before
		p.work = w
	}
	m := len(before.out)
	switch {
	case p.at(syntax.SyntaxKindArrow):
		back()
		p.params()
		if p.expect(syntax.SyntaxKindArrow) {
			p.expr(0)
			p.wrap(m, syntax.SyntaxKindClosure)
		}
	case p.at(syntax.SyntaxKindEq) && kind != syntax.SyntaxKindParenthesized:
		back()
		p.destructuring(true, map[string]bool{})
		if p.expect(syntax.SyntaxKindEq) {
			p.expr(0)
			p.wrap(m, syntax.SyntaxKindDestructAssignment)
		}
	}
}

// list reads items between parentheses.
func (p *refParser) list(canStart func() bool, item func(), comma func()) {
	m := p.mark()
	p.inNL(nlGoOn, func() {
		p.eat()
		if comma != nil && p.at(syntax.SyntaxKindColon) {
			p.eat()
			comma()
		}
		for !refEnds(p.tok.kind) {
			if !canStart() {
				p.unexpected()
				continue
			}
			item()
		}
		p.close(m, syntax.SyntaxKindRightParen)
	})
}

func (p *refParser) group() syntax.SyntaxKind {
	const none, array, dict = syntax.SyntaxKind(0), syntax.SyntaxKindArray, syntax.SyntaxKindDict
	kind := none
	just, count := true, 0
	seen := map[string]bool{}
	m := p.mark()
	p.list(p.atItem, func() {
		i := p.mark()
		if p.eatIf(syntax.SyntaxKindDots) {
			p.expr(0)
			p.wrap(i, syntax.SyntaxKindSpread)
			just = false
		} else {
			p.expr(0)
			if p.eatIf(syntax.SyntaxKindColon) {
				p.expr(0)
				n := p.out[i]
				pair := syntax.SyntaxKindKeyed
				key, named := "", false
				switch n.kind {
				case syntax.SyntaxKindIdent:
					pair = syntax.SyntaxKindNamed
					key, named = n.text, true
				case syntax.SyntaxKindStr:
					key, named = refStr(n.text), true
				}
				if named {
					if seen[key] {
						p.toErr(i, "duplicate key: "+key)
					}
					seen[key] = true
				}
				p.wrap(i, pair)
				just = false
				if kind == array {
					p.wanted(i, "expression")
				} else {
					kind = dict
				}
			} else if kind == dict {
				p.wanted(i, "named or keyed pair")
			} else {
				kind = array
			}
		}
		count++
		if !refEnds(p.tok.kind) && p.expect(syntax.SyntaxKindComma) {
			just = false
		}
	}, func() { kind = dict })
	switch {
	case just && count == 1:
		kind = syntax.SyntaxKindParenthesized
	case kind == none:
		kind = array
	}
	p.wrap(m, kind)
	return kind
}

func (p *refParser) commaAfter() {
	if !refEnds(p.tok.kind) {
		p.expect(syntax.SyntaxKindComma)
	}
}

func (p *refParser) args() {
	if !p.direct(syntax.SyntaxKindLeftParen) && !p.direct(syntax.SyntaxKindLeftBracket) {
		p.missing("argument list")
		if p.at(syntax.SyntaxKindLeftParen, syntax.SyntaxKindLeftBracket) {
			p.hint("there may not be any spaces before the argument list")
		}
	}
	m := p.mark()
	if p.at(syntax.SyntaxKindLeftParen) {
		seen := map[string]bool{}
		p.list(p.atItem, func() {
			i := p.mark()
			if p.eatIf(syntax.SyntaxKindDots) {
				p.expr(0)
				p.wrap(i, syntax.SyntaxKindSpread)
			} else {
				name := p.text()
				p.expr(0)
				if p.eatIf(syntax.SyntaxKindColon) {
					if p.out[i].kind != syntax.SyntaxKindIdent {
						p.wanted(i, "identifier")
					} else {
						if seen[name] {
							p.toErr(i, "duplicate argument: "+name)
						}
						seen[name] = true
					}
					p.expr(0)
					p.wrap(i, syntax.SyntaxKindNamed)
				}
			}
			p.commaAfter()
		}, nil)
	}
	for p.direct(syntax.SyntaxKindLeftBracket) {
		p.contentBlock()
	}
	p.wrap(m, syntax.SyntaxKindArgs)
}

func (p *refParser) sink(i int, reassign bool, seen map[string]bool, dup string, had *bool, what string) {
	if p.atAtom() {
		p.leafPattern(reassign, seen, dup)
	}
	p.wrap(i, syntax.SyntaxKindSpread)
	if *had {
		p.toErr(i, "only one "+what+" sink is allowed")
	}
	*had = true
}

func (p *refParser) params() {
	m := p.mark()
	seen := map[string]bool{}
	sink := false
	p.list(func() bool { return p.atPattern() || p.at(syntax.SyntaxKindDots) }, func() {
		i := p.mark()
		if p.eatIf(syntax.SyntaxKindDots) {
			p.sink(i, false, seen, "parameter", &sink, "argument")
		} else {
			p.pattern(false, seen, "parameter")
			if p.eatIf(syntax.SyntaxKindColon) {
				if p.out[i].kind != syntax.SyntaxKindIdent {
					p.wanted(i, "identifier")
				}
				p.expr(0)
				p.wrap(i, syntax.SyntaxKindNamed)
			}
		}
		p.commaAfter()
	}, nil)
	p.wrap(m, syntax.SyntaxKindParams)
}

func (p *refParser) pattern(reassign bool, seen map[string]bool, dup string) {
	switch p.tok.kind {
	case syntax.SyntaxKindUnderscore:
		p.eat()
	case syntax.SyntaxKindLeftParen:
		p.destructuring(reassign, seen)
	default:
		p.leafPattern(reassign, seen, dup)
	}
}

func (p *refParser) destructuring(reassign bool, seen map[string]bool) {
	m := p.mark()
	just, sink, count := true, false, 0
	p.list(func() bool { return p.atPattern() || p.at(syntax.SyntaxKindDots) }, func() {
		i := p.mark()
		if p.eatIf(syntax.SyntaxKindDots) {
			p.sink(i, reassign, seen, "binding", &sink, "destructuring")
		} else {
			// A name before a colon is a key and binds nothing.
			before := *p
			before.out = append([]*rn{}, p.out...)
			if !(p.eatIf(syntax.SyntaxKindIdent) && p.at(syntax.SyntaxKindColon)) {
				w := p.work
				*p = before
				p.work = w
				p.pattern(reassign, seen, "binding")
			}
			if p.eatIf(syntax.SyntaxKindColon) {
				if p.out[i].kind != syntax.SyntaxKindIdent {
					p.wanted(i, "identifier")
				}
				p.pattern(reassign, seen, "binding")
				p.wrap(i, syntax.SyntaxKindNamed)
				just = false
			}
		}
		count++
		if !refEnds(p.tok.kind) && p.expect(syntax.SyntaxKindComma) {
			just = false
		}
	}, nil)
	if just && count == 1 && !sink {
		p.wrap(m, syntax.SyntaxKindParenthesized)
	} else {
		p.wrap(m, syntax.SyntaxKindDestructuring)
	}
}

func (p *refParser) leafPattern(reassign bool, seen map[string]bool, dup string) {
	i := p.mark()
	switch {
	case !p.at(syntax.SyntaxKindEnd) && refKeyword(p.tok.node):
		p.eat()
		p.wanted(i, "pattern")
		return
	case !p.atAtom():
		p.missing("pattern")
		return
	}
	name := p.text()
	p.operand(true, 0)
	if reassign {
		return
	}
	if p.out[i].kind != syntax.SyntaxKindIdent {
		p.wanted(i, "pattern")
		return
	}
	if seen[name] {
		p.toErr(i, "duplicate "+dup+": "+name)
	}
	seen[name] = true
}

// refStr is the value of a string literal.
func refStr(text string) string {
	body := []rune(text[1 : len(text)-1])
	var b strings.Builder
	for i := 0; i < len(body); i++ {
		if body[i] != '\\' || i+1 == len(body) {
			b.WriteRune(body[i])
			continue
		}
		i++
		switch body[i] {
		case '\\', '"':
			b.WriteRune(body[i])
		case 'n':
			b.WriteByte('\n')
		case 'r':
			b.WriteByte('\r')
		case 't':
			b.WriteByte('\t')
		case 'u':
			j := i + 1
			if j < len(body) && body[j] == '{' {
				for j++; j < len(body) && body[j] < 128 && strings.ContainsRune("0123456789abcdefABCDEF", body[j]); j++ {
				}
				if v, err := strconv.ParseUint(string(body[i+2:j]), 16, 32); err == nil && (v < 0xD800 || v > 0xDFFF && v <= 0x10FFFF) {
					b.WriteRune(rune(v))
					i = j
					if j == len(body) || body[j] != '}' {
						i--
					}
					continue
				}
			}
			b.WriteString("\\u")
		default:
			b.WriteByte('\\')
			b.WriteRune(body[i])
		}
	}
	return b.String()
}

// refTree parses a text. It gives up on texts that need too much going back.
func refTree(text string) (root *rn, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(refGiveUp); !is {
				panic(e)
			}
			root, ok = nil, false
		}
	}()
	p := &refParser{s: []rune(text)}
	p.lex()
	p.markupItems(true, syntax.SyntaxKindEnd)
	return &rn{kind: syntax.SyntaxKindMarkup, kids: p.out}, true
}

// refErrs lists the mistakes of a tree.
func (n *rn) refErrs() []string {
	var out []string
	off := 0
	var rec func(n *rn)
	rec = func(n *rn) {
		if n.isErr() {
			e := fmt.Sprintf("[%d,%d) %q", off, off+len(n.text), n.msg)
			for _, h := range n.hints {
				e += fmt.Sprintf(" (hint: %s)", h)
			}
			out = append(out, e)
		}
		if n.leaf {
			off += len(n.text)
		}
		for _, k := range n.kids {
			rec(k)
		}
	}
	rec(n)
	return out
}

// refDiff gives the first place where two trees differ.
func refDiff(want, got *rn) string {
	if want.kind != got.kind || want.leaf != got.leaf || len(want.kids) != len(got.kids) || want.leaf {
		w, g := want.String(), got.String()
		if w == g {
			return ""
		}
		return fmt.Sprintf("want %s\nparsed %s", w, g)
	}
	for i := range want.kids {
		if d := refDiff(want.kids[i], got.kids[i]); d != "" {
			return d
		}
	}
	return ""
}

func (n *rn) forgetMessages() {
	n.msg, n.hints = "", nil
	for _, k := range n.kids {
		k.forgetMessages()
	}
}

// refCase parses a text both ways and compares the mistakes and the trees.
func refCase(c *Case, text string, mistakes bool) {
	c.Input = text
	want, ok := refTree(text)
	if !ok {
		c.Cover("texts the reference gave up on")
		return
	}
	root := syntax.Parse(text)
	got := rnOf(root)
	we := want.refErrs()
	c.Eval(1)
	if !mistakes && len(we) > 0 {
		// What a mistake is called is the matter of P08.
		want.forgetMessages()
		got.forgetMessages()
	} else if ge := got.refErrs(); strings.Join(we, "\n") != strings.Join(ge, "\n") {
		c.Fail("the mistakes of %q are\n%s\nreported are\n%s", text, strings.Join(we, "\n"), strings.Join(ge, "\n"))
	}
	if len(we) == 0 {
		c.Cover("texts without mistakes")
	} else {
		c.CoverN("mistakes", len(we))
		c.Cover(fmt.Sprintf("texts with %d mistakes", min(len(we), 6)))
	}
	if d := refDiff(want, got); d != "" {
		c.Fail("the tree of %q is wrong: %s", text, d)
	}
	c.Distinct(shape(root))
	if len(text) < 60 {
		c.Sample(fmt.Sprintf("%q", text))
	}
}
