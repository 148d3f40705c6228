package main

import (
	"fmt"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/mewmew/typast/typst/syntax"
)

// A reference tokenizer for markup without code or math, and one for code
// without brackets. They are written from the language rules, on decoded
// characters, and share nothing with the lexer under test. They are used on
// texts whose characters have an undisputed class.

type tok struct {
	kind syntax.SyntaxKind
	text string
}

const tokError = syntax.SyntaxKindError

func refNewline(r rune) bool {
	return r == '\n' || r == '\v' || r == '\f' || r == '\r' || r == 0x85 || r == 0x2028 || r == 0x2029
}

// refXIDStart and refXIDContinue are the identifier characters of Unicode
// Standard Annex 31, from the properties of the characters.
func refXIDStart(r rune) bool {
	return unicode.In(r, unicode.L, unicode.Nl, unicode.Other_ID_Start) && !refPattern(r) && !refNFKC(r) &&
		r != 0xE33 && r != 0xEB3 && r != 0xFF9E && r != 0xFF9F
}

func refXIDContinue(r rune) bool {
	return unicode.In(r, unicode.L, unicode.Nl, unicode.Other_ID_Start, unicode.Mn, unicode.Mc, unicode.Nd, unicode.Pc, unicode.Other_ID_Continue) &&
		!refPattern(r) && !refNFKC(r)
}

func refPattern(r rune) bool {
	return unicode.In(r, unicode.Pattern_Syntax, unicode.Pattern_White_Space)
}

// refNFKC holds the characters that are left out to keep identifiers closed
// under normalization.
func refNFKC(r rune) bool {
	switch r {
	case 0x37A, 0x309B, 0x309C, 0xFDFA, 0xFDFB, 0xFE70, 0xFE72, 0xFE74, 0xFE76, 0xFE78, 0xFE7A, 0xFE7C, 0xFE7E:
		return true
	}
	return 0xFC5E <= r && r <= 0xFC63
}

func refIDStart(r rune) bool    { return r == '_' || refXIDStart(r) }
func refIDContinue(r rune) bool { return r == '_' || r == '-' || refXIDContinue(r) }
func refLabelChar(r rune) bool  { return refIDContinue(r) || r == ':' || r == '.' }

// refAlpha reports whether a character is alphabetic, as Unicode derives it.
func refAlpha(r rune) bool { return unicode.In(r, unicode.L, unicode.Nl, unicode.Other_Alphabetic) }
func refAlnum(r rune) bool { return refAlpha(r) || unicode.IsNumber(r) }

func refCJK(r rune) bool {
	return unicode.In(r, unicode.Han, unicode.Hiragana, unicode.Katakana, unicode.Hangul)
}

// rd reads characters.
type rd struct {
	s []rune
	i int
}

func (r *rd) at(k int) rune {
	if j := r.i + k; j >= 0 && j < len(r.s) {
		return r.s[j]
	}
	return -1
}

func (r *rd) has(p string) bool {
	for k, c := range []rune(p) {
		if r.at(k) != c {
			return false
		}
	}
	return true
}

func (r *rd) while(f func(rune) bool) int {
	n := 0
	for r.i < len(r.s) && f(r.s[r.i]) {
		r.i++
		n++
	}
	return n
}

func isDigit(r rune) bool { return '0' <= r && r <= '9' }

// comment reads a comment that starts at the position, if one does.
func (r *rd) comment() (syntax.SyntaxKind, bool) {
	switch {
	case r.has("//"):
		r.while(func(c rune) bool { return !refNewline(c) })
		return syntax.SyntaxKindLineComment, true
	case r.has("/*"):
		r.i += 2
		for depth := 1; depth > 0 && r.i < len(r.s); {
			switch {
			case r.has("/*"):
				depth++
				r.i += 2
			case r.has("*/"):
				depth--
				r.i += 2
			default:
				r.i++
			}
		}
		return syntax.SyntaxKindBlockComment, true
	case r.has("*/"):
		r.i += 2
		return tokError, true
	}
	return 0, false
}

// rawText reads raw text, whole.
func (r *rd) rawText() syntax.SyntaxKind {
	n := r.while(func(c rune) bool { return c == '`' })
	if n == 2 {
		return syntax.SyntaxKindRaw
	}
	for found := 0; found < n; r.i++ {
		if r.i >= len(r.s) {
			return tokError
		}
		if r.s[r.i] == '`' {
			found++
		} else {
			found = 0
		}
	}
	return syntax.SyntaxKindRaw
}

func (r *rd) label() syntax.SyntaxKind {
	r.i++
	if r.while(refLabelChar) == 0 {
		return tokError
	}
	if r.at(0) != '>' {
		return tokError
	}
	r.i++
	return syntax.SyntaxKindLabel
}

func refMarkup(text string) []tok {
	r := &rd{s: []rune(text)}
	var out []tok
	for r.i < len(r.s) {
		start := r.i
		k := r.markupTok()
		if r.i <= start {
			panic("reference tokenizer is stuck")
		}
		out = append(out, tok{k, string(r.s[start:r.i])})
	}
	return out
}

func (r *rd) spaceOrEnd() bool {
	c := r.at(0)
	return c == -1 || unicode.IsSpace(c) || r.has("//") || r.has("/*")
}

func (r *rd) markupTok() syntax.SyntaxKind {
	c := r.at(0)
	space := func(c rune) bool { return c == ' ' || c == '\t' || refNewline(c) }
	if space(c) {
		start := r.i
		r.while(space)
		ws := strings.ReplaceAll(string(r.s[start:r.i]), "\r\n", "\n")
		n := 0
		for _, c := range ws {
			if refNewline(c) {
				n++
			}
		}
		if n >= 2 {
			return syntax.SyntaxKindParbreak
		}
		return syntax.SyntaxKindSpace
	}
	if k, ok := r.comment(); ok {
		return k
	}
	if c == '`' {
		return r.rawText()
	}
	is := func(s string) bool {
		if r.has(s) {
			r.i += len([]rune(s))
			return true
		}
		return false
	}
	switch {
	case is(`\u{`):
		start := r.i
		r.while(func(c rune) bool { return c < 128 && (unicode.IsLetter(c) || isDigit(c)) })
		hex := string(r.s[start:r.i])
		if !is("}") {
			return tokError
		}
		if v, err := strconv.ParseUint(hex, 16, 64); err != nil || v > 0x10FFFF || v >= 0xD800 && v <= 0xDFFF {
			return tokError
		}
		return syntax.SyntaxKindEscape
	case c == '\\':
		r.i++
		if r.at(0) == -1 || unicode.IsSpace(r.at(0)) {
			return syntax.SyntaxKindLinebreak
		}
		r.i++
		return syntax.SyntaxKindEscape
	case r.has("http://"), r.has("https://"):
		return r.linkTok()
	case c == '<' && refIDContinue(r.at(1)):
		return r.label()
	case c == '@' && refIDContinue(r.at(1)):
		r.i++
		r.while(refLabelChar)
		for r.at(-1) == '.' || r.at(-1) == ':' {
			r.i--
		}
		return syntax.SyntaxKindRefMarker
	case is("..."), is("---"), is("--"), is("-?"):
		return syntax.SyntaxKindShorthand
	case c == '-' && unicode.IsNumber(r.at(1)):
		r.i++
		return syntax.SyntaxKindShorthand
	case c == '*' || c == '_':
		word := func(c rune) bool { return c != -1 && refAlnum(c) && !refCJK(c) }
		if !(word(r.at(-1)) && word(r.at(1))) {
			r.i++
			if c == '*' {
				return syntax.SyntaxKindStar
			}
			return syntax.SyntaxKindUnderscore
		}
	case c == '[':
		r.i++
		return syntax.SyntaxKindLeftBracket
	case c == ']':
		r.i++
		return syntax.SyntaxKindRightBracket
	case c == '\'' || c == '"':
		r.i++
		return syntax.SyntaxKindSmartQuote
	case c == '~':
		r.i++
		return syntax.SyntaxKindShorthand
	case c == ':':
		r.i++
		return syntax.SyntaxKindColon
	case c == '=':
		r.while(func(c rune) bool { return c == '=' })
		if r.spaceOrEnd() {
			return syntax.SyntaxKindHeadingMarker
		}
		return r.textTok()
	case c == '-', c == '+', c == '/':
		r.i++
		if r.spaceOrEnd() {
			return map[rune]syntax.SyntaxKind{'-': syntax.SyntaxKindListMarker, '+': syntax.SyntaxKindEnumMarker, '/': syntax.SyntaxKindTermMarker}[c]
		}
		return r.textTok()
	case isDigit(c):
		start := r.i
		r.while(isDigit)
		num := string(r.s[start:r.i])
		if r.at(0) == '.' {
			r.i++
			if r.spaceOrEnd() {
				if _, err := strconv.ParseUint(num, 10, 64); err == nil {
					return syntax.SyntaxKindEnumMarker
				}
			}
		}
		return r.textTok()
	}
	r.i++
	return r.textTok()
}

// textTok reads on until something that is not plain text.
func (r *rd) textTok() syntax.SyntaxKind {
	for r.i < len(r.s) {
		c, d := r.at(0), r.at(1)
		plain := false
		switch {
		case c == ' ':
			plain = d != -1 && refAlnum(d)
		case unicode.IsSpace(c):
		case c == '/':
			plain = d != '/' && d != '*'
		case c == '-':
			plain = d != '-' && d != '?'
		case c == '.':
			plain = !r.has("...")
		case c == 'h':
			plain = !r.has("http://") && !r.has("https://")
		case c == '@':
			plain = d == -1 || !refLabelChar(d)
		case strings.ContainsRune("\\[]~'\"*_:`$<>#", c):
		default:
			plain = true
		}
		if !plain {
			break
		}
		r.i++
	}
	return syntax.SyntaxKindText
}

// linkTok reads an automatic link.
func (r *rd) linkTok() syntax.SyntaxKind {
	for r.at(0) != '/' {
		r.i++
	}
	r.i += 2
	start := r.i
	var open []rune
	ok := true
scan:
	for r.i < len(r.s) {
		c := r.s[r.i]
		switch {
		case c < 128 && (unicode.IsLetter(c) || isDigit(c)), strings.ContainsRune("!#$%&*+,-./:;=?@_~'", c):
		case c == '[' || c == '(':
			open = append(open, c)
		case c == ']' || c == ')':
			if len(open) == 0 {
				break scan
			}
			want := open[len(open)-1]
			open = open[:len(open)-1]
			if want == '[' != (c == ']') {
				break scan
			}
		default:
			break scan
		}
		r.i++
	}
	for r.i > start && strings.ContainsRune("!,.:;?'", r.s[r.i-1]) {
		r.i--
	}
	if len(open) > 0 {
		ok = false
	}
	if !ok {
		return tokError
	}
	return syntax.SyntaxKindLink
}

var refKeywords = map[string]syntax.SyntaxKind{
	"none": syntax.SyntaxKindNone, "auto": syntax.SyntaxKindAuto, "true": syntax.SyntaxKindBool, "false": syntax.SyntaxKindBool,
	"not": syntax.SyntaxKindNot, "and": syntax.SyntaxKindAnd, "or": syntax.SyntaxKindOr, "let": syntax.SyntaxKindLet, "set": syntax.SyntaxKindSet,
	"show": syntax.SyntaxKindShow, "context": syntax.SyntaxKindContext, "if": syntax.SyntaxKindIf, "else": syntax.SyntaxKindElse,
	"for": syntax.SyntaxKindFor, "in": syntax.SyntaxKindIn, "while": syntax.SyntaxKindWhile, "break": syntax.SyntaxKindBreak,
	"continue": syntax.SyntaxKindContinue, "return": syntax.SyntaxKindReturn, "import": syntax.SyntaxKindImport,
	"include": syntax.SyntaxKindInclude, "as": syntax.SyntaxKindAs,
}

var (
	reRadix  = regexp.MustCompile(`^0(?:b[0-9]*|o[0-9]*|x[0-9A-Za-z]*)`)
	reSuffix = regexp.MustCompile(`^[0-9A-Za-z%]*`)
	units    = map[string]bool{"pt": true, "mm": true, "cm": true, "in": true, "deg": true, "rad": true, "em": true, "fr": true, "%": true}
)

// refNumber reads a number at the start of the text.
func refNumber(text string) (string, syntax.SyntaxKind) {
	if num := reRadix.FindString(text); num != "" {
		suffix := reSuffix.FindString(text[len(num):])
		base := map[byte]int{'b': 2, 'o': 8, 'x': 16}[num[1]]
		_, err := strconv.ParseInt(num[2:], base, 64)
		if err != nil || suffix != "" {
			return num + suffix, tokError
		}
		return num, syntax.SyntaxKindInt
	}
	i := 0
	digits := func() int {
		n := 0
		for i < len(text) && text[i] >= '0' && text[i] <= '9' {
			i++
			n++
		}
		return n
	}
	digits()
	float, bad := false, false
	if i < len(text) && text[i] == '.' && !strings.HasPrefix(text[i:], "..") {
		next, _ := utf8.DecodeRuneInString(text[i+1:])
		if i+1 == len(text) || !refIDStart(next) {
			float = true
			i++
			digits()
		}
	}
	if i < len(text) && (text[i] == 'e' || text[i] == 'E') && !strings.HasPrefix(text[i:], "em") {
		float = true
		i++
		if i < len(text) && (text[i] == '+' || text[i] == '-') {
			i++
		}
		bad = digits() == 0
	}
	suffix := reSuffix.FindString(text[i:])
	num := text[:i+len(suffix)]
	switch {
	case bad || suffix != "" && !units[suffix]:
		return num, tokError
	case suffix != "":
		return num, syntax.SyntaxKindNumeric
	case float:
		return num, syntax.SyntaxKindFloat
	}
	return num, syntax.SyntaxKindInt
}

// refCode tokenizes code. before is the text that stands before it.
func refCode(text string) []tok {
	r := &rd{s: []rune(text)}
	var out []tok
	for r.i < len(r.s) {
		start := r.i
		var k syntax.SyntaxKind
		c := r.at(0)
		isLabel := c == '<' && refIDContinue(r.at(1))
		switch {
		case unicode.IsSpace(c):
			r.while(unicode.IsSpace)
			k = syntax.SyntaxKindSpace
		case r.has("//"), r.has("/*"), r.has("*/"):
			k, _ = r.comment()
		case c == '`':
			k = r.rawText()
		case isLabel:
			k = r.label()
		case isDigit(c), c == '.' && isDigit(r.at(1)):
			rest := string(r.s[r.i:])
			num, kind := refNumber(rest)
			if c == '.' {
				// A leading dot belongs to a number.
				n2, k2 := refNumber("0" + rest)
				num, kind = n2[1:], k2
			}
			r.i += len(num)
			k = kind
		case c == '"':
			r.i++
			k = tokError
			for r.i < len(r.s) {
				if r.s[r.i] == '\\' {
					r.i = min(r.i+2, len(r.s))
					continue
				}
				r.i++
				if r.s[r.i-1] == '"' {
					k = syntax.SyntaxKindStr
					break
				}
			}
		case refIDStart(c):
			r.while(refIDContinue)
			w := string(r.s[start:r.i])
			kw, isKw := refKeywords[w]
			before := string(r.s[:start])
			afterDot := strings.HasSuffix(before, ".") && !strings.HasSuffix(before, "..")
			if start > 0 && r.s[start-1] == '@' {
				afterDot = true
			}
			switch {
			case isKw && !afterDot:
				k = kw
			case w == "_":
				k = syntax.SyntaxKindUnderscore
			default:
				k = syntax.SyntaxKindIdent
			}
		default:
			k = tokError
			n := 1
			for _, o := range refOps {
				if r.has(o.text) {
					k, n = o.kind, len([]rune(o.text))
					break
				}
			}
			r.i += n
		}
		out = append(out, tok{k, string(r.s[start:r.i])})
	}
	return out
}

// refOps are the operators and punctuation, longest first.
var refOps = []tok{
	{syntax.SyntaxKindEqEq, "=="}, {syntax.SyntaxKindExclEq, "!="}, {syntax.SyntaxKindLtEq, "<="}, {syntax.SyntaxKindGtEq, ">="},
	{syntax.SyntaxKindPlusEq, "+="}, {syntax.SyntaxKindHyphEq, "-="}, {syntax.SyntaxKindHyphEq, "−="}, {syntax.SyntaxKindStarEq, "*="},
	{syntax.SyntaxKindSlashEq, "/="}, {syntax.SyntaxKindDots, ".."}, {syntax.SyntaxKindArrow, "=>"},
	{syntax.SyntaxKindLeftBrace, "{"}, {syntax.SyntaxKindRightBrace, "}"}, {syntax.SyntaxKindComma, ","}, {syntax.SyntaxKindSemicolon, ";"},
	{syntax.SyntaxKindColon, ":"}, {syntax.SyntaxKindDot, "."}, {syntax.SyntaxKindPlus, "+"}, {syntax.SyntaxKindMinus, "-"},
	{syntax.SyntaxKindMinus, "−"}, {syntax.SyntaxKindStar, "*"}, {syntax.SyntaxKindSlash, "/"}, {syntax.SyntaxKindEq, "="},
	{syntax.SyntaxKindLt, "<"}, {syntax.SyntaxKindGt, ">"}, {syntax.SyntaxKindLeftParen, "("}, {syntax.SyntaxKindRightParen, ")"},
}

// tokens lists the tokens of a tree; raw text counts as one token and empty
// error markers are left out.
func tokens(root *syntax.SyntaxNode) []tok {
	var out []tok
	var rec func(n *syntax.SyntaxNode)
	rec = func(n *syntax.SyntaxNode) {
		if nodeKind(n) == syntax.SyntaxKindRaw {
			out = append(out, tok{syntax.SyntaxKindRaw, sourceText(n)})
			return
		}
		if t, ok := leafText(n); ok {
			if t != "" {
				out = append(out, tok{nodeKind(n), t})
			}
			return
		}
		for _, k := range children(n) {
			rec(k)
		}
	}
	rec(root)
	return out
}

// compareTokens checks the parsed tokens against the reference. The parser may
// turn a token that is out of place into an error or into text.
func compareTokens(c *Case, want, got []tok, code bool) {
	c.Eval(1)
	var kinds strings.Builder
	for i := 0; i < len(want) || i < len(got); i++ {
		var w, h tok
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			h = got[i]
		}
		ok := w.text == h.text && (w.kind == h.kind || tokMayBe(w.kind, h.kind, code))
		// A field access where a pattern is expected becomes one error.
		if !ok && code && h.kind == tokError && strings.HasPrefix(h.text, w.text+".") {
			n, all := i+1, w.text
			for n+1 < len(want) && want[n].text == "." && len(all) < len(h.text) {
				all += "." + want[n+1].text
				n += 2
			}
			if all == h.text {
				want = append(append(append([]tok{}, want[:i]...), tok{tokError, all}), want[n:]...)
				w, ok = want[i], true
			}
		}
		if !ok {
			name := func(t tok) string {
				if t.kind == 0 {
					return "nothing"
				}
				return fmt.Sprintf("%s %q", t.kind.Name(), t.text)
			}
			c.Fail("token %d of the text should be %s, parsed %s", i+1, name(w), name(h))
		}
		kinds.WriteByte(byte(w.kind))
		c.Cover("token " + w.kind.Name())
		if w.kind == h.kind {
			kinds.WriteByte('.')
		}
	}
	c.Distinct(kinds.String())
	if len(c.Input) < 60 {
		c.Sample(fmt.Sprintf("%q", c.Input))
	}
}

func tokMayBe(want, got syntax.SyntaxKind, code bool) bool {
	if code {
		// Space after code that lacks its closing brace is read again as markup.
		if want == syntax.SyntaxKindSpace && (got == syntax.SyntaxKindText || got == syntax.SyntaxKindParbreak) {
			return true
		}
		return got == tokError && want != syntax.SyntaxKindSpace && want != syntax.SyntaxKindLineComment && want != syntax.SyntaxKindBlockComment
	}
	switch want {
	case syntax.SyntaxKindHeadingMarker, syntax.SyntaxKindListMarker, syntax.SyntaxKindEnumMarker, syntax.SyntaxKindTermMarker, syntax.SyntaxKindColon:
		return got == syntax.SyntaxKindText
	case syntax.SyntaxKindLeftBracket, syntax.SyntaxKindRightBracket:
		return got == syntax.SyntaxKindText || got == tokError
	case syntax.SyntaxKindStar, syntax.SyntaxKindUnderscore:
		return got == tokError
	}
	return false
}

var markupAlphabet = []string{
	"a", "b", "h", "x", "Z", "é", "日", "한", "\u0301", "ि", "Ⅷ", "‿", "·", "\u0e33", "Ⓐ", "½", "٣", "0", "1", "9", " ", " ", "  ", "\n", "\n", "\r\n", "\r", "\t", "\v", "\f", "\u0085", "\u2028", "\u00a0", "\u3000",
	"*", "*", "_", "_", "-", "-", "+", "/", "=", "=", ".", ".", ":", ":", ",", ";", "!", "?", "'", "\"", "`", "``", "```", "~", "\\", "\\", "<", ">", "@", "@", "[", "]", "(", ")", "{", "}", "%", "&", "^", "|", "€", "—",
	"//", "/*", "*/", "http://", "https://", "\\u{", "\\u{41}", "\\u{1F600}", "\\u{D800}", "\\u{110000}", "\\u{}", "<l>", "@r", "12.", "1. ", "- ", "= ", "== ", "/ t:", "word", "a b", "http", "--", "---", "-?", "...",
	"18446744073709551615. ", "18446744073709551616. ", "-1", "https://a.b/c(d)[e]", "http://x.y,", "http://x/(", "@a.b.", "@a:", "<a.b>", "<a", "*/",
}

var codeAlphabet = []string{
	"a", "b", "e", "E", "x", "o", "m", "p", "t", "é", "日", "\u0301", "ि", "Ⅷ", "‿", "·", "\u0e33", "℘", "½", "_", "-", "-", "0", "0", "1", "2", "7", "9", ".", ".", ".", "%", " ", " ", "\n", "\r\n",
	"+", "*", "/", "=", "=", "<", "<", ">", "!", ",", ";", ":", "−", "\"", "\\", "\"a\"", "\"\\\"\"", "\"\\\\\"", "\"\n\"", "\"/*\"", "@", "&", "?", "~", "|", "^", "'", "€",
	"//", "/*", "*/", "0x", "0b", "0o", "1e", "em", "pt", "deg", "fr", "in", "cm", "mm", "rad", "1.", "..", "=>", "==", "<=", "<a>", "<a", "a.", "9223372036854775807", "0x7fffffffffffffff", "0x8000000000000000", "1e999",
	"let", "set", "show", "if", "else", "for", "in", "while", "break", "continue", "return", "import", "include", "as", "context", "not", "and", "or", "none", "auto", "true", "false",
	"``", "`a`", "```a```", "`",
}

func pick(c *Case, from []string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(from[c.IntN(len(from))])
	}
	return b.String()
}

// checkRaws judges the inside of raw text: the delimiters, the language tag and
// the lines.
func checkRaws(c *Case, root *syntax.SyntaxNode) {
	if nodeKind(root) != syntax.SyntaxKindRaw {
		for _, k := range children(root) {
			checkRaws(c, k)
		}
		return
	}
	text := sourceText(root)
	var parts []tok
	for _, k := range children(root) {
		t, ok := leafText(k)
		if !ok {
			c.Fail("raw text %q has a part that is no token", text)
		}
		parts = append(parts, tok{nodeKind(k), t})
	}
	if want := refRaw(c, text); !slices.Equal(parts, want) {
		c.Fail("raw text %q is %q, want %q", text, parts, want)
	}
}

// A line of raw text: the line end before it, and its characters.
type rawLine struct {
	end  string
	text []rune
}

func rawLines(text string) []rawLine {
	rs := []rune(text)
	lines := []rawLine{{}}
	for i := 0; i < len(rs); i++ {
		if !refNewline(rs[i]) {
			l := &lines[len(lines)-1]
			l.text = append(l.text, rs[i])
			continue
		}
		end := string(rs[i])
		if rs[i] == '\r' && i+1 < len(rs) && rs[i+1] == '\n' {
			end = "\r\n"
			i++
		}
		lines = append(lines, rawLine{end: end})
	}
	return lines
}

// refRaw is the pieces of raw text, by the description of the language.
//
// One backtick: the lines are the text, the line ends are left out. Three or
// more: a language tag may follow the delimiter. A blank first or last line is
// left out, as is one space in front of the text in the first line, and one
// behind a backtick that ends the text. The remaining lines lose the white space
// they have in common, where the line of the closing delimiter always counts and
// other blank lines and the first line do not.
func refRaw(c *Case, text string) []tok {
	inner := strings.TrimLeft(text, "`")
	n := len(text) - len(inner)
	if inner == "" {
		return []tok{{syntax.SyntaxKindRawDelim, "`"}, {syntax.SyntaxKindRawDelim, "`"}}
	}
	inner = inner[:len(inner)-n]
	delim := tok{syntax.SyntaxKindRawDelim, text[:n]}
	c.Cover(fmt.Sprintf("raw text with %d backticks", min(n, 5)))
	out := []tok{delim}
	trimmed := "" // what is left out in front of the next line
	flush := func() {
		out = append(out, tok{syntax.SyntaxKindRawTrimmed, trimmed})
		trimmed = ""
	}
	line := func(rs []rune) { out = append(out, tok{syntax.SyntaxKindText, string(rs)}) }
	if n < 3 {
		for i, l := range rawLines(inner) {
			if i > 0 {
				trimmed = l.end
				flush()
			}
			line(l.text)
		}
		return append(out, delim)
	}
	r := &rd{s: []rune(inner)}
	if refIDStart(r.at(0)) {
		r.while(refIDContinue)
		out = append(out, tok{syntax.SyntaxKindRawLang, string(r.s[:r.i])})
		inner = string(r.s[r.i:])
		c.Cover("raw text with a language")
	}
	blank := func(rs []rune) bool { return strings.TrimFunc(string(rs), unicode.IsSpace) == "" }
	lead := func(rs []rune) int {
		n := 0
		for n < len(rs) && unicode.IsSpace(rs[n]) {
			n++
		}
		return n
	}
	lines := rawLines(inner)
	c.Cover(fmt.Sprintf("raw text of %d lines", min(len(lines), 4)))
	last := len(lines) - 1
	dedent := lead(lines[last].text)
	for i := 1; i < last; i++ {
		if !blank(lines[i].text) {
			dedent = min(dedent, lead(lines[i].text))
		}
	}
	if dedent > 0 && last > 0 {
		c.Cover("raw text with common white space")
	}
	// The end of the text.
	end := ""
	if l := &lines[last]; blank(l.text) {
		end = l.end + string(l.text)
		lines = lines[:last]
	} else if k := len(l.text); l.text[k-1] == ' ' && strings.HasSuffix(strings.TrimRightFunc(string(l.text), unicode.IsSpace), "`") {
		end = " "
		l.text = l.text[:k-1]
		c.Cover("raw text with a space behind a backtick")
	}
	for i, l := range lines {
		switch {
		case i == 0 && blank(l.text):
			trimmed = string(l.text)
		case i == 0 && l.text[0] == ' ':
			trimmed = " "
			flush()
			line(l.text[1:])
		case i == 0:
			line(l.text)
		default:
			k := min(dedent, len(l.text))
			trimmed += l.end + string(l.text[:k])
			flush()
			line(l.text[k:])
		}
	}
	if trimmed += end; trimmed != "" {
		flush()
	}
	return append(out, delim)
}

var rawAlphabet = []string{"a", "a", "b", "ि", "℘", "‿", "\u0e33", "_", "-", "9", "é", "日", "٣", " ", " ", "  ", "\n", "\n", "\r\n", "\r", "\t", "\v", "\u0085", "\u2028", "\u2029", "\n ", "\n  b", "\n  ", "\n   c", "\n\t", "\u3000", "`", "``", "` ", " `", "`` `", "```", "\\", "//", ".", "x1"}

func rawCase(c *Case) {
	n := []int{1, 1, 2, 3, 3, 3, 4, 5}[c.IntN(8)]
	d := strings.Repeat("`", n)
	text := d + pick(c, rawAlphabet, c.IntN(8)) + d
	if c.IntN(6) == 0 {
		// Behind a block that is never closed, this space would be text.
		text = strings.ReplaceAll(text, "\u3000", " ")
		tokCode(c, text+" + "+text)
		return
	}
	tokMarkup(c, pick(c, []string{"", "", "a ", "[", "- ", "= "}, 1)+text+pick(c, []string{"", "", " ", "a", "]", "\n", "`"}, 1))
}

func tokMarkup(c *Case, text string) {
	c.Input = text
	root := syntax.Parse(text)
	compareTokens(c, refMarkup(text), tokens(root), false)
	checkRaws(c, root)
}

func tokCode(c *Case, text string) {
	src := "#{" + text + "}"
	c.Input = src
	want := append([]tok{{syntax.SyntaxKindHash, "#"}}, refCode("{"+text+"}")...)
	root := syntax.Parse(src)
	compareTokens(c, want, tokens(root), true)
	checkRaws(c, root)
}

// everyChar puts each of 256 characters into markup and code, where its class
// decides how the text splits.
func everyChar(c *Case) {
	for r := rune(c.Index * 256); r < rune(c.Index*256+256); r++ {
		boring := !unicode.In(r, unicode.L, unicode.M, unicode.N, unicode.P, unicode.S, unicode.Z, unicode.C) || unicode.In(r, unicode.Han, unicode.Hangul)
		if !utf8.ValidRune(r) || boring && (int(r)+int(c.Seed))%16 != 0 {
			continue
		}
		ch := string(r)
		if !strings.ContainsRune("#$`", r) {
			tokMarkup(c, "a"+ch+"*b* *"+ch+"*a _"+ch+"_")
			tokMarkup(c, ch+" "+ch+" <a"+ch+"> @"+ch+"b @a"+ch+" -"+ch+" \\"+ch+" =="+ch)
		}
		if !strings.ContainsRune("#$`{}()[]\"", r) {
			tokCode(c, ch+" a"+ch+"b "+ch+"1 1"+ch+" 1."+ch)
		}
	}
}

// numText is a text that looks like a number.
func numText(c *Case) string {
	parts := []string{"0", "1", "9", "00", ".", "e", "E", "+", "-", "x", "b", "o", "em", "pt", "%", "f", "a", "cm", "1", "7", "99999999999999999999", "é"}
	return string(rune('0'+c.IntN(10))) + pick(c, parts, c.IntN(6))
}

func init() {
	pairs := func(from []string, fn func(*Case, string)) func(c *Case) {
		return func(c *Case) {
			// All pairs with one of the first fragments, exhaustively.
			a := from[c.Index%len(from)]
			for _, b := range from {
				fn(c, a+b)
			}
		}
	}
	register(&Prop{
		ID:   "P07",
		Rule: "a text counts by its sequence of token kinds and which of them the parser kept",
		Assumptions: []string{
			"how much white space around the lines of a raw block is trimmed is not judged (declared unimplemented in the source)",
		},
		Groups: []Group{
			{Name: "markup pairs", Quick: len(markupAlphabet), Thorough: len(markupAlphabet), Run: pairs(markupAlphabet, tokMarkup)},
			{Name: "code pairs", Quick: len(codeAlphabet), Thorough: len(codeAlphabet), Run: pairs(codeAlphabet, tokCode)},
			{Name: "every character", Quick: 0x110000 / 256, Thorough: 0x110000 / 256, Run: everyChar},
			{Name: "markup short", Quick: 60000, Thorough: 2000000, Run: func(c *Case) { tokMarkup(c, pick(c, markupAlphabet, 1+c.IntN(5))) }},
			{Name: "markup long", Quick: 10000, Thorough: 300000, Run: func(c *Case) { tokMarkup(c, pick(c, markupAlphabet, 1+c.IntN(40))) }},
			{Name: "code short", Quick: 60000, Thorough: 2000000, Run: func(c *Case) { tokCode(c, pick(c, codeAlphabet, 1+c.IntN(5))) }},
			{Name: "code long", Quick: 10000, Thorough: 300000, Run: func(c *Case) { tokCode(c, pick(c, codeAlphabet, 1+c.IntN(40))) }},
			{Name: "raw text", Quick: 40000, Thorough: 1000000, Run: rawCase},
			{Name: "numbers", Quick: 40000, Thorough: 1000000, Run: func(c *Case) { tokCode(c, " "+numText(c)+[]string{" ", "", ";", ","}[c.IntN(4)]) }},
			{Name: "embedded number", Quick: 10000, Thorough: 200000, Run: func(c *Case) {
				// A number directly behind a hash, up to the end of the text.
				t := numText(c)
				c.Input = "#" + t
				num, kind := refNumber(t)
				got := tokens(syntax.Parse(c.Input))
				c.Eval(1)
				if len(got) < 2 || got[1].text != num || got[1].kind != kind {
					c.Fail("%q starts with the number %q (%s), parsed %v", t, num, kind.Name(), got)
				}
				c.Distinct(kind, len(num))
			}},
		},
	})
}
