//go:build verifshim

package main

import (
	"fmt"
	"html"
	"strings"

	"github.com/mewmew/typast/typst/syntax"
)

// navTree is the reference for navigation: the flattened tree and what follows
// from it by definition.
type navTree struct {
	fl    []flat
	kids  [][]int
	index []int // position among the parent's children
	text  string
}

func trivia(k syntax.SyntaxKind) bool {
	switch k {
	case syntax.SyntaxKindShebang, syntax.SyntaxKindLineComment, syntax.SyntaxKindBlockComment, syntax.SyntaxKindSpace, syntax.SyntaxKindParbreak:
		return true
	}
	return false
}

func newNavTree(root *syntax.SyntaxNode) *navTree {
	t := &navTree{fl: flatten(root), text: sourceText(root)}
	t.kids = make([][]int, len(t.fl))
	t.index = make([]int, len(t.fl))
	for i := 1; i < len(t.fl); i++ {
		p := t.fl[i].parent
		t.index[i] = len(t.kids[p])
		t.kids[p] = append(t.kids[p], i)
	}
	return t
}

// token tells whether node i is a token that navigation stops at.
func (t *navTree) token(i int) bool {
	_, ok := t.fl[i].n.Repr.(*syntax.LeafNode)
	return ok && !trivia(t.fl[i].kind)
}

func (t *navTree) sibling(i, dir int) int {
	p := t.fl[i].parent
	if p < 0 {
		return -1
	}
	for k := t.index[i] + dir; k >= 0 && k < len(t.kids[p]); k += dir {
		if j := t.kids[p][k]; !trivia(t.fl[j].kind) {
			return j
		}
	}
	return -1
}

func (t *navTree) prevToken(i int) int {
	for j := i - 1; j >= 0; j-- {
		if t.token(j) {
			return j
		}
	}
	return -1
}

func (t *navTree) nextToken(i int) int {
	for j := t.fl[i].last + 1; j < len(t.fl); j++ {
		if t.token(j) {
			return j
		}
	}
	return -1
}

func (t *navTree) firstToken(i int) int {
	for j := i; j <= t.fl[i].last; j++ {
		if t.token(j) {
			return j
		}
	}
	return -1
}

func (t *navTree) lastToken(i int) int {
	for j := t.fl[i].last; j >= i; j-- {
		if t.token(j) {
			return j
		}
	}
	return -1
}

func (t *navTree) name(i int) string {
	if i < 0 {
		return "nothing"
	}
	f := t.fl[i]
	return fmt.Sprintf("%s [%d,%d)", f.kind.Name(), f.start, f.end)
}

func linkName(l *syntax.VerifLink) string {
	if l == nil {
		return "nothing"
	}
	a, b := l.Range()
	return fmt.Sprintf("%s [%d,%d) index %d", nodeKind(l.Node()).Name(), a, b, l.Index())
}

// is checks that a link stands for node i, with its position.
func (t *navTree) is(l *syntax.VerifLink, i int) bool {
	if l == nil || i < 0 {
		return l == nil && i < 0
	}
	f := t.fl[i]
	a, b := l.Range()
	return l.Node() == f.n && int(a) == f.start && int(b) == f.end && int(l.Offset()) == f.start && int(l.Index()) == t.index[i]
}

// same checks a link and all its parents.
func (t *navTree) same(c *Case, what string, l *syntax.VerifLink, i int) {
	c.Eval(1)
	if !t.is(l, i) {
		c.Fail("%s is %s, want %s\n%s", what, linkName(l), t.name(i), pretty(t.fl[0].n))
	}
	for i >= 0 {
		l, i = l.Parent(), t.fl[i].parent
		if !t.is(l, i) {
			c.Fail("%s: an enclosing node is %s, want %s\n%s", what, linkName(l), t.name(i), pretty(t.fl[0].n))
		}
	}
}

// links walks the tree and returns a link per node.
func (t *navTree) links(c *Case, root *syntax.SyntaxNode) []*syntax.VerifLink {
	out := make([]*syntax.VerifLink, len(t.fl))
	var rec func(l *syntax.VerifLink, i int)
	rec = func(l *syntax.VerifLink, i int) {
		out[i] = l
		cs := l.Children()
		if len(cs) != len(t.kids[i]) {
			c.Fail("%s has %d children, walking shows %d", t.name(i), len(t.kids[i]), len(cs))
		}
		rev := l.RevChildren()
		if len(rev) != len(cs) {
			c.Fail("%s has %d children, walking backwards shows %d", t.name(i), len(cs), len(rev))
		}
		for k, ch := range cs {
			j := t.kids[i][k]
			t.same(c, fmt.Sprintf("child %d of %s", k, t.name(i)), ch, j)
			t.same(c, fmt.Sprintf("child %d of %s, reached backwards,", k, t.name(i)), rev[len(rev)-1-k], j)
			if c.IntN(2) == 0 {
				ch = rev[len(rev)-1-k]
			}
			rec(ch, j)
		}
	}
	l := syntax.VerifRoot(root)
	t.same(c, "the root", l, 0)
	rec(l, 0)
	return out
}

func navCase(c *Case, root *syntax.SyntaxNode, src *syntax.Source) {
	t := newNavTree(root)
	links := t.links(c, root)
	step := 1 + len(links)/150
	for i := c.IntN(step); i < len(links); i += step {
		l, nm := links[i], t.name(i)
		prev, next := t.sibling(i, -1), t.sibling(i, 1)
		t.same(c, "the previous sibling of "+nm, l.PrevSibling(), prev)
		t.same(c, "the next sibling of "+nm, l.NextSibling(), next)
		kindIs := func(what string, k syntax.SyntaxKind, ok bool, i int) {
			c.Eval(1)
			if ok != (i >= 0) || (ok && k != t.fl[i].kind) {
				c.Fail("the kind of the %s of %s is %s (%v), want %s", what, nm, k.Name(), ok, t.name(i))
			}
		}
		k, ok := l.ParentKind()
		kindIs("parent", k, ok, t.fl[i].parent)
		k, ok = l.PrevSiblingKind()
		kindIs("previous sibling", k, ok, prev)
		k, ok = l.NextSiblingKind()
		kindIs("next sibling", k, ok, next)
		pt := t.prevToken(i)
		// Ancestors are no tokens, so nothing enclosing the node is found.
		t.same(c, "the token before "+nm, l.PrevLeaf(), pt)
		t.same(c, "the token after "+nm, l.NextLeaf(), t.nextToken(i))
		t.same(c, "the first token of "+nm, l.LeftmostLeaf(), t.firstToken(i))
		t.same(c, "the last token of "+nm, l.RightmostLeaf(), t.lastToken(i))
		if prev >= 0 {
			c.Cover("previous siblings")
		}
		if pt >= 0 && t.fl[pt].parent != t.fl[i].parent {
			c.Cover("tokens under another parent")
		}
		if src != nil {
			// The node is found by its span from every node above it, and from
			// nowhere else.
			sp := nodeSpan(t.fl[i].n)
			for j := i; j >= 0; j = t.fl[j].parent {
				t.same(c, fmt.Sprintf("searching %s for %s", t.name(j), nm), links[j].Find(sp), i)
			}
			o := c.IntN(len(links))
			if o > i || t.fl[o].last < i {
				t.same(c, fmt.Sprintf("searching %s for %s", t.name(o), nm), links[o].Find(sp), -1)
				c.Cover("searches elsewhere")
			}
		}
	}
	// Byte offsets.
	before := make([]int, len(t.text)+1)
	after := make([]int, len(t.text)+1)
	for i := range before {
		before[i], after[i] = -1, -1
	}
	for i := range t.fl {
		if len(t.kids[i]) == 0 {
			for p := t.fl[i].start; p < t.fl[i].end; p++ {
				after[p], before[p+1] = i, i
			}
		}
	}
	step = 1 + len(t.text)/300
	for p := c.IntN(step); p <= len(t.text); p += step {
		if p > 0 {
			t.same(c, fmt.Sprintf("the leaf before byte %d", p), links[0].LeafAt(uint(p), true), before[p])
		} else if l := links[0].LeafAt(0, true); l != nil {
			if a, _ := l.Range(); a != 0 || len(children(l.Node())) > 0 {
				c.Fail("the leaf before byte 0 is %s", linkName(l))
			}
		}
		t.same(c, fmt.Sprintf("the leaf after byte %d", p), links[0].LeafAt(uint(p), false), after[p])
	}
	t.same(c, "the leaf before a byte past the end", links[0].LeafAt(uint(len(t.text)+1), true), -1)
	t.same(c, "the leaf after a byte past the end", links[0].LeafAt(uint(len(t.text)+1+c.IntN(9)), false), -1)
	// Errors.
	var want []string
	for _, f := range t.fl {
		if e, ok := f.n.Repr.(*syntax.ErrorNode); ok {
			want = append(want, fmt.Sprintf("%q %q %v", e.Error.Message, e.Error.Hints, e.Error.Span))
		}
	}
	var got []string
	for _, e := range syntax.VerifErrors(root) {
		got = append(got, fmt.Sprintf("%q %q %v", e.Message, e.Hints, e.Span))
	}
	c.Eval(1)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Fail("the errors of the tree are %s, want %s", got, want)
	}
	c.CoverN("errors", len(want))
	c.CoverN("nodes", len(t.fl))
	if len(t.fl) > 3 {
		c.Distinct(shape(root))
	}
	if len(t.text) > 10 && len(t.text) < 100 {
		c.Sample(fmt.Sprintf("%q", t.text))
	}
}

// hashExpr lists the expressions that a hash embeds.
var hashExpr = map[syntax.SyntaxKind]bool{}

// staticClass is the class of a kind that is always highlighted the same way.
var staticClass = map[syntax.SyntaxKind]string{}

func init() {
	for _, k := range []syntax.SyntaxKind{
		syntax.SyntaxKindIdent, syntax.SyntaxKindNone, syntax.SyntaxKindAuto, syntax.SyntaxKindBool, syntax.SyntaxKindInt,
		syntax.SyntaxKindFloat, syntax.SyntaxKindNumeric, syntax.SyntaxKindStr, syntax.SyntaxKindCodeBlock, syntax.SyntaxKindContentBlock,
		syntax.SyntaxKindParenthesized, syntax.SyntaxKindArray, syntax.SyntaxKindDict, syntax.SyntaxKindFieldAccess, syntax.SyntaxKindFuncCall,
		syntax.SyntaxKindLetBinding, syntax.SyntaxKindSetRule, syntax.SyntaxKindShowRule, syntax.SyntaxKindContextual,
		syntax.SyntaxKindConditional, syntax.SyntaxKindWhileLoop, syntax.SyntaxKindForLoop, syntax.SyntaxKindModuleImport,
		syntax.SyntaxKindModuleInclude, syntax.SyntaxKindLoopBreak, syntax.SyntaxKindLoopContinue, syntax.SyntaxKindFuncReturn,
	} {
		hashExpr[k] = true
	}
	set := func(class string, kinds ...syntax.SyntaxKind) {
		for _, k := range kinds {
			staticClass[k] = class
		}
	}
	set("typ-comment", syntax.SyntaxKindShebang, syntax.SyntaxKindLineComment, syntax.SyntaxKindBlockComment)
	set("typ-escape", syntax.SyntaxKindLinebreak, syntax.SyntaxKindEscape, syntax.SyntaxKindShorthand, syntax.SyntaxKindMathShorthand)
	set("typ-strong", syntax.SyntaxKindStrong)
	set("typ-emph", syntax.SyntaxKindEmph)
	set("typ-raw", syntax.SyntaxKindRaw)
	set("typ-link", syntax.SyntaxKindLink)
	set("typ-label", syntax.SyntaxKindLabel)
	set("typ-ref", syntax.SyntaxKindRef)
	set("typ-heading", syntax.SyntaxKindHeading)
	set("typ-marker", syntax.SyntaxKindListMarker, syntax.SyntaxKindEnumMarker, syntax.SyntaxKindTermMarker)
	set("typ-math-delim", syntax.SyntaxKindDollar)
	set("typ-math-op", syntax.SyntaxKindMathAlignPoint, syntax.SyntaxKindHat, syntax.SyntaxKindPrime, syntax.SyntaxKindRoot)
	set("typ-punct", syntax.SyntaxKindLeftBrace, syntax.SyntaxKindRightBrace, syntax.SyntaxKindLeftBracket, syntax.SyntaxKindRightBracket,
		syntax.SyntaxKindLeftParen, syntax.SyntaxKindRightParen, syntax.SyntaxKindComma, syntax.SyntaxKindSemicolon, syntax.SyntaxKindColon,
		syntax.SyntaxKindDot)
	set("typ-op", syntax.SyntaxKindPlus, syntax.SyntaxKindMinus, syntax.SyntaxKindEqEq, syntax.SyntaxKindExclEq,
		syntax.SyntaxKindLt, syntax.SyntaxKindLtEq, syntax.SyntaxKindGt, syntax.SyntaxKindGtEq, syntax.SyntaxKindPlusEq, syntax.SyntaxKindHyphEq,
		syntax.SyntaxKindStarEq, syntax.SyntaxKindSlashEq, syntax.SyntaxKindDots, syntax.SyntaxKindArrow)
	set("typ-key", syntax.SyntaxKindNot, syntax.SyntaxKindAnd, syntax.SyntaxKindOr, syntax.SyntaxKindNone, syntax.SyntaxKindAuto,
		syntax.SyntaxKindLet, syntax.SyntaxKindSet, syntax.SyntaxKindShow, syntax.SyntaxKindContext, syntax.SyntaxKindIf, syntax.SyntaxKindElse,
		syntax.SyntaxKindFor, syntax.SyntaxKindIn, syntax.SyntaxKindWhile, syntax.SyntaxKindBreak, syntax.SyntaxKindContinue,
		syntax.SyntaxKindReturn, syntax.SyntaxKindImport, syntax.SyntaxKindInclude, syntax.SyntaxKindAs, syntax.SyntaxKindBool)
	set("typ-num", syntax.SyntaxKindInt, syntax.SyntaxKindFloat, syntax.SyntaxKindNumeric)
	set("typ-str", syntax.SyntaxKindStr)
}

func (t *navTree) parentKind(i int) (syntax.SyntaxKind, bool) {
	if p := t.fl[i].parent; p >= 0 {
		return t.fl[p].kind, true
	}
	return 0, false
}

func (t *navTree) under(i int, k syntax.SyntaxKind) bool {
	pk, ok := t.parentKind(i)
	return ok && pk == k
}

// class is the class of node i, empty for none.
func (t *navTree) class(i int) string {
	f := t.fl[i]
	switch f.kind {
	case syntax.SyntaxKindMarkup:
		if s := t.sibling(i, 1); t.under(i, syntax.SyntaxKindTermItem) && s >= 0 && t.fl[s].kind == syntax.SyntaxKindColon {
			return "typ-term"
		}
	case syntax.SyntaxKindStar:
		if !t.under(i, syntax.SyntaxKindStrong) {
			return "typ-op"
		}
	case syntax.SyntaxKindUnderscore:
		if t.under(i, syntax.SyntaxKindMathAttach) {
			return "typ-math-op"
		}
	case syntax.SyntaxKindSlash:
		if t.under(i, syntax.SyntaxKindMathFrac) {
			return "typ-math-op"
		}
		return "typ-op"
	case syntax.SyntaxKindEq:
		if !t.under(i, syntax.SyntaxKindHeading) {
			return "typ-op"
		}
	case syntax.SyntaxKindIdent, syntax.SyntaxKindMathIdent:
		return t.identClass(i)
	case syntax.SyntaxKindHash:
		if s := t.sibling(i, 1); s >= 0 && hashExpr[t.fl[s].kind] {
			if j := t.firstToken(s); j >= 0 {
				return t.class(j)
			}
		}
	default:
		return staticClass[f.kind]
	}
	return ""
}

func (t *navTree) identClass(i int) string {
	next, prev := t.nextToken(i), t.prevToken(i)
	if next >= 0 && t.fl[next].start == t.fl[i].end {
		// Opens an argument or parameter list, or a content block argument.
		switch {
		case t.fl[next].kind == syntax.SyntaxKindLeftParen && (t.under(next, syntax.SyntaxKindArgs) || t.under(next, syntax.SyntaxKindParams)),
			t.fl[next].kind == syntax.SyntaxKindLeftBracket && t.under(next, syntax.SyntaxKindContentBlock):
			return "typ-func"
		}
	}
	if t.fl[i].kind == syntax.SyntaxKindMathIdent {
		return "typ-pol"
	}
	whole := i // with the fields around it
	for t.under(whole, syntax.SyntaxKindFieldAccess) {
		whole = t.fl[whole].parent
	}
	if t.under(whole, syntax.SyntaxKindShowRule) {
		if next >= 0 && t.fl[next].kind == syntax.SyntaxKindColon || prev >= 0 && t.fl[prev].kind == syntax.SyntaxKindColon {
			return "typ-func"
		}
	}
	if p := t.prevToken(whole); p >= 0 && t.fl[p].kind == syntax.SyntaxKindHash {
		return "typ-pol"
	}
	if prev >= 0 && t.fl[prev].kind == syntax.SyntaxKindDot {
		if pp := t.prevToken(prev); pp >= 0 && (t.fl[pp].kind == syntax.SyntaxKindIdent || t.fl[pp].kind == syntax.SyntaxKindMathIdent) {
			return t.identClass(pp)
		}
	}
	return ""
}

// expectHTML renders the reference highlighting.
func (t *navTree) expectHTML(c *Case) string {
	var b strings.Builder
	b.WriteString("<code>")
	var rec func(i int)
	rec = func(i int) {
		class := t.class(i)
		if class != "" {
			b.WriteString(`<span class="` + class + `">`)
			c.Cover(class)
		}
		if text, ok := leafText(t.fl[i].n); ok {
			b.WriteString(strings.NewReplacer("<", "&lt;", ">", "&gt;", "&", "&amp;", "'", "&#39;", `"`, "&quot;").Replace(text))
		}
		for _, j := range t.kids[i] {
			rec(j)
		}
		if class != "" {
			b.WriteString("</span>")
		}
	}
	rec(0)
	b.WriteString("</code>")
	return b.String()
}

// stripTags removes tags and checks their nesting.
func stripTags(s string) (string, string) {
	var b strings.Builder
	depth := 0
	for len(s) > 0 {
		if s[0] != '<' {
			k := strings.IndexByte(s, '<')
			if k < 0 {
				k = len(s)
			}
			b.WriteString(s[:k])
			s = s[k:]
			continue
		}
		k := strings.IndexByte(s, '>')
		if k < 0 {
			return "", "unclosed tag"
		}
		tag := s[:k+1]
		s = s[k+1:]
		if strings.HasPrefix(tag, "</") {
			depth--
		} else {
			depth++
		}
		if depth < 0 || (depth == 0 && s != "") {
			return "", "closing tag without opening tag"
		}
	}
	if depth != 0 {
		return "", "tag left open"
	}
	return html.UnescapeString(strings.ReplaceAll(b.String(), "\x00", "\uE000NUL")), ""
}

func highCase(c *Case, root *syntax.SyntaxNode, text string) {
	got := syntax.VerifHighlight(root)
	plain, bad := stripTags(got)
	c.Eval(2)
	if bad != "" {
		c.Fail("%s in the HTML %q", bad, got)
	}
	if want := strings.ReplaceAll(text, "\x00", "\uE000NUL"); plain != want {
		c.Fail("the HTML shows the text %q, the source is %q", plain, want)
	}
	t := newNavTree(root)
	want := t.expectHTML(c)
	if got != want {
		k := 0
		for k < min(len(got), len(want)) && got[k] == want[k] {
			k++
		}
		c.Fail("the HTML differs from byte %d on:\n got %q\nwant %q\n%s", k, got, want, pretty(root))
	}
	tagsCase(c, t)
	if again := syntax.VerifHighlight(root); again != got {
		c.Fail("highlighting again gives %q, first %q", again, got)
	}
	if len(t.fl) > 3 {
		c.Distinct(shape(root))
	}
	if len(text) > 10 && len(text) < 100 {
		c.Sample(fmt.Sprintf("%q", text))
	}
}

// tagsShim gives the class and the editor scope of every node in preorder, nil
// when the tree under test has no such operations.
var tagsShim func(*syntax.SyntaxNode) [][2]string

// scopeOf is the TextMate scope that goes with a class.
var scopeOf = map[string]string{
	"typ-comment": "comment.typst", "typ-punct": "punctuation.typst", "typ-escape": "constant.character.escape.typst",
	"typ-strong": "markup.bold.typst", "typ-emph": "markup.italic.typst", "typ-link": "markup.underline.link.typst",
	"typ-raw": "markup.raw.typst", "typ-math-delim": "punctuation.definition.math.typst", "typ-math-op": "keyword.operator.math.typst",
	"typ-heading": "markup.heading.typst", "typ-marker": "punctuation.definition.list.typst", "typ-term": "markup.list.term.typst",
	"typ-label": "entity.name.label.typst", "typ-ref": "markup.other.reference.typst", "typ-key": "keyword.typst",
	"typ-op": "keyword.operator.typst", "typ-num": "constant.numeric.typst", "typ-str": "string.quoted.double.typst",
	"typ-func": "entity.name.function.typst", "typ-pol": "meta.interpolation.typst", "typ-error": "invalid.typst",
}

// tagsCase checks the tag of every node, errors included: they are tagged but
// not marked in the HTML.
func tagsCase(c *Case, t *navTree) {
	if tagsShim == nil {
		return
	}
	got := tagsShim(t.fl[0].n)
	c.Eval(1)
	if len(got) != len(t.fl) {
		c.Fail("%d nodes have been highlighted of %d", len(got), len(t.fl))
		return
	}
	for i, f := range t.fl {
		class := t.class(i)
		if f.kind == syntax.SyntaxKindError {
			class = "typ-error"
		}
		if want := [2]string{class, scopeOf[class]}; got[i] != want {
			c.Fail("node %d (%v, %d..%d) has the class and scope %q, want %q", i, f.kind, f.start, f.end, got[i], want)
			return
		}
		if class != "" {
			c.Cover("scope " + scopeOf[class])
		}
	}
}

// wideText has nodes with very many children.
func wideText(c *Case) string {
	around := [][2]string{{"", ""}, {"#[", "]"}, {"#{", "}"}, {"$", "$"}, {"#f(", ")"}, {"- a", ""}}[c.IntN(6)]
	pieces := []string{"a ", "*b* ", "\n", "#x ", "[c] ", "`r` ", "~", "\n\n"}
	switch around[0] {
	case "#{":
		pieces = []string{"a;", "b\n", "[c] ", "f(x);", "\n", "/**/"}
	case "$":
		pieces = []string{"a ", "+ ", "x_1 ", "pi ", "(b) ", "#y "}
	case "#f(":
		pieces = []string{"a,", "b: 1,", " ..c,", "\n", "[d], "}
	}
	return around[0] + pick(c, pieces, 100+c.IntN(500)) + around[1]
}

// identSoup is dense in identifiers, dots, hashes, show rules and calls.
func identSoup(c *Case) string {
	toks := []string{"#", "a", "b", ".", ".", "(", ")", "[", "]", "show", " ", ":", "let", "=", "=>", "set", ",", "x.y", "#f(", "#show ", ": ", "1", "\"s\"", "{", "}", "*", "/ t", "\n", "it", "..", "//c\n", "/*c*/", "import \"m\": ", "for", "in", "&", "<", ">", "'", "= ", "_"}
	var b strings.Builder
	for i, n := 0, 1+c.IntN(14); i < n; i++ {
		b.WriteString(toks[c.IntN(len(toks))])
	}
	return b.String()
}

func init() {
	readShim = func(src *syntax.Source) string {
		var b strings.Builder
		for _, e := range syntax.VerifErrors(src.Root) {
			fmt.Fprint(&b, e.Message, e.Hints, e.Span.Number())
		}
		return b.String() + syntax.VerifHighlight(src.Root)
	}
	nav := func(name string, q, t int, text func(c *Case) string) Group {
		return Group{Name: name, Quick: q, Thorough: t, Run: func(c *Case) {
			c.Input = text(c)
			if c.IntN(3) == 0 {
				navCase(c, parseChecked(c, c.Input), nil)
				return
			}
			s := syntax.NewDetachedSource(c.Input)
			navCase(c, s.Root, s)
		}}
	}
	register(&Prop{
		ID:   "P19",
		Rule: "a navigated tree counts by its shape",
		Groups: []Group{
			nav("documents", 4000, 150000, func(c *Case) string { return genDocument(c, 60) }),
			nav("soup", 6000, 250000, func(c *Case) string { return anyText(c, 30) }),
			nav("identifiers", 6000, 200000, identSoup),
			nav("structure", 3000, 100000, blockText),
			nav("wide", 20, 1000, wideText),
			nav("large", 12, 400, func(c *Case) string { return genDocument(c, 1500) }),
			{Name: "edited", Quick: 3000, Thorough: 100000, Run: func(c *Case) {
				h := newHistory(c, anyText(c, 40))
				for i := 0; i < 3; i++ {
					a := boundary(c, h.text)
					b := a + boundary(c, h.text[a:])
					if b-a > 8 {
						b = a
					}
					h.edit(a, b, frag(c))
				}
				navCase(c, h.s.Root, h.s)
			}},
		},
	})
	high := func(name string, q, t int, text func(c *Case) string) Group {
		return Group{Name: name, Quick: q, Thorough: t, Run: func(c *Case) {
			c.Input = text(c)
			highCase(c, parseChecked(c, c.Input), c.Input)
		}}
	}
	register(&Prop{
		ID:   "P20",
		Rule: "a highlighted text counts by the shape of its tree",
		Groups: []Group{
			high("documents", 12000, 400000, func(c *Case) string { return genDocument(c, 60) }),
			high("soup", 12000, 400000, func(c *Case) string { return anyText(c, 30) }),
			high("identifiers", 30000, 900000, identSoup),
			high("escapes", 6000, 200000, func(c *Case) string { return charSoup(c, 20) }),
			high("large", 60, 1500, func(c *Case) string { return genDocument(c, 1500) }),
		},
	})
}
