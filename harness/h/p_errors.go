package main

import (
	"fmt"
	"strings"

	"github.com/mewmew/typast/typst/syntax"
)

// A defect is a fragment with one mistake. The marks « and » enclose the text
// that the error covers (possibly empty); every other part of it is fine.
type defect struct {
	src string
	msg string
}

var codeDefects = []defect{
	{"«5xyz»", "invalid number suffix"},
	{"1 + «3pxt»", "invalid number suffix"},
	{"«0b12»", "invalid binary number"},
	{"«0o8»", "invalid octal number"},
	{"«0xg»", "invalid hexadecimal number"},
	{"«1e»", "invalid floating point number"},
	{"«2.5e+»", "invalid floating point number"},
	{"«?»", "the character `?` is not valid in code"},
	{"«!»", "the character `!` is not valid in code"},
	{"«&»", "the character `&` is not valid in code"},
	{"«€»", "the character `€` is not valid in code"},
	{"«*/»", "unexpected end of block comment"},
	{"1 +«»", "expected expression"},
	{"x = «»", "expected expression"},
	{"-«»", "expected expression"},
	{"not«»", "expected expression"},
	{"a and«»", "expected expression"},
	{"a not in«»", "expected expression"},
	{"let x =«»", "expected expression"},
	{"let«»", "expected pattern"},
	{"let «1» = 2", "expected pattern"},
	{"let «if» = 2", "expected pattern, found keyword `if`"},
	{"let «\"s\"» = 2", "expected pattern"},
	{"let f(a, «a») = 1", "duplicate parameter: a"},
	{"let f(a, «a»: 1) = 1", "duplicate parameter: a"},
	{"let f(..a, «..b») = 1", "only one argument sink is allowed"},
	{"let f(«1») = 1", "expected"},
	{"(a, «a») => 1", "duplicate parameter: a"},
	{"let (a, «a») = x", "duplicate binding: a"},
	{"let (a, k: «a») = x", "duplicate binding: a"},
	{"let (a, (b, «a»)) = x", "duplicate binding: a"},
	{"let (..a, «..b») = x", "only one destructuring sink is allowed"},
	{"let (a, «1») = x", "expected"},
	{"(1 «»2)", "expected comma"},
	{"(a «»b, c)", "expected comma"},
	{"f(a «»b)", "expected comma"},
	{"f(«,»)", "unexpected comma"},
	{"f(a,«,»b)", "unexpected comma"},
	{"(«*»)", "unexpected"},
	{"f(a: «»)", "expected expression"},
	{"f(..«»)", "expected expression"},
	{"f(a: 1, «a»: 2)", "duplicate argument: a"},
	{"(a: 1, «a»: 2)", "duplicate key: a"},
	{"(\"k\": 1, «\"k\"»: 2)", "duplicate key: k"},
	{"(\"\": 1, «\"\"»: 2)", "duplicate key: "},
	{"(\"\": 1, k: 2, \" \": 3, «\"\"»: 2)", "duplicate key: "},
	{"(k: 1, «\"k\"»: 2)", "duplicate key: k"},
	{"(a: 1, «2»)", "expected named or keyed pair"},
	{"(1, «a: 2»)", "expected expression, found named pair"},
	{"(1, «\"a\": 2»)", "expected expression, found keyed pair"},
	{"if «»", "expected expression"},
	{"if a«»", "expected block"},
	{"if a {} else«»", "expected block"},
	{"if a «»1", "expected block"},
	{"while a«»", "expected block"},
	{"while«»", "expected expression"},
	{"for «1» in x {}", "expected pattern"},
	{"for«»", "expected pattern"},
	{"for a «»{}", "expected keyword `in`"},
	{"for a in«»", "expected expression"},
	{"for a in b«»", "expected block"},
	{"for a«,» b in c {}", "unexpected comma"},
	{"set f«»", "expected argument list"},
	{"set«»", "expected identifier"},
	{"set «»1()", "expected identifier"},
	{"set f «»()", "expected argument list"},
	{"set f() if«»", "expected expression"},
	{"show«» a", "expected colon"},
	{"show a:«»", "expected expression"},
	{"show«»", "expected"},
	{"import«»", "expected expression"},
	{"import \"a\": b as«»", "expected identifier"},
	{"import \"a\": «1»", "unexpected integer"},
	{"import \"a\": b, «1», c", "unexpected integer"},
	{"import \"a\" as«»", "expected identifier"},
	{"import \"a\" as «»1", "expected identifier"},
	{"import \"a\": (b, c,«,»)", "unexpected comma"},
	{"import \"a\": b.«»", "expected identifier"},
	{"include«»", "expected expression"},
	{"context«»", "expected expression"},
	{"a.«»", "expected identifier"},
	{"a.b.«»\"c\"", "expected identifier"},
	{"a «»b", "expected semicolon or line break"},
	{"1 «»2", "expected semicolon or line break"},
	{"let x = 1 «»y", "expected semicolon or line break"},
	{"a «»<l>", "expected semicolon or line break"},
	{"«else»", "unexpected keyword `else`"},
	{"«in»", "unexpected keyword `in`"},
	{"«as»", "unexpected keyword `as`"},
	{"«,»", "unexpected comma"},
	{"«=» 1", "unexpected equals sign"},
	{"() =>«»", "expected expression"},
	{"x =>«»", "expected expression"},
	{"f(«<l» )", "unclosed label"},
	{"[«*»a]", "unclosed delimiter"},
	{"[a «_»b]", "unclosed delimiter"},
	{"[«\\u{110000}»]", "invalid Unicode codepoint"},
	{"[«https://a.b/(» ]", "unbalanced brackets"},
}

var markupDefects = []defect{
	{"«]»", "unexpected closing bracket"},
	{"[a] «]»", "unexpected closing bracket"},
	{"«*/»", "unexpected end of block comment"},
	{"«\\u{110000}»", "invalid Unicode codepoint"},
	{"«\\u{d800}»", "invalid Unicode codepoint"},
	{"«\\u{x1}»", "invalid Unicode codepoint"},
	{"«\\u{}»", "invalid Unicode codepoint"},
	{"«\\u{41» x", "unclosed Unicode escape sequence"},
	{"«<abc» x", "unclosed label"},
	{"«https://a.b/(» x", "unbalanced brackets"},
	{"«http://a.b/[c» x", "unbalanced brackets"},
	{"«*»bold", "unclosed delimiter"},
	{"«_»emph", "unclosed delimiter"},
	{"#«» x", "expected expression"},
	{"#«?» x", "not valid in code"},
	{"#«1x» y", "invalid number suffix"},
	{"#let«»\n", "expected pattern"},
	{"#let x =«»\n", "expected expression"},
	{"#let x = 1 «»y\n", "expected semicolon or line break"},
	{"#if a«»\n", "expected block"},
	{"#f(a «»b) x", "expected comma"},
	{"#(a, «a: 1») x", "expected expression, found named pair"},
	{"#set f«»\n", "expected argument list"},
	{"#show«» a\n", "expected colon"},
	{"#import \"a\": «1»\n", "unexpected integer"},
	{"#{a «»b} x", "expected semicolon or line break"},
	{"#f[«*»a] x", "unclosed delimiter"},
	{"#let f(a, «a») = 1\n", "duplicate parameter: a"},
}

// cut removes the marks and returns the range between them.
func (d defect) cut() (src string, a, b int) {
	a = strings.Index(d.src, "«")
	rest := d.src[a+len("«"):]
	n := strings.Index(rest, "»")
	return d.src[:a] + rest[:n] + rest[n+len("»"):], a, a + n
}

type errAt struct {
	a, b int
	msg  string
}

func errorsIn(root *syntax.SyntaxNode) []errAt {
	var out []errAt
	for _, f := range flatten(root) {
		if e, ok := f.n.Repr.(*syntax.ErrorNode); ok {
			out = append(out, errAt{f.start, f.end, e.Error.Message})
		}
	}
	return out
}

func (e errAt) String() string { return fmt.Sprintf("[%d,%d) %q", e.a, e.b, e.msg) }

// checkDefect places a defect between a prefix and a suffix and expects
// exactly its error.
func checkDefect(c *Case, d defect, pre, post string) {
	src, a, b := d.cut()
	text := pre + src + post
	a, b = a+len(pre), b+len(pre)
	c.Input = text
	root := syntax.Parse(text)
	errs := errorsIn(root)
	c.Eval(1)
	found := false
	for _, e := range errs {
		// Errors that follow from the mistake touch it.
		if e.a < len(pre)-1 || e.b > len(pre)+len(src)+1 {
			c.Fail("the only mistake is at [%d,%d) (%s), but there is an error at %v", a, b, d.msg, e)
		}
		// An error about something missing has no extent and sits between the
		// token before it and the token behind it.
		here := e.a == a && e.b == b
		if a == b && e.a == e.b {
			here = strings.TrimSpace(text[min(e.a, a):max(e.a, a)]) == ""
		}
		if here && strings.Contains(e.msg, d.msg) {
			found = true
		}
	}
	if !found {
		c.Fail("the mistake at [%d,%d) (%s) is not reported there; reported are %v", a, b, d.msg, errs)
	}
	c.Cover("error " + d.msg)
	c.Distinct(d.src, pre, post)
	if len(text) < 60 {
		c.Sample(fmt.Sprintf("%q", text))
	}
}

// delimited generates code that is enclosed in delimiters and returns its text
// and the offset behind the opening delimiter.
func delimited(c *Case) (string, int) {
	g := newGen(c, 30)
	switch c.IntN(7) {
	case 0:
		return g.codeBlock(3).src(), 1
	case 1:
		return g.contentBlock(3).src(), 1
	case 2:
		return g.array(3).src(), 1
	case 3:
		return g.dict(3).src(), 1
	case 4:
		return g.paren(g.expr(nlAll, 3)).n.src(), 1
	case 5:
		a := in(syntax.SyntaxKindArgs, g.seq(syntax.SyntaxKindArgs, true, o(lf(syntax.SyntaxKindLeftParen, "(")), o(g.expr(nlAll, 3).n), o(lf(syntax.SyntaxKindComma, ",")), o(lf(syntax.SyntaxKindRightParen, ")"))))
		return "fn" + a.src(), 3
	default:
		return "fn" + g.contentBlock(3).src(), 3
	}
}

func init() {
	codePre := []string{"#{", "#{ ", "#{\n  let q = 1\n  ", "a\n\n#{\n", "#[#{ ", "#f({ ", "- x\n  #{\n  q();", "#let v = {"}
	codePost := []string{"}", " }", "\n  q()\n}", "\n}\n\ntext", " }]", " })", "; q }\n", "}\n"}
	mkPre := []string{"", "word ", "para\n\n", "#[ ", "- item ", "*s* _e_ ", "#{1} "}
	mkPost := []string{"", "\n\nword", "\n\n#{1}", "\n ]", "\n\n- item", "\n\n= Head", "\n\n*s*"}
	register(&Prop{
		ID:   "P08",
		Rule: "a mistake counts by its fragment and surroundings; a cut or valid text by the shape of its tree",
		Groups: []Group{
			{Name: "code mistakes", Quick: len(codeDefects), Thorough: len(codeDefects), Run: func(c *Case) {
				for i := range codePre {
					checkDefect(c, codeDefects[c.Index], codePre[i], codePost[i])
				}
			}},
			{Name: "markup mistakes", Quick: len(markupDefects), Thorough: len(markupDefects), Run: func(c *Case) {
				for i := range mkPre {
					if strings.Contains(mkPost[i], "]") && strings.Contains(markupDefects[c.Index].msg, "closing bracket") {
						continue
					}
					checkDefect(c, markupDefects[c.Index], mkPre[i], mkPost[i])
				}
			}},
			{Name: "mistakes in documents", Quick: 15000, Thorough: 500000, Run: func(c *Case) {
				// One mistake between well-formed statements or paragraphs.
				if c.IntN(2) == 0 {
					g := newGen(c, 20)
					i := c.IntN(len(codePre))
					checkDefect(c, codeDefects[c.IntN(len(codeDefects))], genDocument(c, 30)+"\n\n"+codePre[i]+"let x = "+g.paren(g.expr(nlAll, 2)).n.src()+"\n",
						"\nlet y = "+g.paren(g.expr(nlAll, 2)).n.src()+codePost[i]+"\n\n"+genDocument(c, 30))
				} else {
					checkDefect(c, markupDefects[c.IntN(len(markupDefects))], genDocument(c, 30)+"\n\n", "\n\n"+genDocument(c, 30))
				}
			}},
			{Name: "valid", Quick: 20000, Thorough: 600000, Run: func(c *Case) {
				c.Input = genDocument(c, 60)
				root := syntax.Parse(c.Input)
				c.Eval(1)
				if errs := errorsIn(root); len(errs) > 0 {
					c.Fail("a well-formed text has errors %v", errs)
				}
				c.Distinct(shape(root))
			}},
			{Name: "cut off", Quick: 20000, Thorough: 600000, Run: func(c *Case) {
				pre := ""
				if c.IntN(2) == 0 {
					pre = genDocument(c, 20) + "\n\n"
				}
				code, open := delimited(c)
				at := open + boundary(c, code[open:])
				if at == len(code) {
					at = open
				}
				c.Input = pre + "#" + code[:at]
				root := syntax.Parse(c.Input)
				c.Eval(1)
				found := false
				for _, e := range errorsIn(root) {
					if e.b >= len(pre) {
						found = true
					}
				}
				if !found {
					c.Fail("the text ends inside of a delimited construct, but no error is reported: %s", pretty(root))
				}
				c.Distinct(shape(root))
				if len(c.Input) < 60 {
					c.Sample(fmt.Sprintf("%q", c.Input))
				}
			}},
			{Name: "cut off at the end", Quick: 4000, Thorough: 100000, Run: func(c *Case) {
				ends := []struct{ open, rest, msg string }{
					{"#\"", "", "unclosed string"}, {"#f(\"", " a", "unclosed string"}, {"`", "", "unclosed raw text"},
					{"```", "rust\n", "unclosed raw text"}, {"#```", "a `` b", "unclosed raw text"}, {"````", "a ``` b", "unclosed raw text"},
				}
				e := ends[c.Index%len(ends)]
				pre := genDocument(c, 20) + "\n\n"
				body := e.rest
				for i, n := 0, c.IntN(4); i < n; i++ {
					body += []string{"word", " ", "\n", "é", "//x", "\\\\", "#", "]", ")"}[c.IntN(9)]
				}
				c.Input = pre + e.open + body
				errs := errorsIn(syntax.Parse(c.Input))
				c.Eval(1)
				quote := strings.LastIndexAny(e.open, "`\"")
				for quote > 0 && e.open[quote-1] == '`' {
					quote--
				}
				at := len(pre) + quote
				ok := false
				for _, g := range errs {
					ok = ok || (g.a == at && g.b == len(c.Input) && strings.Contains(g.msg, e.msg))
				}
				if !ok {
					c.Fail("the text from byte %d on is an %s; reported are %v", at, e.msg, errs)
				}
				c.Distinct(e.open, body)
			}},
		},
	})
}
