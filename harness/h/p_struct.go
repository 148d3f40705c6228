package main

import (
	"fmt"
	"strings"

	"github.com/mewmew/typast/typst/syntax"
)

// compareTree checks that the parser gives a well-formed text the tree that
// the generator built for it.
func compareTree(c *Case, g *gen, want *gn, got *syntax.SyntaxNode) {
	c.Eval(1)
	for k, n := range g.used {
		c.CoverN(k, n)
	}
	if want.sexp() != sexp(got) {
		w, h := firstDiff(want, got)
		c.Fail("the tree is not the one the language gives this text\n at:       %s\n expected: %s\n parsed:   %s", diffPath(want, got), w, h)
	}
	var b strings.Builder
	want.shape(&b)
	c.Distinct(b.String())
	if len(c.Input) < 70 {
		c.Sample(fmt.Sprintf("%q", c.Input))
	}
}

func leafOf(n *syntax.SyntaxNode) bool { _, ok := leafText(n); return ok }

func sameNode(w *gn, h *syntax.SyntaxNode) bool { return w.sexp() == sexp(h) }

func diffPath(w *gn, h *syntax.SyntaxNode) string {
	path := w.kind.Name()
	for {
		hk := children(h)
		if w.leaf || leafOf(h) || w.kind != nodeKind(h) || len(hk) != len(w.kids) {
			return path
		}
		next := -1
		for i := range hk {
			if !sameNode(w.kids[i], hk[i]) {
				if next >= 0 {
					return path
				}
				next = i
			}
		}
		if next < 0 {
			return path
		}
		w, h = w.kids[next], hk[next]
		path += " > " + w.kind.Name()
	}
}

func firstDiff(w *gn, h *syntax.SyntaxNode) (string, string) {
	for {
		hk := children(h)
		if w.leaf || leafOf(h) || w.kind != nodeKind(h) || len(hk) != len(w.kids) {
			break
		}
		next, more := -1, false
		for i := range hk {
			if !sameNode(w.kids[i], hk[i]) {
				more = more || next >= 0
				next = i
			}
		}
		if next < 0 || more {
			break
		}
		w, h = w.kids[next], hk[next]
	}
	if hk := children(h); !w.leaf && !leafOf(h) && w.kind == nodeKind(h) {
		// Show the children from the first difference on.
		i := 0
		for i < len(hk) && i < len(w.kids) && sameNode(w.kids[i], hk[i]) {
			i++
		}
		var a, b []string
		for j := i; j < len(w.kids) && j < i+5; j++ {
			a = append(a, w.kids[j].pretty())
		}
		for j := i; j < len(hk) && j < i+5; j++ {
			b = append(b, pretty(hk[j]))
		}
		return fmt.Sprintf("child %d: %s", i, strings.Join(a, " ")), fmt.Sprintf("child %d: %s", i, strings.Join(b, " "))
	}
	return w.pretty(), pretty(h)
}

// embedRoot puts one code expression into a document.
func embedRoot(e *gn) *gn {
	return in(syntax.SyntaxKindMarkup, lf(syntax.SyntaxKindHash, "#"), e)
}

// exprIn places a generated expression where it is read as code: in braces, in
// parentheses, as the value of a binding or as a whole code text.
func exprIn(c *Case, size, depth int, mk func(g *gen, nl nlMode, depth int) ex) {
	g := newGen(c, size)
	switch c.IntN(5) {
	case 0:
		e := mk(g, nlAll, depth)
		root := embedRoot(g.paren(e).n)
		c.Input = root.src()
		compareTree(c, g, root, syntax.Parse(c.Input))
	case 1, 2:
		e := mk(g, nlCtx, depth)
		blk := in(syntax.SyntaxKindCodeBlock, lf(syntax.SyntaxKindLeftBrace, "{"))
		blk.kids = append(blk.kids, g.trivia(true, false)...)
		blk.kids = append(blk.kids, in(syntax.SyntaxKindCode, e.n))
		blk.kids = append(blk.kids, g.trivia(true, false)...)
		blk.kids = append(blk.kids, lf(syntax.SyntaxKindRightBrace, "}"))
		root := embedRoot(blk)
		c.Input = root.src()
		compareTree(c, g, root, syntax.Parse(c.Input))
	case 3:
		e := mk(g, nlStop, depth)
		let := in(syntax.SyntaxKindLetBinding, lf(syntax.SyntaxKindLet, "let"), lf(syntax.SyntaxKindSpace, " "), lf(syntax.SyntaxKindIdent, "v"),
			lf(syntax.SyntaxKindSpace, " "), lf(syntax.SyntaxKindEq, "="), lf(syntax.SyntaxKindSpace, " "), e.n)
		root := embedRoot(let)
		c.Input = root.src()
		compareTree(c, g, root, syntax.Parse(c.Input))
	default:
		e := mk(g, nlAll, depth)
		if openImport(e.n) {
			e = g.paren(e)
		}
		root := embedRoot(in(syntax.SyntaxKindFuncCall, lf(syntax.SyntaxKindIdent, "f"),
			g.seq(syntax.SyntaxKindArgs, true, o(lf(syntax.SyntaxKindLeftParen, "(")), o(e.n), o(lf(syntax.SyntaxKindComma, ",")), o(lf(syntax.SyntaxKindRightParen, ")")))))
		c.Input = root.src()
		compareTree(c, g, root, syntax.Parse(c.Input))
	}
}

func init() {
	ops := func(g *gen, nl nlMode, depth int) ex {
		if g.pct(80) {
			return g.binary(nl, depth)
		}
		return g.unary(nl, depth)
	}
	primary := func(g *gen, nl nlMode, depth int) ex { return g.primary(nl, depth) }
	any := func(g *gen, nl nlMode, depth int) ex { return g.expr(nl, depth) }
	stmt := func(g *gen, nl nlMode, depth int) ex { return g.keywordExpr(nl, depth) }

	register(&Prop{
		ID:   "P04",
		Rule: "an expression counts by the shape of its expected tree",
		Groups: []Group{
			{Name: "operators small", Quick: 30000, Thorough: 1000000, Run: func(c *Case) { exprIn(c, 8, 2, ops) }},
			{Name: "operators", Quick: 20000, Thorough: 600000, Run: func(c *Case) { exprIn(c, 30, 5, ops) }},
			{Name: "primary", Quick: 20000, Thorough: 600000, Run: func(c *Case) { exprIn(c, 12, 3, primary) }},
			{Name: "any", Quick: 15000, Thorough: 500000, Run: func(c *Case) { exprIn(c, 40, 5, any) }},
			{Name: "large", Quick: 300, Thorough: 10000, Run: func(c *Case) { exprIn(c, 800, 14, any) }},
		},
	})
	register(&Prop{
		ID:   "P05",
		Rule: "a statement counts by the shape of its expected tree",
		Groups: []Group{
			{Name: "statement small", Quick: 30000, Thorough: 1000000, Run: func(c *Case) { exprIn(c, 6, 2, stmt) }},
			{Name: "statement", Quick: 20000, Thorough: 600000, Run: func(c *Case) { exprIn(c, 30, 4, stmt) }},
			{Name: "code block", Quick: 20000, Thorough: 600000, Run: func(c *Case) {
				g := newGen(c, 30)
				root := embedRoot(g.codeBlock(4))
				c.Input = root.src()
				compareTree(c, g, root, syntax.Parse(c.Input))
			}},
			{Name: "embedded", Quick: 15000, Thorough: 500000, Run: func(c *Case) {
				g := newGen(c, 20)
				root := in(syntax.SyntaxKindMarkup, g.embed(3, true)...)
				root.kids = append(root.kids, lf(syntax.SyntaxKindSpace, "\n"), g.text())
				c.Input = root.src()
				compareTree(c, g, root, syntax.Parse(c.Input))
			}},
		},
	})
	register(&Prop{
		ID:   "P06",
		Rule: "a document counts by the shape of its expected tree",
		Groups: []Group{
			{Name: "inline", Quick: 25000, Thorough: 800000, Run: func(c *Case) {
				g := newGen(c, 10)
				root := in(syntax.SyntaxKindMarkup, g.line(2)...)
				c.Input = root.src()
				compareTree(c, g, root, syntax.Parse(c.Input))
			}},
			{Name: "lists", Quick: 20000, Thorough: 600000, Run: func(c *Case) {
				g := newGen(c, 40)
				g.noComments = c.IntN(2) == 0
				root := in(syntax.SyntaxKindMarkup)
				for i, n := 0, 1+c.IntN(3); i < n; i++ {
					if i > 0 {
						root.kids = append(root.kids, g.newline(0))
					}
					root.kids = append(root.kids, g.item(0, 4))
				}
				c.Input = root.src()
				compareTree(c, g, root, syntax.Parse(c.Input))
			}},
			{Name: "documents", Quick: 15000, Thorough: 500000, Run: func(c *Case) {
				g := newGen(c, 40)
				root := g.document(3, 1+c.IntN(5))
				c.Input = root.src()
				compareTree(c, g, root, syntax.Parse(c.Input))
			}},
			{Name: "large", Quick: 200, Thorough: 6000, Run: func(c *Case) {
				g := newGen(c, 1200)
				root := g.document(4, 10+c.IntN(60))
				c.Input = root.src()
				compareTree(c, g, root, syntax.Parse(c.Input))
			}},
		},
	})
}
