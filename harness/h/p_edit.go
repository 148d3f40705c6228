package main

import (
	"fmt"
	"slices"
	"strings"
	"unicode/utf8"

	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/typst/syntax"
)

// history is a source file under edit together with its model: the text.
type history struct {
	c    *Case
	s    *syntax.Source
	text string
	log  strings.Builder
	n    int

	// The last edit, to take back.
	undoAt, undoLen int
	undoText        string
}

func newHistory(c *Case, text string) *history {
	h := &history{c: c, text: text}
	fmt.Fprintf(&h.log, "source %q", text)
	c.Input = h.log.String()
	h.s = syntax.NewDetachedSource(text)
	return h
}

// edit replaces text[a:b] through Source.Edit.
func (h *history) edit(a, b int, with string) ranges.Range {
	fmt.Fprintf(&h.log, "\nedit [%d,%d) -> %q", a, b, with)
	h.c.Input = h.log.String()
	h.n++
	h.undoAt, h.undoLen, h.undoText = a, len(with), h.text[a:b]
	h.text = h.text[:a] + with + h.text[b:]
	return h.s.Edit(ranges.NewRange(uint64(a), uint64(b)), with)
}

// replace swaps the whole text through Source.Replace.
func (h *history) replace(text string) ranges.Range {
	fmt.Fprintf(&h.log, "\nreplace %q", text)
	h.c.Input = h.log.String()
	h.n++
	h.undoAt, h.undoLen, h.undoText = 0, len(text), h.text
	h.text = text
	return h.s.Replace(text)
}

// frag is a fragment to insert.
func frag(c *Case) string {
	switch c.IntN(10) {
	case 0:
		return ""
	case 1:
		return genDocument(c, 30)
	case 2:
		return soup(c, 4)
	case 3:
		return charSoup(c, 5)
	default:
		return soupTokens[c.IntN(len(soupTokens))]
	}
}

// undo takes the last edit back.
func (h *history) undo() ranges.Range {
	return h.edit(h.undoAt, h.undoAt+h.undoLen, h.undoText)
}

// step makes one random edit.
func (h *history) step() ranges.Range {
	c := h.c
	if h.n > 0 && c.IntN(6) == 0 {
		return h.undo()
	}
	a := boundary(c, h.text)
	b := a
	switch c.IntN(6) {
	case 0, 1: // insertion
	case 2:
		b = boundary(c, h.text)
	default:
		for i, n := 0, c.IntN(6); i < n && b < len(h.text); i++ {
			_, w := utf8.DecodeRuneInString(h.text[b:])
			b += w
		}
	}
	if a > b {
		a, b = b, a
	}
	if c.IntN(8) == 0 {
		return h.replace(h.text[:a] + frag(c) + h.text[b:])
	}
	return h.edit(a, b, frag(c))
}

// checkEqualsFresh compares the edited source with one made from scratch.
func (h *history) checkEqualsFresh(r ranges.Range) {
	c := h.c
	c.Eval(1)
	if got := h.s.Text(); got != h.text {
		c.Fail("after the edit the text is %q, want %q", got, h.text)
	}
	if got := sourceText(h.s.Root); got != h.text {
		c.Fail("after the edit the tree spells %q, want %q", got, h.text)
	}
	fresh := syntax.Parse(h.text)
	if x, y := sexp(h.s.Root), sexp(fresh); x != y {
		c.Fail("the edited tree differs from a fresh parse of the same text\nedited: %s\nfresh:  %s", pretty(h.s.Root), pretty(fresh))
	}
	if r.Start > r.End || r.End > uint64(len(h.text)) {
		c.Fail("reparsed range [%d,%d) lies outside the text of %d bytes", r.Start, r.End, len(h.text))
	}
}

func coversEdit(c *Case, r ranges.Range, a, withLen int) {
	if r.Start > uint64(a) || r.End < uint64(a+withLen) {
		c.Fail("reparsed range [%d,%d) does not cover the changed range [%d,%d)", r.Start, r.End, a, a+withLen)
	}
}

// coversChanges checks that nothing but the reported range has changed: the
// nodes before and behind it are those of the old tree.
func coversChanges(c *Case, r ranges.Range, old []flat, root *syntax.SyntaxNode, oldLen, newLen int) {
	start, end := int(r.Start), int(r.End)
	oldEnd := end - newLen + oldLen
	if oldEnd < start {
		c.Fail("reparsed range [%d,%d) of the new text stands for [%d,%d) of the old text", start, end, start, oldEnd)
	}
	empty := start == end || start == oldEnd
	type key struct {
		kind       syntax.SyntaxKind
		start, end int
		leaf       bool
	}
	list := func(fl []flat, end, shift int) (before, behind []key) {
		for _, f := range fl {
			touch := f.start == f.end || empty
			switch k := (key{f.kind, f.start, f.end, f.leaf}); {
			case f.end < start || f.end == start && !touch:
				before = append(before, k)
			case f.start > end || f.start == end && !touch:
				behind = append(behind, key{f.kind, f.start + shift, f.end + shift, f.leaf})
			}
		}
		return
	}
	a1, b1 := list(old, oldEnd, newLen-oldLen)
	a2, b2 := list(flatten(root), end, 0)
	c.Eval(1)
	if !slices.Equal(a1, a2) || !slices.Equal(b1, b2) {
		c.Fail("the tree has changed outside of the reparsed range [%d,%d): before it %v, now %v; behind it %v, now %v", start, end, a1, a2, b1, b2)
	}
	if len(a1)+len(b1) > 0 {
		c.Cover("edits with nodes outside of the range")
	}
}

// lookAround makes a step between two lookups of one span: the second one
// must tell where the node is now, not where it was.
func lookAround(h *history, step func()) {
	c, s := h.c, h.s
	fl := flatten(s.Root)
	sp := nodeSpan(fl[c.IntN(len(fl))].n)
	if c.IntN(2) == 0 {
		s.Find(sp)
	} else {
		s.Range(sp)
	}
	step()
	r, ok := s.Range(sp)
	c.Eval(1)
	for _, f := range flatten(s.Root) {
		if nodeSpan(f.n) != sp {
			continue
		}
		if !ok || int(r.Start) != f.start || int(r.End) != f.end {
			c.Fail("after the edit the span of the %s node at [%d,%d) resolves to [%d,%d) (found: %v)", f.kind.Name(), f.start, f.end, r.Start, r.End, ok)
		}
		c.Cover("spans looked up around an edit and still there")
		return
	}
	if ok {
		c.Fail("after the edit the span of a node that is gone resolves to [%d,%d)", r.Start, r.End)
	}
	c.Cover("spans looked up around an edit and gone")
}

// checkSpans checks the numbering of a tree.
func checkSpans(c *Case, s *syntax.Source) {
	id := s.ID.Uint16()
	fl := flatten(s.Root)
	prev := uint64(0)
	seen := map[uint64]int{}
	for i, f := range fl {
		sp := nodeSpan(f.n)
		c.Eval(1)
		if sp.IsDetached() {
			c.Fail("%s node at byte %d has no span", f.kind.Name(), f.start)
		}
		fid, ok := sp.ID()
		if !ok || fid.Uint16() != id {
			c.Fail("span of the %s node at byte %d belongs to another file", f.kind.Name(), f.start)
		}
		n := sp.Number()
		if j, dup := seen[n]; dup {
			c.Fail("%s at byte %d and %s at byte %d have the same span", fl[j].kind.Name(), fl[j].start, f.kind.Name(), f.start)
		}
		seen[n] = i
		if i > 0 && n <= prev {
			c.Fail("span numbers are not in document order at the %s node at byte %d", f.kind.Name(), f.start)
		}
		prev = n
		if n < syntax.SpanFull.Start || n >= syntax.SpanFull.End {
			c.Fail("span number %d out of range", n)
		}
	}
	// Looking a span up gives exactly that node and its range.
	for i, f := range fl {
		// A lookup walks the tree, so big trees are sampled.
		if step := 1 + len(fl)/60; i%step != int(uint64(len(fl))*7%uint64(step)) {
			continue
		}
		sp := nodeSpan(f.n)
		r, ok := s.Range(sp)
		c.Eval(1)
		if !ok {
			c.Fail("the span of the %s node at byte %d is not found", f.kind.Name(), f.start)
		}
		if int(r.Start) != f.start || int(r.End) != f.end {
			c.Fail("the span of the %s node at [%d,%d) resolves to [%d,%d)", f.kind.Name(), f.start, f.end, r.Start, r.End)
		}
		if l, ok := s.Find(sp); !ok || l.Range() != r {
			c.Fail("find and range disagree for the %s node at byte %d", f.kind.Name(), f.start)
		}
	}
}

func init() {
	register(&Prop{
		ID:   "P09",
		Rule: "an edit counts by the shape of the tree before and after it",
		Groups: []Group{
			{Name: "documents", Quick: 9000, Thorough: 300000, Run: func(c *Case) { editHistory(c, genDocument(c, 100), 5) }},
			{Name: "soup", Quick: 14000, Thorough: 500000, Run: func(c *Case) { editHistory(c, anyText(c, 60), 5) }},
			{Name: "small", Quick: 30000, Thorough: 1000000, Run: func(c *Case) { editHistory(c, anyText(c, 20), 3) }},
			{Name: "long history", Quick: 150, Thorough: 4000, Run: func(c *Case) { editHistory(c, anyText(c, 60), 60) }},
			{Name: "large", Quick: 80, Thorough: 2000, Run: func(c *Case) { editHistory(c, genDocument(c, 4000), 8) }},
			{Name: "structure", Quick: 12000, Thorough: 300000, Run: func(c *Case) { editHistory(c, blockText(c), 4) }},
		},
	})
	props["P09"].Groups = append(props["P09"].Groups, Group{Name: "deep", Quick: 1500, Thorough: 40000, Run: func(c *Case) {
		h := newHistory(c, deepText(c))
		for i := 0; i < 12; i++ {
			h.checkEqualsFresh(deepStep(h))
			c.Distinct(shape(h.s.Root))
		}
		c.CoverN("edits in deep blocks", h.n)
	}})
	register(&Prop{
		ID:   "P10",
		Rule: "a numbered tree counts by its shape",
		Groups: []Group{
			{Name: "fresh", Quick: 8000, Thorough: 250000, Run: func(c *Case) {
				src := anyText(c, 120)
				c.Input = src
				s := syntax.NewDetachedSource(src)
				checkSpans(c, s)
				c.Distinct(shape(s.Root))
				if len(src) < 100 {
					c.Sample(fmt.Sprintf("%q", src))
				}
			}},
			{Name: "edited", Quick: 8000, Thorough: 250000, Run: func(c *Case) {
				h := newHistory(c, anyText(c, 60))
				for i := 0; i < 5; i++ {
					lookAround(h, func() { h.step() })
					checkSpans(c, h.s)
				}
				c.Distinct(shape(h.s.Root))
			}},
			{Name: "dense", Quick: 250, Thorough: 6000, Run: func(c *Case) {
				// Many insertions at one place use the numbers up and force
				// renumbering.
				h := newHistory(c, blockText(c))
				at := boundary(c, h.text)
				for i := 0; i < 60; i++ {
					if c.IntN(6) == 0 {
						at = boundary(c, h.text)
					}
					f := frag(c)
					h.edit(at, at, f)
					if c.IntN(2) == 0 {
						at += len(f)
					}
					checkSpans(c, h.s)
				}
				c.Distinct(shape(h.s.Root))
			}},
			{Name: "deep", Quick: 700, Thorough: 20000, Run: func(c *Case) {
				h := newHistory(c, deepText(c))
				for i := 0; i < 10; i++ {
					lookAround(h, func() { deepStep(h) })
					checkSpans(c, h.s)
				}
				c.Distinct(shape(h.s.Root))
			}},
			{Name: "foreign", Quick: 500, Thorough: 5000, Run: func(c *Case) {
				// A span of another file or a detached span is not found.
				src := anyText(c, 60)
				c.Input = src
				s := syntax.NewDetachedSource(src)
				other := syntax.NewFakeFileID(syntax.NewVirtualPath("/other.typ"))
				for _, f := range flatten(s.Root) {
					n := nodeSpan(f.n).Number()
					sp, ok := syntax.NewSpanFromNumber(other, n)
					if !ok {
						c.Fail("no span for number %d", n)
					}
					c.Eval(1)
					if _, ok := s.Find(sp); ok {
						c.Fail("a span of another file was found in the source")
					}
					break
				}
				if _, ok := s.Find(syntax.NewDetachedSpan()); ok {
					c.Fail("the detached span was found in the source")
				}
				if _, ok := s.Range(syntax.NewDetachedSpan()); ok {
					c.Fail("the detached span has a range in the source")
				}
				c.Distinct(shape(s.Root))
			}},
			{Name: "large", Quick: 20, Thorough: 300, Run: func(c *Case) {
				src := genDocument(c, 20000)
				c.Input = src
				s := syntax.NewDetachedSource(src)
				checkSpans(c, s)
				c.Distinct(shape(s.Root))
			}},
		},
	})
}

// deepText nests blocks so deeply that the innermost ones have hardly any span
// numbers left: edits there must fall back to renumbering outer ones.
func deepText(c *Case) string {
	var pre, post string
	for i, n := 0, 25+c.IntN(40); i < n; i++ {
		j := c.IntN(4)
		pre += []string{"#[", "a #[", "#{[", "#f[b "}[j]
		post = []string{"]", "] b", "]}", "]"}[j] + post
	}
	return pre + []string{"", "a", "x y", "*b* c"}[c.IntN(4)] + post
}

// deepStep inserts or removes something small, mostly far inside.
func deepStep(h *history) ranges.Range {
	c := h.c
	a := len(h.text)/2 + c.IntN(20) - 10
	if c.IntN(4) == 0 {
		a = boundary(c, h.text)
	}
	a = min(max(a, 0), len(h.text))
	for !utf8.RuneStart((h.text + "a")[a]) {
		a--
	}
	b := a
	if c.IntN(3) == 0 && b < len(h.text) {
		_, w := utf8.DecodeRuneInString(h.text[b:])
		b += w
	}
	return h.edit(a, b, []string{"", "a", "*b* ", " ", "_c_", "\n\n", "d #x e", "#[f]", "[", "]", "$", "\"", "#", "= h\n", "a _b_ c *d* e #f g _h_ i *j* k #l"}[c.IntN(15)])
}

// blockText has many nested blocks, so that edits are reparsed inside them.
func blockText(c *Case) string {
	var b strings.Builder
	var rec func(d int)
	rec = func(d int) {
		for i, n := 0, 1+c.IntN(3); i < n; i++ {
			switch c.IntN(9) {
			case 0, 1:
				if d > 0 {
					b.WriteString("#[")
					rec(d - 1)
					b.WriteString("]")
				}
			case 2:
				b.WriteString("#{let x = 1\n")
				if d > 0 {
					b.WriteString("[")
					rec(d - 1)
					b.WriteString("]")
				}
				b.WriteString("}")
			case 3:
				b.WriteString("#f(a, b)[")
				if d > 0 {
					rec(d - 1)
				}
				b.WriteString("]")
			case 4:
				b.WriteString("\n- item ")
			case 5:
				b.WriteString("\n= head\n")
			case 6:
				b.WriteString(" [nested] ")
			default:
				b.WriteString(soupTokens[c.IntN(len(soupTokens))])
			}
			b.WriteString([]string{" ", "\n", "", " word ", "\n\n"}[c.IntN(5)])
		}
	}
	rec(3)
	return b.String()
}

func editHistory(c *Case, src string, steps int) {
	h := newHistory(c, src)
	h.checkEqualsFresh(ranges.NewRange(0, 0))
	for i := 0; i < steps; i++ {
		before := shape(h.s.Root)
		old, oldLen := flatten(h.s.Root), len(h.text)
		a, l := -1, 0
		var r ranges.Range
		if c.IntN(8) == 0 {
			r = h.step()
		} else {
			a = boundary(c, h.text)
			b := a
			if c.IntN(3) > 0 {
				for i, n := 0, c.IntN(5); i < n && b < len(h.text); i++ {
					_, w := utf8.DecodeRuneInString(h.text[b:])
					b += w
				}
			}
			f := frag(c)
			l = len(f)
			r = h.edit(a, b, f)
		}
		h.checkEqualsFresh(r)
		if a >= 0 {
			coversEdit(c, r, a, l)
		}
		coversChanges(c, r, old, h.s.Root, oldLen, len(h.text))
		if r.End-r.Start == uint64(len(h.text)) {
			c.Cover("reparsed everything")
		} else {
			c.Cover("reparsed a part")
		}
		c.Distinct(before, shape(h.s.Root))
	}
	c.CoverN("edits", h.n)
	if len(h.log.String()) < 300 {
		c.Sample(h.log.String())
	}
}
