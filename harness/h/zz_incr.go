package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/typst/syntax"
)

// A source is edited incrementally: what an edit does not concern is not parsed
// again and keeps its spans, so that whatever refers to it stays valid.

type kindSpan struct {
	kind syntax.SyntaxKind
	num  uint64
}

// numbers lists the span numbers of the nodes. An edit changes nodes in place,
// so they are taken down before it.
func numbers(fl []flat) []uint64 {
	var out []uint64
	for _, f := range fl {
		out = append(out, nodeSpan(f.n).Number())
	}
	return out
}

// spansOf lists the nodes of a tree that satisfy a condition, with their spans.
func spansOf(fl []flat, nums []uint64, keep func(i int, f flat) bool) []kindSpan {
	var out []kindSpan
	for i, f := range fl {
		if keep(i, f) {
			out = append(out, kindSpan{f.kind, nums[i]})
		}
	}
	return out
}

func sameSpans(c *Case, what string, old, now []kindSpan) {
	c.Eval(1)
	if slices.Equal(old, now) {
		c.CoverN("nodes that kept their spans", len(old))
		return
	}
	for i := range min(len(old), len(now)) {
		if old[i] != now[i] {
			c.Fail("%s: the %s node had span %d before the edit, and there is the %s node with span %d after it", what, old[i].kind.Name(), old[i].num, now[i].kind.Name(), now[i].num)
		}
	}
	c.Fail("%s: %d nodes before the edit, %d after it", what, len(old), len(now))
}

func hasErrors(n *syntax.SyntaxNode) bool {
	for _, f := range flatten(n) {
		if f.kind == syntax.SyntaxKindError {
			return true
		}
	}
	return false
}

// blockAt finds the block that has taken the place of an edited one.
func blockAt(fl []flat, b flat, end int) int {
	return slices.IndexFunc(fl, func(f flat) bool {
		return f.kind == b.kind && f.start == b.start && f.end == end && f.depth == b.depth
	})
}

// editInBlock replaces what a block of a document without mistakes holds, or a
// word in it. This concerns no more than the block.
func editInBlock(h *history) {
	c := h.c
	old := flatten(h.s.Root)
	nums := numbers(old)
	var blocks []int
	for i, f := range old {
		if f.kind == syntax.SyntaxKindCodeBlock || f.kind == syntax.SyntaxKindContentBlock {
			blocks = append(blocks, i)
		}
	}
	if len(blocks) == 0 {
		c.Cover("texts without blocks")
		return
	}
	at := blocks[c.IntN(len(blocks))]
	b := old[at]
	src := h.text[b.start:b.end]
	from, to, ins := b.start+1, b.end-1, ""
	if c.IntN(3) > 0 {
		g := newGen(c, 20)
		if b.kind == syntax.SyntaxKindCodeBlock {
			src = g.codeBlock(2).src()
		} else {
			src = g.contentBlock(2).src()
		}
		ins = src[1 : len(src)-1]
	} else {
		from = b.start + 1 + boundary(c, src[1:len(src)-1])
		to, ins = from, []string{"x", " ", "1", " a ", "\n", " word"}[c.IntN(6)]
		src = h.text[b.start:from] + ins + h.text[from:b.end]
	}
	end := b.start + len(src)
	text := h.text[:b.start] + src + h.text[b.end:]
	if fresh := syntax.Parse(text); hasErrors(fresh) || blockAt(flatten(fresh), b, end) < 0 {
		c.Cover("edits that reach beyond their block")
		return
	}
	var r ranges.Range
	how := "replaced"
	if c.IntN(3) == 0 {
		r = h.replace(text)
	} else {
		r = h.edit(from, to, ins)
		how = "edited"
	}
	h.checkEqualsFresh(r)
	c.Eval(1)
	if r.Len() > 0 && (int(r.Start) < b.start || int(r.End) > end) {
		c.Fail("the edit concerns the block at [%d,%d), but [%d,%d) was parsed again", b.start, end, r.Start, r.End)
	}
	now := flatten(h.s.Root)
	i := blockAt(now, b, end)
	sameSpans(c, fmt.Sprintf("outside of the edited block at [%d,%d)", b.start, end),
		spansOf(old, nums, func(j int, _ flat) bool { return j < at || j > b.last }),
		spansOf(now, numbers(now), func(j int, _ flat) bool { return j < i || j > now[i].last }))
	c.Cover(b.kind.Name() + " " + how)
	c.Distinct(shape(h.s.Root), fmt.Sprint(at))
}

// selfContained says whether the text is markup without mistakes that blank
// lines separate from any other.
func selfContained(p string) bool {
	if p == "" || strings.TrimSpace(p) != p {
		return false
	}
	root := syntax.Parse(p + "\n\nx")
	fl := flatten(root)
	if hasErrors(root) || len(fl) < 3 {
		return false
	}
	if f := fl[len(fl)-2]; f.kind != syntax.SyntaxKindParbreak || f.depth != 1 || f.start != len(p) {
		return false
	}
	open := 0
	for _, f := range fl {
		if t, ok := leafText(f.n); ok && f.kind == syntax.SyntaxKindText {
			open += strings.Count(t, "[") - strings.Count(t, "]")
			if open < 0 {
				return false
			}
		}
	}
	return open == 0
}

// editSections edits one of many paragraphs or sections between blank lines,
// which concerns no more than what stands next to it.
func editSections(c *Case, steps int, mk func(g *gen) *gn) {
	n := 10 + c.IntN(40)
	one := func() string {
		for {
			if p := mk(newGen(c, 12)).src(); selfContained(p) {
				return p
			}
		}
	}
	var ps []string
	for range n {
		ps = append(ps, one())
	}
	const sep = "\n\n"
	text := func() string { return strings.Join(ps, sep) }
	h := newHistory(c, text())
	length := func(ps []string) int { return len(strings.Join(ps, sep)) }
	for range steps {
		// One section is written anew, inserted or deleted, or edited in part.
		op := c.IntN(6)
		k := c.IntN(len(ps))
		if c.IntN(4) == 0 {
			k = len(ps) - 1 // the end is where most typing goes on
		}
		from, to := 0, 0
		if k > 0 {
			from = length(ps[:k]) + len(sep)
		}
		to = from + len(ps[k])
		was, next, p := ps[k], slices.Clone(ps), one()
		what, right := "written anew", len(ps)-k-1
		switch {
		case op == 0 && len(ps) > 4:
			what, next, p = "deleted", slices.Delete(next, k, k+1), ""
			if k < len(ps)-1 {
				to += len(sep)
			} else {
				from -= len(sep)
			}
		case op == 1:
			if k == len(ps)-1 {
				what, next, p, from = "appended", append(next, p), sep+p, to
				k++
			} else {
				what, next, p, to = "inserted", slices.Insert(next, k, p), p+sep, from
				right++
			}
		case op <= 3:
			x := boundary(c, was)
			if q := was[:x] + []string{"x", " ", "word", "1", "*b*", "é", "\\", "\n", "#f"}[c.IntN(9)] + was[x:]; selfContained(q) {
				p = q
			}
			next[k] = p
		default:
			next[k] = p
		}
		if hasErrors(syntax.Parse(strings.Join(next, sep))) {
			c.Cover("sections that do not fit")
			continue
		}
		old, oldLen := flatten(h.s.Root), len(h.text)
		nums := numbers(old)
		// The two sections before and behind it may be parsed again. If a part
		// of the section is edited, then the change may reach as far as the
		// section does, and as many nodes are taken along on both sides.
		var r ranges.Range
		near := 2
		if ps = next; op > 1 && c.IntN(2) == 0 {
			what = "edited in part"
			for _, f := range old {
				if f.depth == 1 && f.start >= from && f.end <= to {
					near++
				}
			}
			r = h.replace(text())
		} else {
			r = h.edit(from, to, p)
		}
		h.checkEqualsFresh(r)
		around := func(near int) (lo, hi int) {
			hi = len(h.text)
			if k > near {
				lo = length(ps[:k-near]) + len(sep)
			}
			if right > near {
				hi -= length(ps[len(ps)-(right-near):])
			}
			return
		}
		lo, hi := around(near)
		c.Eval(1)
		if r.Len() > 0 && (int(r.Start) < lo || int(r.End) > hi) {
			c.Fail("the edit concerns [%d,%d), but [%d,%d) was parsed again", from, from+len(p), r.Start, r.End)
		}
		// What was parsed again without having changed keeps its spans. A section
		// that comes or goes may be taken for the one next to it.
		other := 0
		if op <= 1 {
			other = 1
		}
		lo, hi = around(other)
		now := flatten(h.s.Root)
		oldHi := hi - len(h.text) + oldLen
		out := func(fl []flat, nums []uint64, hi, end int) []kindSpan {
			return spansOf(fl, nums, func(i int, f flat) bool { return i == 0 || f.end <= lo && lo > 0 || f.start >= hi && hi < end })
		}
		sameSpans(c, fmt.Sprintf("outside of [%d,%d), the section of the edit and %d on either side of it", lo, hi, other), out(old, nums, oldHi, oldLen), out(now, numbers(now), hi, len(h.text)))
		c.Cover("section " + what)
		if r.Len() > 0 && int(r.Len()) < len(h.text) {
			c.Cover("reparsed a part")
		}
		c.Distinct(shape(h.s.Root), fmt.Sprint(k))
	}
}

func init() {
	paragraph := func(g *gen) *gn {
		return in(syntax.SyntaxKindMarkup, g.inline(inlineCtx{depth: 2}, 1+g.c.IntN(4))...)
	}
	section := func(g *gen) *gn {
		return in(syntax.SyntaxKindMarkup, g.blocks(-1, 0, 2, 1+g.c.IntN(3))...)
	}
	blocks := func(size, steps int) func(c *Case) {
		return func(c *Case) {
			text := genDocument(c, size)
			for i := 0; i < 6 && !strings.ContainsAny(text, "{["); i++ {
				text = genDocument(c, size)
			}
			h := newHistory(c, text)
			if hasErrors(h.s.Root) {
				return
			}
			for range steps {
				editInBlock(h)
			}
		}
	}
	register(&Prop{
		ID:   "P30",
		Rule: "an edit counts by the shape of the tree after it and its place",
		Groups: []Group{
			{Name: "blocks", Quick: 12000, Thorough: 240000, Run: blocks(150, 3)},
			{Name: "blocks, small", Quick: 12000, Thorough: 240000, Run: blocks(40, 2)},
			{Name: "blocks, large", Quick: 200, Thorough: 6000, Run: blocks(4000, 6)},
			{Name: "paragraphs", Quick: 2500, Thorough: 40000, Run: func(c *Case) { editSections(c, 4, paragraph) }},
			{Name: "sections", Quick: 2500, Thorough: 40000, Run: func(c *Case) { editSections(c, 4, section) }},
			{Name: "typing", Quick: 250, Thorough: 3000, Run: func(c *Case) { editSections(c, 40, paragraph) }},
		},
	})
}
