package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/mewmew/typast/internal/option"
	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/internal/scanner"
	"github.com/mewmew/typast/typst/cstwalk"
	"github.com/mewmew/typast/typst/syntax"
)

// --- walking -----------------------------------------------------------------

// walkKey names what a visited value stands for: a node or the representation
// of a node (nil if it is neither).
func walkKey(v any) any {
	switch v := v.(type) {
	case *syntax.SyntaxNode:
		return v
	case *syntax.LeafNode:
		return v
	case *syntax.InnerNode:
		return v
	case *syntax.ErrorNode:
		return v
	}
	return nil
}

// walkTree checks the visits of one walk: what must be visited comes from the
// flattened tree. deny decides where the walk is cut.
func walkTree(c *Case, start any, root *syntax.SyntaxNode, deny func(v any) bool) {
	var got []any
	seen := map[any]bool{}
	cut := map[any]bool{}
	cutAt := map[*syntax.SyntaxNode]bool{}
	cstwalk.Walk(start, func(v any) bool {
		c.Eval(1)
		if v == nil {
			c.Fail("the walk visits nil")
		}
		if seen[v] {
			c.Fail("the walk visits the same %T twice", v)
		}
		seen[v] = true
		if k := walkKey(v); k != nil {
			got = append(got, k)
		}
		if !deny(v) {
			return true
		}
		switch v := v.(type) {
		case **syntax.SyntaxNode:
			cutAt[*v] = true
		case *syntax.Repr:
			cut[*v] = true
			for _, f := range flatten(root) {
				if f.n.Repr == *v {
					cut[f.n] = true
				}
			}
		default:
			cut[v] = true
		}
		return false
	})
	var want []any
	var rec func(n *syntax.SyntaxNode, top bool)
	done := map[any]bool{}
	rec = func(n *syntax.SyntaxNode, top bool) {
		if done[n] || !top && cutAt[n] {
			return
		}
		done[n] = true
		if !(top && below(start, n)) {
			want = append(want, n)
			if cut[n] {
				return
			}
		}
		if done[n.Repr] {
			return
		}
		done[n.Repr] = true
		want = append(want, n.Repr)
		if cut[n.Repr] {
			return
		}
		for _, ch := range children(n) {
			rec(ch, false)
		}
	}
	rec(root, true)
	if len(got) != len(want) {
		c.Fail("the walk visits %d nodes and representations, there are %d to visit", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			c.Fail("visit %d is not the one prescribed by the order of the document: %T instead of %T", i, got[i], want[i])
		}
	}
	c.CoverN("visits", len(got))
	c.CoverN("cuts", len(cut)+len(cutAt))
}

// below says that a walk begins at the representation of a node.
func below(start any, n *syntax.SyntaxNode) bool {
	switch start := start.(type) {
	case *syntax.SyntaxNode, **syntax.SyntaxNode:
		return false
	case *syntax.Repr:
		return *start == n.Repr
	}
	return true
}

func walkCase(c *Case, text string) {
	c.Input = fmt.Sprintf("%q", text)
	root := syntax.Parse(text)
	var b bytes.Buffer
	syntax.PrintNode(&b, root)
	if b.String() != text {
		c.Fail("printing the tree gives %q", b.String())
	}
	all := flatten(root)
	none := func(any) bool { return false }
	walkTree(c, root, root, none)
	sub := all[c.IntN(len(all))]
	walkTree(c, sub.n, sub.n, none)
	walkTree(c, sub.n.Repr, sub.n, none)
	// The same from slots that hold them.
	slot := sub.n
	walkTree(c, &slot, sub.n, none)
	walkTree(c, &sub.n.Repr, sub.n, none)
	switch r := sub.n.Repr.(type) {
	case *syntax.LeafNode:
		walkTree(c, &r, sub.n, none)
	case *syntax.InnerNode:
		walkTree(c, &r, sub.n, none)
	case *syntax.ErrorNode:
		walkTree(c, &r, sub.n, none)
	}
	b.Reset()
	syntax.PrintNode(&b, sub.n)
	if b.String() != text[sub.start:sub.end] {
		c.Fail("printing the %s node at [%d,%d) gives %q", sub.kind.Name(), sub.start, sub.end, b.String())
	}
	// Cuts.
	p := c.IntN(100)
	walkTree(c, root, root, func(v any) bool {
		switch v.(type) {
		case **syntax.SyntaxNode, *syntax.Repr:
			return false
		}
		return c.IntN(100) < p
	})
	kind := sub.kind
	walkTree(c, root, root, func(v any) bool {
		in, ok := v.(*syntax.InnerNode)
		return ok && in.Kind == kind
	})
	// A visitor that rewrites below itself is followed.
	if len(all) > 1 {
		k := 1 + c.IntN(len(all)-1)
		at := all[all[k].parent].n.Repr.(*syntax.InnerNode)
		extra := &syntax.SyntaxNode{Repr: &syntax.LeafNode{Kind: syntax.SyntaxKindText, Text: "EXTRA"}}
		pos := c.IntN(len(at.Children) + 1)
		before, after := 0, 0
		cstwalk.Walk(root, func(v any) bool {
			if n, ok := v.(*syntax.SyntaxNode); ok {
				if n == extra {
					after++
				} else {
					before++
				}
			}
			if v == any(at) {
				at.Children = slices.Insert(at.Children, pos, extra)
			}
			return true
		})
		c.Eval(1)
		if before != len(all) || after != 1 {
			c.Fail("a node inserted below the visited node is visited %d times, the other %d nodes %d times", after, len(all), before)
		}
		off := all[all[k].parent].start
		for _, ch := range at.Children[:pos] {
			off += len(sourceText(ch))
		}
		b.Reset()
		syntax.PrintNode(&b, root)
		if want := text[:off] + "EXTRA" + text[off:]; b.String() != want {
			c.Fail("printing the changed tree gives %q, want %q", b.String(), want)
		}
		// The same subtree at two places is visited once.
		shared := all[k].n
		at.Children[pos] = shared
		n := 0
		cstwalk.Walk(root, func(v any) bool {
			if v == any(shared) {
				n++
			}
			return true
		})
		if n != 1 {
			c.Fail("a subtree that hangs at two places is visited %d times", n)
		}
	}
	c.Distinct(shape(root))
	if len(text) < 100 {
		c.Sample(c.Input)
	}
}

// editWalk walks with a visitor that edits what it is visiting and checks every
// visit against the one that the order of the document, as it is after the
// edits, prescribes.
func editWalk(c *Case, text string) {
	var log strings.Builder
	fmt.Fprintf(&log, "%q", text)
	root := syntax.Parse(text)
	var leaves []*syntax.SyntaxNode
	total := 0
	for _, f := range flatten(root) {
		total++
		if f.leaf {
			leaves = append(leaves, f.n)
		}
	}
	var fresh []*syntax.SyntaxNode
	other := func() *syntax.SyntaxNode {
		switch k := c.IntN(4); {
		case k == 0 && len(leaves) > 0: // shared with another place
			c.Cover("shared tokens")
			l := leaves[c.IntN(len(leaves))]
			if c.IntN(2) == 0 {
				return &syntax.SyntaxNode{Repr: l.Repr}
			}
			return l
		case k == 1 && len(fresh) > 0:
			c.Cover("shared subtrees")
			return fresh[c.IntN(len(fresh))]
		case k == 2:
			return syntax.NewLeaf(syntax.SyntaxKindText, "NEW")
		}
		n := syntax.Parse(soup(c, 3))
		fresh = append(fresh, n)
		return n
	}
	seen := map[any]bool{}
	var stack []any
	var last any
	descend := false
	rate := 2 + c.IntN(30)
	edits := 0
	expand := func() {
		if !descend {
			return
		}
		descend = false
		switch v := last.(type) {
		case **syntax.SyntaxNode:
			stack = append(stack, *v)
		case *syntax.SyntaxNode:
			stack = append(stack, &v.Repr)
		case *syntax.Repr:
			stack = append(stack, any(*v))
		case *syntax.InnerNode:
			for i := len(v.Children) - 1; i >= 0; i-- {
				stack = append(stack, &v.Children[i])
			}
		}
	}
	next := func() any {
		expand()
		for len(stack) > 0 {
			v := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if !seen[v] {
				return v
			}
		}
		return nil
	}
	stack = append(stack, root)
	visits := 0
	cstwalk.Walk(root, func(v any) bool {
		c.Eval(1)
		visits++
		c.Input = log.String()
		if want := next(); want != v {
			c.Fail("visit %d is a %T, the order of the document prescribes a %T", visits, v, want)
		}
		seen[v] = true
		last, descend = v, c.IntN(60) != 0
		if edits < 12 && visits < 4000 && c.IntN(rate) == 0 {
			edits++
			switch v := v.(type) {
			case **syntax.SyntaxNode:
				*v = other()
				fmt.Fprintf(&log, " %d:slot", visits)
				c.Cover("replaced child slots")
			case *syntax.SyntaxNode:
				v.Repr = other().Repr
				fmt.Fprintf(&log, " %d:node", visits)
				c.Cover("replaced contents of nodes")
			case *syntax.Repr:
				*v = other().Repr
				fmt.Fprintf(&log, " %d:repr", visits)
				c.Cover("replaced representations")
			case *syntax.InnerNode:
				i := c.IntN(len(v.Children) + 1)
				switch k := c.IntN(4); {
				case k == 0 && i < len(v.Children):
					v.Children = slices.Delete(slices.Clone(v.Children), i, i+1)
					fmt.Fprintf(&log, " %d:delete %d", visits, i)
					c.Cover("deleted children")
				case k == 1 && i < len(v.Children):
					v.Children[i] = other()
					fmt.Fprintf(&log, " %d:replace %d", visits, i)
					c.Cover("replaced children")
				default:
					v.Children = slices.Insert(v.Children, i, other())
					fmt.Fprintf(&log, " %d:insert %d", visits, i)
					c.Cover("inserted children")
				}
			case *syntax.LeafNode:
				v.Text += "!"
				c.Cover("changed texts")
			}
		}
		return descend
	})
	c.Input = log.String()
	c.Eval(1)
	if v := next(); v != nil {
		c.Fail("the walk ends after %d visits, a %T is left", visits, v)
	}
	c.CoverN("visits", visits)
	c.CoverN("edits while walking", edits)
	// Sharing can have led to a node that lies below itself.
	on := map[any]bool{}
	var cyclic func(n *syntax.SyntaxNode) bool
	cyclic = func(n *syntax.SyntaxNode) bool {
		if in, ok := n.Repr.(*syntax.InnerNode); ok {
			if on[in] {
				return true
			}
			on[in] = true
			defer delete(on, in)
			return slices.ContainsFunc(in.Children, cyclic)
		}
		return false
	}
	if cyclic(root) {
		c.Cover("nodes below themselves")
		c.Distinct(log.String())
		return
	}
	var b bytes.Buffer
	syntax.PrintNode(&b, root)
	if want := sourceText(root); b.String() != want {
		c.Fail("printing the changed tree gives %q, want %q", firstBytes(b.String()), firstBytes(want))
	}
	c.Distinct(shape(root))
	if len(c.Input) < 100 {
		c.Sample(c.Input)
	}
}

// --- scanner -----------------------------------------------------------------

type scanModel struct {
	text string
	at   int
}

func (m *scanModel) runes() ([]rune, []rune) { return []rune(m.text[:m.at]), []rune(m.text[m.at:]) }

// near lists the character boundaries that a position may snap to.
func near(text string, i uint) []int {
	if i >= uint(len(text)) {
		return []int{len(text)}
	}
	ok := func(k int) bool { return k == len(text) || text[k]&0xC0 != 0x80 }
	if ok(int(i)) {
		return []int{int(i)}
	}
	a, b := int(i), int(i)
	for !ok(a) {
		a--
	}
	for !ok(b) {
		b++
	}
	return []int{a, b}
}

func scannerCase(c *Case) {
	text := charSoup(c, 12)
	if c.IntN(2) == 0 {
		text = soup(c, 6)
	}
	var log strings.Builder
	fmt.Fprintf(&log, "%q:", text)
	s := scanner.New(text)
	m := &scanModel{text: text}
	var old *scanner.Scanner
	oldAt := 0
	pat := func() string {
		switch c.IntN(4) {
		case 0:
			_, a := m.runes()
			if len(a) > 0 {
				return string(a[:1+c.IntN(min(3, len(a)))])
			}
			return "x"
		case 1:
			return charSoup(c, 2) + "y"
		default:
			return []string{"a", "#", "\n", " ", "é", "//", "aa", "\u2028"}[c.IntN(8)]
		}
	}
	set := func() []rune {
		var r []rune
		for k := c.IntN(4); k > 0; k-- {
			r = append(r, []rune(pat())[0])
		}
		return r
	}
	eqRune := func(what string, g rune, ok bool, w []rune, i int) {
		c.Eval(1)
		if wok := i >= 0 && i < len(w); ok != wok || ok && g != w[i] {
			c.Fail("%s gives %q, %v", what, g, ok)
		}
	}
	eq := func(what string, g, w any) {
		c.Eval(1)
		if g != w {
			c.Fail("%s gives %v, want %v", what, g, w)
		}
	}
	for step, n := 0, 20; step < n; step++ {
		before, after := m.runes()
		op := c.IntN(21)
		k := c.IntN(9) - 4
		p := pat()
		r := set()
		in := func(x rune) bool { return slices.Contains(r, x) }
		i, j := uint(c.IntN(len(text)+3)), uint(c.IntN(len(text)+3))
		if c.IntN(20) == 0 {
			j = ^uint(0) - uint(c.IntN(3))
		}
		fmt.Fprintf(&log, " %d(%d,%q,%q,%d,%d)@%d", op, k, p, string(r), i, j, m.at)
		c.Input = log.String()
		rest := m.text[m.at:]
		switch op {
		case 0:
			g, ok := s.Peek()
			eqRune("Peek", g, ok, after, 0)
		case 1:
			eq("At", s.At(p), strings.HasPrefix(rest, p))
		case 2:
			eq("AtFunc", s.AtFunc(in), len(after) > 0 && in(after[0]))
			eq("AtAny", s.AtAny(r), len(after) > 0 && in(after[0]))
		case 3:
			g, ok := s.Scout(k)
			if k >= 0 {
				eqRune("Scout", g, ok, after, k)
			} else {
				eqRune("Scout", g, ok, before, len(before)+k)
			}
		case 4:
			want := m.at
			if k >= 0 {
				want += len(string(after[:min(k, len(after))]))
			} else {
				want -= len(string(before[max(0, len(before)+k):]))
			}
			eq("Locate", s.Locate(k), uint(want))
		case 5, 6, 7:
			g, ok := s.Eat()
			eqRune("Eat", g, ok, after, 0)
			if ok {
				m.at += len(string(after[:1]))
			}
		case 8:
			g, ok := s.Uneat()
			eqRune("Uneat", g, ok, before, len(before)-1)
			if ok {
				m.at -= len(string(before[len(before)-1:]))
			}
		case 9:
			w := strings.HasPrefix(rest, p)
			eq("EatIf", s.EatIf(p), w)
			if w {
				m.at += len(p)
			}
		case 10:
			w := len(after) > 0 && in(after[0])
			if c.IntN(2) == 0 {
				eq("EatIfFunc", s.EatIfFunc(in), w)
			} else {
				eq("EatIfAny", s.EatIfAny(r), w)
			}
			if w {
				m.at += len(string(after[:1]))
			}
		case 11:
			w := ""
			for strings.HasPrefix(rest[len(w):], p) {
				w += p
			}
			eq("EatWhile", s.EatWhile(p), w)
			m.at += len(w)
		case 12:
			neg := c.IntN(2) == 0
			w := 0
			for w < len(after) && in(after[w]) != neg {
				w++
			}
			ws := string(after[:w])
			f := func(x rune) bool { return in(x) != neg }
			g := ""
			if c.IntN(2) == 0 {
				g = s.EatWhileFunc(f)
			} else {
				g = s.EatUntilFunc(func(x rune) bool { return !f(x) })
			}
			eq("EatWhileFunc/EatUntilFunc", g, ws)
			m.at += len(ws)
		case 13:
			w := strings.Index(rest, p)
			if w < 0 {
				w = len(rest)
			}
			eq("EatUntil", s.EatUntil(p), rest[:w])
			m.at += w
		case 14:
			s.Jump(j)
			c.Eval(1)
			if !slices.Contains(near(text, j), int(s.Cursor())) {
				c.Fail("Jump(%d) goes to %d", j, s.Cursor())
			}
			m.at = int(s.Cursor())
		case 15:
			g := s.From(i)
			c.Eval(1)
			if !slices.ContainsFunc(near(text, i), func(x int) bool { return text[min(x, m.at):m.at] == g }) {
				c.Fail("From(%d) gives %q", i, g)
			}
		case 16:
			g := s.To(j)
			c.Eval(1)
			if !slices.ContainsFunc(near(text, j), func(x int) bool { return text[m.at:max(x, m.at)] == g }) {
				c.Fail("To(%d) gives %q", j, g)
			}
		case 17:
			g := s.Get(ranges.NewRange(uint64(i), uint64(j)))
			c.Eval(1)
			if !slices.ContainsFunc(near(text, i), func(a int) bool {
				return slices.ContainsFunc(near(text, j), func(b int) bool { return text[a:max(a, b)] == g })
			}) {
				c.Fail("Get(%d,%d) gives %q", i, j, g)
			}
		case 18: // a clone is independent
			old, oldAt = s, m.at
			s = s.Clone()
		case 19:
			func() {
				defer func() {
					e := recover()
					if _, bad := e.(violation); bad {
						panic(e)
					}
					eq("Expect panics", e != nil, !strings.HasPrefix(rest, p))
				}()
				s.Expect(p)
				m.at += len(p)
			}()
		case 20:
			if m.at == len(text) {
				s.Jump(0)
				m.at = 0
			}
		}
		eq("Cursor", s.Cursor(), uint(m.at))
		eq("Done", s.Done(), m.at == len(text))
		eq("Before", s.Before(), text[:m.at])
		eq("After", s.After(), text[m.at:])
		eq("Text", s.Text(), text)
		if old != nil {
			eq("the cursor of the cloned scanner", old.Cursor(), uint(oldAt))
		}
		c.Cover(fmt.Sprintf("operation %02d", op))
	}
	c.Distinct(log.String())
	if len(text) < 20 {
		c.Sample(log.String())
	}
}

// --- kinds and sets ----------------------------------------------------------

func allKinds() []syntax.SyntaxKind {
	var ks []syntax.SyntaxKind
	for k := int(syntax.SyntaxKindFirst); k <= int(syntax.SyntaxKindLast); k++ {
		ks = append(ks, syntax.SyntaxKind(k))
	}
	return ks
}

func setCase(c *Case) {
	type entry struct {
		s    *syntax.SyntaxSet
		have map[syntax.SyntaxKind]bool
	}
	kinds := allKinds()
	kind := func() syntax.SyntaxKind { return kinds[c.IntN(len(kinds))] }
	var sets []entry
	var log strings.Builder
	// The predefined sets come first: deriving from them must not change them.
	names := sortedKeys(predefinedSets)
	byName := map[string]syntax.SyntaxKind{}
	for _, k := range kinds {
		byName[k.Name()] = k
	}
	for i, n := 0, c.IntN(4); i < n; i++ {
		name := names[c.IntN(len(names))]
		e := entry{s: predefinedSets[name], have: map[syntax.SyntaxKind]bool{}}
		for _, k := range strings.Split(kindClasses[name], "|") {
			e.have[byName[k]] = true
		}
		fmt.Fprintf(&log, "; s%d = %s", i, name)
		c.Cover("predefined sets")
		sets = append(sets, e)
	}
	for i, n := len(sets), len(sets)+4+c.IntN(12); i < n; i++ {
		e := entry{have: map[syntax.SyntaxKind]bool{}}
		from := func() entry {
			j := c.IntN(len(sets))
			fmt.Fprintf(&log, " s%d", j)
			for k := range sets[j].have {
				e.have[k] = true
			}
			return sets[j]
		}
		op := c.IntN(4)
		if len(sets) == 0 {
			op = 0
		}
		fmt.Fprintf(&log, "; s%d = %s", i, []string{"new", "add", "union", "clone"}[op])
		switch op {
		case 0:
			var ks []syntax.SyntaxKind
			for k := c.IntN(6); k > 0; k-- {
				ks = append(ks, kind())
			}
			e.s = syntax.NewSyntaxSet(ks...)
			for k := range ks {
				e.have[ks[k]] = true
				fmt.Fprintf(&log, " %d", ks[k])
			}
		case 1:
			k := kind()
			e.s = from().s.Add(k)
			e.have[k] = true
			fmt.Fprintf(&log, " %d", k)
		case 2:
			a := from()
			e.s = a.s.Union(from().s)
		case 3:
			e.s = from().s.Clone()
		}
		sets = append(sets, e)
		c.Input = log.String()
		for j := range sets {
			for _, k := range kinds {
				c.Eval(1)
				if sets[j].s.Contains(k) != sets[j].have[k] {
					c.Fail("after step %d set s%d says %v for %q (%d)", i, j, !sets[j].have[k], k.Name(), k)
				}
			}
		}
	}
	c.Distinct(log.String())
	if log.Len() < 200 {
		c.Sample(log.String())
	}
}

var predefinedSets = map[string]*syntax.SyntaxSet{
	"StmtSet": syntax.StmtSet, "UnaryOpSet": syntax.UnaryOpSet, "BinaryOpSet": syntax.BinaryOpSet,
	"AtomicCodePrimarySet": syntax.AtomicCodePrimarySet, "AtomicCodeExprSet": syntax.AtomicCodeExprSet, "PatternLeafSet": syntax.PatternLeafSet,
	"CodePrimarySet": syntax.CodePrimarySet, "PatternSet": syntax.PatternSet, "CodeExprSet": syntax.CodeExprSet, "ArgSet": syntax.ArgSet,
	"ArrayOrDictItemSet": syntax.ArrayOrDictItemSet, "ParamSet": syntax.ParamSet, "DestructuringItemSet": syntax.DestructuringItemSet,
	"MathExprSet": syntax.MathExprSet,
}

// kindClasses lists the kinds of each class in the words of the language.
var kindClasses = map[string]string{
	"grouping":   "opening brace|closing brace|opening bracket|closing bracket|opening paren|closing paren",
	"terminator": "end of tokens|semicolon|closing brace|closing paren|closing bracket",
	"block":      "code block|content block",
	"stmt":       "`let` expression|`set` expression|`show` expression|`import` expression|`include` expression",
	"trivia":     "shebang|line comment|block comment|space|paragraph break",
	"error":      "syntax error",
	"keyword": "operator `not`|operator `and`|operator `or`|`none`|`auto`|keyword `let`|keyword `set`|keyword `show`|keyword `context`|keyword `if`|keyword `else`|" +
		"keyword `for`|keyword `in`|keyword `while`|keyword `break`|keyword `continue`|keyword `return`|keyword `import`|keyword `include`|keyword `as`",
	"StmtSet":    "keyword `let`|keyword `set`|keyword `show`|keyword `import`|keyword `include`|keyword `return`",
	"UnaryOpSet": "plus|minus|operator `not`",
	"BinaryOpSet": "plus|minus|star|slash|operator `and`|operator `or`|equality operator|inequality operator|less-than operator|less-than or equal operator|" +
		"greater-than operator|greater-than or equal operator|equals sign|keyword `in`|add-assign operator|subtract-assign operator|multiply-assign operator|divide-assign operator",
	"AtomicCodePrimarySet": atomicKinds,
	"AtomicCodeExprSet":    atomicKinds,
	"PatternLeafSet":       atomicKinds,
	"CodePrimarySet":       atomicKinds + "|underscore",
	"PatternSet":           atomicKinds + "|underscore",
	"CodeExprSet":          atomicKinds + "|underscore|plus|minus|operator `not`",
	"ArgSet":               atomicKinds + "|underscore|plus|minus|operator `not`|dots",
	"ArrayOrDictItemSet":   atomicKinds + "|underscore|plus|minus|operator `not`|dots",
	"ParamSet":             atomicKinds + "|underscore|dots",
	"DestructuringItemSet": atomicKinds + "|underscore|dots",
	"MathExprSet": "hash|math identifier|field access|dot|comma|semicolon|closing paren|text|math text|math shorthand|line break|math alignment point|escape sequence|" +
		"string|root|prime",
}

const atomicKinds = "identifier|opening brace|opening bracket|opening paren|dollar sign|keyword `let`|keyword `set`|keyword `show`|keyword `context`|keyword `if`|" +
	"keyword `while`|keyword `for`|keyword `import`|keyword `include`|keyword `break`|keyword `continue`|keyword `return`|`none`|`auto`|integer|float|boolean|" +
	"numeric value|string|label|raw block"

func kindCase(c *Case) {
	c.Input = "classification of the kinds"
	byName := map[string]syntax.SyntaxKind{}
	for _, k := range allKinds() {
		c.Eval(1)
		if k.Name() == "" || k.String() != k.Name() {
			c.Fail("kind %d is called %q and %q", k, k.Name(), k.String())
		}
		if o, dup := byName[k.Name()]; dup {
			c.Fail("kinds %d and %d are both called %q", o, k, k.Name())
		}
		byName[k.Name()] = k
		c.Distinct(k)
	}
	has := map[string]func(syntax.SyntaxKind) bool{
		"grouping": syntax.SyntaxKind.IsGrouping, "terminator": syntax.SyntaxKind.IsTerminator, "block": syntax.SyntaxKind.IsBlock, "stmt": syntax.SyntaxKind.IsStmt,
		"trivia": syntax.SyntaxKind.IsTrivia, "error": syntax.SyntaxKind.IsError, "keyword": syntax.SyntaxKind.IsKeyword,
	}
	for name, s := range predefinedSets {
		has[name] = s.Contains
	}
	for _, class := range sortedKeys(kindClasses) {
		want := map[string]bool{}
		for _, n := range strings.Split(kindClasses[class], "|") {
			if _, ok := byName[n]; !ok {
				c.Fail("there is no kind called %q", n)
			}
			want[n] = true
		}
		for n, k := range byName {
			c.Eval(1)
			if has[class](k) != want[n] {
				c.Fail("%s: %q is %v", class, n, has[class](k))
			}
		}
	}
}

// --- concurrency -------------------------------------------------------------

// readAll makes a report of everything that can be read from a source.
func readAll(src *syntax.Source, yield func()) string {
	var b strings.Builder
	b.WriteString(sexp(src.Root))
	yield()
	for _, f := range flatten(src.Root) {
		sp := nodeSpan(f.n)
		r, ok := src.Range(sp)
		fmt.Fprint(&b, sp.Number(), r, ok)
		yield()
	}
	l := src.Lines
	text := src.Text()
	fmt.Fprint(&b, l.LenBytes(), l.LenUtf16(), l.LenLines())
	for i := 0; i <= len(text); i++ {
		line, ok := l.ByteToLine(uint(i))
		u, ok2 := l.ByteToUtf16(uint(i))
		col, ok3 := l.ByteToColumn(uint(i))
		fmt.Fprint(&b, line, ok, u, ok2, col, ok3)
	}
	yield()
	var p bytes.Buffer
	syntax.PrintNode(&p, src.Root)
	b.WriteString(p.String())
	n := 0
	cstwalk.Walk(src.Root, func(any) bool { n++; return true })
	fmt.Fprint(&b, n, src.ID.VPath().Path, src.String())
	yield()
	b.WriteString(readShim(src))
	return b.String()
}

var (
	readShim  = func(*syntax.Source) string { return "" }
	readTyped = func(*syntax.SyntaxNode) string { return "" }
)

// textDiff shows where two texts start to differ.
func textDiff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	from := max(0, i-40)
	return fmt.Sprintf("%q\nwant\n%q", firstBytes(got[from:]), firstBytes(want[from:]))
}

// --- the first steps of a process --------------------------------------------

// coldSteps are the ways in which a process may start to use the packages. All
// goroutines of a cold start take the same step first, then all of the others.
var coldSteps = []struct {
	name string
	run  func(text string, g int) string
}{
	{"parse", func(text string, g int) string { return sexp(syntax.Parse(text)) }},
	{"source", func(text string, g int) string {
		src := syntax.NewDetachedSource(text)
		out := readTyped(src.Root) + readAll(src, runtime.Gosched)
		n := uint64(len(text))
		r := src.Edit(ranges.NewRange(n, n), "\n$ a + b(c) $ #let x = 1e3cm")
		return out + fmt.Sprint(r) + readAll(src, runtime.Gosched)
	}},
	{"lines", func(text string, g int) string {
		l := syntax.NewLines(text)
		l.Edit(ranges.NewRange(0, 0), "a\r\n\u2028")
		b, ok := l.Utf16ToByte(3)
		r, ok2 := l.LineToRange(1)
		rr, ok3 := l.ReplacementRange(text)
		p, ok4 := l.ByteToLineColumn(2)
		return fmt.Sprint(b, ok, r, ok2, rr, ok3, p, ok4)
	}},
	{"kinds", func(text string, g int) string {
		var b strings.Builder
		for _, k := range allKinds() {
			fmt.Fprint(&b, k, k.IsGrouping(), k.IsTerminator(), k.IsBlock(), k.IsStmt(), k.IsKeyword(), k.IsTrivia(), k.IsError(), syntax.UnOp_from_kind(k).IsPresent(), syntax.BinOp_from_kind(k).IsPresent())
			for _, n := range sortedKeys(predefinedSets) {
				fmt.Fprint(&b, predefinedSets[n].Contains(k), predefinedSets[n].Add(k).Union(syntax.StmtSet).Contains(k))
			}
		}
		return b.String()
	}},
	{"packages", func(text string, g int) string {
		spec, err := syntax.ParsePackageSpec("@preview/cetz:0.3.1")
		m, err2 := syntax.ParsePackageManifestFromToml("[package]\nname = \"cetz\"\nversion = \"0.3.1\"\nentrypoint = \"lib.typ\"\ncompiler = \"0.12\"\nauthors = [\"A\"]\n")
		if err != nil || err2 != nil {
			return fmt.Sprint(err, err2)
		}
		b, err := syntax.ParseVersionBound("0.3")
		return fmt.Sprint(spec, m.Pkg.Name, m.Pkg.Version, m.Validate(spec), b, err, spec.Version.MatchesGE(b), syntax.CurrentCompilerVersion())
	}},
	{"files", func(text string, g int) string {
		spec, _ := syntax.ParsePackageSpec("@preview/cetz:0.3.1")
		id := syntax.NewFileID(option.Some(spec), syntax.NewVirtualPath(fmt.Sprintf("/f%d.typ", g)))
		id2 := syntax.NewFileID(option.None[*syntax.PackageSpec](), syntax.NewVirtualPath("/shared.typ"))
		sp, ok := syntax.NewSpanFromNumber(id, 10)
		to, err := sp.ResolvePath("a/../b.typ")
		return fmt.Sprint(id.VPath().Path, id2.VPath().Path, ok, to.VPath().Path, to.Spec().IsPresent(), err, id2.WithExtension("pdf").VPath().Path, id, id2)
	}},
}

// coldChild runs in a process of its own: its goroutines are the first to use
// the packages.
func coldChild() int {
	var texts []string
	if err := json.NewDecoder(os.Stdin).Decode(&texts); err != nil {
		return 3
	}
	first, _ := strconv.Atoi(os.Getenv("VERIF_COLD"))
	start := make(chan struct{})
	out := make([][]string, len(texts))
	var wg sync.WaitGroup
	for g := range texts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := range coldSteps {
				step := coldSteps[(first+i)%len(coldSteps)]
				func() {
					defer func() {
						if e := recover(); e != nil {
							out[g] = append(out[g], fmt.Sprint("panic: ", e))
						}
					}()
					out[g] = append(out[g], step.run(texts[g], g))
				}()
			}
		}()
	}
	close(start)
	wg.Wait()
	if json.NewEncoder(os.Stdout).Encode(out) != nil {
		return 3
	}
	return 0
}

func coldCase(c *Case) {
	texts := make([]string, 8)
	same := c.IntN(2) == 0
	for i := range texts {
		switch {
		case i > 0 && same:
			texts[i] = texts[0]
		case c.IntN(2) == 0:
			texts[i] = genDocument(c, 60)
		default:
			texts[i] = strings.ToValidUTF8(anyText(c, 40), "?")
		}
	}
	texts[0] = "#let x = if not a {none} else {auto}; #show: f\n= a _b_ *c* `d` @e <f>\n- a\n+ b\n/ c: d\n$ a/b_c^d + sqrt(x, y; z) $ https://a.b \"q\"\n" + texts[0]
	first := c.Index % len(coldSteps)
	in, _ := json.Marshal(texts)
	c.Input = fmt.Sprintf("first step %s\n%s", coldSteps[first].name, in)
	self, _ := os.Executable()
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=cold", fmt.Sprintf("VERIF_COLD=%d", first), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	cmd.Stdin = bytes.NewReader(in)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err := cmd.Run()
	c.Eval(1)
	if err != nil {
		c.Fail("goroutines that are the first to use the packages: %v\n%s", err, firstBytes(stderr.String()))
	}
	var out [][]string
	if json.Unmarshal(stdout.Bytes(), &out) != nil || len(out) != len(texts) {
		c.Fail("the process wrote no results: %s", firstBytes(stdout.String()))
	}
	for g, text := range texts {
		for i := range coldSteps {
			step := coldSteps[(first+i)%len(coldSteps)]
			var want string
			func() {
				defer func() {
					if e := recover(); e != nil {
						want = fmt.Sprint("panic: ", e)
					}
				}()
				want = step.run(text, g)
			}()
			want = strings.ToValidUTF8(want, "\uFFFD")
			c.Eval(1)
			if step.name == "files" { // the numbers differ
				continue
			}
			if got := strings.ToValidUTF8(out[g][i], "\uFFFD"); got != want {
				c.Fail("step %q of goroutine %d gives another result than in a process that has run before:\n%s", step.name, g, textDiff(got, want))
			}
		}
	}
	c.Distinct("cold", string(in), first)
	c.Cover("cold start: " + coldSteps[first].name)
}

func parallelCase(c *Case) {
	const workers = 8
	type edit struct {
		a, b int
		with string
	}
	type plan struct {
		text  string
		edits []edit
		want  []string
	}
	mk := func() *plan {
		p := &plan{text: anyText(c, 40)}
		if c.IntN(2) == 0 {
			p.text = genDocument(c, 60)
		}
		t := p.text
		for k := 0; k < 4; k++ {
			a, b := boundary(c, t), boundary(c, t)
			if a > b {
				a, b = b, a
			}
			w := frag(c)
			p.edits = append(p.edits, edit{a, b, w})
			t = t[:a] + w + t[b:]
		}
		return p
	}
	play := func(p *plan, yield func(), out func(string)) {
		src := syntax.NewDetachedSource(p.text)
		out(readAll(src, yield))
		if c.Index%5 == 0 {
			out(readTyped(src.Root))
		}
		for _, e := range p.edits {
			r := src.Edit(ranges.NewRange(uint64(e.a), uint64(e.b)), e.with)
			out(fmt.Sprint(r) + readAll(src, yield))
		}
	}
	// The goroutines go first, so that what a sequential run would warm up (a
	// table that is filled on first use, say) is cold for them.
	var plans []*plan
	var in []string
	for len(plans) < workers {
		plans = append(plans, mk())
		in = append(in, fmt.Sprintf("%q", plans[len(plans)-1].text))
	}
	c.Input = strings.Join(in, "\n")
	var shared *syntax.Source
	func() {
		defer func() {
			if e := recover(); e != nil {
				c.Skip("the shared text cannot be parsed")
			}
		}()
		shared = syntax.NewDetachedSource(plans[0].text)
	}()

	var clock atomic.Int64
	var order [4096]atomic.Int32
	start := make(chan struct{})
	fails := make([]string, workers)
	gots := make([][]string, workers)
	sharedGot := make([]string, workers)
	var wg sync.WaitGroup
	for g := 0; g < workers; g++ {
		wg.Add(1)
		readFirst := c.IntN(2) == 0
		naps := c.IntN(4)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					fails[g] = fmt.Sprintf("goroutine %d panicked: %v", g, e)
				}
			}()
			yield := func() {
				if k := clock.Add(1); k < int64(len(order)) {
					order[k].Store(int32(g + 1))
				}
				for i := 0; i < naps; i++ {
					runtime.Gosched()
				}
			}
			<-start
			reads := func() { sharedGot[g] = readAll(shared, yield) }
			if readFirst {
				reads()
			}
			play(plans[g], yield, func(s string) { gots[g] = append(gots[g], s) })
			if !readFirst {
				reads()
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Eval(workers * 6)
	sharedWant := readAll(shared, func() {})
	for g, p := range plans {
		var failed any
		func() {
			defer func() { failed = recover() }()
			play(p, func() {}, func(s string) { p.want = append(p.want, s) })
		}()
		if failed != nil {
			c.Cover("texts left out")
			continue
		}
		if fails[g] != "" {
			c.Fail("%s", fails[g])
		}
		if sharedGot[g] != sharedWant {
			c.Fail("reading the shared source in goroutine %d gives another result than alone:\n%s", g, textDiff(sharedGot[g], sharedWant))
		}
		for k := range p.want {
			if gots[g][k] != p.want[k] {
				c.Fail("step %d of goroutine %d gives another result than alone:\n%s", k, g, textDiff(gots[g][k], p.want[k]))
			}
		}
	}
	var b strings.Builder
	switches := 0
	last := int32(0)
	for i := range order {
		g := order[i].Load()
		if g == 0 && i > 0 {
			break
		}
		if g != last {
			switches++
			b.WriteByte(byte('0' + g))
		}
		last = g
	}
	c.CoverN("switches between goroutines", switches)
	c.CoverN("observed steps", int(clock.Load()))
	c.Distinct(b.String())
	if len(c.Input) < 600 {
		c.Sample(c.Input)
	}
}

func init() {
	register(&Prop{
		ID:   "P21",
		Rule: "a walked tree counts by its shape",
		Groups: []Group{
			{Name: "documents", Quick: 3000, Thorough: 100000, Run: func(c *Case) { walkCase(c, genDocument(c, 60)) }},
			{Name: "any", Quick: 6000, Thorough: 200000, Run: func(c *Case) { walkCase(c, anyText(c, 60)) }},
			{Name: "edited while walking", Quick: 6000, Thorough: 200000, Run: func(c *Case) { editWalk(c, anyText(c, 30)) }},
		},
	})
	register(&Prop{
		ID:   "P25",
		Rule: "a concurrent run counts by the order in which its goroutines took their steps",
		Groups: []Group{
			{Name: "parallel", Serial: true, Quick: 150, Thorough: 4000, Run: parallelCase},
			{Name: "cold start", Serial: true, Quick: 24, Thorough: 600, Run: coldCase},
		},
		Assumptions: []string{
			"the race detector sees the interleavings that happened; their number is reported",
			"a source that is edited is used by one goroutine at a time",
		},
	})
	register(&Prop{
		ID:   "P28",
		Rule: "a history of set operations counts by itself; the classification counts by the kind",
		Groups: []Group{
			{Name: "sets", Quick: 4000, Thorough: 100000, Run: setCase},
			{Name: "kinds", Quick: 1, Thorough: 1, Run: kindCase},
		},
	})
	register(&Prop{
		ID:     "P26",
		Rule:   "a sequence of scanner operations counts by itself with its text",
		Groups: []Group{{Name: "operations", Quick: 60000, Thorough: 2000000, Run: scannerCase}},
	})
}
