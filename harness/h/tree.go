package main

import (
	"fmt"
	"strings"

	"github.com/mewmew/typast/typst/syntax"
)

// nodeKind returns the kind of a node, using exported fields only.
func nodeKind(n *syntax.SyntaxNode) syntax.SyntaxKind { return n.SyntaxKind() }

func children(n *syntax.SyntaxNode) []*syntax.SyntaxNode {
	if in, ok := n.Repr.(*syntax.InnerNode); ok {
		return in.Children
	}
	return nil
}

// leafText returns the text of a leaf or error node.
func leafText(n *syntax.SyntaxNode) (string, bool) {
	switch r := n.Repr.(type) {
	case *syntax.LeafNode:
		return r.Text, true
	case *syntax.ErrorNode:
		return r.Text, true
	}
	return "", false
}

func nodeSpan(n *syntax.SyntaxNode) syntax.Span {
	switch r := n.Repr.(type) {
	case *syntax.LeafNode:
		return r.Span
	case *syntax.ErrorNode:
		return r.Error.Span
	case *syntax.InnerNode:
		return r.Span
	}
	panic("harness: unknown repr")
}

// sourceText concatenates the text of all leaves.
func sourceText(n *syntax.SyntaxNode) string {
	var b strings.Builder
	var rec func(n *syntax.SyntaxNode)
	rec = func(n *syntax.SyntaxNode) {
		if t, ok := leafText(n); ok {
			b.WriteString(t)
			return
		}
		for _, c := range children(n) {
			rec(c)
		}
	}
	rec(n)
	return b.String()
}

// flat is one node of a flattened tree.
type flat struct {
	n          *syntax.SyntaxNode
	kind       syntax.SyntaxKind
	start, end int
	parent     int // index into the flat list, -1 for the root
	depth      int
	last       int // index of the last descendant (itself if none)
	leaf       bool
}

// flatten lists all nodes in preorder with byte offsets computed from leaf
// texts alone.
func flatten(root *syntax.SyntaxNode) []flat {
	var out []flat
	var rec func(n *syntax.SyntaxNode, parent, depth, off int) int
	rec = func(n *syntax.SyntaxNode, parent, depth, off int) int {
		i := len(out)
		out = append(out, flat{n: n, kind: nodeKind(n), start: off, parent: parent, depth: depth})
		end := off
		if t, ok := leafText(n); ok {
			out[i].leaf = true
			end = off + len(t)
		} else {
			for _, c := range children(n) {
				end = rec(c, i, depth+1, end)
			}
		}
		out[i].end = end
		out[i].last = len(out) - 1
		return end
	}
	rec(root, -1, 0, 0)
	return out
}

// sexp renders a tree without spans.
func sexp(n *syntax.SyntaxNode) string {
	var b strings.Builder
	var rec func(n *syntax.SyntaxNode)
	rec = func(n *syntax.SyntaxNode) {
		switch r := n.Repr.(type) {
		case *syntax.LeafNode:
			fmt.Fprintf(&b, "%d%q", r.Kind, r.Text)
		case *syntax.ErrorNode:
			fmt.Fprintf(&b, "!%q{%s|%s}", r.Text, r.Error.Message, strings.Join(r.Error.Hints, ";"))
		case *syntax.InnerNode:
			fmt.Fprintf(&b, "(%d", r.Kind)
			for _, c := range r.Children {
				b.WriteByte(' ')
				rec(c)
			}
			b.WriteByte(')')
		}
	}
	rec(n)
	return b.String()
}

// pretty renders a tree with kind names, for messages.
func pretty(n *syntax.SyntaxNode) string {
	var b strings.Builder
	var rec func(n *syntax.SyntaxNode)
	rec = func(n *syntax.SyntaxNode) {
		switch r := n.Repr.(type) {
		case *syntax.LeafNode:
			fmt.Fprintf(&b, "%s%q", strings.ReplaceAll(r.Kind.Name(), " ", "-"), r.Text)
		case *syntax.ErrorNode:
			fmt.Fprintf(&b, "ERROR%q{%s}", r.Text, r.Error.Message)
		case *syntax.InnerNode:
			fmt.Fprintf(&b, "(%s", strings.ReplaceAll(r.Kind.Name(), " ", "-"))
			for _, c := range r.Children {
				b.WriteByte(' ')
				rec(c)
			}
			b.WriteByte(')')
		}
	}
	rec(n)
	return b.String()
}

// shape is the sequence of kinds with nesting, used to count distinct trees.
func shape(n *syntax.SyntaxNode) string {
	var b strings.Builder
	var rec func(n *syntax.SyntaxNode)
	rec = func(n *syntax.SyntaxNode) {
		b.WriteByte(byte(nodeKind(n)))
		if cs := children(n); len(cs) > 0 {
			b.WriteByte('(')
			for _, c := range cs {
				rec(c)
			}
			b.WriteByte(')')
		}
	}
	rec(n)
	return b.String()
}

// checkBookkeeping recomputes the cached facts of every inner node. It returns
// an empty string if they are right.
func checkBookkeeping(root *syntax.SyntaxNode) string {
	msg := ""
	var rec func(n *syntax.SyntaxNode) (length, desc uint, err bool)
	rec = func(n *syntax.SyntaxNode) (uint, uint, bool) {
		switch r := n.Repr.(type) {
		case *syntax.LeafNode:
			return uint(len(r.Text)), 1, false
		case *syntax.ErrorNode:
			return uint(len(r.Text)), 1, true
		case *syntax.InnerNode:
			var l, d uint
			d = 1
			e := false
			for _, c := range r.Children {
				cl, cd, ce := rec(c)
				l += cl
				d += cd
				e = e || ce
			}
			if msg == "" {
				if r.Len != l {
					msg = fmt.Sprintf("%s node says it is %d bytes long, its leaves hold %d", r.Kind.Name(), r.Len, l)
				}
				if r.Descendants != d {
					msg = fmt.Sprintf("%s node counts %d nodes in its subtree, there are %d", r.Kind.Name(), r.Descendants, d)
				}
				if r.Erroneous != e {
					msg = fmt.Sprintf("%s node has erroneous=%v, but containing an error is %v", r.Kind.Name(), r.Erroneous, e)
				}
			}
			return l, d, e
		}
		msg = "node without representation"
		return 0, 0, false
	}
	rec(root)
	return msg
}

func countErrors(root *syntax.SyntaxNode) int {
	n := 0
	for _, f := range flatten(root) {
		if f.kind == syntax.SyntaxKindError {
			n++
		}
	}
	return n
}
