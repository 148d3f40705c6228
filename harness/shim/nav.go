//go:build verifshim

package syntax

// This file is laid over the package by /verif/check. It only forwards to the
// package's own functions, so that the monitors can observe navigation and
// highlighting, which the package does not export.

// VerifLink wraps a linked node.
type VerifLink struct{ l *LinkedNode }

func verifLink(l *LinkedNode, ok bool) *VerifLink {
	if !ok {
		return nil
	}
	return &VerifLink{l}
}

func VerifRoot(root *SyntaxNode) *VerifLink { return &VerifLink{NewLinkedNode(root)} }

func (v *VerifLink) Node() *SyntaxNode { return v.l.node }
func (v *VerifLink) Index() uint       { return v.l.index }
func (v *VerifLink) Offset() uint      { return v.l.offset }
func (v *VerifLink) Range() (uint64, uint64) {
	r := v.l.Range()
	return r.Start, r.End
}
func (v *VerifLink) Parent() *VerifLink { return verifLink(v.l.parent.Get()) }
func (v *VerifLink) Children() []*VerifLink {
	var out []*VerifLink
	for _, c := range v.l.children().Children() {
		out = append(out, &VerifLink{c})
	}
	return out
}
func (v *VerifLink) RevChildren() []*VerifLink {
	var out []*VerifLink
	for _, c := range v.l.children().RevChildren() {
		out = append(out, &VerifLink{c})
	}
	return out
}
func (v *VerifLink) Find(s Span) *VerifLink              { return verifLink(v.l.find(s)) }
func (v *VerifLink) PrevSibling() *VerifLink             { return verifLink(v.l.prev_sibling()) }
func (v *VerifLink) NextSibling() *VerifLink             { return verifLink(v.l.next_sibling()) }
func (v *VerifLink) ParentKind() (SyntaxKind, bool)      { return v.l.parent_kind() }
func (v *VerifLink) PrevSiblingKind() (SyntaxKind, bool) { return v.l.prev_sibling_kind() }
func (v *VerifLink) NextSiblingKind() (SyntaxKind, bool) { return v.l.next_sibling_kind() }
func (v *VerifLink) PrevLeaf() *VerifLink                { return verifLink(v.l.prev_leaf()) }
func (v *VerifLink) NextLeaf() *VerifLink                { return verifLink(v.l.next_leaf()) }
func (v *VerifLink) LeftmostLeaf() *VerifLink            { return verifLink(v.l.leftmost_leaf()) }
func (v *VerifLink) RightmostLeaf() *VerifLink           { return verifLink(v.l.rightmost_leaf()) }
func (v *VerifLink) LeafAt(cursor uint, before bool) *VerifLink {
	if before {
		return verifLink(v.l.leaf_at(cursor, SideBefore))
	}
	return verifLink(v.l.leaf_at(cursor, SideAfter))
}

// VerifErrors returns the errors of a tree.
func VerifErrors(root *SyntaxNode) []*SyntaxError { return root.errors() }
