//go:build verifshim_tags

package syntax

// VerifTags gives the class and the TextMate scope of every node of a tree, in
// preorder; both are empty for a node without a tag.
func VerifTags(root *SyntaxNode) [][2]string {
	var out [][2]string
	var rec func(l *LinkedNode)
	rec = func(l *LinkedNode) {
		var e [2]string
		if tag, ok := highlight(l); ok {
			e = [2]string{tag.css_class(), tag.tm_scope()}
		}
		out = append(out, e)
		for _, c := range l.children().Children() {
			rec(c)
		}
	}
	rec(NewLinkedNode(root))
	return out
}
