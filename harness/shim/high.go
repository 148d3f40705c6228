//go:build verifshim

package syntax

// VerifHighlight highlights a tree as HTML.
func VerifHighlight(root *SyntaxNode) string { return highlight_html(root) }
