From 0eca419b19c9ae7fcd124c2021f556929cd18087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:51 +0000
Subject: [PATCH 01/58] fix: keep the exact source text when an inner node
 becomes an error

---
 typst/syntax/node.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 97edac2..be06ccf 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -162,10 +162,7 @@ func (node *SyntaxNode) into_text() string {
 		return repr.Text
 	case *InnerNode:
 		buf := &strings.Builder{}
-		for i, child := range repr.Children {
-			if i != 0 {
-				buf.WriteString(" ")
-			}
+		for _, child := range repr.Children {
 			buf.WriteString(child.into_text())
 		}
 		return buf.String()
-- 
2.43.0


From b8a4661f71aedeb79aed98d51a446d7052cca650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:56 +0000
Subject: [PATCH 02/58] fix: lex a minus sign as minus unless an equals sign
 follows

---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 3dd18f8..5443436 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -942,7 +942,7 @@ func (lexer *Lexer) code(start uint, c rune) SyntaxKind {
 		return SyntaxKindGtEq
 	case c == '+' && lexer.s.EatIf("="):
 		return SyntaxKindPlusEq
-	case c == '-' || c == '\u2212' && lexer.s.EatIf("="):
+	case (c == '-' || c == '\u2212') && lexer.s.EatIf("="):
 		return SyntaxKindHyphEq
 	case c == '*' && lexer.s.EatIf("="):
 		return SyntaxKindStarEq
-- 
2.43.0


From 940411eecb9aaf0ef5fda3ea22a7c3d4395143f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 03/58] fix: treat U+FFFD in the text as an ordinary character
 boundary

---
 internal/stdx/stdx.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/stdx/stdx.go b/internal/stdx/stdx.go
index cb44739..996cda9 100644
--- a/internal/stdx/stdx.go
+++ b/internal/stdx/stdx.go
@@ -22,8 +22,7 @@ func IsCharBoundary(str string, index uint) bool {
 	if index == 0 || index == uint(len(str)) {
 		return true
 	}
-	c, _ := utf8.DecodeRuneInString(str[index:])
-	return c != utf8.RuneError
+	return index < uint(len(str)) && utf8.RuneStart(str[index])
 }
 
 // IsWhitespace reports whether the given character has the White_Space
-- 
2.43.0


From 7e96335f15d64e76fb1e0fb145a8a9410e695407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 04/58] fix: look at the remaining children when recomputing
 erroneousness

---
 typst/syntax/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index be06ccf..57dce84 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -655,12 +655,12 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 		}
 	}
 	if node.Erroneous {
-		for _, c := range node.Children[:replacement_range.Start] {
+		for _, c := range node.Children[:_range.Start] {
 			if c.erroneous() {
 				erroneous = true
 			}
 		}
-		for _, c := range node.Children[replacement_range.End:] {
+		for _, c := range node.Children[_range.End:] {
 			if c.erroneous() {
 				erroneous = true
 			}
-- 
2.43.0


From b4fff1e700b2a8f5e877e7a7d5624837a5546b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:06 +0000
Subject: [PATCH 05/58] fix: make incremental reparsing and renumbering act on
 success, not failure

---
 typst/syntax/node.go     | 8 +++++---
 typst/syntax/reparser.go | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 57dce84..ade0ec1 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -328,7 +328,7 @@ func (node *SyntaxNode) numberize(id FileID, within ranges.Range) error {
 	case *LeafNode:
 		repr.Span = mid
 	case *InnerNode:
-		repr.numberize(id, option.None[ranges.Range](), within)
+		return repr.numberize(id, option.None[ranges.Range](), within)
 	case *ErrorNode:
 		repr.Error.Span = mid
 	}
@@ -568,7 +568,9 @@ func (node *InnerNode) numberize(id FileID, _range option.Option[ranges.Range],
 	}
 	for _, child := range node.Children[_range_start:_range_end] {
 		end := start + uint64(child.descendants())*stride
-		child.numberize(id, ranges.NewRange(start, end))
+		if err := child.numberize(id, ranges.NewRange(start, end)); err != nil {
+			return err
+		}
 		start = end
 	}
 
@@ -713,7 +715,7 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 
 		// Try to renumber.
 		within := ranges.NewRange(start_number, end_number)
-		if node.numberize(id, option.Some(renumber), within) != nil {
+		if node.numberize(id, option.Some(renumber), within) == nil {
 			return nil
 		}
 
diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 1fce5d7..168a856 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -81,8 +81,9 @@ func try_reparse(
 			if child.kind().IsBlock() {
 				if newborn, ok := reparse_block(text, new_range).Get(); ok {
 					if err := node.replace_children(ranges.NewRange(uint64(i), uint64(i+1)), []*SyntaxNode{newborn}); err != nil {
-						return option.Some(new_range)
+						return option.None[ranges.Range]()
 					}
+					return option.Some(new_range)
 				}
 			}
 		}
@@ -111,7 +112,7 @@ func try_reparse(
 	if node.kind() != SyntaxKindMarkup {
 		return option.None[ranges.Range]()
 	}
-	if kind, ok := parent_kind.Get(); !ok || ok && kind == SyntaxKindContentBlock {
+	if kind, ok := parent_kind.Get(); ok && kind != SyntaxKindContentBlock {
 		return option.None[ranges.Range]()
 	}
 
-- 
2.43.0


From 9279309c3b0b4466135a9b5131c7d4be7f128408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 06/58] fix: give nodes reached backwards their own start
 offset

---
 typst/syntax/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index ade0ec1..a19b93b 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -1199,8 +1199,8 @@ func (l *LinkedChildren) RevChildren() iter.Seq2[int, *LinkedNode] {
 	return func(yield func(int, *LinkedNode) bool) {
 		for index := len(l._children) - 1; index >= 0; index-- {
 			child := l._children[index]
-			offset := l.back
 			l.back -= child.len()
+			offset := l.back
 			link := &LinkedNode{
 				node:   child,
 				parent: option.Some(l.parent.clone()),
-- 
2.43.0


From 12c050a10b7125f12c4f0fabe00b27ee7626a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:44 +0000
Subject: [PATCH 07/58] fix: stop the common prefix and suffix at the first
 difference

---
 typst/syntax/lines.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 9e1e829..c441935 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -228,10 +228,8 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 
 	n := min(len(old), len(new))
 	prefix := 0
-	for i := 0; i < n; i++ {
-		if old[i] == new[i] {
-			prefix++
-		}
+	for prefix < n && old[prefix] == new[prefix] {
+		prefix++
 	}
 
 	for !stdx.IsCharBoundary(old, uint(prefix)) || !stdx.IsCharBoundary(new, uint(prefix)) {
@@ -240,13 +238,14 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 
 	suffix := 0
 	for i, j := len(old)-1, len(new)-1; i >= prefix && j >= prefix; i, j = i-1, j-1 {
-		if old[i] == new[j] {
-			suffix++
+		if old[i] != new[j] {
+			break
 		}
+		suffix++
 	}
 
 	for !stdx.IsCharBoundary(old, uint(len(old)-suffix)) || !stdx.IsCharBoundary(new, uint(len(new)-suffix)) {
-		suffix++
+		suffix--
 	}
 
 	return ReplacementRange{
-- 
2.43.0


From 8bfdb1c230139e4f6ad013194816004596ca1786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:50 +0000
Subject: [PATCH 08/58] fix: recompute line starts next to a carriage return
 when editing

---
 typst/syntax/lines.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index c441935..18068ea 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -274,9 +274,13 @@ func (l *Lines) Edit(replace ranges.Range, with string) {
 	// Remove invalidated line starts.
 	l.Lines = l.Lines[:line+1]
 
-	// Handle adjoining of \r and \n.
-	if strings.HasSuffix(l.Text[:startByte], "\r") && strings.HasPrefix(with, "\n") {
-		l.Lines = l.Lines[:len(l.Lines)-1]
+	// Handle adjoining (or separation) of \r and \n by starting at the \r.
+	if strings.HasSuffix(l.Text[:startByte], "\r") {
+		startByte--
+		startUtf16--
+		if l.Lines[line].ByteIdx > startByte {
+			l.Lines = l.Lines[:line]
+		}
 	}
 
 	// Recalculate the line starts after the edit.
-- 
2.43.0


From 1da92e63d5eb6aa1c14ccf5c51c4951131f0879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:55 +0000
Subject: [PATCH 09/58] fix: reject huge byte, line and column indices as out
 of bounds

---
 typst/syntax/lines.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 18068ea..4404bb0 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -73,7 +73,7 @@ func (l *Lines) ByteToUtf16(byteIdx uint) (uint, bool) {
 //
 // It returns false if the byte index is out of bounds.
 func (l *Lines) ByteToLine(byteIdx uint) (uint, bool) {
-	if int(byteIdx) > len(l.Text) {
+	if byteIdx > uint(len(l.Text)) {
 		return 0, false
 	}
 	i := sort.Search(len(l.Lines), func(i int) bool {
@@ -152,7 +152,7 @@ func (l *Lines) Utf16ToByte(utf16Idx uint) (uint, bool) {
 //
 // It returns false if the line index is out of bounds.
 func (l *Lines) LineToByte(lineIdx uint) (uint, bool) {
-	if int(lineIdx) >= len(l.Lines) {
+	if lineIdx >= uint(len(l.Lines)) {
 		return 0, false
 	}
 	return l.Lines[lineIdx].ByteIdx, true
@@ -184,7 +184,7 @@ func (l *Lines) LineColumnToByte(lineIdx uint, columnIdx uint) (uint, bool) {
 	}
 	line := l.Text[r.Start:r.End]
 	chars := []rune(line)
-	if int(columnIdx) > len(chars) {
+	if columnIdx > uint(len(chars)) {
 		return 0, false
 	}
 	head := string(chars[:columnIdx])
-- 
2.43.0


From 7b0b429bc4535fcd3f8dd43baaeb5cd3837941c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 10/58] fix: saturate raw span ranges at the largest value that
 fits

---
 typst/syntax/span.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/span.go b/typst/syntax/span.go
index e478289..0c38b0a 100644
--- a/typst/syntax/span.go
+++ b/typst/syntax/span.go
@@ -36,7 +36,7 @@ const (
 	rangePartShift = rangePartBits
 	rangePartMask  = (uint64(1) << rangePartBits) - 1
 	spanDetached   = 1
-	maxRangePart   = uint64(1) << rangePartBits
+	maxRangePart   = rangePartMask
 )
 
 var (
@@ -61,7 +61,7 @@ func NewSpanFromNumber(id FileID, number uint64) (Span, bool) {
 }
 
 // NewSpanFromRange creates a new span from a raw byte range.
-// If a range part exceeds the maximum value (2^23), it is saturated.
+// If a range part exceeds the maximum value (2^23-1), it is saturated.
 func NewSpanFromRange(id FileID, byteRange ranges.Range) Span {
 	start := min(byteRange.Start, maxRangePart)
 	end := min(byteRange.End, maxRangePart)
-- 
2.43.0


From 3f516b05b2f63514ffa0849330196b6850764720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 11/58] fix: give equal file specifications the same file ID

---
 typst/syntax/file.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/typst/syntax/file.go b/typst/syntax/file.go
index 7e11d17..1a18caf 100644
--- a/typst/syntax/file.go
+++ b/typst/syntax/file.go
@@ -12,13 +12,13 @@ import (
 
 // interner is the global package-path interner.
 var interner = &Interner{
-	toID:   make(map[Pair]FileID),
+	toID:   make(map[pairKey]FileID),
 	fromID: nil,
 }
 
 // Interner is a package-path interner.
 type Interner struct {
-	toID   map[Pair]FileID
+	toID   map[pairKey]FileID
 	fromID []Pair // maps from id-1 to Pair (since id is NonZero).
 
 	sync.RWMutex
@@ -30,6 +30,22 @@ type Pair struct {
 	VPath *VirtualPath
 }
 
+// pairKey holds the contents of a Pair, by which it is interned.
+type pairKey struct {
+	Spec    PackageSpec
+	HasSpec bool
+	Path    string
+}
+
+// key returns the interning key of the pair.
+func (pair Pair) key() pairKey {
+	key := pairKey{Path: pair.VPath.Path}
+	if spec, ok := pair.Spec.Get(); ok {
+		key.Spec, key.HasSpec = *spec, true
+	}
+	return key
+}
+
 // FileID identifies a file in a project or package.
 //
 // This type is globally interned and thus cheap to copy, compare, and hash.
@@ -43,10 +59,12 @@ func NewFileID(spec option.Option[*PackageSpec], vpath *VirtualPath) FileID {
 	pair := Pair{Spec: spec, VPath: vpath}
 	interner.Lock()
 	defer interner.Unlock()
-	if id, ok := interner.toID[pair]; ok {
+	if id, ok := interner.toID[pair.key()]; ok {
 		return id
 	}
-	return pushPair(pair)
+	id := pushPair(pair)
+	interner.toID[pair.key()] = id
+	return id
 }
 
 // pushPair creates a new entry forever.
@@ -58,11 +76,6 @@ func pushPair(pair Pair) FileID {
 		panic("out of file ids") // uint16 overflow
 	}
 	id := FileID(num)
-	if _, ok := pair.Spec.Get(); ok {
-		// only add pair to map if spec exists (i.e. not a "fake" file
-		// specification)
-		interner.toID[pair] = id
-	}
 	interner.fromID = append(interner.fromID, pair)
 	return id
 }
-- 
2.43.0


From 81a70fc99a7c1a00bc47c251963b380b55c16208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:52 +0000
Subject: [PATCH 12/58] fix: root and normalize virtual paths

---
 typst/syntax/path.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/path.go b/typst/syntax/path.go
index 0423ab4..ae5fb2f 100644
--- a/typst/syntax/path.go
+++ b/typst/syntax/path.go
@@ -14,12 +14,15 @@ type VirtualPath struct {
 // starting from the root.
 func NewVirtualPath(path string) *VirtualPath {
 	return &VirtualPath{
-		Path: path,
+		Path: filepath.Join("/", path),
 	}
 }
 
 // Join resolves a path relative to this virtual path.
 func (vpath *VirtualPath) Join(path string) *VirtualPath {
+	if filepath.IsAbs(path) {
+		return NewVirtualPath(path)
+	}
 	dir := filepath.Dir(vpath.Path)
 	new_path := filepath.Join(dir, path)
 	return NewVirtualPath(new_path)
-- 
2.43.0


From b41b806969dbdb77577dcfd9e7f79918685760ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:21 +0000
Subject: [PATCH 13/58] fix: reject package manifests without a package section

---
 typst/syntax/package.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typst/syntax/package.go b/typst/syntax/package.go
index 329f1a6..67a01d6 100644
--- a/typst/syntax/package.go
+++ b/typst/syntax/package.go
@@ -35,6 +35,9 @@ func ParsePackageManifestFromToml(content string) (*PackageManifest, error) {
 	if err := toml.Unmarshal([]byte(content), manifest); err != nil {
 		return nil, errors.WithStack(err)
 	}
+	if manifest.Pkg == nil {
+		return nil, errors.New("package manifest is missing the package section")
+	}
 	return manifest, nil
 }
 
-- 
2.43.0


From 854a2004479c1cb65cb4655cb65297642eef1665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 14/58] fix: do not crash when casting a node that is not an
 expression

---
 typst/syntax/ast.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index a821d67..13ed6c2 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -134,6 +134,7 @@ func SyntaxNode_cast[T AstNode](node *SyntaxNode) option.Option[T] {
 		if expr, ok := Expr_from_untyped(node).Get(); ok {
 			return option.Some[T](expr.(T))
 		}
+		return option.None[T]()
 	}
 	if _n, ok := zero.from_untyped(node).Get(); ok {
 		n := _n.(T)
-- 
2.43.0


From e95d51a921ab2176d1810e0072346a716d574058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 15/58] fix: do not copy the tree when navigating it

---
 typst/syntax/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index a19b93b..9087b7e 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -939,8 +939,8 @@ func (link *LinkedNode) find(span Span) (*LinkedNode, bool) {
 
 func (link *LinkedNode) clone() *LinkedNode {
 	return &LinkedNode{
-		node:   link.node.clone(),
-		parent: link.parent.Clone(), // TODO: implement deep clone?
+		node:   link.node, // NOTE: shared; the tree itself is not copied.
+		parent: link.parent.Clone(),
 		index:  link.index,
 		offset: link.offset,
 	}
-- 
2.43.0


From 0a21dbffd1ab93fa25cac22e19bc9a9990d2094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 16/58] fix: see line breaks inside unclosed nodes and keep
 hashes with their expressions when reparsing

---
 typst/syntax/reparser.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 168a856..5b06502 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -131,8 +131,8 @@ func try_reparse(
 			start--
 		}
 
-		// Expand to the right.
-		for end < uint(len(children)) && expand(children[end]) {
+		// Expand to the right. A hash is kept together with its expression.
+		for end < uint(len(children)) && (children[end-1].kind() == SyntaxKindHash || expand(children[end])) {
 			end++
 		}
 
@@ -242,11 +242,32 @@ func next_at_start(node *SyntaxNode, at_start *bool) {
 		if kind == SyntaxKindParbreak || (kind == SyntaxKindSpace && any_(node.text(), isNewline)) {
 			*at_start = true
 		}
-	} else {
-		*at_start = false
+	} else if node.len() > 0 {
+		// An unclosed node may hold the trivia that follows it.
+		*at_start = ends_in_new_line(node)
 	}
 }
 
+// Whether the trivia at the end of the node contains a newline.
+func ends_in_new_line(node *SyntaxNode) bool {
+	children := node.children()
+	for i := len(children) - 1; i >= 0; i-- {
+		child := children[i]
+		if child.len() == 0 {
+			continue
+		}
+		if !child.kind().IsTrivia() {
+			return ends_in_new_line(child)
+		}
+		at_start := false
+		next_at_start(child, &at_start)
+		if at_start {
+			return true
+		}
+	}
+	return false
+}
+
 // Update `nesting` based on the node.
 func next_nesting(node *SyntaxNode, nesting *uint) {
 	if node.kind() == SyntaxKindText {
-- 
2.43.0


From dd89f5000203c0d670bf7fb99c79cb6f8cfb9977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 17/58] fix: reparse everything when an earlier embedded string
 lacks its closing quote

---
 typst/syntax/reparser.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 5b06502..cec661d 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -22,8 +22,10 @@ func reparse(
 	replaced ranges.Range,
 	replacement_len uint,
 ) ranges.Range {
-	if r, ok := try_reparse(text, replaced, replacement_len, option.None[SyntaxKind](), root, 0).Get(); ok {
-		return r
+	if !awaits_quote(root, 0, uint(replaced.Start)) {
+		if r, ok := try_reparse(text, replaced, replacement_len, option.None[SyntaxKind](), root, 0).Get(); ok {
+			return r
+		}
 	}
 	id, ok := root.span().ID()
 	*root = *Parse(text)
@@ -35,6 +37,32 @@ func reparse(
 	return ranges.NewRange(0, uint64(len(text)))
 }
 
+// Whether a quote that ends incomplete embedded code before the given position
+// was read as markup for want of a closing quote, as in `#import "a.typ`. The
+// closing quote may appear anywhere after it, outside of the nodes which overlap
+// with the edit.
+func awaits_quote(node *SyntaxNode, offset, before uint) bool {
+	incomplete := false
+	for _, child := range node.children() {
+		if offset >= before {
+			break
+		}
+		if incomplete && child.kind() == SyntaxKindSmartQuote && child.text() == "\"" {
+			return true
+		}
+		if child.erroneous() {
+			if awaits_quote(child, offset, before) {
+				return true
+			}
+			incomplete = true
+		} else if !child.kind().IsTrivia() && child.len() > 0 {
+			incomplete = false
+		}
+		offset += child.len()
+	}
+	return false
+}
+
 // Try to reparse inside the given node.
 func try_reparse(
 	text string,
-- 
2.43.0


From 8f27df552ec388356ff140e4ea343dd36a2b18e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 18/58] fix: consume one character, not a run, where one is
 asked for

---
 internal/scanner/scanner.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/internal/scanner/scanner.go b/internal/scanner/scanner.go
index 10447c0..ecdb5c1 100644
--- a/internal/scanner/scanner.go
+++ b/internal/scanner/scanner.go
@@ -227,28 +227,20 @@ func (s *Scanner) EatIf(pattern string) bool {
 	return true
 }
 
-// EatIfFunc consumes the given pattern (a sequence of characters that satisfy
-// cond) if that's what's right after the cursor.
+// EatIfFunc consumes the given pattern (one character that satisfies cond) if
+// that's what's right after the cursor.
 //
 // Returns true if the pattern was consumed.
 func (s *Scanner) EatIfFunc(cond func(rune) bool) bool {
-	after := s.After()
-	n := 0
-	for _, c := range after {
-		if !cond(c) {
-			break
-		}
-		n += utf8.RuneLen(c)
-	}
-	if n == 0 {
+	if !s.AtFunc(cond) {
 		return false
 	}
-	s.cursor += uint(n)
+	s.Eat()
 	return true
 }
 
-// EatIfAny consumes the given pattern (a sequence of any of the given
-// characters) if that's what's right after the cursor.
+// EatIfAny consumes the given pattern (any one of the given characters) if
+// that's what's right after the cursor.
 //
 // Returns true if the pattern was consumed.
 func (s *Scanner) EatIfAny(valid []rune) bool {
-- 
2.43.0


From 120a97cb0d5e6d1dabd914afad99789d6b29fc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 19/58] fix: lex a trailing dot at the end of the text as part
 of the number

---
 typst/syntax/lexer.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 5443436..a2b5510 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -1044,12 +1044,10 @@ func (lexer *Lexer) number(start uint, first_c rune) SyntaxKind {
 		if first_c == '.' {
 			is_float = true // We already ate the trailing digits above.
 		} else if !lexer.s.At("..") {
-			if c, ok := lexer.s.Scout(1); ok {
-				if !is_id_start(c) {
-					if lexer.s.EatIf(".") {
-						is_float = true
-						lexer.s.EatWhileFunc(stdx.IsAsciiDigit)
-					}
+			if c, ok := lexer.s.Scout(1); !ok || !is_id_start(c) {
+				if lexer.s.EatIf(".") {
+					is_float = true
+					lexer.s.EatWhileFunc(stdx.IsAsciiDigit)
 				}
 			}
 		}
-- 
2.43.0


From 33b89f067e4badb618638785f29521017093f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 20/58] fix: accept floating point numbers outside of the
 representable range

---
 typst/syntax/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index a2b5510..c05a618 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -1436,7 +1436,8 @@ func GraphemeLen(str string) (int, bool) {
 
 func valid_float(str string) bool {
 	_, err := strconv.ParseFloat(str, 64)
-	return err == nil
+	// A number that is too large is still a number.
+	return err == nil || errors.Is(err, strconv.ErrRange)
 }
 
 func valid_uint(str string) bool {
-- 
2.43.0


From 690302280f75045896c499363eab199d65762343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 21/58] fix: name the invalid character itself in the error
 message

---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index c05a618..6134234 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -994,7 +994,7 @@ func (lexer *Lexer) code(start uint, c rune) SyntaxKind {
 		return lexer.ident(start)
 
 	default:
-		return lexer.error(fmt.Sprintf("the character `%v` is not valid in code", c))
+		return lexer.error(fmt.Sprintf("the character `%c` is not valid in code", c))
 	}
 }
 
-- 
2.43.0


From b6ee87e284b69a4e0cb566380422797e246bbb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 22/58] fix: include the other set in a union of syntax kinds

---
 typst/syntax/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/set.go b/typst/syntax/set.go
index 0e9bf7b..b2a2f5c 100644
--- a/typst/syntax/set.go
+++ b/typst/syntax/set.go
@@ -34,7 +34,7 @@ func (set *SyntaxSet) Add(kind SyntaxKind) *SyntaxSet {
 // The original set is not modified.
 func (set *SyntaxSet) Union(other *SyntaxSet) *SyntaxSet {
 	clone := set.Clone()
-	clone.b.Union(other.b)
+	clone.b.InPlaceUnion(other.b)
 	return clone
 }
 
-- 
2.43.0


From c6af29d8addbc9ff4c6a84b93c03e116db64eb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 23/58] fix: look past whitespace text for an embedded string
 without its closing quote

---
 typst/syntax/reparser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index cec661d..76f0c25 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/mewmew/typast/internal/option"
 	"github.com/mewmew/typast/internal/ranges"
+	"github.com/mewmew/typast/internal/stdx"
 )
 
 // Refresh the given syntax node with as little parsing as possible.
@@ -55,6 +56,8 @@ func awaits_quote(node *SyntaxNode, offset, before uint) bool {
 				return true
 			}
 			incomplete = true
+		} else if child.kind() == SyntaxKindText && all(child.text(), stdx.IsWhitespace) {
+			// Some whitespace is trivia in code, but text in markup.
 		} else if !child.kind().IsTrivia() && child.len() > 0 {
 			incomplete = false
 		}
-- 
2.43.0


From f86249bcd5399348df16c763035a67e1144f96eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 24/58] fix: reparse the list item that follows an edited
 comment on its line

---
 typst/syntax/reparser.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 76f0c25..38fdd31 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -162,8 +162,9 @@ func try_reparse(
 			start--
 		}
 
-		// Expand to the right. A hash is kept together with its expression.
-		for end < uint(len(children)) && (children[end-1].kind() == SyntaxKindHash || expand(children[end])) {
+		// Expand to the right. A hash is kept together with its expression, and
+		// a comment with the item after it, as it shifts the item's column.
+		for end < uint(len(children)) && (children[end-1].kind() == SyntaxKindHash || expand(children[end]) || is_shifted_item(children[end-1], children[end])) {
 			end++
 		}
 
@@ -265,6 +266,18 @@ func expand(node *SyntaxNode) bool {
 	return false
 }
 
+// Whether the node is an item of a list, which is delimited by indentation, and
+// has the previous node on its line.
+func is_shifted_item(prev, node *SyntaxNode) bool {
+	switch node.kind() {
+	case SyntaxKindListItem, SyntaxKindEnumItem, SyntaxKindTermItem:
+		at_start := false
+		next_at_start(prev, &at_start)
+		return !at_start
+	}
+	return false
+}
+
 // Whether `at_start` would still be true after this node given the
 // previous value of the property.
 func next_at_start(node *SyntaxNode, at_start *bool) {
-- 
2.43.0


From 04905320bc971648c77b75b9bb032627ccd962e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:16 +0000
Subject: [PATCH 25/58] fix: reject package manifests without a required field

---
 typst/syntax/package.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/typst/syntax/package.go b/typst/syntax/package.go
index 67a01d6..0197530 100644
--- a/typst/syntax/package.go
+++ b/typst/syntax/package.go
@@ -38,9 +38,37 @@ func ParsePackageManifestFromToml(content string) (*PackageManifest, error) {
 	if manifest.Pkg == nil {
 		return nil, errors.New("package manifest is missing the package section")
 	}
+	if err := checkRequiredFields(content); err != nil {
+		return nil, errors.WithStack(err)
+	}
 	return manifest, nil
 }
 
+// checkRequiredFields ensures that the sections of the manifest have the fields
+// without which they are incomplete.
+func checkRequiredFields(content string) error {
+	var sections struct {
+		Pkg      map[string]any `toml:"package"`
+		Template map[string]any `toml:"template"`
+	}
+	if err := toml.Unmarshal([]byte(content), &sections); err != nil {
+		return errors.WithStack(err)
+	}
+	for _, field := range []string{"name", "version", "entrypoint"} {
+		if _, ok := sections.Pkg[field]; !ok {
+			return errors.Errorf("package section of package manifest is missing field %q", field)
+		}
+	}
+	if sections.Template != nil {
+		for _, field := range []string{"path", "entrypoint"} {
+			if _, ok := sections.Template[field]; !ok {
+				return errors.Errorf("template section of package manifest is missing field %q", field)
+			}
+		}
+	}
+	return nil
+}
+
 // The `[tool]` key in the manifest. This field can be used to retrieve
 // 3rd-party tool configuration.
 type ToolInfo struct {
-- 
2.43.0


From 6f4114fa3a311740d671683061442feac4129adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 26/58] fix: do not crash when highlighting a hash before
 something that is not an expression

---
 typst/syntax/highlight.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/highlight.go b/typst/syntax/highlight.go
index ab523bb..af416ae 100644
--- a/typst/syntax/highlight.go
+++ b/typst/syntax/highlight.go
@@ -572,8 +572,8 @@ func highlight_hash(node *LinkedNode) (Tag, bool) {
 	if !ok {
 		return 0, false
 	}
-	expr := SyntaxNode_cast[Expr](next.node).MustGet()
-	if !Expr_hash(expr) {
+	expr, ok := SyntaxNode_cast[Expr](next.node).Get()
+	if !ok || !Expr_hash(expr) {
 		return 0, false
 	}
 	if left, ok := next.leftmost_leaf(); ok {
-- 
2.43.0


From fe0bf3b44067a50d1571f76c20a42ce5b052e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:54 +0000
Subject: [PATCH 27/58] fix: read string literals as Typst does and do not
 crash on invalid imports in the tools

---
 cmd/offline-typ/main.go | 34 ++++++++++++++--------------------
 cmd/update-typ/main.go  | 33 ++++++++++++++++++---------------
 typst/syntax/ast.go     | 12 +++++++++++-
 3 files changed, 43 insertions(+), 36 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 1cc30d2..9545e48 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -221,27 +221,17 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 			return true
 		}
 		for i, child := range inner.Children {
-			var leaf *syntax.LeafNode
-			switch n := child.Repr.(type) {
-			case *syntax.LeafNode:
-				leaf = n
-			case *syntax.InnerNode:
-				if n.Kind != syntax.SyntaxKindParenthesized {
-					continue
-				}
-				l, ok := findFirst(n.Children, syntax.SyntaxKindStr)
+			if n, ok := child.Repr.(*syntax.InnerNode); ok && n.Kind == syntax.SyntaxKindParenthesized {
+				child, ok = findFirst(n.Children, syntax.SyntaxKindStr)
 				if !ok {
 					continue
 				}
-				leaf = l.Repr.(*syntax.LeafNode)
 			}
-			if leaf.Kind != syntax.SyntaxKindStr {
+			str, ok := unquote(child)
+			if !ok {
 				continue
 			}
-			str, err := strconv.Unquote(leaf.Text)
-			if err != nil {
-				panic(err)
-			}
+			leaf := child.Repr.(*syntax.LeafNode)
 			switch inner.Kind {
 			case syntax.SyntaxKindModuleImport:
 				spec, err := syntax.ParsePackageSpec(str)
@@ -483,16 +473,20 @@ func findFirstStr(nodes []*syntax.SyntaxNode) (string, bool) {
 	if !ok {
 		return "", false
 	}
-	leaf, ok := node.Repr.(*syntax.LeafNode)
+	return unquote(node)
+}
+
+// unquote returns the value of the given node if it is a string literal.
+func unquote(node *syntax.SyntaxNode) (string, bool) {
+	expr, ok := syntax.SyntaxNode_cast[syntax.Expr](node).Get()
 	if !ok {
 		return "", false
 	}
-	text, err := strconv.Unquote(leaf.Text)
-	if err != nil {
-		// TODO: report error?
+	str, ok := expr.(*syntax.Str)
+	if !ok {
 		return "", false
 	}
-	return text, true
+	return str.Get(), true
 }
 
 // findFirst returns the first node of the given kind.
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 2364a47..49049b2 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -208,27 +208,17 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 			return true
 		}
 		for _, child := range inner.Children {
-			var leaf *syntax.LeafNode
-			switch n := child.Repr.(type) {
-			case *syntax.LeafNode:
-				leaf = n
-			case *syntax.InnerNode:
-				if n.Kind != syntax.SyntaxKindParenthesized {
-					continue
-				}
-				l, ok := findFirst(n.Children, syntax.SyntaxKindStr)
+			if n, ok := child.Repr.(*syntax.InnerNode); ok && n.Kind == syntax.SyntaxKindParenthesized {
+				child, ok = findFirst(n.Children, syntax.SyntaxKindStr)
 				if !ok {
 					continue
 				}
-				leaf = l.Repr.(*syntax.LeafNode)
 			}
-			if leaf.Kind != syntax.SyntaxKindStr {
+			str, ok := unquote(child)
+			if !ok {
 				continue
 			}
-			str, err := strconv.Unquote(leaf.Text)
-			if err != nil {
-				panic(err)
-			}
+			leaf := child.Repr.(*syntax.LeafNode)
 			switch inner.Kind {
 			case syntax.SyntaxKindModuleImport:
 				spec, err := syntax.ParsePackageSpec(str)
@@ -531,6 +521,19 @@ func getPackagesDirs() []string {
 	return packagesDirs
 }
 
+// unquote returns the value of the given node if it is a string literal.
+func unquote(node *syntax.SyntaxNode) (string, bool) {
+	expr, ok := syntax.SyntaxNode_cast[syntax.Expr](node).Get()
+	if !ok {
+		return "", false
+	}
+	str, ok := expr.(*syntax.Str)
+	if !ok {
+		return "", false
+	}
+	return str.Get(), true
+}
+
 // findFirst returns the first node of the given kind.
 func findFirst(nodes []*syntax.SyntaxNode, kind syntax.SyntaxKind) (*syntax.SyntaxNode, bool) {
 	for _, node := range nodes {
diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 13ed6c2..0d7f754 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -85,6 +85,7 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/mewmew/typast/internal/option"
 	"github.com/mewmew/typast/internal/scanner"
@@ -1347,6 +1348,11 @@ type Str struct {
 	*SyntaxNode
 }
 
+// Get returns the string value with resolved escape sequences.
+func (node *Str) Get() string {
+	return node.get()
+}
+
 // Get the string value with resolved escape sequences.
 func (node *Str) get() string {
 	text := node.SyntaxNode.text()
@@ -1395,7 +1401,11 @@ func (node *Str) get() string {
 				out.WriteString(s.From(start))
 				continue
 			}
-			r := rune(x) // TODO: handle invalid rune (using `out.WriteString(s.From(start))`)?
+			r := rune(x)
+			if !utf8.ValidRune(r) {
+				out.WriteString(s.From(start))
+				continue
+			}
 			out.WriteRune(r)
 		default:
 			out.WriteString(s.From(start))
-- 
2.43.0


From 4d280b304782980c09e2af1b3097c0ead2923655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 28/58] fix: report font directories that cannot be read
 instead of crashing

---
 cmd/offline-typ/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 9545e48..55e16d2 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -687,6 +687,9 @@ func exist(root *os.Root, path string) bool {
 // copyDir copies the given directory to the root file system.
 func copyDir(root *os.Root, dir string) error {
 	visit := func(path string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return errors.WithStack(err)
+		}
 		if info.IsDir() {
 			if err := root.MkdirAll(path, 0o755); err != nil {
 				return errors.WithStack(err)
-- 
2.43.0


From 7047e4ebc0ffa76115e5a2968dc26e6e422ed9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 29/58] fix: copy the bibliography style when it is not the
 first named argument

---
 cmd/offline-typ/main.go | 65 +++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 41 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 55e16d2..72bfaa5 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -301,13 +301,10 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
-					if kv, ok := findFirstNamed(args.Children); ok {
-						if kv.Key == "style" {
-							cslPath := kv.Value
-							localResourcePath := getRelLocalPath(relTypDir, cslPath)
-							if exist(projectRoot, localResourcePath) {
-								localResourcePaths = append(localResourcePaths, localResourcePath)
-							}
+					if cslPath, ok := findNamedStr(args.Children, "style"); ok {
+						localResourcePath := getRelLocalPath(relTypDir, cslPath)
+						if exist(projectRoot, localResourcePath) {
+							localResourcePaths = append(localResourcePaths, localResourcePath)
 						}
 					}
 				}
@@ -351,13 +348,10 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
-					if kv, ok := findFirstNamed(args.Children); ok {
-						if kv.Key == "style" {
-							cslPath := kv.Value
-							localResourcePath := getRelLocalPath(relTypDir, cslPath)
-							if exist(projectRoot, localResourcePath) {
-								localResourcePaths = append(localResourcePaths, localResourcePath)
-							}
+					if cslPath, ok := findNamedStr(args.Children, "style"); ok {
+						localResourcePath := getRelLocalPath(relTypDir, cslPath)
+						if exist(projectRoot, localResourcePath) {
+							localResourcePaths = append(localResourcePaths, localResourcePath)
 						}
 					}
 				}
@@ -424,34 +418,23 @@ func getRelLocalPath(relTypDir, path string) string {
 	return relLocalTypPath
 }
 
-type KeyValuePair struct {
-	Key   string
-	Value string
-}
-
-// findFirstNamed returns the key-value pair of the first named pair node.
-func findFirstNamed(nodes []*syntax.SyntaxNode) (KeyValuePair, bool) {
-	node, ok := findFirst(nodes, syntax.SyntaxKindNamed)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	inner, ok := node.Repr.(*syntax.InnerNode)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	key, ok := findFirstIdent(inner.Children)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	value, ok := findFirstStr(inner.Children)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	kv := KeyValuePair{
-		Key:   key,
-		Value: value,
+// findNamedStr returns the unquoted version of the string literal in the named
+// pair node with the given key.
+func findNamedStr(nodes []*syntax.SyntaxNode, key string) (string, bool) {
+	for _, node := range nodes {
+		if node.SyntaxKind() != syntax.SyntaxKindNamed {
+			continue
+		}
+		inner, ok := node.Repr.(*syntax.InnerNode)
+		if !ok {
+			continue
+		}
+		if name, ok := findFirstIdent(inner.Children); !ok || name != key {
+			continue
+		}
+		return findFirstStr(inner.Children)
 	}
-	return kv, true
+	return "", false
 }
 
 // findFirstIdent returns the name of the first identifier node.
-- 
2.43.0


From e3ba2306313e2c633c67b7a059ed78332def2dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 30/58] fix: rebase absolute paths in vendored packages to
 their new location

---
 cmd/offline-typ/main.go | 91 +++++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 39 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 72bfaa5..ffbb5e2 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -98,7 +98,7 @@ func main() {
 	}
 
 	// rewrite Typst files for offline use.
-	specs, err := rewrite(outRoot, projectRoot, typPath)
+	specs, err := rewrite(outRoot, projectRoot, typPath, "")
 	if err != nil {
 		log.Fatalf("%+v", err)
 	}
@@ -171,8 +171,10 @@ var (
 	resDone = make(map[string]bool)
 )
 
-// rewrite rewrites the given Typst file for offline use.
-func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.PackageSpec, error) {
+// rewrite rewrites the given Typst file for offline use. Absolute paths in the
+// file are rebased to the given project-rooted directory if present (as used for
+// packages).
+func rewrite(outRoot, projectRoot *os.Root, relTypPath, absDir string) ([]*syntax.PackageSpec, error) {
 	absTypPath := filepath.Join(projectRoot.Name(), relTypPath)
 	if typDone[absTypPath] {
 		if verbose {
@@ -206,6 +208,20 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 		localResourcePaths []string
 	)
 
+	// localPath returns the root-relative path of the local file that the given
+	// string literal refers to, and rebases the literal if needed.
+	localPath := func(node *syntax.SyntaxNode) (string, bool) {
+		path, ok := unquote(node)
+		if !ok {
+			return "", false
+		}
+		if len(absDir) > 0 && filepath.IsAbs(path) {
+			leaf := node.Repr.(*syntax.LeafNode)
+			leaf.Text = strconv.Quote(absDir + path)
+		}
+		return getRelLocalPath(relTypDir, path), true
+	}
+
 	// walk CST tree.
 	visitImports := func(n any) bool {
 		inner, ok := n.(*syntax.InnerNode)
@@ -237,9 +253,9 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				spec, err := syntax.ParsePackageSpec(str)
 				if err != nil {
 					// NOTE: handle local import path e.g. `#import "foo/bar.typ"`
-					path := str
-					localTypPath := getRelLocalPath(relTypDir, path)
-					localTypPaths = append(localTypPaths, localTypPath)
+					if localTypPath, ok := localPath(child); ok {
+						localTypPaths = append(localTypPaths, localTypPath)
+					}
 					return true // done with inner node
 				}
 				specs = append(specs, spec)
@@ -251,9 +267,9 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				insertPkgRename(inner, i+1, spec.Name)
 				return true // done with inner node
 			case syntax.SyntaxKindModuleInclude:
-				path := str
-				localTypPath := getRelLocalPath(relTypDir, path)
-				localTypPaths = append(localTypPaths, localTypPath)
+				if localTypPath, ok := localPath(child); ok {
+					localTypPaths = append(localTypPaths, localTypPath)
+				}
 				return true // done with inner node
 			}
 		}
@@ -296,15 +312,18 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				if args.Kind != syntax.SyntaxKindArgs {
 					continue
 				}
-				if path, ok := findFirstStr(args.Children); ok {
-					localResourcePath := getRelLocalPath(relTypDir, path)
-					localResourcePaths = append(localResourcePaths, localResourcePath)
+				if node, ok := findFirst(args.Children, syntax.SyntaxKindStr); ok {
+					if localResourcePath, ok := localPath(node); ok {
+						localResourcePaths = append(localResourcePaths, localResourcePath)
+					}
 				}
 				if foundFunc == "bibliography" {
-					if cslPath, ok := findNamedStr(args.Children, "style"); ok {
-						localResourcePath := getRelLocalPath(relTypDir, cslPath)
-						if exist(projectRoot, localResourcePath) {
-							localResourcePaths = append(localResourcePaths, localResourcePath)
+					if node, ok := findNamedStr(args.Children, "style"); ok {
+						// NOTE: the style is either a file or the name of a style.
+						if path, ok := unquote(node); ok && exist(projectRoot, getRelLocalPath(relTypDir, path)) {
+							if localResourcePath, ok := localPath(node); ok {
+								localResourcePaths = append(localResourcePaths, localResourcePath)
+							}
 						}
 					}
 				}
@@ -343,15 +362,18 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				if args.Kind != syntax.SyntaxKindArgs {
 					continue
 				}
-				if path, ok := findFirstStr(args.Children); ok {
-					localResourcePath := getRelLocalPath(relTypDir, path)
-					localResourcePaths = append(localResourcePaths, localResourcePath)
+				if node, ok := findFirst(args.Children, syntax.SyntaxKindStr); ok {
+					if localResourcePath, ok := localPath(node); ok {
+						localResourcePaths = append(localResourcePaths, localResourcePath)
+					}
 				}
 				if foundFunc == "bibliography" {
-					if cslPath, ok := findNamedStr(args.Children, "style"); ok {
-						localResourcePath := getRelLocalPath(relTypDir, cslPath)
-						if exist(projectRoot, localResourcePath) {
-							localResourcePaths = append(localResourcePaths, localResourcePath)
+					if node, ok := findNamedStr(args.Children, "style"); ok {
+						// NOTE: the style is either a file or the name of a style.
+						if path, ok := unquote(node); ok && exist(projectRoot, getRelLocalPath(relTypDir, path)) {
+							if localResourcePath, ok := localPath(node); ok {
+								localResourcePaths = append(localResourcePaths, localResourcePath)
+							}
 						}
 					}
 				}
@@ -363,7 +385,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 
 	// Convert local Typst files.
 	for _, localTypPath := range localTypPaths {
-		localSpecs, err := rewrite(outRoot, projectRoot, localTypPath)
+		localSpecs, err := rewrite(outRoot, projectRoot, localTypPath, absDir)
 		if err != nil {
 			return nil, errors.WithStack(err)
 		}
@@ -418,9 +440,9 @@ func getRelLocalPath(relTypDir, path string) string {
 	return relLocalTypPath
 }
 
-// findNamedStr returns the unquoted version of the string literal in the named
-// pair node with the given key.
-func findNamedStr(nodes []*syntax.SyntaxNode, key string) (string, bool) {
+// findNamedStr returns the string literal in the named pair node with the given
+// key.
+func findNamedStr(nodes []*syntax.SyntaxNode, key string) (*syntax.SyntaxNode, bool) {
 	for _, node := range nodes {
 		if node.SyntaxKind() != syntax.SyntaxKindNamed {
 			continue
@@ -432,9 +454,9 @@ func findNamedStr(nodes []*syntax.SyntaxNode, key string) (string, bool) {
 		if name, ok := findFirstIdent(inner.Children); !ok || name != key {
 			continue
 		}
-		return findFirstStr(inner.Children)
+		return findFirst(inner.Children, syntax.SyntaxKindStr)
 	}
-	return "", false
+	return nil, false
 }
 
 // findFirstIdent returns the name of the first identifier node.
@@ -450,15 +472,6 @@ func findFirstIdent(nodes []*syntax.SyntaxNode) (string, bool) {
 	return leaf.Text, true
 }
 
-// findFirstStr returns the unquoted version of the first string literal node.
-func findFirstStr(nodes []*syntax.SyntaxNode) (string, bool) {
-	node, ok := findFirst(nodes, syntax.SyntaxKindStr)
-	if !ok {
-		return "", false
-	}
-	return unquote(node)
-}
-
 // unquote returns the value of the given node if it is a string literal.
 func unquote(node *syntax.SyntaxNode) (string, bool) {
 	expr, ok := syntax.SyntaxNode_cast[syntax.Expr](node).Get()
@@ -525,7 +538,7 @@ func copyPackage(outRoot *os.Root, spec *syntax.PackageSpec) ([]*syntax.PackageS
 		return nil, errors.WithStack(err)
 	}
 	pkgInfo := manifest.Pkg
-	libSpecs, err := rewrite(outLibRoot, pkgRoot, pkgInfo.Entrypoint)
+	libSpecs, err := rewrite(outLibRoot, pkgRoot, pkgInfo.Entrypoint, "/"+libTypDir)
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-- 
2.43.0


From 0df6fab2a87b99d7ee01fbc20285e509419f0e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:31 +0000
Subject: [PATCH 31/58] fix: find all versions of a package next to symbolic
 links and unrelated directories

---
 cmd/update-typ/main.go | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 49049b2..91778d0 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -443,31 +443,25 @@ func findVersions(spec *syntax.PackageSpec) []*syntax.PackageSpec {
 	for _, packagesDir := range packagesDirs {
 		namespace := filepath.Base(packagesDir)
 		packageDir := filepath.Join(packagesDir, spec.Name)
-		visit := func(path string, info fs.FileInfo, err error) error {
+		entries, err := os.ReadDir(packageDir)
+		if err != nil {
+			// TODO: report warning?
+			continue
+		}
+		for _, entry := range entries {
+			if !entry.IsDir() && entry.Type()&fs.ModeSymlink == 0 {
+				continue
+			}
+			version, err := syntax.ParsePackageVersion(entry.Name())
 			if err != nil {
-				return err
+				continue // not a version directory.
 			}
-			if info.IsDir() || info.Mode()&fs.ModeSymlink != 0 {
-				if path != packageDir {
-					versionRaw := info.Name()
-					version, err := syntax.ParsePackageVersion(versionRaw)
-					if err != nil {
-						return errors.WithStack(err)
-					}
-					verSpec := &syntax.PackageSpec{
-						Namespace: namespace,
-						Name:      spec.Name,
-						Version:   version,
-					}
-					verSpecs = append(verSpecs, verSpec)
-					// don't traverse into subdirectories.
-					return filepath.SkipDir
-				}
+			verSpec := &syntax.PackageSpec{
+				Namespace: namespace,
+				Name:      spec.Name,
+				Version:   version,
 			}
-			return nil
-		}
-		if err := filepath.Walk(packageDir, visit); err != nil {
-			// TODO: report warning?
+			verSpecs = append(verSpecs, verSpec)
 		}
 	}
 	return verSpecs
-- 
2.43.0


From b05bbf3315d8af7f3be5e7fd15390dc61330748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:32 +0000
Subject: [PATCH 32/58] fix: never replace a dependency by an older version and
 do not crash on unknown ones

---
 cmd/update-typ/main.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 91778d0..614101f 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -406,17 +406,13 @@ func parsePackageManifest(pkgRoot *os.Root) (*syntax.PackageManifest, error) {
 // latestSpec returns the latest version of the given package. The boolean
 // return value indicates that a new version was available.
 func latestSpec(spec *syntax.PackageSpec) (*syntax.PackageSpec, bool) {
-	verSpecs := findVersions(spec)
-	latestSpec := verSpecs[0]
-	for _, verSpec := range verSpecs[1:] {
+	latestSpec := spec
+	for _, verSpec := range findVersions(spec) {
 		if greaterThan(verSpec.Version, latestSpec.Version) {
 			latestSpec = verSpec
 		}
 	}
-	if latestSpec.Version == spec.Version {
-		return spec, false
-	}
-	return latestSpec, true
+	return latestSpec, latestSpec != spec
 }
 
 // greaterThan reports whether version a is greater than version b.
-- 
2.43.0


From ce114ceec38df3592bc8eed46af562d950c8fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 33/58] fix: report packages that are not installed instead of
 crashing in offline-typ

---
 cmd/offline-typ/main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index ffbb5e2..f89dec3 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -223,6 +223,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, absDir string) ([]*synta
 	}
 
 	// walk CST tree.
+	var importErr error
 	visitImports := func(n any) bool {
 		inner, ok := n.(*syntax.InnerNode)
 		if !ok {
@@ -261,7 +262,10 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, absDir string) ([]*synta
 				specs = append(specs, spec)
 				newPkgPath, err := getNewPkgPath(spec)
 				if err != nil {
-					panic(fmt.Errorf("unable to get new package path for package %q; %+v", spec.String(), errors.WithStack(err)))
+					if importErr == nil {
+						importErr = errors.Wrapf(err, "unable to get new package path for package %q", spec.String())
+					}
+					return true // done with inner node
 				}
 				leaf.Text = strconv.Quote(newPkgPath)
 				insertPkgRename(inner, i+1, spec.Name)
@@ -276,6 +280,9 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, absDir string) ([]*synta
 		return true
 	}
 	cstwalk.Walk(rootNode, visitImports)
+	if importErr != nil {
+		return nil, importErr
+	}
 
 	visitResourceFunc := func(n any) bool {
 		inner, ok := n.(*syntax.InnerNode)
-- 
2.43.0


From 7e58d6381646913add88fccc2cdcd6c5c468fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 34/58] fix: locate the character at the cursor at the cursor

---
 internal/scanner/scanner.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/scanner/scanner.go b/internal/scanner/scanner.go
index ecdb5c1..767ef4d 100644
--- a/internal/scanner/scanner.go
+++ b/internal/scanner/scanner.go
@@ -158,7 +158,10 @@ func (s *Scanner) Scout(n int) (rune, bool) {
 // - `locate(-1)` is the byte position of the character before the cursor.
 // - `locate(0)` is the same as `cursor()`.
 func (s *Scanner) Locate(n int) uint {
-	if n >= 0 {
+	if n == 0 {
+		return s.Cursor()
+	}
+	if n > 0 {
 		chars := []rune(s.After()) // TODO: optimize?
 		i := 0
 		length := 0
-- 
2.43.0


From 01a5dc5968962094b1260d7f7039e98e7a1ddc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:04 +0000
Subject: [PATCH 35/58] fix: keep the old children when new ones cannot be
 numbered

---
 typst/syntax/node.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 9087b7e..f98888e 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -630,6 +630,9 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 	replacement = replacement_vec[replacement_range.Start:replacement_range.End]
 	superseded := node.Children[_range.Start:_range.End]
 
+	// If the new children cannot be numbered, the node stays as it was.
+	prev := *node
+
 	// Compute the new byte length.
 	for _, r := range replacement {
 		node.Len += r.len()
@@ -673,7 +676,7 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 	// TODO: double-check that translation from Rust to Go was correct.
 
 	// Perform the replacement.
-	node.Children = slices.Replace(node.Children, int(_range.Start), int(_range.End), replacement_vec[replacement_range.Start:replacement_range.End]...)
+	node.Children = slices.Replace(slices.Clone(node.Children), int(_range.Start), int(_range.End), replacement_vec[replacement_range.Start:replacement_range.End]...)
 	_range.End = _range.Start + replacement_range.Len()
 
 	// Renumber the new children. Retries until it works, taking
@@ -721,6 +724,7 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 
 		// If it didn't even work with all children, we give up.
 		if left == max_left && right == max_right {
+			*node = prev
 			return ErrUnnumberable
 		}
 
-- 
2.43.0


From c344f432d7dcdaa1c240805ed2c3e8228bfe40b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 36/58] fix: keep the kind of identifiers and field accesses in
 math

---
 typst/syntax/lexer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 6134234..64830b1 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -133,10 +133,9 @@ func (lexer *Lexer) next() (SyntaxKind, *SyntaxNode) {
 			case SyntaxModeMath:
 				k, n := lexer.math(start, c)
 				if node, ok := n.Get(); ok {
-					return kind, node
-				} else {
-					kind = k
+					return k, node
 				}
+				kind = k
 			case SyntaxModeCode:
 				kind = lexer.code(start, c)
 			}
-- 
2.43.0


From afa33cc3a359e6aaa22f18769d358b2573094f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:22 +0000
Subject: [PATCH 37/58] fix: give a math class to single characters only

---
 typst/syntax/parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/parser.go b/typst/syntax/parser.go
index 5f5581f..0c3a565 100644
--- a/typst/syntax/parser.go
+++ b/typst/syntax/parser.go
@@ -2,6 +2,7 @@ package syntax
 
 import (
 	"fmt"
+	"unicode/utf8"
 
 	"github.com/mewmew/typast/internal/option"
 	"github.com/mewmew/typast/internal/ranges"
@@ -527,10 +528,11 @@ func math_class(text string) option.Option[stdx.MathClass] {
 		return option.Some(stdx.MathClass_Fence)
 	}
 
-	for _, c := range text {
-		return typutil.DefaultMathClass(c)
+	c, size := utf8.DecodeRuneInString(text)
+	if size == 0 || size != len(text) {
+		return option.None[stdx.MathClass]()
 	}
-	return option.None[stdx.MathClass]()
+	return typutil.DefaultMathClass(c)
 }
 
 // Parse an argument list in math: `(a, b; c, d; size: #50%)`.
-- 
2.43.0


From e1c0a0c085634cea681d0d27263d790864bb6791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:39 +0000
Subject: [PATCH 38/58] fix: cast syntax nodes to typed AST nodes

---
 typst/syntax/ast.go      | 173 ++++++++++++++++++++++++++++++++++-----
 typst/syntax/ast_node.go |  30 ++++---
 2 files changed, 173 insertions(+), 30 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 0d7f754..8173dc5 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -82,6 +82,7 @@ package syntax
 import (
 	"fmt"
 	"path/filepath"
+	"reflect"
 	"slices"
 	"strconv"
 	"strings"
@@ -124,26 +125,66 @@ func SyntaxNode_is[T AstNode](node *SyntaxNode) bool {
 //
 // cast
 func SyntaxNode_cast[T AstNode](node *SyntaxNode) option.Option[T] {
-	var zero T
-	//if _, ok := zero.(Expr); ok {
-	//	return Expr_from_untyped(node)
-	//}
-	// HACK: unable to use type assertion with type parameter, so using string
-	// representation hack instead :)
-	type_name := fmt.Sprintf("%T", new(T))
-	if type_name == "*syntax.Expr" {
-		if expr, ok := Expr_from_untyped(node).Get(); ok {
-			return option.Some[T](expr.(T))
-		}
-		return option.None[T]()
-	}
-	if _n, ok := zero.from_untyped(node).Get(); ok {
-		n := _n.(T)
-		return option.Some[T](n)
+	// Interfaces are selected by a pointer to the interface, as unable to use
+	// type assertion with type parameter.
+	switch any((*T)(nil)).(type) {
+	case *Expr:
+		return cast_option[T](Expr_from_untyped(node))
+	case *ArrayItem:
+		return cast_option[T](ArrayItem_from_untyped(node))
+	case *DictItem:
+		return cast_option[T](DictItem_from_untyped(node))
+	case *Arg:
+		return cast_option[T](Arg_from_untyped(node))
+	case *Param:
+		return cast_option[T](Param_from_untyped(node))
+	case *Pattern:
+		return cast_option[T](Pattern_from_untyped(node))
+	case *DestructuringItem:
+		return cast_option[T](DestructuringItem_from_untyped(node))
+	}
+	// T is a pointer to a struct; allocate the struct, as from_untyped has a
+	// value receiver.
+	zero := reflect.New(reflect.TypeFor[T]().Elem()).Interface().(AstNode)
+	return cast_option[T](zero.from_untyped(node))
+}
+
+// cast_option converts an optional AST node to the given AST type.
+func cast_option[T, U AstNode](opt option.Option[U]) option.Option[T] {
+	if n, ok := opt.Get(); ok {
+		return option.Some(any(n).(T))
 	}
 	return option.None[T]()
 }
 
+// placeholder returns the default value of AST type `T`.
+func placeholder[T AstNode]() T {
+	var n any
+	switch any((*T)(nil)).(type) {
+	case *Expr:
+		n = Expr_default()
+	case *Pattern:
+		n = Pattern_Normal_default()
+	case **Markup:
+		n = Markup_default()
+	case **Math:
+		n = Math_default()
+	case **Code:
+		n = Code_default()
+	case **Ident:
+		n = Ident_default()
+	case **Args:
+		n = Args_default()
+	case **Params:
+		n = Params_default()
+	case **ImportItemPath:
+		n = ImportItemPath_default()
+	default:
+		panic(fmt.Sprintf("support for placeholder of AST type %v not yet implemented", reflect.TypeFor[T]()))
+	}
+	return n.(T)
+}
+
 // Find the first child that can cast to the AST type `T`.
 //
 // try_cast_first
@@ -176,8 +217,7 @@ func SyntaxNode_cast_first[T AstNode](node *SyntaxNode) T {
 	if n, ok := SyntaxNode_try_cast_first[T](node).Get(); ok {
 		return n
 	}
-	var zero T // default value (placeholder).
-	return zero
+	return placeholder[T]() // default value (placeholder).
 }
 
 // Get the last child of AST type `T` or a placeholder if none.
@@ -187,8 +227,7 @@ func SyntaxNode_cast_last[T AstNode](node *SyntaxNode) T {
 	if n, ok := SyntaxNode_try_cast_last[T](node).Get(); ok {
 		return n
 	}
-	var zero T // default value (placeholder).
-	return zero
+	return placeholder[T]() // default value (placeholder).
 }
 
 // TODO: move ast_node.go to here.
@@ -1506,6 +1545,17 @@ type ArrayItem interface {
 func (*ArrayItem_Pos) isArrayItem()    {}
 func (*ArrayItem_Spread) isArrayItem() {}
 
+// from_untyped
+func ArrayItem_from_untyped(node *SyntaxNode) option.Option[ArrayItem] {
+	if node.kind() == SyntaxKindSpread {
+		return option.Some[ArrayItem](&ArrayItem_Spread{spread: &Spread{SyntaxNode: node}})
+	}
+	if expr, ok := Expr_from_untyped(node).Get(); ok {
+		return option.Some[ArrayItem](&ArrayItem_Pos{expr: expr})
+	}
+	return option.None[ArrayItem]()
+}
+
 // A bare expression: `12`.
 //
 // Pos
@@ -1545,6 +1595,23 @@ type DictItem interface {
 	isDictItem()
 }
 
+func (*DictItem_Named) isDictItem()  {}
+func (*DictItem_Keyed) isDictItem()  {}
+func (*DictItem_Spread) isDictItem() {}
+
+// from_untyped
+func DictItem_from_untyped(node *SyntaxNode) option.Option[DictItem] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return option.Some[DictItem](&DictItem_Named{item: &Named{SyntaxNode: node}})
+	case SyntaxKindKeyed:
+		return option.Some[DictItem](&DictItem_Keyed{item: &Keyed{SyntaxNode: node}})
+	case SyntaxKindSpread:
+		return option.Some[DictItem](&DictItem_Spread{item: &Spread{SyntaxNode: node}})
+	}
+	return option.None[DictItem]()
+}
+
 // A named pair: `thickness: 3pt`.
 //
 // Named
@@ -2117,6 +2184,24 @@ type Arg interface {
 	isArg()
 }
 
+func (*Arg_Pos) isArg()    {}
+func (*Arg_Named) isArg()  {}
+func (*Arg_Spread) isArg() {}
+
+// from_untyped
+func Arg_from_untyped(node *SyntaxNode) option.Option[Arg] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return option.Some[Arg](&Arg_Named{arg: &Named{SyntaxNode: node}})
+	case SyntaxKindSpread:
+		return option.Some[Arg](&Arg_Spread{arg: &Spread{SyntaxNode: node}})
+	}
+	if expr, ok := Expr_from_untyped(node).Get(); ok {
+		return option.Some[Arg](&Arg_Pos{arg: expr})
+	}
+	return option.None[Arg]()
+}
+
 // A positional argument: `12`.
 //
 // Pos
@@ -2190,6 +2275,24 @@ type Param interface {
 	isParam()
 }
 
+func (*Param_Pos) isParam()    {}
+func (*Param_Named) isParam()  {}
+func (*Param_Spread) isParam() {}
+
+// from_untyped
+func Param_from_untyped(node *SyntaxNode) option.Option[Param] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return option.Some[Param](&Param_Named{param: &Named{SyntaxNode: node}})
+	case SyntaxKindSpread:
+		return option.Some[Param](&Param_Spread{param: &Spread{SyntaxNode: node}})
+	}
+	if pattern, ok := Pattern_from_untyped(node).Get(); ok {
+		return option.Some[Param](&Param_Pos{param: pattern})
+	}
+	return option.None[Param]()
+}
+
 // A positional parameter: `x`.
 //
 // Pos
@@ -2226,6 +2329,22 @@ func (*Pattern_Placeholder) isPattern()   {}
 func (*Pattern_Parenthesized) isPattern() {}
 func (*Pattern_Destructuring) isPattern() {}
 
+// from_untyped
+func Pattern_from_untyped(node *SyntaxNode) option.Option[Pattern] {
+	switch node.kind() {
+	case SyntaxKindDestructuring:
+		return option.Some[Pattern](&Pattern_Destructuring{pattern: &Destructuring{SyntaxNode: node}})
+	case SyntaxKindParenthesized:
+		return option.Some[Pattern](&Pattern_Parenthesized{pattern: &Parenthesized{SyntaxNode: node}})
+	case SyntaxKindUnderscore:
+		return option.Some[Pattern](&Pattern_Placeholder{pattern: &Underscore{SyntaxNode: node}})
+	}
+	if expr, ok := Expr_from_untyped(node).Get(); ok {
+		return option.Some[Pattern](&Pattern_Normal{expr: expr})
+	}
+	return option.None[Pattern]()
+}
+
 // A single expression: `x`.
 //
 // Normal
@@ -2308,6 +2427,20 @@ func (*DestructuringItem_Pattern) isDestructuringItem() {}
 func (*DestructuringItem_Named) isDestructuringItem()   {}
 func (*DestructuringItem_Spread) isDestructuringItem()  {}
 
+// from_untyped
+func DestructuringItem_from_untyped(node *SyntaxNode) option.Option[DestructuringItem] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return option.Some[DestructuringItem](&DestructuringItem_Named{named: &Named{SyntaxNode: node}})
+	case SyntaxKindSpread:
+		return option.Some[DestructuringItem](&DestructuringItem_Spread{spread: &Spread{SyntaxNode: node}})
+	}
+	if pattern, ok := Pattern_from_untyped(node).Get(); ok {
+		return option.Some[DestructuringItem](&DestructuringItem_Pattern{pattern: pattern})
+	}
+	return option.None[DestructuringItem]()
+}
+
 // A sub-pattern: `x`.
 //
 // Pattern
diff --git a/typst/syntax/ast_node.go b/typst/syntax/ast_node.go
index 7ba62b2..4492c83 100644
--- a/typst/syntax/ast_node.go
+++ b/typst/syntax/ast_node.go
@@ -1482,8 +1482,10 @@ func FuncReturn_default() *FuncReturn {
 
 // from_untyped
 func (ArrayItem_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*ArrayItem_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := ArrayItem_from_untyped(node).Get(); ok {
+		if n, ok := n.(*ArrayItem_Pos); ok {
+			return option.Some[AstNode](n)
+		}
 	}
 	return option.None[AstNode]()
 }
@@ -1590,8 +1592,10 @@ func (node *Arg_Spread) to_untyped() *SyntaxNode {
 
 // from_untyped
 func (Arg_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Arg_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := Arg_from_untyped(node).Get(); ok {
+		if n, ok := n.(*Arg_Pos); ok {
+			return option.Some[AstNode](n)
+		}
 	}
 	return option.None[AstNode]()
 }
@@ -1636,8 +1640,10 @@ func (node *Param_Spread) to_untyped() *SyntaxNode {
 
 // from_untyped
 func (Param_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Param_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := Param_from_untyped(node).Get(); ok {
+		if n, ok := n.(*Param_Pos); ok {
+			return option.Some[AstNode](n)
+		}
 	}
 	return option.None[AstNode]()
 }
@@ -1652,8 +1658,10 @@ func (node *Param_Pos) to_untyped() *SyntaxNode {
 
 // from_untyped
 func (Pattern_Normal) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Pattern_Normal](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := Pattern_from_untyped(node).Get(); ok {
+		if n, ok := n.(*Pattern_Normal); ok {
+			return option.Some[AstNode](n)
+		}
 	}
 	return option.None[AstNode]()
 }
@@ -1742,8 +1750,10 @@ func (node *Pattern_Destructuring) bindings() []*Ident {
 
 // from_untyped
 func (DestructuringItem_Pattern) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*DestructuringItem_Pattern](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := DestructuringItem_from_untyped(node).Get(); ok {
+		if n, ok := n.(*DestructuringItem_Pattern); ok {
+			return option.Some[AstNode](n)
+		}
 	}
 	return option.None[AstNode]()
 }
-- 
2.43.0


From 4da81fe52575deafc059dde68b634d5d90aebe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:34 +0000
Subject: [PATCH 39/58] fix: read the value of decimal integers and of numbers
 with an exponent and a unit

---
 typst/syntax/ast.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 8173dc5..de98b5c 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1258,6 +1258,7 @@ func (node *Int) get() int64 {
 		s = strings.TrimPrefix(text, "0b")
 		base = 2
 	default:
+		s = text
 		base = 10
 	}
 	x, err := strconv.ParseInt(s, base, 64)
@@ -1299,9 +1300,10 @@ func (node *Numeric) get() (float64, Unit) {
 	chars := []rune(text)
 	count := 0
 	for _, c := range slices.Backward(chars) {
-		if stdx.IsAsciiLowercase(c) || c == '%' {
-			count++
+		if !stdx.IsAsciiLowercase(c) && c != '%' {
+			break
 		}
+		count++
 	}
 	split := len(text) - count
 	value_str := text[:split]
-- 
2.43.0


From 9ce48b6af332a4940ef4a693867605b10480776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:40 +0000
Subject: [PATCH 40/58] fix: recognize the operator not in

---
 typst/syntax/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index de98b5c..811aae1 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1804,7 +1804,7 @@ type Binary struct {
 func (node *Binary) op() BinOp {
 	not := false
 	for _, child := range node.children() {
-		switch node.kind() {
+		switch child.kind() {
 		case SyntaxKindNot:
 			not = true
 			continue
-- 
2.43.0


From 16c371bcb641b74e96b9414157784a6984f735aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:46 +0000
Subject: [PATCH 41/58] fix: look past spaces and comments for the parts of an
 expression

---
 typst/syntax/ast.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 811aae1..cdd0fa9 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1090,7 +1090,9 @@ func (node *MathAttach) bottom() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindUnderscore {
 			found = true
@@ -1104,7 +1106,9 @@ func (node *MathAttach) top() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindHat {
 			found = true
@@ -2602,7 +2606,9 @@ func (node *SetRule) condition() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindIf {
 			found = true
@@ -2624,7 +2630,9 @@ func (node *ShowRule) selector() option.Option[Expr] {
 	found := false
 	for _, child := range slices.Backward(children) {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindColon {
 			found = true
@@ -2730,15 +2738,13 @@ func (node *ForLoop) iterable() Expr {
 		if found {
 			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
 				return expr
-			} else {
-				return Expr_default() // default value
 			}
 		}
 		if child.kind() == SyntaxKindIn {
 			found = true
 		}
 	}
-	return Expr_default()
+	return Expr_default() // default value
 }
 
 // The expression to evaluate for each iteration.
@@ -2819,7 +2825,9 @@ func (node *ModuleImport) new_name() option.Option[*Ident] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			SyntaxNode_cast[*Ident](child)
+			if ident, ok := SyntaxNode_cast[*Ident](child).Get(); ok {
+				return option.Some(ident)
+			}
 		}
 		if child.kind() == SyntaxKindAs {
 			found = true
-- 
2.43.0


From 07ab39bc2d643631fcfef41b4ac262b298ddcb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:52 +0000
Subject: [PATCH 42/58] fix: do not take the pattern of a let binding for its
 initializer

---
 typst/syntax/ast.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index cdd0fa9..aafdf0c 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -2548,6 +2548,7 @@ func (node *LetBinding) init() option.Option[Expr] {
 			if len(exprs) > 1 {
 				return option.Some(exprs[1])
 			}
+			return option.None[Expr]()
 		case *Pattern_Parenthesized:
 			// TODO: double-check translation from Rust to Go.
 			var exprs []Expr
@@ -2559,6 +2560,7 @@ func (node *LetBinding) init() option.Option[Expr] {
 			if len(exprs) > 1 {
 				return option.Some(exprs[1])
 			}
+			return option.None[Expr]()
 		}
 		return SyntaxNode_try_cast_first[Expr](node.SyntaxNode)
 	case *LetBindingKind_Closure:
-- 
2.43.0


From a11b1ae4a921e136569403264b83da8dc1665d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:58 +0000
Subject: [PATCH 43/58] fix: report a trailing comma only at the end of the
 arguments

---
 typst/syntax/ast.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index aafdf0c..90264e7 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -2168,17 +2168,14 @@ func (node *Args) items() []Arg {
 func (node *Args) trailing_comma() bool {
 	children := node.children()
 	for i, child := range slices.Backward(children) {
-		if i == 0 {
-			continue // skip first
+		if i == len(children)-1 {
+			continue // skip last (closing parenthesis)
 		}
 		kind := child.kind()
-		// TODO: double-check that conversion from Rust to Go is correct.
 		if kind.IsTrivia() {
 			continue
 		}
-		if kind == SyntaxKindComma {
-			return true
-		}
+		return kind == SyntaxKindComma
 	}
 	return false
 }
-- 
2.43.0


From eb92540feb0b72d82e23f83b801b2bf20c7ac2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:05 +0000
Subject: [PATCH 44/58] fix: do not crash on math without children

---
 typst/syntax/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 90264e7..fce99cc 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -925,6 +925,9 @@ func (node *Math) exprs() []Expr {
 // Whether this `Math` node was originally parenthesized.
 func (node *Math) was_deparenthesized() bool {
 	children := node.children()
+	if len(children) < 2 {
+		return false
+	}
 	first := children[0]
 	last := children[len(children)-1]
 	return first.kind() == SyntaxKindLeftParen && last.kind() == SyntaxKindRightParen
-- 
2.43.0


From ae45f6107abd2c4228c0b0f543b5b3991f9eca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 45/58] fix: do not take a link to nothing for a package
 version

---
 cmd/update-typ/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 614101f..d0584a4 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -6,7 +6,6 @@ import (
 	"bytes"
 	"flag"
 	"fmt"
-	"io/fs"
 	"os"
 	"path/filepath"
 	"runtime"
@@ -445,7 +444,8 @@ func findVersions(spec *syntax.PackageSpec) []*syntax.PackageSpec {
 			continue
 		}
 		for _, entry := range entries {
-			if !entry.IsDir() && entry.Type()&fs.ModeSymlink == 0 {
+			// NOTE: a version may be a link to a directory.
+			if info, err := os.Stat(filepath.Join(packageDir, entry.Name())); err != nil || !info.IsDir() {
 				continue
 			}
 			version, err := syntax.ParsePackageVersion(entry.Name())
-- 
2.43.0


From ed540ec75379f016237c0768e25336da58861d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 46/58] fix: count vowel signs and letter-like marks as
 alphabetic

---
 internal/stdx/stdx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stdx/stdx.go b/internal/stdx/stdx.go
index 996cda9..d4a62c4 100644
--- a/internal/stdx/stdx.go
+++ b/internal/stdx/stdx.go
@@ -69,7 +69,7 @@ func IsAsciiHexdigit(c rune) bool {
 
 // is_alphabetic
 func IsAlphabetic(c rune) bool {
-	return unicode.IsLetter(c)
+	return unicode.In(c, unicode.Letter, unicode.Nl, unicode.Other_Alphabetic)
 }
 
 // is_numeric
-- 
2.43.0


From bf1fbac3a19220cd93935415295e95fd90a1cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:51 +0000
Subject: [PATCH 47/58] fix: reject byte positions inside of a character

---
 typst/syntax/lines.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 4404bb0..cb7812d 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -58,12 +58,15 @@ func (l *Lines) LenLines() uint {
 
 // ByteToUtf16 returns the index of the UTF-16 code unit at the byte index.
 //
-// It returns false if the byte index is out of bounds.
+// It returns false if the byte index is out of bounds or inside of a character.
 func (l *Lines) ByteToUtf16(byteIdx uint) (uint, bool) {
 	lineIdx, ok := l.ByteToLine(byteIdx)
 	if !ok {
 		return 0, false
 	}
+	if !stdx.IsCharBoundary(l.Text, byteIdx) {
+		return 0, false
+	}
 	line := l.Lines[lineIdx]
 	head := l.Text[line.ByteIdx:byteIdx]
 	return line.Utf16Idx + lenUtf16(head), true
@@ -85,7 +88,8 @@ func (l *Lines) ByteToLine(byteIdx uint) (uint, bool) {
 // ByteToColumn returns the index of the column at the byte index.
 //
 // The column is defined as the number of characters in the line before the
-// byte index. It returns false if the byte index is out of bounds.
+// byte index. It returns false if the byte index is out of bounds or inside of
+// a character.
 func (l *Lines) ByteToColumn(byteIdx uint) (uint, bool) {
 	line, ok := l.ByteToLine(byteIdx)
 	if !ok {
@@ -95,6 +99,9 @@ func (l *Lines) ByteToColumn(byteIdx uint) (uint, bool) {
 	if !ok {
 		return 0, false
 	}
+	if !stdx.IsCharBoundary(l.Text, byteIdx) {
+		return 0, false
+	}
 	head := l.Text[start:byteIdx]
 	col := uint(utf8.RuneCountInString(head))
 	return col, true
-- 
2.43.0


From 3d0be1bbeb993043fe31f169231ec04fa9f62011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 48/58] fix: report a duplicate empty dictionary key

---
 typst/syntax/parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/typst/syntax/parser.go b/typst/syntax/parser.go
index 0c3a565..d38095b 100644
--- a/typst/syntax/parser.go
+++ b/typst/syntax/parser.go
@@ -1306,16 +1306,17 @@ func array_or_dict_item(p *Parser, state *GroupState) {
 			pair_kind = SyntaxKindKeyed
 		}
 
-		var key string
+		// NOTE: the key may be the empty string.
+		key := option.None[string]()
 		if expr, ok := SyntaxNode_cast[Expr](node).Get(); ok {
 			switch expr := expr.(type) {
 			case *Ident:
-				key = expr.get()
+				key = option.Some(expr.get())
 			case *Str:
-				key = expr.get()
+				key = option.Some(expr.get())
 			}
 		}
-		if len(key) > 0 {
+		if key, ok := key.Get(); ok {
 			if !map_insert(state.seen, key) {
 				node.convert_to_error(fmt.Sprintf("duplicate key: %v", key))
 			}
-- 
2.43.0


From 2213ded9ca4b8d78fb1c53baa790c2d4100305aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 49/58] fix: trim and dedent the lines of raw blocks

---
 typst/syntax/lexer.go | 130 +++++++++++++++++++-----------------------
 1 file changed, 60 insertions(+), 70 deletions(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 64830b1..40bff2d 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -420,82 +420,60 @@ func (lexer *Lexer) blocky_raw(inner_end uint, push_raw func(SyntaxKind, *scanne
 	lines := split_newlines(lexer.s.To(inner_end))
 
 	// Determine dedent level.
-	// TODO: figure out how to handle.
-	const dedent = 0 // TODO: remove
-	/*
-		dedent := lines
-			.iter()
-			.skip(1)
-			.filter(|line| !line.chars().all(stdx.IsWhitespace))
-			// The line with the closing ``` is always taken into account
-			.chain(lines.last())
-			.map(|line| line.chars().take_while(|c| c.is_whitespace()).count())
-			.min()
-			.unwrap_or(0);
-	*/
-
-	// TODO: figure out how to handle.
-	/*
-		// Trim whitespace from the last line. Will be added as a `RawTrimmed`
-		// kind by the check for `lexer.s.cursor() != inner_end` below.
-		if lines.last().is_some_and(|last| last.chars().all(stdx.IsWhitespace)) {
-			lines.pop();
-		} else if let Some(last) = lines.last_mut() {
-			// If last line ends in a backtick, try to trim a single space. This
-			// check must happen before we add the first line since the last and
-			// first lines might be the same.
-			if last.trim_end().ends_with('`') {
-				*last = last.strip_suffix(' ').unwrap_or(last);
-			}
+	dedent := leading_whitespace(lines[len(lines)-1])
+	for _, line := range lines[1:] {
+		// The line with the closing ``` is always taken into account.
+		if !all(line, stdx.IsWhitespace) {
+			dedent = min(dedent, leading_whitespace(line))
 		}
+	}
 
-		let mut lines = lines.into_iter();
-
-		// Handle the first line: trim if all whitespace, or trim a single space
-		// at the start. Note that the first line does not affect the dedent
-		// value.
-		if let Some(first_line) = lines.next() {
-			if first_line.chars().all(stdx.IsWhitespace) {
-				scanner_advance(lexer.s, first_line.len())
-				// This is the only spot we advance the scanner, but don't
-				// immediately call `push_raw`. But the rest of the function
-				// ensures we will always add this text to a `RawTrimmed` later.
-				debug_assert!(lexer.s.cursor() != inner_end);
-				// A proof by cases follows:
-				// # First case: The loop runs
-				// If the loop runs, there must be a newline following, so
-				// `cursor != inner_end`. And if the loop runs, the first thing
-				// it does is add a trimmed element.
-				// # Second case: The final if-statement runs.
-				// To _not_ reach the loop from here, we must have only one or
-				// two lines:
-				// 1. If one line, we cannot be here, because the first and last
-				//    lines are the same, so this line will have been removed by
-				//    the check for the last line being all whitespace.
-				// 2. If two lines, the loop will run unless the last is fully
-				//    whitespace, but if it is, it will have been popped, then
-				//    the final if-statement will run because the text removed
-				//    by the last line must include at least a newline, so
-				//    `cursor != inner_end` here.
-			} else {
-				let line_end = lexer.s.cursor() + first_line.len();
-				if lexer.s.EatIf(" ") {
-					// Trim a single space after the lang tag on the first line.
-					push_raw(SyntaxKindRawTrimmed, &lexer.s);
-				}
-				// We know here that the rest of the line is non-empty.
-				lexer.s.jump(line_end);
-				push_raw(SyntaxKindText, &lexer.s);
+	// Trim whitespace from the last line. Will be added as a `RawTrimmed`
+	// kind by the check for `lexer.s.Cursor() < inner_end` below.
+	if last := lines[len(lines)-1]; all(last, stdx.IsWhitespace) {
+		lines = lines[:len(lines)-1]
+	} else if strings.HasSuffix(strings.TrimRightFunc(last, stdx.IsWhitespace), "`") {
+		// If last line ends in a backtick, try to trim a single space. This
+		// check must happen before we add the first line since the last and
+		// first lines might be the same.
+		lines[len(lines)-1] = strings.TrimSuffix(last, " ")
+	}
+
+	// Handle the first line: trim if all whitespace, or trim a single space
+	// at the start. Note that the first line does not affect the dedent
+	// value.
+	if len(lines) > 0 {
+		first_line := lines[0]
+		lines = lines[1:]
+		if all(first_line, stdx.IsWhitespace) {
+			scanner_advance(lexer.s, uint(len(first_line)))
+			// This is the only spot we advance the scanner, but don't
+			// immediately call `push_raw`. But the rest of the function
+			// ensures we will always add this text to a `RawTrimmed` later:
+			// either the loop runs, and the first thing it does is to add a
+			// trimmed element, or the last line was removed above, and the text
+			// removed includes at least a newline.
+		} else {
+			line_end := lexer.s.Cursor() + uint(len(first_line))
+			if lexer.s.EatIf(" ") {
+				// Trim a single space after the lang tag on the first line.
+				push_raw(SyntaxKindRawTrimmed, lexer.s)
 			}
+			// We know here that the rest of the line is non-empty.
+			lexer.s.Jump(line_end)
+			push_raw(SyntaxKindText, lexer.s)
 		}
-	*/
+	}
+
 	// Add lines.
 	for _, line := range lines {
-		// TODO: figure out how to handle.
-		const offset = 0 // TODO: remove
-		/*
-			offset := line.chars().take(dedent).map(char::len_utf8).sum()
-		*/
+		offset := uint(0)
+		for n, c := range []rune(line) {
+			if uint(n) == dedent {
+				break
+			}
+			offset += uint(utf8.RuneLen(c))
+		}
 		eat_newline(lexer.s)
 		scanner_advance(lexer.s, offset)
 		push_raw(SyntaxKindRawTrimmed, lexer.s)
@@ -510,6 +488,18 @@ func (lexer *Lexer) blocky_raw(inner_end uint, push_raw func(SyntaxKind, *scanne
 	}
 }
 
+// The number of whitespace characters at the start of a line.
+func leading_whitespace(line string) uint {
+	n := uint(0)
+	for _, c := range line {
+		if !stdx.IsWhitespace(c) {
+			break
+		}
+		n++
+	}
+	return n
+}
+
 // Inline raw text is split on lines with non-newlines as `Text` kinds and
 // newlines as `RawTrimmed`. Inline raw text does not dedent the text, all
 // non-newline whitespace is kept.
-- 
2.43.0


From 899aa49ebe9afc7150f8f8ce4f82c140528552ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 50/58] fix: print the path of a file identity

---
 typst/syntax/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/file.go b/typst/syntax/file.go
index 1a18caf..179948f 100644
--- a/typst/syntax/file.go
+++ b/typst/syntax/file.go
@@ -144,6 +144,6 @@ func (id FileID) String() string {
 	if spec, ok := id.Spec().Get(); ok {
 		fmt.Fprintf(out, "%v", spec)
 	}
-	fmt.Fprintf(out, "%v", vpath)
+	out.WriteString(vpath.Path)
 	return out.String()
 }
-- 
2.43.0


From 3bbdf40fd70b3bf1b21ff636d1698f72d9dad0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 51/58] fix: look back from the cursor without copying the text
 before it

---
 internal/scanner/scanner.go | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/internal/scanner/scanner.go b/internal/scanner/scanner.go
index 767ef4d..354c1d1 100644
--- a/internal/scanner/scanner.go
+++ b/internal/scanner/scanner.go
@@ -144,10 +144,13 @@ func (s *Scanner) Scout(n int) (rune, bool) {
 		}
 	} else {
 		before := s.Before()
-		rs := []rune(before) // TODO: optimize when needed.
-		index := len(rs) + n
-		if index >= 0 && index < len(rs) {
-			return rs[index], true
+		for before != "" {
+			c, size := utf8.DecodeLastRuneInString(before)
+			n++
+			if n == 0 {
+				return c, true
+			}
+			before = before[:len(before)-size]
 		}
 	}
 	return 0, false
@@ -162,10 +165,9 @@ func (s *Scanner) Locate(n int) uint {
 		return s.Cursor()
 	}
 	if n > 0 {
-		chars := []rune(s.After()) // TODO: optimize?
 		i := 0
 		length := 0
-		for _, c := range chars {
+		for _, c := range s.After() {
 			if !utf8.ValidRune(c) {
 				break
 			}
@@ -177,19 +179,11 @@ func (s *Scanner) Locate(n int) uint {
 		}
 		return s.Cursor() + uint(length)
 	} else {
-		chars := []rune(s.Before()) // TODO: optimize?
-		i := 0
-		n = -n
+		before := s.Before()
 		length := 0
-		for _, c := range slices.Backward(chars) {
-			if !utf8.ValidRune(c) {
-				break
-			}
-			length += utf8.RuneLen(c)
-			i++
-			if i == n {
-				break
-			}
+		for ; n < 0 && length < len(before); n++ {
+			_, size := utf8.DecodeLastRuneInString(before[:len(before)-length])
+			length += size
 		}
 		return uint(int64(s.Cursor()) - int64(length))
 	}
@@ -209,12 +203,11 @@ func (s *Scanner) Eat() (rune, bool) {
 // back.
 func (s *Scanner) Uneat() (rune, bool) {
 	before := s.Before()
-	rs := []rune(before) // TODO: optimize when needed.
-	if len(rs) == 0 {
+	if before == "" {
 		return 0, false
 	}
-	c := rs[len(rs)-1]
-	s.cursor -= uint(utf8.RuneLen(c))
+	c, size := utf8.DecodeLastRuneInString(before)
+	s.cursor -= uint(size)
 	return c, true
 }
 
-- 
2.43.0


From a07eb34602d139fc054ca85a6cd535b5c557923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 52/58] fix: find the column of a token without copying the
 text before it

---
 typst/syntax/lexer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 40bff2d..b317b11 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -75,12 +75,13 @@ func (lexer *Lexer) column(index uint) uint {
 	s := lexer.s.Clone() // Make a new temporary scanner (cheap).
 	s.Jump(index)
 	before := s.Before()
-	rs := []rune(before) // TODO: optimize when needed.
 	n := uint(0)
-	for i := len(rs) - 1; i >= 0; i-- {
-		if isNewline(rs[i]) {
+	for before != "" {
+		c, size := utf8.DecodeLastRuneInString(before)
+		if isNewline(c) {
 			break
 		}
+		before = before[:len(before)-size]
 		n++
 	}
 	return n
-- 
2.43.0


From bf671c8e53757ba18b2dfc278f36c0c58049b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 53/58] fix: find the first grapheme without copying the text
 behind it

---
 typst/syntax/lexer.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index b317b11..d8677ae 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -1417,11 +1417,22 @@ func is_xid_continue(r rune) bool {
 
 // graphemes
 func GraphemeLen(str string) (int, bool) {
-	s := graphemes.NewSegmenter([]byte(str))
-	for s.Next() {
-		return len(s.Bytes()), true
+	// Look at a window of the text, that grows until it shows where the first
+	// grapheme ends.
+	for n := uint(64); ; n *= 2 {
+		end := min(n, uint(len(str)))
+		for !stdx.IsCharBoundary(str, end) {
+			end--
+		}
+		s := graphemes.NewSegmenter([]byte(str[:end]))
+		if !s.Next() {
+			return 0, false
+		}
+		length := len(s.Bytes())
+		if length < int(end) || int(end) == len(str) {
+			return length, true
+		}
 	}
-	return 0, false
 }
 
 func valid_float(str string) bool {
-- 
2.43.0


From 5a83e5e5d0b2eceaffcb83e5af81b926ba110948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:59 +0000
Subject: [PATCH 54/58] fix: white space text behind an unclosed equation kept
 a stale tree

---
 typst/syntax/reparser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 38fdd31..a6f3e60 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -259,6 +259,10 @@ func expand(node *SyntaxNode) bool {
 	if kind == SyntaxKindSemicolon {
 		return true
 	}
+	if kind == SyntaxKindText && all(node.text(), stdx.IsWhitespace) {
+		// Some whitespace is trivia in code and math, but text in markup.
+		return true
+	}
 	switch node.text() {
 	case "/", ":":
 		return true
-- 
2.43.0


From 5382d7b540993e3c8cabe631bb3ad09379eedd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 55/58] fix: paths with characters that Go escapes were
 rewritten to escapes that Typst lacks

---
 cmd/offline-typ/main.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index f89dec3..bcea409 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -11,7 +11,6 @@ import (
 	"path/filepath"
 	"runtime"
 	"slices"
-	"strconv"
 	"strings"
 
 	"github.com/mewmew/typast/typst/cstwalk"
@@ -217,7 +216,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, absDir string) ([]*synta
 		}
 		if len(absDir) > 0 && filepath.IsAbs(path) {
 			leaf := node.Repr.(*syntax.LeafNode)
-			leaf.Text = strconv.Quote(absDir + path)
+			leaf.Text = quote(absDir + path)
 		}
 		return getRelLocalPath(relTypDir, path), true
 	}
@@ -267,7 +266,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, absDir string) ([]*synta
 					}
 					return true // done with inner node
 				}
-				leaf.Text = strconv.Quote(newPkgPath)
+				leaf.Text = quote(newPkgPath)
 				insertPkgRename(inner, i+1, spec.Name)
 				return true // done with inner node
 			case syntax.SyntaxKindModuleInclude:
@@ -492,6 +491,12 @@ func unquote(node *syntax.SyntaxNode) (string, bool) {
 	return str.Get(), true
 }
 
+// quote returns the Typst string literal with the given value. Other than in Go,
+// only quotes and backslashes need escaping.
+func quote(s string) string {
+	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
+}
+
 // findFirst returns the first node of the given kind.
 func findFirst(nodes []*syntax.SyntaxNode, kind syntax.SyntaxKind) (*syntax.SyntaxNode, bool) {
 	for _, node := range nodes {
-- 
2.43.0


From 6f2419248e16fea8991ece27490bb8c6130a83b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 56/58] fix: packages of the same name and version but
 different namespaces overwrote each other

---
 cmd/offline-typ/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index bcea409..4c5811d 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -141,6 +141,12 @@ func rewriteLibs(outRoot *os.Root, specs []*syntax.PackageSpec) error {
 		if verbose {
 			log.Printf("rewriting library %q", spec.String())
 		}
+		// "/libs" does not tell namespaces apart.
+		for _, other := range done {
+			if other.Name == spec.Name && other.Version == spec.Version {
+				return errors.Errorf("unable to store both library %q and library %q in %q", other.String(), spec.String(), outDir)
+			}
+		}
 		done[spec.String()] = spec
 		libSpecs, err := copyPackage(outRoot, spec)
 		if err != nil {
-- 
2.43.0


From d56fb874d849e9244c999e35884c7521514ee004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 57/58] fix: keep memoized nodes apart from the nodes of a
 wrong guess

---
 typst/syntax/node.go   | 11 +++++++++++
 typst/syntax/parser.go | 10 ++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index f98888e..968797d 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -273,6 +273,17 @@ func (node *SyntaxNode) clone() *SyntaxNode {
 	}
 }
 
+// shallow_clone returns a copy of the node that shares its children.
+func (node *SyntaxNode) shallow_clone() *SyntaxNode {
+	if inner, ok := node.Repr.(*InnerNode); ok {
+		copied := *inner
+		return &SyntaxNode{
+			Repr: &copied,
+		}
+	}
+	return node.clone()
+}
+
 // Convert the child to another kind.
 //
 // Don't use this for converting to an error!
diff --git a/typst/syntax/parser.go b/typst/syntax/parser.go
index d38095b..7a9d151 100644
--- a/typst/syntax/parser.go
+++ b/typst/syntax/parser.go
@@ -2149,7 +2149,11 @@ func (state *PartialState) Clone() *PartialState {
 func (p *Parser) memoize_parsed_nodes(key MemoKey, prev_len uint) {
 	checkpoint := p.checkpoint()
 	memo_start := len(p.memo.arena)
-	p.memo.arena.ExtendFromSlice(p.nodes[prev_len:checkpoint.node_len])
+	// Later changes to the nodes (such as the conversion to an error) must not
+	// change what was memoized.
+	for _, node := range p.nodes[prev_len:checkpoint.node_len] {
+		p.memo.arena.Push(node.shallow_clone())
+	}
 	arena_range := ranges.NewRange(uint64(memo_start), uint64(len(p.memo.arena)))
 	memo_pair := &MemoPair{
 		arena_range: arena_range,
@@ -2177,7 +2181,9 @@ func (p *Parser) restore_memo_or_checkpoint() option.Option[MemoCheckpoint] {
 	}
 	new_memo_pair := memo_pair.Clone()
 	r := new_memo_pair.arena_range
-	p.nodes.ExtendFromSlice(p.memo.arena[r.Start:r.End])
+	for _, node := range p.memo.arena[r.Start:r.End] {
+		p.nodes.Push(node.shallow_clone())
+	}
 	// It's important that we don't truncate the nodes vector since
 	// it may have grown or shrunk (due to other memoization or
 	// error reporting) since we made this checkpoint.
-- 
2.43.0


From 9fe29d5780e825911db7a578df4e22eb9400bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:12 +0000
Subject: [PATCH 58/58] fix: refuse edits of reversed ranges and of parts of
 characters

---
 typst/syntax/lines.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index cb7812d..03b8866 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -274,6 +274,9 @@ func (l *Lines) Edit(replace ranges.Range, with string) {
 	if !ok {
 		panic("invalid byte index in replace range")
 	}
+	if replace.Start > replace.End || !stdx.IsCharBoundary(l.Text, uint(replace.End)) {
+		panic("invalid byte index in replace range")
+	}
 
 	// Update the text itself.
 	l.Text = replaceRange(l.Text, replace, with)
-- 
2.43.0

