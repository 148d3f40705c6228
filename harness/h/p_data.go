package main

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	"github.com/mewmew/typast/internal/option"
	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/typst/syntax"
)

// --- line index ---------------------------------------------------------------

// lineText is a text with many kinds of line ends and wide characters.
func lineText(c *Case, n int) string {
	frags := []string{"a", "b c", "é", "日本", "\U0001F600", "\U00010348", "\r", "\n", "\r\n", "\r\r\n", "\n\r", "\v", "\f", "\u0085", "\u2028", "\u2029", "", "  ", "\t", "\u00a0", "\ufffd", "\uffff", "x\r", "\ny"}
	var b strings.Builder
	for i := 0; i < n; i++ {
		if c.IntN(12) == 0 {
			b.WriteRune(randRune(c))
		} else {
			b.WriteString(frags[c.IntN(len(frags))])
		}
	}
	return b.String()
}

// modelLines are the byte offsets at which lines start.
func modelLines(text string) []int {
	starts := []int{0}
	for i, r := range text {
		end := i + utf8.RuneLen(r)
		if !refNewline(r) || (r == '\r' && strings.HasPrefix(text[end:], "\n")) {
			continue
		}
		starts = append(starts, end)
	}
	return starts
}

func utf16Len(s string) int {
	n := 0
	for _, r := range s {
		n++
		if r >= 0x10000 {
			n++
		}
	}
	return n
}

func checkLines(c *Case, l *syntax.Lines, text string) {
	starts := modelLines(text)
	if int(l.LenLines()) != len(starts) {
		c.Fail("the text has %d lines, %d are counted", len(starts), l.LenLines())
	}
	if int(l.LenBytes()) != len(text) {
		c.Fail("the text has %d bytes, %d are counted", len(text), l.LenBytes())
	}
	if int(l.LenUtf16()) != utf16Len(text) {
		c.Fail("the text has %d UTF-16 units, %d are counted", utf16Len(text), l.LenUtf16())
	}
	// Every character boundary.
	line, u16, col := 0, 0, 0
	step := func(i int) {
		for line+1 < len(starts) && starts[line+1] <= i {
			line++
			col = 0
		}
		c.Eval(1)
		if got, ok := l.ByteToUtf16(uint(i)); !ok || int(got) != u16 {
			c.Fail("byte %d is at UTF-16 unit %d, got %d %v", i, u16, got, ok)
		}
		if got, ok := l.Utf16ToByte(uint(u16)); !ok || int(got) != i {
			c.Fail("UTF-16 unit %d is at byte %d, got %d %v", u16, i, got, ok)
		}
		if got, ok := l.ByteToLine(uint(i)); !ok || int(got) != line {
			c.Fail("byte %d is on line %d, got %d %v", i, line, got, ok)
		}
		if got, ok := l.ByteToColumn(uint(i)); !ok || int(got) != col {
			c.Fail("byte %d is in column %d, got %d %v", i, col, got, ok)
		}
		if got, ok := l.ByteToLineColumn(uint(i)); !ok || int(got.Line) != line || int(got.Col) != col {
			c.Fail("byte %d is at %d:%d, got %d:%d %v", i, line, col, got.Line, got.Col, ok)
		}
		if got, ok := l.LineColumnToByte(uint(line), uint(col)); !ok || int(got) != i {
			c.Fail("%d:%d is at byte %d, got %d %v", line, col, i, got, ok)
		}
	}
	for i, r := range text {
		step(i)
		for k := i + 1; k < i+utf8.RuneLen(r); k++ {
			c.Eval(1)
			c.Cover("inside of a character")
			if got, ok := l.ByteToUtf16(uint(k)); ok {
				c.Fail("byte %d is inside of a character, but at UTF-16 unit %d", k, got)
			}
			if got, ok := l.ByteToColumn(uint(k)); ok {
				c.Fail("byte %d is inside of a character, but in column %d", k, got)
			}
			if got, ok := l.ByteToLineColumn(uint(k)); ok {
				c.Fail("byte %d is inside of a character, but at %d:%d", k, got.Line, got.Col)
			}
			if got, ok := l.ByteToLine(uint(k)); !ok || int(got) != line {
				c.Fail("byte %d is on line %d, got %d %v", k, line, got, ok)
			}
		}
		if r >= 0x10000 {
			if got, ok := l.Utf16ToByte(uint(u16 + 1)); !ok || int(got) != i+utf8.RuneLen(r) {
				c.Fail("the character of UTF-16 unit %d ends at byte %d, got %d %v", u16+1, i+utf8.RuneLen(r), got, ok)
			}
		}
		col++
		u16 += utf16Len(string(r))
	}
	step(len(text))
	for k, s := range starts {
		if got, ok := l.LineToByte(uint(k)); !ok || int(got) != s {
			c.Fail("line %d starts at byte %d, got %d %v", k, s, got, ok)
		}
		end := len(text)
		if k+1 < len(starts) {
			end = starts[k+1]
		}
		if got, ok := l.LineToRange(uint(k)); !ok || int(got.Start) != s || int(got.End) != end {
			c.Fail("line %d spans [%d,%d), got %v %v", k, s, end, got, ok)
		}
		chars := utf8.RuneCountInString(text[s:end])
		if got, ok := l.LineColumnToByte(uint(k), uint(chars)); !ok || int(got) != end {
			c.Fail("the end of line %d is byte %d, got %d %v", k, end, got, ok)
		}
		if got, ok := l.LineColumnToByte(uint(k), uint(chars+1+c.IntN(3))); ok {
			c.Fail("a column beyond the end of line %d is at byte %d", k, got)
		}
	}
	// Out of bounds.
	for _, d := range []uint64{1, 2, 1000, math.MaxInt64 - uint64(len(text)), math.MaxUint64 - uint64(2*len(text)) - 1} {
		c.Eval(1)
		b := uint(uint64(len(text)) + d)
		if _, ok := l.ByteToUtf16(b); ok {
			c.Fail("byte %d is out of bounds, but has a UTF-16 index", b)
		}
		if _, ok := l.ByteToLine(b); ok {
			c.Fail("byte %d is out of bounds, but has a line", b)
		}
		if _, ok := l.ByteToColumn(b); ok {
			c.Fail("byte %d is out of bounds, but has a column", b)
		}
		if _, ok := l.ByteToLineColumn(b); ok {
			c.Fail("byte %d is out of bounds, but has a position", b)
		}
		u := uint(uint64(utf16Len(text)) + d)
		if got, ok := l.Utf16ToByte(u); ok {
			c.Fail("UTF-16 unit %d is out of bounds, but is at byte %d", u, got)
		}
		n := uint(uint64(len(starts)) + d - 1)
		if _, ok := l.LineToByte(n); ok {
			c.Fail("line %d is out of bounds, but starts somewhere", n)
		}
		if _, ok := l.LineToRange(n); ok {
			c.Fail("line %d is out of bounds, but has a range", n)
		}
		if _, ok := l.LineColumnToByte(n, 0); ok {
			c.Fail("line %d is out of bounds, but has a first column", n)
		}
		if _, ok := l.LineColumnToByte(uint(c.IntN(len(starts))), uint(uint64(len(text))+d)); ok {
			c.Fail("column %d is out of bounds, but has a byte index", uint64(len(text))+d)
		}
	}
}

// lineShape tells texts apart by line lengths and line ends.
func lineShape(text string) string {
	var b strings.Builder
	for _, r := range text {
		switch {
		case refNewline(r):
			fmt.Fprintf(&b, "%x;", r)
		default:
			b.WriteByte(byte('0' + utf8.RuneLen(r)))
		}
	}
	return b.String()
}

// --- paths and packages ---------------------------------------------------------

func modelPath(base []string, path string) []string {
	out := slices.Clone(base)
	for _, s := range strings.Split(path, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return out
}

// checkExtension gives a path another extension, with the dot. Names that begin
// with a dot are not judged: whether they have an extension is a convention.
func checkExtension(c *Case, vp *syntax.VirtualPath, segs []string) {
	name := segs[len(segs)-1]
	if strings.HasPrefix(name, ".") {
		return
	}
	ext := []string{".typ", ".pdf", ".bib", ".日本", ".t y"}[c.IntN(5)]
	if k := strings.LastIndexByte(name, '.'); k >= 0 {
		name = name[:k]
	}
	want := "/" + strings.Join(append(slices.Clone(segs[:len(segs)-1]), name+ext), "/")
	c.Eval(1)
	if got := vp.WithExtension(ext); got.Path != want {
		c.Fail("%q with the extension %q is %q, want %q", vp.Path, ext, got.Path, want)
	}
	c.Cover("extension")
}

func randPath(c *Case) string {
	segs := []string{"a", "b", "lib.typ", "main.typ", "..", "..", ".", "", "src", "日本.typ", ".hidden", "...", "a b", "x.tar.gz", "..a", "é", "a.", "x.y.", "b.."}
	var b strings.Builder
	if c.IntN(2) == 0 {
		b.WriteString("/")
	}
	for i, n := 0, c.IntN(8); i < n; i++ {
		if i > 0 {
			b.WriteString("/")
		}
		b.WriteString(segs[c.IntN(len(segs))])
	}
	if c.IntN(5) == 0 {
		b.WriteString("/")
	}
	return b.String()
}

var verParts = []string{"0", "1", "2", "9", "10", "11", "42", "100", "4294967295"}
var badVerParts = []string{"", "-1", "+1", "a", "1a", " 1", "1 ", "4294967296", "99999999999999999999", "0x1", "1_0", "１", "é"}

// isIdentName is the reference for package namespaces and names.
func isIdentName(s string) bool {
	for i, r := range s {
		if i == 0 && !refIDStart(r) || i > 0 && !refIDContinue(r) {
			return false
		}
	}
	return s != ""
}

func refVersion(s string) ([3]uint32, bool) {
	parts := strings.Split(s, ".")
	var v [3]uint32
	if len(parts) != 3 {
		return v, false
	}
	for i, p := range parts {
		n, ok := refUint32(p)
		if !ok {
			return v, false
		}
		v[i] = n
	}
	return v, true
}

func refUint32(p string) (uint32, bool) {
	if p == "" {
		return 0, false
	}
	n := uint64(0)
	for _, r := range p {
		if r < '0' || r > '9' {
			return 0, false
		}
		if n = n*10 + uint64(r-'0'); n > math.MaxUint32 {
			return 0, false
		}
	}
	return uint32(n), true
}

var nameParts = []string{"a", "b", "pkg", "preview", "local", "_x", "ab-cd", "x1", "é", "日本", "", "1a", "-a", "a b", "a@", "@", "/", ":", ".", "a.b", "A", "a_"}

func u32p(v uint32) *uint32 { return &v }

func u32(c *Case) uint32 {
	switch c.IntN(6) {
	case 0:
		return math.MaxUint32
	case 1:
		return c.Uint32()
	default:
		return uint32(c.IntN(4))
	}
}

// fileIDKey is what a file ID stands for.
type fileIDKey struct {
	spec string
	path string
}

func init() {
	register(&Prop{
		ID:   "P11",
		Rule: "a text counts by its line ends and the widths of its characters",
		Groups: []Group{
			{Name: "small", Quick: 20000, Thorough: 700000, Run: func(c *Case) { linesCase(c, lineText(c, c.IntN(12))) }},
			{Name: "medium", Quick: 3000, Thorough: 90000, Run: func(c *Case) { linesCase(c, lineText(c, c.IntN(150))) }},
			{Name: "source", Quick: 2000, Thorough: 60000, Run: func(c *Case) { linesCase(c, anyText(c, 80)) }},
			{Name: "long lines", Quick: 20, Thorough: 400, Run: func(c *Case) {
				linesCase(c, strings.Repeat(lineText(c, 1+c.IntN(4)), 1+c.IntN(300))+lineText(c, 20))
			}},
		},
	})
	register(&Prop{
		ID:   "P12",
		Rule: "an edit counts by the line shape of the text before and after it",
		Groups: []Group{
			{Name: "edits", Quick: 20000, Thorough: 700000, Run: func(c *Case) { lineEdits(c, lineText(c, c.IntN(14)), 6) }},
			{Name: "history", Quick: 500, Thorough: 15000, Run: func(c *Case) { lineEdits(c, lineText(c, c.IntN(60)), 80) }},
			{Name: "carriage returns", Quick: 20000, Thorough: 500000, Run: func(c *Case) {
				var b strings.Builder
				for i, n := 0, c.IntN(7); i < n; i++ {
					b.WriteString([]string{"\r", "\n", "a", "\U0001F600"}[c.IntN(4)])
				}
				lineEdits(c, b.String(), 4)
			}},
			{Name: "refused", Quick: 4000, Thorough: 100000, Run: refusedEdit},
			{Name: "source", Quick: 3000, Thorough: 80000, Run: func(c *Case) {
				// Through a source file.
				h := newHistory(c, lineText(c, 30))
				for i := 0; i < 4; i++ {
					before := lineShape(h.text)
					a := boundary(c, h.text)
					b := a + boundary(c, h.text[a:])
					with := lineText(c, c.IntN(4))
					if c.IntN(3) == 0 {
						h.replace(h.text[:a] + with + h.text[b:])
					} else {
						h.edit(a, b, with)
					}
					if h.s.Text() != h.text {
						c.Fail("the text of the source is %q, want %q", h.s.Text(), h.text)
					}
					sameLines(c, h.s.Lines, h.text)
					c.Distinct(before, lineShape(h.text))
				}
			}},
		},
	})
	register(&Prop{
		ID:   "P13",
		Rule: "a span counts by its file and number or range",
		Groups: []Group{
			{Name: "numbers", Quick: 100, Thorough: 3000, Run: spanNumbers},
			{Name: "ranges", Quick: 100, Thorough: 3000, Run: spanRanges},
			{Name: "detached", Quick: 100, Thorough: 2000, Run: spanDetached},
			{Name: "resolve", Quick: 200, Thorough: 4000, Run: func(c *Case) {
				base, rel := randPath(c), randPath(c)
				c.Input = fmt.Sprintf("%q %q", base, rel)
				id := syntax.NewFileID(option.None[*syntax.PackageSpec](), syntax.NewVirtualPath("s"+strconv.Itoa(c.IntN(40))))
				sp, _ := syntax.NewSpanFromNumber(id, 5)
				if c.IntN(3) == 0 {
					rel = []string{"a.typ", "../b.typ", "/c.typ", "d/e.typ", "", ".", "/"}[c.IntN(7)]
				}
				if c.IntN(2) == 0 {
					spec, _, _ := idKey(c, 500)
					id = syntax.NewFileID(spec, syntax.NewVirtualPath(base))
				}
				sp, _ = syntax.NewSpanFromNumber(id, 5)
				want := syntax.NewFileID(id.Spec(), id.VPath().Join(rel))
				got, err := sp.ResolvePath(rel)
				c.Eval(1)
				if err != nil || got != want || id.Join(rel) != want {
					c.Fail("%q relative to the span's file is %v %v, joined %v, want %v", rel, got, err, id.Join(rel), want)
				}
				if _, err := syntax.NewDetachedSpan().ResolvePath(rel); err == nil {
					c.Fail("a path was resolved relative to a detached span")
				}
				c.Distinct(id, rel)
			}},
		},
	})
	register(&Prop{
		ID:   "P14",
		Rule: "an interning history counts by its interleaving: the order in which the goroutines got their IDs",
		Groups: []Group{
			{Name: "equal", Serial: true, Quick: 300, Thorough: 3000, Run: fileIDEqual},
			{Name: "concurrent", Serial: true, Quick: 60, Thorough: 600, Run: fileIDConcurrent},
			{Name: "exhaust", Serial: true, Quick: 1, Thorough: 4, Run: func(c *Case) {
				c.Input = "use up all file IDs"
				self, _ := os.Executable()
				cmd := exec.Command(self)
				cmd.Env = append(os.Environ(), "VERIF_CHILD=exhaust")
				out, err := cmd.CombinedOutput()
				c.Eval(1)
				if err != nil {
					c.Fail("%v\n%s", err, tail(string(out)))
				}
				c.Distinct("exhaust", c.Index)
			}},
		},
		Assumptions: []string{"the race detector sees the interleavings that happened; their number is reported"},
	})
	register(&Prop{
		ID:   "P15",
		Rule: "a path pair counts by its text",
		Groups: []Group{
			{Name: "paths", Quick: 40000, Thorough: 2000000, Run: func(c *Case) {
				p, q := randPath(c), randPath(c)
				c.Input = fmt.Sprintf("%q joined with %q", p, q)
				vp := syntax.NewVirtualPath(p)
				segs := modelPath(nil, p)
				want := "/" + strings.Join(segs, "/")
				c.Eval(1)
				if vp.Path != want {
					c.Fail("the virtual path of %q is %q, want %q", p, vp.Path, want)
				}
				if again := syntax.NewVirtualPath(vp.Path); again.Path != vp.Path {
					c.Fail("normalizing %q again gives %q", vp.Path, again.Path)
				}
				base := segs
				if strings.HasPrefix(q, "/") {
					base = nil
				} else if len(base) > 0 {
					base = base[:len(base)-1]
				}
				want = "/" + strings.Join(modelPath(base, q), "/")
				before := vp.Path
				j := vp.Join(q)
				c.Eval(1)
				if j.Path != want {
					c.Fail("%q joined with %q is %q, want %q", p, q, j.Path, want)
				}
				if len(segs) > 0 {
					checkExtension(c, vp, segs)
				}
				if vp.Path != before {
					c.Fail("an operation changed the path itself from %q to %q", before, vp.Path)
				}
				c.Distinct(p, "|", q)
				c.Sample(c.Input)
			}},
		},
	})
	register(&Prop{
		ID:   "P16",
		Rule: "a specification counts by its text",
		Groups: []Group{
			{Name: "versions", Quick: 60000, Thorough: 1000000, Run: func(c *Case) {
				n := 3
				if c.IntN(5) == 0 {
					n = c.IntN(6)
				}
				var parts []string
				for i := 0; i < n; i++ {
					if c.IntN(6) == 0 {
						parts = append(parts, badVerParts[c.IntN(len(badVerParts))])
					} else {
						parts = append(parts, verParts[c.IntN(len(verParts))])
					}
				}
				s := strings.Join(parts, ".")
				if c.IntN(6) == 0 {
					s = mutate(c, s, 1)
				}
				c.Input = s
				want, ok := refVersion(s)
				got, err := syntax.ParsePackageVersion(s)
				c.Eval(1)
				if ok != (err == nil) {
					c.Fail("%q is a version: %v, parsing says %v", s, ok, err)
				}
				if err != nil {
					versionError(c, s, err, true)
				}
				if ok {
					if got != (syntax.PackageVersion{Major: want[0], Minor: want[1], Patch: want[2]}) {
						c.Fail("%q parses as %v", s, got)
					}
					if got.String() != plainNumbers(s) {
						c.Fail("%q is printed as %q", s, got.String())
					}
					var u syntax.PackageVersion
					if err := u.UnmarshalText([]byte(s)); err != nil || u != got {
						c.Fail("decoding %q gives %v %v", s, u, err)
					}
				}
				c.Distinct(s)
				c.Sample(s)
			}},
			{Name: "specs", Quick: 80000, Thorough: 1000000, Run: specCase},
			{Name: "bounds", Quick: 40000, Thorough: 800000, Run: boundParse},
		},
	})
	register(&Prop{
		ID:   "P17",
		Rule: "a version and bound count by their values",
		Groups: []Group{
			{Name: "bounds", Quick: 40000, Thorough: 2000000, Run: boundCase},
			{Name: "parsing", Quick: 40000, Thorough: 800000, Run: boundParse},
		},
	})
	register(&Prop{
		ID:   "P18",
		Rule: "a manifest counts by its text",
		Groups: []Group{
			{Name: "fields", Quick: 6000, Thorough: 200000, Run: manifestFields},
			{Name: "invalid", Quick: 6000, Thorough: 200000, Run: manifestInvalid},
			{Name: "validate", Quick: 10000, Thorough: 400000, Run: manifestValidate},
		},
	})
}

func linesCase(c *Case, text string) {
	c.Input = text
	checkLines(c, syntax.NewLines(text), text)
	c.Distinct(lineShape(text))
	if len(text) < 60 {
		c.Sample(fmt.Sprintf("%q", text))
	}
}

func sameLines(c *Case, l *syntax.Lines, text string) {
	c.Eval(1)
	fresh := syntax.NewLines(text)
	if l.Text != text {
		c.Fail("the text is %q, want %q", l.Text, text)
	}
	if !slices.Equal(l.Lines, fresh.Lines) {
		c.Fail("the line table is %v, of a fresh index it is %v", l.Lines, fresh.Lines)
	}
	starts := modelLines(text)
	if len(starts) != len(l.Lines) {
		c.Fail("%d lines, the text has %d", len(l.Lines), len(starts))
	}
	for i, s := range starts {
		if int(l.Lines[i].ByteIdx) != s || int(l.Lines[i].Utf16Idx) != utf16Len(text[:s]) {
			c.Fail("line %d starts at %+v, want byte %d", i, l.Lines[i], s)
		}
	}
}

func lineEdits(c *Case, text string, steps int) {
	var log strings.Builder
	fmt.Fprintf(&log, "lines %q", text)
	c.Input = log.String()
	l := syntax.NewLines(text)
	for i := 0; i < steps; i++ {
		before := lineShape(text)
		a := boundary(c, text)
		b := a
		if c.IntN(3) > 0 {
			b = a + boundary(c, text[a:min(len(text), a+6+utf8Rest(text[min(len(text), a+6):]))])
		}
		with := ""
		if c.IntN(3) > 0 {
			with = lineText(c, c.IntN(4))
		}
		new := text[:a] + with + text[b:]
		if c.IntN(2) == 0 {
			fmt.Fprintf(&log, "\nedit [%d,%d) -> %q", a, b, with)
			c.Input = log.String()
			l.Edit(ranges.NewRange(uint64(a), uint64(b)), with)
		} else {
			if c.IntN(6) == 0 {
				new = lineText(c, c.IntN(8))
			}
			fmt.Fprintf(&log, "\nreplace %q", new)
			c.Input = log.String()
			checkDiff(c, l, text, new)
			changed := l.Replace(new)
			if changed != (new != text) {
				c.Fail("replacing the text says changed=%v", changed)
			}
		}
		text = new
		sameLines(c, l, text)
		c.Distinct(before, lineShape(text))
	}
	c.Cover("histories")
	if log.Len() < 200 {
		c.Sample(log.String())
	}
}

// checkDiff checks the common prefix and suffix of two texts: they are common,
// do not overlap, split no character and cannot be extended by a character.
func checkDiff(c *Case, l *syntax.Lines, old, new string) {
	r, ok := l.ReplacementRange(new)
	c.Eval(1)
	if ok != (old != new) {
		c.Fail("the texts differ: %v, the diff says %v", old != new, ok)
	}
	if !ok {
		return
	}
	p, s := int(r.Prefix), int(r.Suffix)
	if p < 0 || s < 0 || p+s > min(len(old), len(new)) {
		c.Fail("prefix %d and suffix %d do not fit into %d and %d bytes", p, s, len(old), len(new))
	}
	if old[:p] != new[:p] || old[len(old)-s:] != new[len(new)-s:] {
		c.Fail("prefix %d and suffix %d are not common to %q and %q", p, s, old, new)
	}
	mo, mn := old[p:len(old)-s], new[p:len(new)-s]
	if !utf8.ValidString(mo) || !utf8.ValidString(mn) {
		c.Fail("the diff %q -> %q splits a character", mo, mn)
	}
	if mo != "" && mn != "" {
		a, _ := utf8.DecodeRuneInString(mo)
		b, _ := utf8.DecodeRuneInString(mn)
		y, _ := utf8.DecodeLastRuneInString(mo)
		z, _ := utf8.DecodeLastRuneInString(mn)
		if a == b || y == z {
			c.Fail("the diff %q -> %q is not the smallest", mo, mn)
		}
	}
}

func spanNumbers(c *Case) {
	id := syntax.FileIDFromUint16(uint16(1 + c.IntN(65535)))
	full := uint64(1) << 47
	if syntax.SpanFull.Start != 2 || syntax.SpanFull.End != full {
		c.Fail("the range of span numbers is %v", syntax.SpanFull)
	}
	nums := []uint64{0, 1, 2, 3, full - 1, full, full + 1, 1 << 48, 1<<48 + 2, 1 << 63, math.MaxUint64}
	for i := 0; i < 60; i++ {
		nums = append(nums, 2+c.Uint64N(full-2), c.Uint64(), 1<<c.IntN(64), uint64(1)<<c.IntN(47)+2)
	}
	seen := map[syntax.Span]uint64{}
	for _, n := range nums {
		c.Input = fmt.Sprintf("file %d number %d", id, n)
		sp, ok := syntax.NewSpanFromNumber(id, n)
		c.Eval(1)
		if ok != (n >= 2 && n < full) {
			c.Fail("number %d accepted: %v", n, ok)
		}
		if !ok {
			continue
		}
		checkPacked(c, sp, id)
		if sp.Number() != n {
			c.Fail("number %d is stored as %d", n, sp.Number())
		}
		if r, ok := sp.RawRange(); ok {
			c.Fail("a numbered span is the raw range %v", r)
		}
		if m, dup := seen[sp]; dup && m != n {
			c.Fail("numbers %d and %d have the same span", n, m)
		}
		seen[sp] = n
		other, _ := syntax.NewSpanFromNumber(syntax.FileIDFromUint16(id.Uint16()%65535+1), n)
		if other == sp {
			c.Fail("two files have the same span")
		}
		c.Distinct("n", id, n)
	}
}

func checkPacked(c *Case, sp syntax.Span, id syntax.FileID) {
	if got, ok := sp.ID(); !ok || got != id {
		c.Fail("the file of the span is %v %v, want %v", got, ok, id)
	}
	if sp.IsDetached() {
		c.Fail("the span is detached")
	}
	if syntax.NewSpanFromUint64(sp.Uint64()) != sp {
		c.Fail("the span does not survive conversion to a number and back")
	}
	d := syntax.NewDetachedSpan()
	if sp.Or(d) != sp || d.Or(sp) != sp {
		c.Fail("choosing between the span and a detached one does not give the span")
	}
}

func spanRanges(c *Case) {
	id := syntax.FileIDFromUint16(uint16(1 + c.IntN(65535)))
	const most = 1<<23 - 1
	vals := []uint64{0, 1, 2, most - 1, most, most + 1, most + 2, 1 << 24, 1 << 32, 1 << 46, 1 << 47, math.MaxUint64}
	for i := 0; i < 20; i++ {
		vals = append(vals, c.Uint64N(most+1), uint64(1)<<c.IntN(64), c.Uint64())
	}
	for i := 0; i < 300; i++ {
		a, b := vals[c.IntN(len(vals))], vals[c.IntN(len(vals))]
		c.Input = fmt.Sprintf("file %d range [%d,%d)", id, a, b)
		sp := syntax.NewSpanFromRange(id, ranges.NewRange(a, b))
		c.Eval(1)
		checkPacked(c, sp, id)
		r, ok := sp.RawRange()
		if !ok || r.Start != min(a, most) || r.End != min(b, most) {
			c.Fail("the range [%d,%d) is stored as %v %v", a, b, r, ok)
		}
		c.Distinct("r", id, a, b)
	}
}

func spanDetached(c *Case) {
	d := syntax.NewDetachedSpan()
	if !d.IsDetached() {
		c.Fail("the detached span is not detached")
	}
	if id, ok := d.ID(); ok {
		c.Fail("the detached span belongs to file %v", id)
	}
	if r, ok := d.RawRange(); ok {
		c.Fail("the detached span is the raw range %v", r)
	}
	var list []syntax.Span
	want := d
	for i, n := 0, c.IntN(6); i < n; i++ {
		sp := d
		if c.IntN(2) == 0 {
			sp, _ = syntax.NewSpanFromNumber(syntax.FileIDFromUint16(uint16(1+c.IntN(65535))), 2+c.Uint64N(1<<40))
		}
		list = append(list, sp)
		if want == d {
			want = sp
		}
	}
	c.Input = fmt.Sprint(list)
	c.Eval(1)
	if got := syntax.FindFirstNonDetached(slices.Values(list)); got != want {
		c.Fail("the first attached span is %d, want %d", got, want)
	}
	s := syntax.NewSpanned(c.IntN(100), want)
	m := s.Map(func(v int) int { return v + 1 })
	if m.Span != s.Span || m.Value != s.Value+1 {
		c.Fail("mapping a spanned value gives %v", m)
	}
	c.Distinct(list)
}

// idKey draws from a bounded pool of file specifications.
func idKey(c *Case, pool int) (option.Option[*syntax.PackageSpec], *syntax.VirtualPath, fileIDKey) {
	k := c.IntN(pool)
	path := fmt.Sprintf("/f%d.typ", k%37)
	raw := []string{path, path[1:], "/x/.." + path, "." + path, "/" + path}[c.IntN(5)]
	if k%3 == 0 {
		return option.None[*syntax.PackageSpec](), syntax.NewVirtualPath(raw), fileIDKey{"", path}
	}
	spec := &syntax.PackageSpec{
		Namespace: "n" + strconv.Itoa(k%2), Name: "p" + strconv.Itoa(k%5),
		Version: syntax.PackageVersion{Major: uint32(k % 7), Minor: uint32(k % 11), Patch: uint32(k % 3)},
	}
	return option.Some(spec), syntax.NewVirtualPath(raw), fileIDKey{spec.String(), path}
}

func checkID(c *Case, id syntax.FileID, key fileIDKey) {
	spec := ""
	if s, ok := id.Spec().Get(); ok {
		spec = s.String()
	}
	if spec != key.spec || id.VPath().Path != key.path {
		c.Fail("file ID %d stands for %q %q, want %q %q", id, spec, id.VPath().Path, key.spec, key.path)
	}
	if id == 0 {
		c.Fail("file ID zero was given out")
	}
	if syntax.FileIDFromUint16(id.Uint16()) != id {
		c.Fail("file ID %d does not survive conversion", id)
	}
	if got := id.String(); got != key.spec+key.path {
		c.Fail("file ID %d shows as %q, want %q", id, got, key.spec+key.path)
	}
}

func fileIDEqual(c *Case) {
	ids := map[fileIDKey]syntax.FileID{}
	keys := map[syntax.FileID]fileIDKey{}
	for i := 0; i < 60; i++ {
		spec, path, key := idKey(c, 900)
		var id syntax.FileID
		c.Input = fmt.Sprint(key)
		fake := c.IntN(25) == 0
		switch {
		case fake:
			id = syntax.NewFakeFileID(path)
			key = fileIDKey{"", path.Path}
		case c.IntN(4) == 0:
			// The same file reached by joining.
			other := syntax.NewFileID(spec, syntax.NewVirtualPath("/dir/sub/q.typ"))
			id = other.Join([]string{key.path, "../.." + key.path, "./../../" + key.path[1:]}[c.IntN(3)])
		case c.IntN(6) == 0:
			// The same file reached from another extension.
			other := syntax.NewFileID(spec, syntax.NewVirtualPath(strings.TrimSuffix(path.Path, ".typ")+[]string{"", ".bib"}[c.IntN(2)]))
			id = other.WithExtension(".typ")
		default:
			id = syntax.NewFileID(spec, path)
		}
		c.Eval(1)
		checkID(c, id, key)
		if fake {
			if _, dup := keys[id]; dup {
				c.Fail("a fake file ID is in use already")
			}
			keys[id] = fileIDKey{"fake", strconv.Itoa(i)}
			if again := syntax.NewFileID(option.None[*syntax.PackageSpec](), path); again == id {
				c.Fail("the path of a fake file ID leads to it")
			}
			continue
		}
		if old, ok := ids[key]; ok && old != id {
			c.Fail("%v has the IDs %d and %d", key, old, id)
		}
		if k, ok := keys[id]; ok && k != key {
			c.Fail("%v and %v have the same ID %d", k, key, id)
		}
		ids[key], keys[id] = id, key
		c.Distinct(key)
	}
}

type idEvent struct {
	g    int
	key  fileIDKey
	id   syntax.FileID
	fake bool
	t    int64
}

func fileIDConcurrent(c *Case) {
	const workers = 8
	var clock atomic.Int64
	logs := make([][]idEvent, workers)
	type op struct {
		spec option.Option[*syntax.PackageSpec]
		path *syntax.VirtualPath
		key  fileIDKey
		kind int
		nap  int
	}
	plans := make([][]op, workers)
	for g := range plans {
		for i := 0; i < 60; i++ {
			s, p, k := idKey(c, 900)
			if c.IntN(2) == 0 {
				// Fresh files, the same ones for all goroutines.
				path := fmt.Sprintf("/c%d/%d.typ", c.Index%200, c.IntN(12))
				s, p, k = option.None[*syntax.PackageSpec](), syntax.NewVirtualPath(path), fileIDKey{"", path}
			}
			plans[g] = append(plans[g], op{s, p, k, c.IntN(12), c.IntN(4)})
		}
	}
	c.Input = "concurrent interning"
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range plans[g] {
				for i := 0; i < o.nap; i++ {
					runtime.Gosched()
				}
				var id syntax.FileID
				fake := o.kind == 0 && c.Index < 40
				switch {
				case fake:
					id = syntax.NewFakeFileID(o.path)
				case o.kind == 1:
					id = syntax.NewFileID(o.spec, syntax.NewVirtualPath("/a/b.typ")).Join("../" + o.key.path[1:])
				default:
					id = syntax.NewFileID(o.spec, o.path)
				}
				_ = id.VPath()
				_ = id.Spec()
				logs[g] = append(logs[g], idEvent{g, o.key, id, fake, clock.Add(1)})
			}
		}()
	}
	close(start)
	wg.Wait()
	// The history: equal keys have equal IDs, different keys different IDs,
	// every fake ID is unique.
	var all []idEvent
	for _, l := range logs {
		all = append(all, l...)
	}
	slices.SortFunc(all, func(a, b idEvent) int { return int(a.t - b.t) })
	ids := map[fileIDKey]syntax.FileID{}
	keys := map[syntax.FileID]fileIDKey{}
	fakes := map[syntax.FileID]bool{}
	var order strings.Builder
	for _, e := range all {
		c.Eval(1)
		order.WriteByte(byte('0' + e.g))
		if e.fake {
			if e.id.VPath().Path != e.key.path || e.id.Spec().IsPresent() {
				c.Fail("fake file ID %d lost its path", e.id)
			}
			if fakes[e.id] {
				c.Fail("the fake file ID %d was given out twice", e.id)
			}
			fakes[e.id] = true
			continue
		}
		checkID(c, e.id, e.key)
		if old, ok := ids[e.key]; ok && old != e.id {
			c.Fail("%v has the IDs %d and %d", e.key, old, e.id)
		}
		if k, ok := keys[e.id]; ok && k != e.key {
			c.Fail("%v and %v have the same ID %d", k, e.key, e.id)
		}
		ids[e.key], keys[e.id] = e.id, e.key
	}
	for id := range fakes {
		if k, ok := keys[id]; ok {
			c.Fail("the fake file ID %d is also that of %v", id, k)
		}
	}
	c.Distinct(order.String())
	c.CoverN("interning events", len(all))
}

// exhaustIDs runs in a process of its own.
func exhaustIDs() int {
	first := syntax.NewFileID(option.None[*syntax.PackageSpec](), syntax.NewVirtualPath("/first.typ"))
	seen := map[syntax.FileID]bool{first: true}
	try := func(i int) (id syntax.FileID, failed any) {
		defer func() { failed = recover() }()
		if i%2 == 0 {
			return syntax.NewFileID(option.None[*syntax.PackageSpec](), syntax.NewVirtualPath(fmt.Sprintf("/x%d.typ", i))), nil
		}
		return syntax.NewFakeFileID(syntax.NewVirtualPath("/fake.typ")), nil
	}
	n := 0
	for i := 0; ; i++ {
		id, failed := try(i)
		if failed != nil {
			break
		}
		n++
		if id == 0 || seen[id] {
			fmt.Printf("file ID %d given out for the %dth file is in use or zero\n", id, i)
			return 1
		}
		seen[id] = true
		if n > 65535 {
			fmt.Println("more files than IDs")
			return 1
		}
	}
	if len(seen) != 65535 {
		fmt.Printf("only %d file IDs were given out\n", len(seen))
		return 1
	}
	// Running out of IDs leaves the known files usable.
	done := make(chan bool)
	go func() {
		done <- syntax.NewFileID(option.None[*syntax.PackageSpec](), syntax.NewVirtualPath("/first.typ")) == first && first.VPath().Path == "/first.typ"
	}()
	if !<-done {
		fmt.Println("a known file has another ID after the IDs ran out")
		return 1
	}
	for i := 0; i < 4; i++ {
		if _, failed := try(1000000 + i); failed == nil {
			fmt.Println("an ID was given out after the IDs ran out")
			return 1
		}
	}
	return 0
}

func specCase(c *Case) {
	ns, name := nameParts[c.IntN(len(nameParts))], nameParts[c.IntN(len(nameParts))]
	if c.IntN(3) > 0 {
		ns = nameParts[c.IntN(7)]
	}
	if c.IntN(3) > 0 {
		name = nameParts[c.IntN(7)]
	}
	ver := verParts[c.IntN(len(verParts))] + "." + verParts[c.IntN(len(verParts))] + "." + verParts[c.IntN(len(verParts))]
	if c.IntN(5) == 0 {
		ver = badVerParts[c.IntN(len(badVerParts))] + ".1.2"
	}
	s := "@" + ns + "/" + name + ":" + ver
	if c.IntN(5) == 0 {
		s = mutate(c, s, 1)
	}
	c.Input = s
	// The reference splits at the separators.
	parse := func(s string, versioned bool) (n, p, v string, ok bool) {
		rest, found := strings.CutPrefix(s, "@")
		if !found {
			return
		}
		n, rest, found = strings.Cut(rest, "/")
		if !found || !isIdentName(n) {
			return
		}
		if versioned {
			p, v, found = strings.Cut(rest, ":")
			_, good := refVersion(v)
			return n, p, v, found && isIdentName(p) && good
		}
		return n, rest, "", isIdentName(rest)
	}
	n, p, v, ok := parse(s, true)
	spec, err := syntax.ParsePackageSpec(s)
	c.Eval(1)
	if ok != (err == nil) {
		c.Fail("%q is a package specification: %v, parsing says %v", s, ok, err)
	}
	if ok {
		want, _ := refVersion(v)
		if spec.Namespace != n || spec.Name != p || spec.Version != (syntax.PackageVersion{Major: want[0], Minor: want[1], Patch: want[2]}) {
			c.Fail("%q parses as %+v", s, spec)
		}
		again, err := syntax.ParsePackageSpec(spec.String())
		if err != nil || *again != *spec {
			c.Fail("%q is printed as %q", s, spec.String())
		}
		less := spec.Versionless()
		if *less.At(spec.Version) != *spec || less.String()+":"+spec.Version.String() != spec.String() {
			c.Fail("%q without and with its version is %v", s, less.At(spec.Version))
		}
		cl := spec.Clone()
		if *cl != *spec || cl == spec {
			c.Fail("the copy of %v is %v", spec, cl)
		}
	}
	short, _, _ := strings.Cut(s, ":")
	if c.IntN(4) == 0 {
		short = s
	}
	n, p, _, ok = parse(short, false)
	c.Input = short
	less, err := syntax.ParseVersionlessPackageSpec(short)
	c.Eval(1)
	if ok != (err == nil) {
		c.Fail("%q is a package specification without version: %v, parsing says %v", short, ok, err)
	}
	if ok && (less.Namespace != n || less.Name != p || less.String() != short) {
		c.Fail("%q parses as %+v", short, less)
	}
	c.Distinct(s)
	if len(s) < 40 {
		c.Sample(s)
	}
}

// plainNumbers drops the leading zeros of a version.
func plainNumbers(s string) string {
	parts := strings.Split(s, ".")
	for i, p := range parts {
		if p = strings.TrimLeft(p, "0"); p == "" {
			p = "0"
		}
		parts[i] = p
	}
	return strings.Join(parts, ".")
}

func boundParse(c *Case) {
	var parts []string
	for i, n := 0, 1+c.IntN(4); i < n; i++ {
		if c.IntN(6) == 0 {
			parts = append(parts, badVerParts[c.IntN(len(badVerParts))])
		} else {
			parts = append(parts, verParts[c.IntN(len(verParts))])
		}
	}
	s := strings.Join(parts, ".")
	if c.IntN(6) == 0 {
		s = mutate(c, s, 1)
		parts = strings.Split(s, ".")
	}
	c.Input = s
	ok := len(parts) <= 3
	var vals []uint32
	for _, p := range parts {
		v, good := refUint32(p)
		ok = ok && good
		vals = append(vals, v)
	}
	b, err := syntax.ParseVersionBound(s)
	c.Eval(1)
	if ok != (err == nil) {
		c.Fail("%q is a version bound: %v, parsing says %v", s, ok, err)
	}
	if err != nil {
		versionError(c, s, err, false)
	}
	if ok {
		if b.Major != vals[0] || (b.Minor != nil) != (len(vals) > 1) || (b.Patch != nil) != (len(vals) > 2) ||
			len(vals) > 1 && *b.Minor != vals[1] || len(vals) > 2 && *b.Patch != vals[2] {
			c.Fail("%q parses as %v", s, b)
		}
		if b.String() != plainNumbers(s) {
			c.Fail("%q is printed as %q", s, b.String())
		}
		var u syntax.VersionBound
		if err := u.UnmarshalText([]byte(s)); err != nil || u.String() != plainNumbers(s) {
			c.Fail("decoding %q gives %v %v", s, &u, err)
		}
	}
	c.Distinct(s)
}

func boundCase(c *Case) {
	v := syntax.PackageVersion{Major: u32(c), Minor: u32(c), Patch: u32(c)}
	b := &syntax.VersionBound{Major: u32(c)}
	if c.IntN(3) == 0 {
		b.Major = v.Major
	}
	n := 1 + c.IntN(3)
	vals, bvals := []uint32{v.Major, v.Minor, v.Patch}, []uint32{b.Major}
	if n > 1 {
		x := u32(c)
		if c.IntN(3) == 0 {
			x = v.Minor
		}
		b.Minor = u32p(x)
		bvals = append(bvals, x)
	}
	if n > 2 {
		x := u32(c)
		if c.IntN(3) == 0 {
			x = v.Patch
		}
		b.Patch = u32p(x)
		bvals = append(bvals, x)
	}
	c.Input = fmt.Sprintf("version %v bound %v", v, b)
	cmp := slices.Compare(vals[:n], bvals)
	c.Eval(5)
	check := func(name string, got, want bool) {
		if got != want {
			c.Fail("%v %s %v is %v, want %v", v, name, b, got, want)
		}
	}
	check("==", v.MatchesEQ(b), cmp == 0)
	check(">", v.MatchesGT(b), cmp > 0)
	check("<", v.MatchesLT(b), cmp < 0)
	check(">=", v.MatchesGE(b), cmp >= 0)
	check("<=", v.MatchesLE(b), cmp <= 0)
	c.Distinct(v, b.String())
	c.Cover(fmt.Sprintf("bound with %d elements, %+d", n, cmp))
	c.Sample(c.Input)
}

var tomlStrings = []string{"", "a", "lib.typ", "src/lib.typ", "é 日本", "with \"quotes\"", "tab\there", "back\\slash", "two\nlines", "[package]", "# no comment", "https://a.b/c", "x = 1"}

func tstr(c *Case) string { return tomlStrings[c.IntN(len(tomlStrings))] }

func tlist(c *Case) []string {
	var out []string
	for i, n := 0, 1+c.IntN(3); i < n; i++ {
		out = append(out, tstr(c))
	}
	return out
}

func tquote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch r {
		case '"', '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case '\n':
			b.WriteString(`\n`)
		case '\t':
			b.WriteString(`\t`)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func tquotes(l []string) string {
	var q []string
	for _, s := range l {
		q = append(q, tquote(s))
	}
	return "[" + strings.Join(q, ", ") + "]"
}

// manifestText writes a random manifest and the values it holds.
func manifestText(c *Case) (string, *syntax.PackageManifest) {
	want := &syntax.PackageManifest{Pkg: &syntax.PackageInfo{}}
	p := want.Pkg
	p.Name, p.Entrypoint = tstr(c), tstr(c)
	p.Version = syntax.PackageVersion{Major: u32(c), Minor: u32(c), Patch: u32(c)}
	lines := []string{"name = " + tquote(p.Name), "version = " + tquote(p.Version.String()), "entrypoint = " + tquote(p.Entrypoint)}
	optS := func(key string, dst *string) {
		if c.IntN(2) == 0 {
			*dst = tstr(c)
			lines = append(lines, key+" = "+tquote(*dst))
		}
	}
	optL := func(key string, dst *[]string) {
		if c.IntN(2) == 0 {
			*dst = tlist(c)
			lines = append(lines, key+" = "+tquotes(*dst))
		}
	}
	optL("authors", &p.Authors)
	optS("license", &p.License)
	optS("description", &p.Description)
	optS("homepage", &p.Homepage)
	optS("repository", &p.Repository)
	optL("keywords", &p.Keywords)
	optL("categories", &p.Categories)
	optL("disciplines", &p.Disciplines)
	optL("exclude", &p.Exclude)
	if c.IntN(2) == 0 {
		b, _ := syntax.ParseVersionBound([]string{"0", "0.13", "0.13.1", "1.2.3", "0.12.0", "99"}[c.IntN(6)])
		p.Compiler = b
		lines = append(lines, "compiler = "+tquote(b.String()))
	}
	if c.IntN(3) == 0 {
		lines = append(lines, "unheard-of = 3", "other = [1, \"two\"]")
	}
	c.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	sections := []string{"[package]\n" + strings.Join(lines, "\n") + "\n"}
	if c.IntN(2) == 0 {
		t := &syntax.TemplateInfo{Path: tstr(c), Entrypoint: tstr(c)}
		s := "[template]\npath = " + tquote(t.Path) + "\nentrypoint = " + tquote(t.Entrypoint) + "\n"
		if c.IntN(2) == 0 {
			t.Thumbnail = tstr(c)
			s += "thumbnail = " + tquote(t.Thumbnail) + "\n"
		}
		want.Template = t
		sections = append(sections, s)
	}
	if c.IntN(4) == 0 {
		sections = append(sections, "[tool.something]\nkey = \"v\"\nn = 3\n")
	}
	if c.IntN(4) == 0 {
		sections = append(sections, "[unknown]\nkey = 1\n")
	}
	c.Shuffle(len(sections), func(i, j int) { sections[i], sections[j] = sections[j], sections[i] })
	return strings.Join(sections, "\n"), want
}

func infoString(m *syntax.PackageManifest) string {
	p := m.Pkg
	s := fmt.Sprintf("%q %v %q %q %q %q %q %q %q %q %q %q", p.Name, p.Version, p.Entrypoint, p.Authors, p.License, p.Description, p.Homepage, p.Repository, p.Keywords, p.Categories, p.Disciplines, p.Exclude)
	if p.Compiler != nil {
		s += " compiler " + p.Compiler.String()
	}
	if t := m.Template; t != nil {
		s += fmt.Sprintf(" template %q %q %q", t.Path, t.Entrypoint, t.Thumbnail)
	}
	return s
}

func manifestFields(c *Case) {
	text, want := manifestText(c)
	c.Input = text
	got, err := syntax.ParsePackageManifestFromToml(text)
	c.Eval(1)
	if err != nil {
		c.Fail("a well-formed manifest is rejected: %v", err)
	}
	if a, b := infoString(want), infoString(got); a != b {
		c.Fail("the manifest holds\n%s\nread as\n%s", a, b)
	}
	if (got.Template != nil) != (want.Template != nil) {
		c.Fail("the manifest has a template: %v", want.Template != nil)
	}
	// The same manifest, built from its required fields.
	made := syntax.NewPackageManifest(syntax.NewPackageInfo(want.Pkg.Name, want.Pkg.Version, want.Pkg.Entrypoint))
	plain := &syntax.PackageManifest{Pkg: &syntax.PackageInfo{Name: want.Pkg.Name, Version: want.Pkg.Version, Entrypoint: want.Pkg.Entrypoint}}
	if t := want.Template; t != nil {
		made.Template = syntax.NewTemplateInfo(t.Path, t.Entrypoint)
		plain.Template = &syntax.TemplateInfo{Path: t.Path, Entrypoint: t.Entrypoint}
	}
	c.Eval(1)
	if a, b := infoString(plain), infoString(made); a != b {
		c.Fail("the manifest built from\n%s\nholds\n%s", a, b)
	}
	c.Distinct(text)
	if len(text) < 200 {
		c.Sample(text)
	}
}

func manifestInvalid(c *Case) {
	text, want := manifestText(c)
	text = "\n" + text
	drop := func(section, field string) string {
		lines, in := strings.Split(text, "\n"), ""
		for i, l := range lines {
			if strings.HasPrefix(l, "[") {
				in = l
			}
			if in == section && strings.HasPrefix(l, field+" = ") {
				return strings.Join(slices.Delete(lines, i, i+1), "\n")
			}
		}
		c.Fail("harness: no field to drop")
		return ""
	}
	bad := []func() string{
		func() string { return strings.Replace(text, "\n[package]", "\n[packages]", 1) },
		func() string { return "" },
		func() string { return strings.Replace(text, "\nversion = \"", "\nversion = \"x", 1) },
		func() string {
			return strings.Replace(text, "\n[package]\n", "\n[package]\nauthors = 3\nauthors = 4\n", 1)
		},
		func() string { return strings.Replace(text, "\n[package]\n", "\n[package\n", 1) },
		func() string { return text + "\n[package]\nname = \"again\"\n" },
		func() string { return text + "\nstray text\n" },
		func() string { return "package = 3\n" },
		func() string {
			return "[package]\nname = \"a\"\nversion = \"1.2\"\nentrypoint = \"e\"\n"
		},
		func() string {
			return "[package]\nname = 3\nversion = \"1.2.3\"\nentrypoint = \"e\"\n"
		},
		func() string {
			return "[package]\nname = \"a\"\nversion = \"1.2.3\"\nentrypoint = \"e\"\ncompiler = \"1.2.3.4\"\n"
		},
		func() string {
			return "[package]\nname = \"a\"\nversion = \"1.2.3\"\nentrypoint = \"e\"\nauthors = \"me\"\n"
		},
	}
	for _, f := range []string{"name", "version", "entrypoint"} {
		bad = append(bad, func() string { return drop("[package]", f) })
	}
	if want.Template != nil {
		for _, f := range []string{"path", "entrypoint"} {
			bad = append(bad, func() string { return drop("[template]", f) })
		}
	}
	k := c.IntN(len(bad))
	c.Input = bad[k]()
	c.Eval(1)
	if m, err := syntax.ParsePackageManifestFromToml(c.Input); err == nil {
		c.Fail("a malformed manifest is accepted: %s", infoString(m))
	}
	c.Distinct(k, len(c.Input))
	c.Cover(fmt.Sprintf("malformed %d", k))
}

func manifestValidate(c *Case) {
	names := []string{"a", "b", "pkg", "Pkg", "é"}
	name, sname := names[c.IntN(5)], ""
	sname = name
	if c.IntN(3) == 0 {
		sname = names[c.IntN(5)]
	}
	v := syntax.PackageVersion{Major: u32(c), Minor: u32(c), Patch: u32(c)}
	sv := v
	switch c.IntN(6) {
	case 0:
		sv.Major = u32(c)
	case 1:
		sv.Minor = u32(c)
	case 2:
		sv.Patch = u32(c)
	}
	cur := syntax.CurrentCompilerVersion()
	if cur != (syntax.PackageVersion{Major: 0, Minor: 13, Patch: 1}) {
		c.Fail("the version of the compiler whose syntax is read is 0.13.1, not %v", cur)
	}
	text := fmt.Sprintf("[package]\nname = %s\nversion = %q\nentrypoint = \"e\"\n", tquote(name), v.String())
	compilerOK, compiler := true, ""
	if c.IntN(2) == 0 {
		n := 1 + c.IntN(3)
		vals := []uint32{cur.Major, cur.Minor, cur.Patch}[:n]
		vals = slices.Clone(vals)
		i := c.IntN(n)
		vals[i] = uint32(max(0, int(vals[i])+c.IntN(3)-1))
		if c.IntN(3) == 0 {
			vals[c.IntN(n)] = u32(c)
		}
		var s []string
		for _, x := range vals {
			s = append(s, fmt.Sprint(x))
		}
		compiler = strings.Join(s, ".")
		text += fmt.Sprintf("compiler = %q\n", compiler)
		compilerOK = slices.Compare([]uint32{cur.Major, cur.Minor, cur.Patch}[:n], vals) >= 0
	}
	spec := &syntax.PackageSpec{Namespace: []string{"preview", "local"}[c.IntN(2)], Name: sname, Version: sv}
	c.Input = text + "for " + spec.String()
	m, err := syntax.ParsePackageManifestFromToml(text)
	if err != nil {
		c.Fail("a well-formed manifest is rejected: %v", err)
	}
	want := name == sname && v == sv && compilerOK
	err = m.Validate(spec)
	c.Eval(1)
	if want != (err == nil) {
		c.Fail("the manifest is valid for %v: %v, validation says %v", spec, want, err)
	}
	if err != nil {
		msg := err.Error()
		named := name != sname && strings.Contains(msg, "name") && strings.Contains(msg, fmt.Sprintf("%q", name)) ||
			v != sv && strings.Contains(msg, "version") && strings.Contains(msg, v.String()) ||
			!compilerOK && strings.Contains(msg, "typst") && strings.Contains(msg, compiler) && strings.Contains(msg, cur.String())
		if !named {
			c.Fail("the manifest is not valid for %v; the message %q does not name what mismatches", spec, msg)
		}
	}
	c.Cover(fmt.Sprintf("valid %v", want))
	c.Distinct(c.Input)
}

// versionError checks that the message names the component that is not a
// number, and which one it is.
func versionError(c *Case, s string, err error, full bool) {
	msg := err.Error()
	if strings.Contains(msg, "%!") {
		c.Fail("%q is not a version; the message is %q", s, msg)
	}
	parts := strings.Split(s, ".")
	if full && len(parts) < 3 {
		return
	}
	for i, what := range []string{"major", "minor", "patch"} {
		if i == len(parts) {
			return
		}
		if _, ok := refUint32(parts[i]); !ok {
			if !strings.Contains(msg, what) || !strings.Contains(msg, fmt.Sprintf("%q", parts[i])) {
				c.Fail("%q is not a version; the message %q does not name the %s number", s, msg, what)
			}
			c.Cover("message names the " + what + " number")
			return
		}
	}
}

// refusedEdit makes an edit whose range is no range of the text: it must panic
// and change nothing.
func refusedEdit(c *Case) {
	text := lineText(c, 1+c.IntN(12))
	if c.IntN(3) == 0 {
		text = anyText(c, 20)
	}
	n := uint64(len(text))
	var r ranges.Range
	what := ""
	switch c.IntN(4) {
	case 0:
		r = ranges.NewRange(uint64(boundary(c, text)), n+1+uint64(c.IntN(4)))
		what = "a range that ends behind the text"
	case 1:
		r = ranges.NewRange(n+1+uint64(c.IntN(3)), n+4+uint64(c.IntN(3)))
		what = "a range behind the text"
	case 2:
		r = ranges.NewRange(uint64(boundary(c, text)), []uint64{1 << 32, 1 << 63, 1<<64 - 1, 1<<32 + n}[c.IntN(4)])
		what = "a range with a huge end"
	default:
		// From or to a place inside of a character, or backwards.
		var in []uint64
		for i := range text {
			_, w := utf8.DecodeRuneInString(text[i:])
			for k := 1; k < w; k++ {
				in = append(in, uint64(i+k))
			}
		}
		a, b := uint64(boundary(c, text)), uint64(boundary(c, text))
		if len(in) == 0 || c.IntN(3) == 0 {
			if a == b {
				return
			}
			r = ranges.NewRange(max(a, b), min(a, b))
			what = "a reversed range"
			break
		}
		cut := in[c.IntN(len(in))]
		if a <= cut {
			r = ranges.NewRange(a, cut)
		} else {
			r = ranges.NewRange(cut, a)
		}
		what = "a range that cuts a character"
	}
	with := []string{"", "x", "\n", "\r", "*a*", "#["}[c.IntN(6)]
	c.Input = fmt.Sprintf("text %q, [%d,%d) -> %q", text, r.Start, r.End, with)
	s := syntax.NewDetachedSource(text)
	tree := sexp(s.Root)
	lines := syntax.NewLines(text)
	for i, edit := range []func(){func() { lines.Edit(r, with) }, func() { s.Edit(r, with) }} {
		of := []string{"line table", "source"}[i]
		refused := false
		func() {
			defer func() { refused = recover() != nil }()
			edit()
		}()
		c.Eval(1)
		if !refused {
			c.Fail("the %s accepts an edit of %s", of, what)
		}
	}
	if lines.Text != text || s.Text() != text || sourceText(s.Root) != text || sexp(s.Root) != tree {
		c.Fail("the refused edit of %s has changed something: the text of the line table is %q, that of the source %q, that of the tree %q", what, lines.Text, s.Text(), sourceText(s.Root))
	}
	sameLines(c, lines, text)
	sameLines(c, s.Lines, text)
	c.Cover("refused: " + what)
	// It can still be edited.
	s.Edit(ranges.NewRange(n, n), with)
	if want := text + with; s.Text() != want || sourceText(s.Root) != want {
		c.Fail("after a refused edit another one gives %q", s.Text())
	}
	c.Distinct(what, lineShape(text))
}
