package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/typst/syntax"
)

// editThemes are pieces whose meaning depends on each other, and what is typed
// into texts of them.
var editThemes = []struct{ pieces, typed []string }{
	{ // strings that are not closed yet
		[]string{"#import \"", "#include \"", "#let x = \"", "#f(\"", "#import ", "#include ", "#let x = ", "#show ", "#set f(", "#f(", "#(", "#x", "\"", "\"", "a", " ", " ", "\n", "[", "]", "#[", "]", "#{", "}", "- ", ";", ":", ")", "\\", "é"},
		[]string{"\"", "a", " ", "\n", "]", "[", "#", ")", "(", ";", "}", "\\", "\"\""},
	},
	{ // lists and line ends
		[]string{"- ", "+ ", "/ ", "= ", "1. ", "\n", "\n", "  ", " ", "a", ":", "#[", "[", "]", "/*c*/", "//c\n", "#x", "*", "_", "`r`", "$x$"},
		[]string{"\n", " ", "  ", "-", "- ", "+", "/", ":", "=", "a", "[", "]", "*", "/*", "*/", "//", "\n\n", "\r", "\t"},
	},
	{ // statements
		[]string{"#if a ", "#for x in y ", "#while a ", "#let f(x) = ", "#set f() ", "#show a: ", "#return ", "[b]", "{c}", "else ", " else", "#{", "}", "\n", " ", "if ", ";", "(", ")", "x", "=>", ".y", "#", "a", "\u00a0", "\u3000"},
		[]string{"#", "e", "if ", "else", "{", "}", "[", "]", "\n", ";", " ", ".", "(", ")", "=", "in", "x"},
	},
	{ // comments and raw text
		[]string{"/*", "*/", "//", "`", "``", "```", "a", " ", "\n", "#[", "]", "#{", "}", "#x", "*", "/", "http://a.b", "\\", "$"},
		[]string{"/", "*", "`", "\n", "a", " ", "]", "```", "/*", "*/", "//", "\\", "#"},
	},
	{ // math
		[]string{"$", "$", "a", "ab", "f(", ")", "(", "]", "[", "_", "^", "/", "'", " ", "\n", "#x", "#", "\"", "&", "\\", ",", ";", ":", "#{", "}", "/*", "*/", "\u00a0", "\u2003"},
		[]string{"$", "a", "(", ")", "]", "_", "^", "/", "#", "\"", " ", "\n", ",", ";", "{", "}", "\\", "*"},
	},
	{ // blocks in blocks
		[]string{"#{", "}", "#[", "]", "[", "]", "{", "}", "(", ")", "a", "\n", " ", ";", "let x = ", "*", "_", "- ", "#", "$", "f", "=>", ",", "\n\n"},
		[]string{"{", "}", "[", "]", "(", ")", "#", "*", "\n", " ", ";", "a", "$", ",", "-", "\n\n"},
	},
}

// everyEdit makes all edits of a short text that type one piece somewhere,
// delete one or two characters, or overwrite a character with a piece.
func everyEdit(c *Case) {
	th := editThemes[c.Index%len(editThemes)]
	text := pick(c, th.pieces, 2+c.IntN(5))
	for i := c.IntN(3) - 1; i > 0; i-- {
		w := [][2]string{{"#[", "]"}, {"#{[", "]}"}, {"#f[", "]"}, {"- ", ""}, {"*", "*"}, {"_", "_"}, {"[", "]"}, {"= ", "\n"}, {"$#[", "]$"}, {"/ a: ", ""}, {"#(", ")"}, {"#{", "}"}, {"$", "$"}, {"#let x = [", "]"}}[c.IntN(14)]
		text = w[0] + text + w[1]
	}
	var cuts []int
	for i := range text {
		cuts = append(cuts, i)
	}
	cuts = append(cuts, len(text))
	try := func(a, b int, with string) {
		s := syntax.NewDetachedSource(text)
		c.Input = fmt.Sprintf("source %q\nedit [%d,%d) -> %q", text, a, b, with)
		old := flatten(s.Root)
		r := s.Edit(ranges.NewRange(uint64(a), uint64(b)), with)
		want := text[:a] + with + text[b:]
		c.Eval(1)
		if s.Text() != want {
			c.Fail("after the edit the text is %q, want %q", s.Text(), want)
		}
		fresh := syntax.Parse(want)
		if x, y := sexp(s.Root), sexp(fresh); x != y {
			c.Fail("the edited tree differs from a fresh parse of the same text\nedited: %s\nfresh:  %s", pretty(s.Root), pretty(fresh))
		}
		if r.Start > r.End || r.End > uint64(len(want)) {
			c.Fail("reparsed range [%d,%d) lies outside the text of %d bytes", r.Start, r.End, len(want))
		}
		coversEdit(c, r, a, len(with))
		coversChanges(c, r, old, s.Root, len(text), len(want))
	}
	for i, a := range cuts {
		for _, p := range th.typed {
			try(a, a, p)
			if i+1 < len(cuts) && c.IntN(4) == 0 {
				try(a, cuts[i+1], p)
			}
		}
		for j := i + 1; j < len(cuts) && j <= i+2; j++ {
			try(a, cuts[j], "")
		}
	}
	c.CoverN("edits of a text", len(cuts))
	c.Distinct(text)
	if utf8.RuneCountInString(text) < 40 {
		c.Sample(fmt.Sprintf("every edit of %q", strings.Clone(text)))
	}
}

func init() {
	addGroups("P09", Group{Name: "every edit", Quick: 4800, Thorough: 150000, Run: everyEdit})
}
