package main

import (
	"unicode"

	"github.com/mewmew/mathclass"
)

// The mathclass module of this sandbox is a stand-in whose tables are nil, so
// that looking up any character panics. The classes are filled in here, for the
// characters that the generators use, from Unicode's MathClass.txt (one class
// per character). Tables that are there (the real module) are left alone.
func init() {
	table := func(p **unicode.RangeTable, t *unicode.RangeTable) {
		if *p == nil {
			*p = t
		}
	}
	chars := func(s string) *unicode.RangeTable {
		t := &unicode.RangeTable{}
		rs := []rune(s)
		for i := range rs {
			for j := i; j > 0 && rs[j] < rs[j-1]; j-- {
				rs[j], rs[j-1] = rs[j-1], rs[j]
			}
		}
		for _, r := range rs {
			if r < 0x10000 {
				t.R16 = append(t.R16, unicode.Range16{Lo: uint16(r), Hi: uint16(r), Stride: 1})
				if r <= 0xFF {
					t.LatinOffset++
				}
			} else {
				t.R32 = append(t.R32, unicode.Range32{Lo: uint32(r), Hi: uint32(r), Stride: 1})
			}
		}
		return t
	}
	table(&mathclass.Opening, chars("([{⌈⌊⟦⟨⟪⟮⦃"))
	table(&mathclass.Closing, chars(")]}⌉⌋⟧⟩⟫⟯⦄"))
	table(&mathclass.Fence, chars("|‖"))
	table(&mathclass.Normal, chars("0123456789#$%&@\"'`?_°∂∞∅∀∃"))
	table(&mathclass.Binary, chars("+*±×÷·∘∧∨∩∪⊕⊗"))
	table(&mathclass.Relation, chars("<=>~≤≥≠≈≡∈∉⊂⊃→←⇒"))
	table(&mathclass.Vary, chars("-−^"))
	table(&mathclass.Punctuation, chars("!,;"))
	table(&mathclass.Large, chars("∑∏∫∮⋂⋃"))
	table(&mathclass.Unary, chars("¬∇√"))
	table(&mathclass.Diacritic, chars("´¨¯\u0302\u0303"))
	table(&mathclass.Glyph_Part, chars("⎛⎜⎝"))
	table(&mathclass.Special, chars("\\"))
	table(&mathclass.Space, chars(" \u2003"))
	alpha := &unicode.RangeTable{
		R16: []unicode.Range16{{0x41, 0x5A, 1}, {0x61, 0x7A, 1}, {0x131, 0x131, 1}, {0x391, 0x3A1, 1}, {0x3A3, 0x3A9, 1}, {0x3B1, 0x3C9, 1}, {0x2102, 0x2102, 1}, {0x2115, 0x2115, 1},
			{0x211A, 0x211A, 1}, {0x211D, 0x211D, 1}, {0x2124, 0x2124, 1}},
		LatinOffset: 2,
	}
	for r := rune(0x1D400); r <= 0x1D7CB; r++ {
		if unicode.IsLetter(r) {
			alpha.R32 = append(alpha.R32, unicode.Range32{Lo: uint32(r), Hi: uint32(r), Stride: 1})
		}
	}
	table(&mathclass.Alphabetic, alpha)
}
