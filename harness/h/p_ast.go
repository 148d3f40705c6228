//go:build verifshim_ast

package main

import (
	"fmt"
	"math"
	"math/big"
	"path"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/mewmew/typast/typst/syntax"
)

const typePrefix = "*syntax."

// viewOf names the typed view of every kind that has one.
var viewOf = map[syntax.SyntaxKind]string{
	syntax.SyntaxKindMarkup: "Markup", syntax.SyntaxKindText: "Text", syntax.SyntaxKindSpace: "Space",
	syntax.SyntaxKindLinebreak: "Linebreak", syntax.SyntaxKindParbreak: "Parbreak", syntax.SyntaxKindEscape: "Escape",
	syntax.SyntaxKindShorthand: "Shorthand", syntax.SyntaxKindSmartQuote: "SmartQuote", syntax.SyntaxKindStrong: "Strong",
	syntax.SyntaxKindEmph: "Emph", syntax.SyntaxKindRaw: "Raw", syntax.SyntaxKindRawLang: "RawLang",
	syntax.SyntaxKindRawDelim: "RawDelim", syntax.SyntaxKindLink: "Link", syntax.SyntaxKindLabel: "Label",
	syntax.SyntaxKindRef: "Ref", syntax.SyntaxKindHeading: "Heading", syntax.SyntaxKindListItem: "ListItem",
	syntax.SyntaxKindEnumItem: "EnumItem", syntax.SyntaxKindTermItem: "TermItem", syntax.SyntaxKindEquation: "Equation",
	syntax.SyntaxKindMath: "Math", syntax.SyntaxKindMathText: "MathText", syntax.SyntaxKindMathIdent: "MathIdent",
	syntax.SyntaxKindMathShorthand: "MathShorthand", syntax.SyntaxKindMathAlignPoint: "MathAlignPoint",
	syntax.SyntaxKindMathDelimited: "MathDelimited", syntax.SyntaxKindMathAttach: "MathAttach",
	syntax.SyntaxKindMathPrimes: "MathPrimes", syntax.SyntaxKindMathFrac: "MathFrac", syntax.SyntaxKindMathRoot: "MathRoot",
	syntax.SyntaxKindIdent: "Ident", syntax.SyntaxKindNone: "None", syntax.SyntaxKindAuto: "Auto", syntax.SyntaxKindBool: "Bool",
	syntax.SyntaxKindInt: "Int", syntax.SyntaxKindFloat: "Float", syntax.SyntaxKindNumeric: "Numeric", syntax.SyntaxKindStr: "Str",
	syntax.SyntaxKindCodeBlock: "CodeBlock", syntax.SyntaxKindCode: "Code", syntax.SyntaxKindContentBlock: "ContentBlock",
	syntax.SyntaxKindParenthesized: "Parenthesized", syntax.SyntaxKindArray: "Array", syntax.SyntaxKindDict: "Dict",
	syntax.SyntaxKindNamed: "Named", syntax.SyntaxKindKeyed: "Keyed", syntax.SyntaxKindSpread: "Spread",
	syntax.SyntaxKindUnary: "Unary", syntax.SyntaxKindBinary: "Binary", syntax.SyntaxKindFieldAccess: "FieldAccess",
	syntax.SyntaxKindFuncCall: "FuncCall", syntax.SyntaxKindArgs: "Args", syntax.SyntaxKindClosure: "Closure",
	syntax.SyntaxKindParams: "Params", syntax.SyntaxKindUnderscore: "Underscore", syntax.SyntaxKindDestructuring: "Destructuring",
	syntax.SyntaxKindLetBinding: "LetBinding", syntax.SyntaxKindDestructAssignment: "DestructAssignment",
	syntax.SyntaxKindSetRule: "SetRule", syntax.SyntaxKindShowRule: "ShowRule", syntax.SyntaxKindContextual: "Contextual",
	syntax.SyntaxKindConditional: "Conditional", syntax.SyntaxKindWhileLoop: "WhileLoop", syntax.SyntaxKindForLoop: "ForLoop",
	syntax.SyntaxKindModuleImport: "ModuleImport", syntax.SyntaxKindImportItems: "ImportItems",
	syntax.SyntaxKindImportItemPath: "ImportItemPath", syntax.SyntaxKindRenamedImportItem: "RenamedImportItem",
	syntax.SyntaxKindModuleInclude: "ModuleInclude", syntax.SyntaxKindLoopBreak: "LoopBreak",
	syntax.SyntaxKindLoopContinue: "LoopContinue", syntax.SyntaxKindFuncReturn: "FuncReturn",
}

// partOnly lists the views that are parts of other nodes, not expressions.
var partOnly = map[string]bool{
	"Markup": true, "Space": true, "RawLang": true, "RawDelim": true, "Code": true, "Named": true, "Keyed": true, "Spread": true,
	"Args": true, "Params": true, "Underscore": true, "Destructuring": true, "ImportItems": true, "ImportItemPath": true,
	"RenamedImportItem": true,
}

var literals = map[string]bool{"None": true, "Auto": true, "Bool": true, "Int": true, "Float": true, "Numeric": true, "Str": true}

// afterHash lists what can follow a hash in markup without parentheses.
var afterHash = map[string]bool{
	"Ident": true, "None": true, "Auto": true, "Bool": true, "Int": true, "Float": true, "Numeric": true, "Str": true,
	"CodeBlock": true, "ContentBlock": true, "Array": true, "Dict": true, "Parenthesized": true, "FieldAccess": true,
	"FuncCall": true, "LetBinding": true, "SetRule": true, "ShowRule": true, "Contextual": true, "Conditional": true,
	"WhileLoop": true, "ForLoop": true, "ModuleImport": true, "ModuleInclude": true, "LoopBreak": true, "LoopContinue": true,
	"FuncReturn": true,
}

func isExprNode(n *syntax.SyntaxNode) bool {
	v := viewOf[nodeKind(n)]
	return v != "" && !partOnly[v]
}

func exprType(n *syntax.SyntaxNode) string { return typePrefix + viewOf[nodeKind(n)] }

// variant names the variant of one of the interfaces for a node; empty if the
// node is none of its variants.
func variant(iface string, n *syntax.SyntaxNode) string {
	named, keyed, spread := nodeKind(n) == syntax.SyntaxKindNamed, nodeKind(n) == syntax.SyntaxKindKeyed, nodeKind(n) == syntax.SyntaxKindSpread
	v := ""
	switch iface {
	case "Pattern":
		switch {
		case nodeKind(n) == syntax.SyntaxKindUnderscore:
			v = "Placeholder"
		case nodeKind(n) == syntax.SyntaxKindParenthesized:
			v = "Parenthesized"
		case nodeKind(n) == syntax.SyntaxKindDestructuring:
			v = "Destructuring"
		case isExprNode(n):
			v = "Normal"
		}
	case "ArrayItem":
		switch {
		case spread:
			v = "Spread"
		case isExprNode(n):
			v = "Pos"
		}
	case "DictItem":
		switch {
		case spread:
			v = "Spread"
		case named:
			v = "Named"
		case keyed:
			v = "Keyed"
		}
	case "Arg", "Param":
		switch {
		case spread:
			v = "Spread"
		case named:
			v = "Named"
		case iface == "Arg" && isExprNode(n), iface == "Param" && variant("Pattern", n) != "":
			v = "Pos"
		}
	case "DestructuringItem":
		switch {
		case spread:
			v = "Spread"
		case named:
			v = "Named"
		case variant("Pattern", n) != "":
			v = "Pattern"
		}
	}
	if v == "" {
		return ""
	}
	return typePrefix + iface + "_" + v
}

var mathSymbolOf = map[string]rune{
	"...": '…', "-": '−', "*": '∗', "~": '∼', "!=": '≠', ":=": '≔', "::=": '⩴', "=:": '≕', "<<": '≪', "<<<": '⋘',
	">>": '≫', ">>>": '⋙', "<=": '≤', ">=": '≥', "->": '→', "-->": '⟶', "|->": '↦', ">->": '↣', "->>": '↠', "<-": '←',
	"<--": '⟵', "<-<": '↢', "<<-": '↞', "<->": '↔', "<-->": '⟷', "~>": '⇝', "~~>": '⟿', "<~": '⇜', "<~~": '⬳',
	"=>": '⇒', "|=>": '⤇', "==>": '⟹', "<==": '⟸', "<=>": '⇔', "<==>": '⟺', "[|": '⟦', "|]": '⟧', "||": '‖',
}

var markupShorthands = map[string]rune{"...": '…', "~": 0xa0, "-": '−', "--": '–', "---": '—', "-?": 0xad}

// accExp is what an accessor should return.
type accExp struct {
	nodes       []*syntax.SyntaxNode
	types       []string
	value       string
	none        bool
	placeholder string // type of a node that is not part of the tree
	isValue     bool
}

type expects struct {
	m map[string]accExp
}

func (e *expects) expr(name string, n *syntax.SyntaxNode) {
	if n == nil || !isExprNode(n) {
		e.m[name] = accExp{placeholder: typePrefix + "None"}
		return
	}
	e.m[name] = accExp{nodes: []*syntax.SyntaxNode{n}, types: []string{exprType(n)}}
}
func (e *expects) view(name string, n *syntax.SyntaxNode) {
	e.m[name] = accExp{nodes: []*syntax.SyntaxNode{n}, types: []string{exprType(n)}}
}
func (e *expects) optView(name string, n *syntax.SyntaxNode) {
	if n == nil {
		e.m[name] = accExp{none: true}
		return
	}
	e.view(name, n)
}
func (e *expects) iface(name, iface string, n *syntax.SyntaxNode) {
	e.m[name] = accExp{nodes: []*syntax.SyntaxNode{n}, types: []string{variant(iface, n)}}
}
func (e *expects) val(name string, v any) {
	e.m[name] = accExp{value: fmt.Sprint(v), isValue: true}
}
func (e *expects) list(name string, ns []*syntax.SyntaxNode, typ func(*syntax.SyntaxNode) string) {
	x := accExp{nodes: ns}
	for _, n := range ns {
		x.types = append(x.types, typ(n))
	}
	e.m[name] = x
}

func ifaceType(iface string) func(*syntax.SyntaxNode) string {
	return func(n *syntax.SyntaxNode) string { return variant(iface, n) }
}

// significant drops the trivia among the children of a node.
func significant(n *syntax.SyntaxNode) []*syntax.SyntaxNode {
	var out []*syntax.SyntaxNode
	for _, c := range children(n) {
		if !trivial(nodeKind(c)) {
			out = append(out, c)
		}
	}
	return out
}

func trivial(k syntax.SyntaxKind) bool {
	switch k {
	case syntax.SyntaxKindShebang, syntax.SyntaxKindLineComment, syntax.SyntaxKindBlockComment, syntax.SyntaxKindSpace, syntax.SyntaxKindParbreak:
		return true
	}
	return false
}

// without drops the tokens with the given kinds.
func without(ns []*syntax.SyntaxNode, kinds ...syntax.SyntaxKind) []*syntax.SyntaxNode {
	var out []*syntax.SyntaxNode
next:
	for _, n := range ns {
		for _, k := range kinds {
			if nodeKind(n) == k {
				continue next
			}
		}
		out = append(out, n)
	}
	return out
}

func only(n *syntax.SyntaxNode, kind syntax.SyntaxKind) *syntax.SyntaxNode {
	for _, c := range children(n) {
		if nodeKind(c) == kind {
			return c
		}
	}
	return nil
}

// bindingsOf lists the names a pattern introduces.
func bindingsOf(n *syntax.SyntaxNode) []*syntax.SyntaxNode {
	switch nodeKind(n) {
	case syntax.SyntaxKindIdent:
		return []*syntax.SyntaxNode{n}
	case syntax.SyntaxKindParenthesized:
		return bindingsOf(significant(n)[1])
	case syntax.SyntaxKindDestructuring:
		var out []*syntax.SyntaxNode
		for _, c := range without(significant(n), syntax.SyntaxKindLeftParen, syntax.SyntaxKindRightParen, syntax.SyntaxKindComma) {
			s := significant(c)
			switch nodeKind(c) {
			case syntax.SyntaxKindNamed:
				out = append(out, bindingsOf(s[2])...)
			case syntax.SyntaxKindSpread:
				if len(s) == 2 && nodeKind(s[1]) == syntax.SyntaxKindIdent {
					out = append(out, s[1])
				}
			default:
				out = append(out, bindingsOf(c)...)
			}
		}
		return out
	}
	return nil
}

func cooked(text string) string {
	in := text[1 : len(text)-1]
	var b strings.Builder
	for i := 0; i < len(in); {
		if in[i] != '\\' {
			b.WriteByte(in[i])
			i++
			continue
		}
		i++
		if i == len(in) {
			b.WriteByte('\\')
			break
		}
		if r, ok := map[byte]byte{'\\': '\\', '"': '"', 'n': '\n', 'r': '\r', 't': '\t'}[in[i]]; ok {
			b.WriteByte(r)
			i++
			continue
		}
		if strings.HasPrefix(in[i:], "u{") {
			j := i + 2
			for j < len(in) && strings.IndexByte("0123456789abcdefABCDEF", in[j]) >= 0 {
				j++
			}
			hex := in[i+2 : j]
			if j < len(in) && in[j] == '}' {
				j++
			}
			v, ok := new(big.Int).SetString(hex, 16)
			if ok && v.IsInt64() && v.Int64() <= unicode.MaxRune && utf8.ValidRune(rune(v.Int64())) {
				b.WriteRune(rune(v.Int64()))
			} else {
				b.WriteString(in[i-1 : j])
			}
			i = j
			continue
		}
		b.WriteByte('\\')
	}
	return b.String()
}

var unitNames = []string{"pt", "mm", "cm", "in", "deg", "rad", "em", "fr", "%"}

func hasNewline(s string) bool { return strings.ContainsAny(s, "\n\r\v\f\u0085\u2028\u2029") }

func edgeSpace(s string, last bool) bool {
	r, _ := utf8.DecodeRuneInString(s)
	if last {
		r, _ = utf8.DecodeLastRuneInString(s)
	}
	return unicode.IsSpace(r)
}

// isName reports whether a text is an identifier.
func isName(s string) bool {
	if s == "" {
		return false
	}
	for i, r := range s {
		if !refIDStart(r) && (i == 0 || !refIDContinue(r)) {
			return false
		}
	}
	return true
}

// expectAST lists what the accessors of the typed view of a node return, from
// the children of the node, which must not contain errors.
func expectAST(n *syntax.SyntaxNode) map[string]accExp {
	e := &expects{m: map[string]accExp{}}
	s := significant(n)
	text := sourceText(n)
	// The operands in math, where code is embedded with a hash.
	unhashed := without(s, syntax.SyntaxKindHash, syntax.SyntaxKindSemicolon)
	first := func() *syntax.SyntaxNode { return s[0] }
	last := func() *syntax.SyntaxNode { return s[len(s)-1] }
	exprs := func(space bool) []*syntax.SyntaxNode {
		var out []*syntax.SyntaxNode
		for _, c := range children(n) {
			if isExprNode(c) || space && nodeKind(c) == syntax.SyntaxKindSpace {
				out = append(out, c)
			}
		}
		return out
	}
	switch k := nodeKind(n); k {
	case syntax.SyntaxKindMarkup:
		var out []*syntax.SyntaxNode
		for i, c := range children(n) {
			if nodeKind(c) == syntax.SyntaxKindSpace && i > 0 {
				switch nodeKind(children(n)[i-1]) {
				case syntax.SyntaxKindLetBinding, syntax.SyntaxKindSetRule, syntax.SyntaxKindShowRule, syntax.SyntaxKindModuleImport, syntax.SyntaxKindModuleInclude:
					continue
				}
			}
			if isExprNode(c) || nodeKind(c) == syntax.SyntaxKindSpace {
				out = append(out, c)
			}
		}
		e.list("exprs", out, exprType)
	case syntax.SyntaxKindText, syntax.SyntaxKindRawLang, syntax.SyntaxKindLink, syntax.SyntaxKindMathIdent, syntax.SyntaxKindIdent:
		e.val("get", text)
	case syntax.SyntaxKindEscape:
		r, _ := utf8.DecodeRuneInString(text[1:])
		if strings.HasPrefix(text, "\\u{") {
			v, ok := new(big.Int).SetString(strings.TrimSuffix(text[3:], "}"), 16)
			if !ok || !v.IsInt64() || v.Int64() > unicode.MaxRune || !utf8.ValidRune(rune(v.Int64())) {
				return nil
			}
			r = rune(v.Int64())
		}
		e.val("get", r)
	case syntax.SyntaxKindShorthand:
		e.val("get", markupShorthands[text])
	case syntax.SyntaxKindSmartQuote:
		e.val("double", text == "\"")
	case syntax.SyntaxKindStrong, syntax.SyntaxKindEmph, syntax.SyntaxKindListItem, syntax.SyntaxKindContentBlock:
		e.view("body", only(n, syntax.SyntaxKindMarkup))
	case syntax.SyntaxKindRaw:
		var lines []*syntax.SyntaxNode
		var lang *syntax.SyntaxNode
		for _, c := range children(n) {
			switch nodeKind(c) {
			case syntax.SyntaxKindText:
				lines = append(lines, c)
			case syntax.SyntaxKindRawLang:
				lang = c
			}
		}
		e.list("lines", lines, exprType)
		e.optView("lang", lang)
		e.val("block", strings.HasPrefix(text, "```") && hasNewline(text))
	case syntax.SyntaxKindLabel:
		e.val("get", text[1:len(text)-1])
	case syntax.SyntaxKindRef:
		t, _ := leafText(children(n)[0])
		e.val("target", t[1:])
		e.optView("supplement", only(n, syntax.SyntaxKindContentBlock))
	case syntax.SyntaxKindHeading:
		e.val("depth", len(text)-len(strings.TrimLeft(text, "=")))
		e.view("body", only(n, syntax.SyntaxKindMarkup))
	case syntax.SyntaxKindEnumItem:
		mk, _ := leafText(children(n)[0])
		v, ok := new(big.Int).SetString(strings.TrimSuffix(mk, "."), 10)
		if mk == "+" || !ok || !v.IsUint64() {
			e.m["number"] = accExp{none: true}
		} else {
			e.val("number", v)
		}
		e.view("body", only(n, syntax.SyntaxKindMarkup))
	case syntax.SyntaxKindTermItem:
		var ms []*syntax.SyntaxNode
		for _, c := range children(n) {
			if nodeKind(c) == syntax.SyntaxKindMarkup {
				ms = append(ms, c)
			}
		}
		if len(ms) != 2 {
			return nil
		}
		e.view("term", ms[0])
		e.view("description", ms[1])
	case syntax.SyntaxKindEquation:
		e.view("body", only(n, syntax.SyntaxKindMath))
		inner := text[1 : len(text)-1]
		if len(children(only(n, syntax.SyntaxKindMath))) == 0 {
			break
		}
		e.val("block", inner != "" && edgeSpace(inner, false) && edgeSpace(inner, true))
	case syntax.SyntaxKindMath:
		e.list("exprs", exprs(true), exprType)
		cs := children(n)
		e.val("was_deparenthesized", len(cs) > 1 && nodeKind(cs[0]) == syntax.SyntaxKindLeftParen && nodeKind(cs[len(cs)-1]) == syntax.SyntaxKindRightParen)
	case syntax.SyntaxKindMathText:
		r, _ := utf8.DecodeRuneInString(text)
		if unicode.IsNumber(r) {
			e.val("get", "number "+text)
		} else {
			e.val("get", "character "+text)
		}
	case syntax.SyntaxKindMathShorthand:
		e.val("get", mathSymbolOf[text])
	case syntax.SyntaxKindMathDelimited:
		e.expr("open", first())
		e.expr("close", last())
		e.view("body", only(n, syntax.SyntaxKindMath))
	case syntax.SyntaxKindMathAttach:
		s = unhashed
		primes := 0
		for _, c := range s {
			if nodeKind(c) == syntax.SyntaxKindMathPrimes {
				primes++
			}
		}
		if !isExprNode(first()) || primes > 1 {
			return nil // an operand is missing
		}
		e.expr("base", first())
		operand := func(name string, i int) {
			if i+1 < len(s) { // a root is not read as an operand
				e.expr(name, s[i+1])
			}
		}
		e.m["bottom"], e.m["top"], e.m["primes"] = accExp{none: true}, accExp{none: true}, accExp{none: true}
		for i, c := range s {
			switch nodeKind(c) {
			case syntax.SyntaxKindUnderscore:
				operand("bottom", i)
			case syntax.SyntaxKindHat:
				operand("top", i)
			case syntax.SyntaxKindMathPrimes:
				if i == 1 {
					e.view("primes", c)
				} else {
					delete(e.m, "primes") // the primes are a script themselves
				}
			}
		}
	case syntax.SyntaxKindMathPrimes:
		e.val("count", strings.Count(text, "'"))
	case syntax.SyntaxKindMathFrac:
		s = unhashed
		if len(s) != 3 || !isExprNode(s[0]) || !isExprNode(s[2]) {
			return nil // an operand is missing
		}
		e.expr("num", first())
		e.expr("denom", last())
	case syntax.SyntaxKindMathRoot:
		r, _ := utf8.DecodeRuneInString(text)
		switch r {
		case '√':
			e.m["index"] = accExp{none: true}
		case '∛':
			e.val("index", 3)
		case '∜':
			e.val("index", 4)
		}
		s = unhashed
		if len(s) != 2 {
			return nil // the operand is missing or more than one
		}
		e.expr("radicand", last())
	case syntax.SyntaxKindBool:
		e.val("get", text == "true")
	case syntax.SyntaxKindInt:
		v, ok := new(big.Int).SetString(text, 10)
		if len(text) > 2 && strings.ContainsAny(text[:2], "xob") {
			v, ok = new(big.Int).SetString(text[2:], map[byte]int{'x': 16, 'o': 8, 'b': 2}[text[1]])
		}
		if !ok {
			return nil
		}
		if !v.IsInt64() {
			v = new(big.Int)
		}
		e.val("get", v)
	case syntax.SyntaxKindFloat:
		v, err := strconv.ParseFloat(text, 64)
		if err != nil {
			return nil
		}
		e.val("get", v)
	case syntax.SyntaxKindNumeric:
		for _, u := range unitNames {
			if strings.HasSuffix(text, u) {
				v, err := strconv.ParseFloat(strings.TrimSuffix(text, u), 64)
				if err != nil || math.IsInf(v, 0) {
					return nil
				}
				e.val("get", fmt.Sprint(v, " ", u))
			}
		}
	case syntax.SyntaxKindStr:
		e.val("get", cooked(text))
		e.val("Get", cooked(text))
	case syntax.SyntaxKindCodeBlock:
		e.view("body", only(n, syntax.SyntaxKindCode))
	case syntax.SyntaxKindCode:
		e.list("exprs", exprs(false), exprType)
	case syntax.SyntaxKindParenthesized:
		if isExprNode(s[1]) {
			e.expr("expr", s[1])
		}
		e.iface("pattern", "Pattern", s[1])
	case syntax.SyntaxKindArray:
		e.list("items", without(unhashed, syntax.SyntaxKindLeftParen, syntax.SyntaxKindRightParen, syntax.SyntaxKindComma), ifaceType("ArrayItem"))
	case syntax.SyntaxKindDict:
		e.list("items", without(s, syntax.SyntaxKindLeftParen, syntax.SyntaxKindRightParen, syntax.SyntaxKindComma, syntax.SyntaxKindColon), ifaceType("DictItem"))
	case syntax.SyntaxKindNamed:
		s = unhashed
		if nodeKind(s[0]) != syntax.SyntaxKindIdent || len(s) != 3 {
			return nil
		}
		e.view("name", s[0])
		if isExprNode(s[2]) {
			e.expr("expr", s[2])
		}
		e.iface("pattern", "Pattern", s[2])
	case syntax.SyntaxKindKeyed:
		e.expr("key", first())
		e.expr("expr", last())
	case syntax.SyntaxKindSpread:
		if len(s) == 1 {
			e.expr("expr", nil)
			e.optView("sink_expr", nil)
			e.optView("sink_ident", nil)
			break
		}
		if !isExprNode(s[1]) {
			return nil
		}
		e.expr("expr", s[1])
		e.expr("sink_expr", s[1])
		e.optView("sink_ident", nil)
		if nodeKind(s[1]) == syntax.SyntaxKindIdent {
			e.view("sink_ident", s[1])
		}
	case syntax.SyntaxKindUnary:
		op, _ := leafText(first())
		e.val("op", strings.ReplaceAll(op, "−", "-"))
		e.expr("expr", last())
	case syntax.SyntaxKindBinary:
		var ops []string
		for _, c := range s[1 : len(s)-1] {
			t, _ := leafText(c)
			ops = append(ops, t)
		}
		e.val("op", strings.ReplaceAll(strings.Join(ops, " "), "−", "-"))
		e.expr("lhs", first())
		e.expr("rhs", last())
	case syntax.SyntaxKindFieldAccess:
		e.expr("target", first())
		e.view("field", last())
	case syntax.SyntaxKindFuncCall:
		e.expr("callee", first())
		e.view("args", last())
	case syntax.SyntaxKindArgs:
		e.list("items", without(unhashed, syntax.SyntaxKindLeftParen, syntax.SyntaxKindRightParen, syntax.SyntaxKindComma), ifaceType("Arg"))
		if len(s) > 1 && nodeKind(last()) == syntax.SyntaxKindRightParen {
			e.val("trailing_comma", nodeKind(s[len(s)-2]) == syntax.SyntaxKindComma)
		}
	case syntax.SyntaxKindClosure:
		e.optView("name", nil)
		if nodeKind(first()) == syntax.SyntaxKindIdent {
			e.view("name", first())
		}
		e.view("params", only(n, syntax.SyntaxKindParams))
		e.expr("body", last())
	case syntax.SyntaxKindParams:
		e.list("children", without(s, syntax.SyntaxKindLeftParen, syntax.SyntaxKindRightParen, syntax.SyntaxKindComma), ifaceType("Param"))
	case syntax.SyntaxKindDestructuring:
		e.list("items", without(s, syntax.SyntaxKindLeftParen, syntax.SyntaxKindRightParen, syntax.SyntaxKindComma), ifaceType("DestructuringItem"))
		e.list("bindings", bindingsOf(n), exprType)
	case syntax.SyntaxKindLetBinding:
		if nodeKind(s[1]) == syntax.SyntaxKindClosure {
			name := significant(s[1])[0]
			e.view("kind.closure", name)
			e.list("bindings", []*syntax.SyntaxNode{name}, exprType)
			e.expr("init", s[1])
			break
		}
		e.iface("kind.normal", "Pattern", s[1])
		e.list("bindings", bindingsOf(s[1]), exprType)
		if len(s) > 2 {
			e.expr("init", last())
		} else {
			e.optView("init", nil)
		}
	case syntax.SyntaxKindDestructAssignment:
		e.iface("pattern", "Pattern", first())
		e.expr("value", last())
	case syntax.SyntaxKindSetRule:
		e.expr("target", s[1])
		e.view("args", s[2])
		e.optView("condition", nil)
		if len(s) > 3 {
			e.expr("condition", last())
		}
	case syntax.SyntaxKindShowRule:
		e.optView("selector", nil)
		if nodeKind(s[1]) != syntax.SyntaxKindColon {
			e.expr("selector", s[1])
		}
		e.expr("transform", last())
	case syntax.SyntaxKindContextual:
		e.expr("body", last())
	case syntax.SyntaxKindConditional:
		e.expr("condition", s[1])
		e.expr("if_body", s[2])
		e.optView("else_body", nil)
		if len(s) > 3 {
			e.expr("else_body", last())
		}
	case syntax.SyntaxKindWhileLoop:
		e.expr("condition", s[1])
		e.expr("body", s[2])
	case syntax.SyntaxKindForLoop:
		e.iface("pattern", "Pattern", s[1])
		e.list("bindings", bindingsOf(s[1]), exprType)
		e.expr("iterable", s[3])
		e.expr("body", s[4])
	case syntax.SyntaxKindModuleImport:
		e.expr("source", s[1])
		e.optView("new_name", nil)
		e.m["imports"] = accExp{none: true}
		for i, c := range s[2:] {
			switch nodeKind(c) {
			case syntax.SyntaxKindAs:
				e.view("new_name", s[2+i+1])
			case syntax.SyntaxKindStar:
				e.val("imports", "*")
			case syntax.SyntaxKindImportItems:
				e.view("imports", c)
			}
		}
		bare(e, s[1])
	case syntax.SyntaxKindImportItems:
		var paths, names, bound []*syntax.SyntaxNode
		for _, c := range without(s, syntax.SyntaxKindComma) {
			p, b := c, c
			switch nodeKind(c) {
			case syntax.SyntaxKindRenamedImportItem:
				p, b = significant(c)[0], significant(c)[2]
			case syntax.SyntaxKindImportItemPath:
				x := significant(c)
				b = x[len(x)-1]
			default:
				return nil
			}
			x := significant(p)
			paths, names, bound = append(paths, p), append(names, x[len(x)-1]), append(bound, b)
		}
		e.list("paths", paths, exprType)
		e.list("original_names", names, exprType)
		e.list("bound_names", bound, exprType)
	case syntax.SyntaxKindImportItemPath:
		e.list("iter", without(s, syntax.SyntaxKindDot), exprType)
		e.view("name", last())
	case syntax.SyntaxKindRenamedImportItem:
		x := significant(first())
		e.view("path", first())
		e.view("original_name", x[len(x)-1])
		e.view("new_name", last())
	case syntax.SyntaxKindModuleInclude:
		e.expr("source", last())
	case syntax.SyntaxKindFuncReturn:
		e.optView("body", nil)
		if len(s) > 1 {
			e.expr("body", last())
		}
	}
	return e.m
}

func bare(e *expects, source *syntax.SyntaxNode) {
	switch nodeKind(source) {
	case syntax.SyntaxKindIdent:
		e.val("bare_name", "name "+sourceText(source))
	case syntax.SyntaxKindFieldAccess:
		s := significant(source)
		e.val("bare_name", "name "+sourceText(s[len(s)-1]))
	case syntax.SyntaxKindStr:
		str := cooked(sourceText(source))
		if strings.HasPrefix(str, "@") {
			spec, err := syntax.ParsePackageSpec(str)
			switch {
			case err != nil:
				e.val("bare_name", "package invalid")
			case isName(spec.Name):
				e.val("bare_name", "name "+spec.Name)
			default:
				e.val("bare_name", "path invalid")
			}
			return
		}
		name := path.Base(str)
		if i := strings.LastIndexByte(name, '.'); i > 0 {
			name = name[:i]
		}
		if isName(name) {
			e.val("bare_name", "name "+name)
		} else {
			e.val("bare_name", "path invalid")
		}
	default:
		e.val("bare_name", "dynamic")
	}
}

func (x accExp) String() string {
	switch {
	case x.none:
		return "nothing"
	case x.isValue:
		return fmt.Sprintf("%q", x.value)
	case x.placeholder != "":
		return "a placeholder " + x.placeholder
	}
	var parts []string
	for i, n := range x.nodes {
		parts = append(parts, fmt.Sprintf("%s %q", strings.TrimPrefix(x.types[i], typePrefix), sourceText(n)))
	}
	return "[" + strings.Join(parts, ", ") + "]"
}

func accString(a syntax.VerifAcc) string {
	return accExp{nodes: a.Nodes, types: a.Types, value: a.Value, none: a.None, isValue: a.Nodes == nil && a.Value != ""}.String()
}

// checkAST checks the typed views of every node of a tree.
func checkAST(c *Case, root *syntax.SyntaxNode) {
	in := map[*syntax.SyntaxNode]bool{}
	fl := flatten(root)
	for _, f := range fl {
		in[f.n] = true
	}
	errs := countErrors(root)
	if errs > 0 {
		c.Cover("trees with errors")
	}
	for _, f := range fl {
		kind := f.kind
		types, accs := syntax.VerifCasts(f.n)
		c.Eval(1 + len(accs))
		where := func() string { return fmt.Sprintf("%s node %q", kind.Name(), sourceText(f.n)) }
		// A node has the view of its kind and no other.
		want := ""
		if v := viewOf[kind]; v != "" {
			want = typePrefix + v
		}
		if got := strings.Join(types, " "); got != want {
			c.Fail("%s can be cast to %q, not to %q", where(), got, want)
		}
		unions := syntax.VerifUnions(f.n)
		wantU := map[string]string{}
		if isExprNode(f.n) {
			v := viewOf[kind]
			wantU["Expr"] = want
			wantU["ExprSpace"] = want
			wantU["Expr.hash"] = fmt.Sprint(afterHash[v])
			wantU["Expr.is_literal"] = fmt.Sprint(literals[v])
		}
		if kind == syntax.SyntaxKindSpace {
			wantU["ExprSpace"] = want
		}
		for _, i := range []string{"Pattern", "ArrayItem", "DictItem", "Arg", "Param", "DestructuringItem"} {
			if v := variant(i, f.n); v != "" {
				wantU[i] = v
			}
		}
		var keys []string
		for k := range unions {
			keys = append(keys, k)
		}
		for k := range wantU {
			if _, ok := unions[k]; !ok {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			if unions[k] != wantU[k] {
				c.Fail("%s is %q as a %s, it should be %q", where(), unions[k], k, wantU[k])
			}
		}
		// What the accessors return.
		// Where there is an error, it is only checked that they return.
		var exp map[string]accExp
		if errs == 0 {
			exp = expectAST(f.n)
		}
		seen := map[string]bool{}
		for _, a := range accs {
			seen[a.Name] = true
			for i, n := range a.Nodes {
				if !in[n] && sourceText(n) != "" {
					c.Fail("%s of %s returns a node that is not in the tree: %s", a.Name, where(), a.Types[i])
				}
			}
			x, ok := exp[a.Name]
			if !ok {
				continue
			}
			c.Cover(viewOf[kind] + "." + a.Name)
			good := a.None == x.none
			switch {
			case x.placeholder != "":
				good = good && len(a.Nodes) == 1 && !in[a.Nodes[0]] && a.Types[0] == x.placeholder
			case x.isValue:
				good = good && a.Nodes == nil && a.Value == x.value
			default:
				good = good && a.Value == "" && len(a.Nodes) == len(x.nodes)
				for i := 0; good && i < len(a.Nodes); i++ {
					good = a.Nodes[i] == x.nodes[i] && a.Types[i] == x.types[i]
				}
			}
			if !good {
				c.Fail("%s of %s is %s, it should be %s", a.Name, where(), accString(a), x)
			}
			c.Distinct(kind, a.Name, sourceText(f.n))
		}
		for k := range exp {
			if !seen[k] {
				c.Fail("%s of %s is not given, it should be %s", k, where(), exp[k])
			}
		}
	}
	if len(c.Input) < 60 {
		c.Sample(fmt.Sprintf("%q", c.Input))
	}
}

func randDigits(c *Case, set string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(set[c.IntN(len(set))])
	}
	return b.String()
}

// valueText writes literals and short tokens whose accessors return values.
func valueText(c *Case) string {
	dec := func() string { return randDigits(c, "0123456789", 1+c.IntN(6)) }
	num := func() string {
		s := dec()
		if c.IntN(2) == 0 {
			s += "." + dec()
		}
		if c.IntN(3) == 0 {
			s += []string{"e", "E", "e-", "e+"}[c.IntN(4)] + randDigits(c, "0123456789", 1+c.IntN(2))
		}
		return s
	}
	str := func() string {
		var b strings.Builder
		b.WriteByte('"')
		for i := c.IntN(6); i > 0; i-- {
			switch c.IntN(6) {
			case 0, 1:
				b.WriteString([]string{`\n`, `\r`, `\t`, `\\`, `\"`, `\x`, `\ `, `\é`, `\u`, `\u{`, `\u}`, `\u{}`}[c.IntN(12)])
			case 2:
				b.WriteString(`\u{` + randDigits(c, "0123456789abcdefABCDEF", 1+c.IntN(8)) + "}")
			case 3:
				b.WriteString(`\u{` + []string{"d800", "dfff", "10ffff", "110000", "0", "00041", "e9}", "1F5FA", "ffffffffffffffff41"}[c.IntN(9)] + "}")
			default:
				b.WriteString([]string{"a", "é", "𝄞", "{", "}", "\n", "u", "0", "#", "//", "'", " "}[c.IntN(12)])
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	switch c.IntN(14) {
	case 0:
		return "#" + dec()
	case 1:
		return "#" + []string{"9223372036854775807", "9223372036854775808", "0x7fffffffffffffff", "0xffffffffffffffff", "00012", "0b" + randDigits(c, "01", 1+c.IntN(70)),
			"0o" + randDigits(c, "01234567", 1+c.IntN(24)), "0x" + randDigits(c, "0123456789abcdefABCDEF", 1+c.IntN(18)), "1e400", "1e-400", ".5", "5."}[c.IntN(12)]
	case 2:
		return "#{" + num() + "}"
	case 3, 4:
		return "#{" + num() + unitNames[c.IntN(len(unitNames))] + "}"
	case 5, 6, 7:
		return "#" + str()
	case 8:
		if c.IntN(2) == 0 {
			return `\u{` + randDigits(c, "0123456789abcdefABCDEF", 1+c.IntN(7)) + "}"
		}
		return `\` + string(randRune(c)) + "x"
	case 9:
		return []string{"...", "~", "a -1", "--", "---", "-?", "a-?b", "....", "\"a\"", "it's", "'", "-- 1"}[c.IntN(12)]
	case 10:
		return "@" + []string{"a", "fig:x-1", "é_b", "a.b", "x:", "x."}[c.IntN(6)] + []string{"", "[s]", " [s]", "[]"}[c.IntN(4)] + " <" + []string{"l", "a.b", "x:y-z"}[c.IntN(3)] + ">"
	case 11:
		d := strings.Repeat("`", 1+c.IntN(5))
		nl := []string{"", "\n", " ", "\r\n", "\u2028", "\v", "\n  "}
		return d + []string{"", "rust", "c++", "a-b"}[c.IntN(4)] + nl[c.IntN(7)] + []string{"", "x", "a `` b", "é"}[c.IntN(4)] + nl[c.IntN(7)] + []string{"", "y"}[c.IntN(2)] + nl[c.IntN(7)] + d
	case 12:
		return []string{strings.Repeat("=", 1+c.IntN(8)) + " h", dec() + ". x", randDigits(c, "0123456789", 19+c.IntN(3)) + ". x", "+ x", "- x", "/ a: b", "/ a *b* : c\n  d",
			"https://a.b/c?d=(e)", "18446744073709551615. x", "18446744073709551616. y", "/ /* */ t : d"}[c.IntN(11)]
	default:
		src := []string{`"a.typ"`, `"a/b-c.typ"`, `"../é.x"`, `"1.typ"`, `"a.b.typ"`, `""`, `"."`, `".typ"`, `"a"`, `"@preview/ab:1.2.3"`, `"@p/a"`, `"@p/1:1.0.0"`, `"a/"`, `".."`, `"a b.typ"`,
			"a", "a.b", "a.b.c", "f()", `("a")`, `"a\u{62}.typ"`}[c.IntN(21)]
		switch c.IntN(3) {
		case 0:
			src = `"` + pick(c, []string{"a", "b", "x-y", ".", ".", "..", "/", "/", "typ", ".typ", "1", "_", "-", " ", "é", "@", ":", "1.0.0", "preview", "@preview/", ":1.0.0", "\\u{2e}", "\\\\"}, 1+c.IntN(6)) + `"`
		case 1:
			src = `"` + []string{"@preview/", "@local/", "@", "@a/", "@/"}[c.IntN(5)] + pick(c, []string{"a", "b-c", "1", "_", "é", "-", "/", ".", " "}, 1+c.IntN(3)) + []string{":1.2.3", ":0.0.0", ":1.2", ":", "", ":1.2.3.4", ":01.2.3"}[c.IntN(7)] + `"`
		}
		return "#import " + src + []string{"", " as b", ": *", ": a", ": a.b.c", ": a as b", ": (a, b.c as d,)", " as /* */ x: a", "\n", ":a.b as c, d"}[c.IntN(10)]
	}
}

// seams puts trivia wherever two tokens of an accessor's node can be apart.
func seamText(c *Case) string {
	s := func() string {
		return []string{" ", " ", " /* c */ ", "/* c */", "  ", " /**/ /* */ "}[c.IntN(6)]
	}
	o := func() string {
		if c.IntN(2) == 0 {
			return ""
		}
		return s()
	}
	e := func() string {
		return []string{"a", "1", "f(x)", "(1 + 2)", "[c]", "\"s\"", "{ b }", "not a", "a.b", "(x) => x", "none", "(a, b)", "(:)", "a not in b", "-1"}[c.IntN(15)]
	}
	p := func() string {
		return []string{"x", "_", "(x)", "(x, y)", "(x, ..r)", "(k: v, _)", "((x), (y, z))", "(..)", "((a: (b, c)), d)", "(k: (v))", "f.g"}[c.IntN(11)]
	}
	arg := func() string {
		return []string{e(), "k:" + o() + e(), ".." + e(), "[t]"}[c.IntN(4)]
	}
	args := func() string {
		var b strings.Builder
		b.WriteString("(" + o())
		n := c.IntN(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString("," + o())
			}
			b.WriteString(arg() + o())
		}
		if n > 0 && c.IntN(2) == 0 {
			b.WriteString("," + o())
		}
		b.WriteString(")")
		for c.IntN(4) == 0 {
			b.WriteString("[z]")
		}
		return b.String()
	}
	params := func() string {
		return "(" + o() + []string{"", "a", "a, b: 1", "..s", "a," + o(), "(x, y), z", "_", "(q)", "..", "a: 2, ..b,"}[c.IntN(10)] + ")"
	}
	blk := func() string { return []string{"{ c }", "[d]", "{}", "[]"}[c.IntN(4)] }
	code := ""
	switch c.IntN(16) {
	case 0:
		code = "let" + s() + p()
		if c.IntN(3) > 0 {
			code += o() + "=" + o() + e()
		}
	case 1:
		code = "let" + s() + "f" + params() + o() + "=" + o() + e()
	case 2:
		code = p() + s() + "=" + o() + e()
	case 3:
		code = "set" + s() + []string{"text", "a.b"}[c.IntN(2)] + args()
		if c.IntN(2) == 0 {
			code += s() + "if" + s() + e()
		}
	case 4:
		code = "show" + s() + []string{":", e() + ":", e() + s() + ":"}[c.IntN(3)] + o() + e()
	case 5:
		code = "if" + s() + e() + o() + blk()
		if c.IntN(2) == 0 {
			code += o() + "else" + o() + blk()
		}
		if c.IntN(4) == 0 {
			code += s() + "else if a" + blk()
		}
	case 6:
		code = "while" + s() + e() + s() + blk()
	case 7:
		code = "for" + s() + p() + s() + "in" + s() + e() + s() + blk()
	case 8:
		code = params() + o() + "=>" + o() + e()
	case 9:
		code = e() + s() + []string{"+", "-", "*", "/", "and", "or", "==", "!=", "<", "<=", ">", ">=", "=", "in", "not" + s() + "in", "+=", "-=", "*=", "/="}[c.IntN(19)] + s() + e()
	case 10:
		code = []string{"-", "+", "not "}[c.IntN(3)] + o() + e()
	case 11:
		code = "g" + args()
	case 12:
		code = "(" + o() + arg() + o() + "," + o() + arg() + o() + ")"
	case 13:
		code = "(" + o() + []string{"k", "\"k\"", "(a)"}[c.IntN(3)] + o() + ":" + o() + e() + o() + "," + o() + ".." + e() + ")"
	case 14:
		code = []string{"context" + s() + e(), "return" + s() + e(), "return", "include" + s() + "\"x\"", "break", "continue", "a" + o() + "." + o() + "b"}[c.IntN(7)]
	default:
		code = "import" + s() + e() + o() + ":" + o() + "a" + o() + "." + o() + "b" + s() + "as" + s() + "c" + o() + "," + o() + "d"
	}
	if c.IntN(3) == 0 {
		return "#{" + o() + code + o() + "}"
	}
	return "#" + code + []string{"", "\n", " t", "; u", "\n\nv"}[c.IntN(5)]
}

func astCase(c *Case, text string) {
	c.Input = text
	checkAST(c, syntax.Parse(text))
}

func init() {
	readTyped = func(root *syntax.SyntaxNode) string {
		var b strings.Builder
		for _, f := range flatten(root) {
			func() {
				defer func() {
					if e := recover(); e != nil {
						fmt.Fprint(&b, "panic: ", e)
					}
				}()
				types, accs := syntax.VerifCasts(f.n)
				fmt.Fprint(&b, types)
				for _, a := range accs {
					fmt.Fprint(&b, a.Name, a.Types, a.Value, a.None)
				}
				unions := syntax.VerifUnions(f.n)
				for _, k := range sortedKeys(unions) {
					fmt.Fprint(&b, k, unions[k])
				}
			}()
		}
		return b.String()
	}
	register(&Prop{
		ID:   "P27",
		Rule: "a case counts if an accessor returned a node or value that was compared with the one derived from the node's children or text",
		Groups: []Group{
			{Name: "values", Quick: 6000, Thorough: 200000, Run: func(c *Case) { astCase(c, valueText(c)) }},
			{Name: "seams", Quick: 8000, Thorough: 250000, Run: func(c *Case) { astCase(c, seamText(c)) }},
			{Name: "documents", Quick: 1500, Thorough: 40000, Run: func(c *Case) {
				c.Input = genDocument(c, 30+c.IntN(60))
				checkAST(c, syntax.Parse(c.Input))
			}},
			{Name: "math", Quick: 2500, Thorough: 80000, Run: func(c *Case) {
				var b strings.Builder
				mathGen(c, &b, 3)
				t := b.String()
				if c.IntN(3) == 0 {
					t = " " + t + " "
				}
				c.Input = "$" + t + "$"
				checkAST(c, syntax.Parse(c.Input))
			}},
			{Name: "math soup", Quick: 1500, Thorough: 40000, Run: func(c *Case) {
				c.Input = "$" + mathSoupText(c) + "$"
				checkAST(c, syntax.Parse(c.Input))
			}},
			{Name: "erroneous", Quick: 4000, Thorough: 150000, Run: func(c *Case) {
				t := anyText(c, 40)
				if c.IntN(2) == 0 {
					t = mutate(c, seamText(c), 1+c.IntN(3))
				}
				astCase(c, t)
			}},
		},
	})
}
