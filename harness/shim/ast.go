//go:build verifshim_ast

package syntax

import (
	"fmt"

	"github.com/mewmew/typast/internal/option"
)

// VerifAcc is what one accessor of a typed node returned: a list of nodes with
// the Go type of their typed views, or a value rendered as text.
type VerifAcc struct {
	Name  string
	Nodes []*SyntaxNode
	Types []string
	Value string
	None  bool
}

type verifRec struct{ out []VerifAcc }

func verifType(n any) string { return fmt.Sprintf("%T", n) }

func (r *verifRec) node(name string, n AstNode) {
	r.out = append(r.out, VerifAcc{Name: name, Nodes: []*SyntaxNode{n.to_untyped()}, Types: []string{verifType(n)}})
}
func (r *verifRec) none(name string) { r.out = append(r.out, VerifAcc{Name: name, None: true}) }
func (r *verifRec) value(name string, v any) {
	r.out = append(r.out, VerifAcc{Name: name, Value: fmt.Sprint(v)})
}

func verifOpt[T AstNode](r *verifRec, name string, o option.Option[T]) {
	if n, ok := o.Get(); ok {
		r.node(name, n)
	} else {
		r.none(name)
	}
}

func verifList[T AstNode](r *verifRec, name string, l []T) {
	a := VerifAcc{Name: name}
	for _, n := range l {
		a.Nodes = append(a.Nodes, n.to_untyped())
		a.Types = append(a.Types, verifType(n))
	}
	r.out = append(r.out, a)
}

func verifIs[T AstNode](node *SyntaxNode, f func(T)) bool {
	n, ok := SyntaxNode_cast[T](node).Get()
	if ok != SyntaxNode_is[T](node) {
		panic("harness: is and cast disagree")
	}
	if ok {
		f(n)
	}
	return ok
}

// VerifCasts lists the typed views a node can be cast to, and calls every
// accessor of the struct types among them.
func VerifCasts(node *SyntaxNode) (types []string, accs []VerifAcc) {
	r := &verifRec{}
	for _, c := range verifCasts {
		if t := c(node, r); t != "" {
			types = append(types, t)
		}
	}
	return types, r.out
}

// VerifUnions lists the variants that the interfaces choose for a node.
func VerifUnions(node *SyntaxNode) map[string]string {
	out := map[string]string{}
	if n, ok := SyntaxNode_cast[Expr](node).Get(); ok {
		out["Expr"] = verifVariant(node, n)
		out["Expr.hash"] = fmt.Sprint(Expr_hash(n))
		out["Expr.is_literal"] = fmt.Sprint(Expr_is_literal(n))
	}
	if n, ok := Expr_cast_with_space(node).Get(); ok {
		out["ExprSpace"] = verifVariant(node, n)
	}
	if n, ok := SyntaxNode_cast[Pattern](node).Get(); ok {
		out["Pattern"] = verifVariant(node, n)
	}
	if n, ok := SyntaxNode_cast[ArrayItem](node).Get(); ok {
		out["ArrayItem"] = verifVariant(node, n)
	}
	if n, ok := SyntaxNode_cast[DictItem](node).Get(); ok {
		out["DictItem"] = verifVariant(node, n)
	}
	if n, ok := SyntaxNode_cast[Arg](node).Get(); ok {
		out["Arg"] = verifVariant(node, n)
	}
	if n, ok := SyntaxNode_cast[Param](node).Get(); ok {
		out["Param"] = verifVariant(node, n)
	}
	if n, ok := SyntaxNode_cast[DestructuringItem](node).Get(); ok {
		out["DestructuringItem"] = verifVariant(node, n)
	}
	// Casting to a variant works exactly where the interface chooses it.
	for _, u := range []struct {
		name  string
		casts []func(*SyntaxNode, *verifRec) string
	}{
		{"ArrayItem", []func(*SyntaxNode, *verifRec) string{verifCast[*ArrayItem_Pos](nil), verifCast[*ArrayItem_Spread](nil)}},
		{"DictItem", []func(*SyntaxNode, *verifRec) string{verifCast[*DictItem_Named](nil), verifCast[*DictItem_Keyed](nil), verifCast[*DictItem_Spread](nil)}},
		{"Arg", []func(*SyntaxNode, *verifRec) string{verifCast[*Arg_Pos](nil), verifCast[*Arg_Named](nil), verifCast[*Arg_Spread](nil)}},
		{"Param", []func(*SyntaxNode, *verifRec) string{verifCast[*Param_Pos](nil), verifCast[*Param_Named](nil), verifCast[*Param_Spread](nil)}},
		{"Pattern", []func(*SyntaxNode, *verifRec) string{verifCast[*Pattern_Normal](nil), verifCast[*Pattern_Placeholder](nil), verifCast[*Pattern_Parenthesized](nil), verifCast[*Pattern_Destructuring](nil)}},
		{"DestructuringItem", []func(*SyntaxNode, *verifRec) string{verifCast[*DestructuringItem_Pattern](nil), verifCast[*DestructuringItem_Named](nil), verifCast[*DestructuringItem_Spread](nil)}},
	} {
		got := ""
		for _, f := range u.casts {
			got += f(node, nil)
		}
		if got != out[u.name] {
			out[u.name] += " but as a variant " + got
		}
	}
	return out
}

func verifVariant(node *SyntaxNode, n AstNode) string {
	if n.to_untyped() != node {
		return verifType(n) + " of another node"
	}
	if AstNode_span(n) != node.span() {
		return verifType(n) + " with another span"
	}
	return verifType(n)
}

func verifCast[T AstNode](acc func(r *verifRec, n T)) func(node *SyntaxNode, r *verifRec) string {
	return func(node *SyntaxNode, r *verifRec) string {
		t := ""
		verifIs(node, func(n T) {
			t = verifVariant(node, n)
			if acc != nil {
				acc(r, n)
			}
		})
		return t
	}
}

var verifCasts = []func(*SyntaxNode, *verifRec) string{
	verifCast(func(r *verifRec, n *Markup) { verifList(r, "exprs", n.exprs()) }),
	verifCast(func(r *verifRec, n *Text) { r.value("get", n.get()) }),
	verifCast[*Space](nil),
	verifCast[*Linebreak](nil),
	verifCast[*Parbreak](nil),
	verifCast(func(r *verifRec, n *Escape) { r.value("get", n.get()) }),
	verifCast(func(r *verifRec, n *Shorthand) { r.value("get", n.get()) }),
	verifCast(func(r *verifRec, n *SmartQuote) { r.value("double", n.double()) }),
	verifCast(func(r *verifRec, n *Strong) { r.node("body", n.body()) }),
	verifCast(func(r *verifRec, n *Emph) { r.node("body", n.body()) }),
	verifCast(func(r *verifRec, n *Raw) {
		verifList(r, "lines", n.lines())
		verifOpt(r, "lang", n.lang())
		r.value("block", n.block())
	}),
	verifCast(func(r *verifRec, n *RawLang) { r.value("get", n.get()) }),
	verifCast[*RawDelim](nil),
	verifCast(func(r *verifRec, n *Link) { r.value("get", n.get()) }),
	verifCast(func(r *verifRec, n *Label) { r.value("get", n.get()) }),
	verifCast(func(r *verifRec, n *Ref) {
		r.value("target", n.target())
		verifOpt(r, "supplement", n.supplement())
	}),
	verifCast(func(r *verifRec, n *Heading) {
		r.node("body", n.body())
		r.value("depth", n.depth())
	}),
	verifCast(func(r *verifRec, n *ListItem) { r.node("body", n.body()) }),
	verifCast(func(r *verifRec, n *EnumItem) {
		if v, ok := n.number().Get(); ok {
			r.value("number", v)
		} else {
			r.none("number")
		}
		r.node("body", n.body())
	}),
	verifCast(func(r *verifRec, n *TermItem) {
		r.node("term", n.term())
		r.node("description", n.description())
	}),
	verifCast(func(r *verifRec, n *Equation) {
		r.node("body", n.body())
		r.value("block", n.block())
	}),
	verifCast(func(r *verifRec, n *Math) {
		verifList(r, "exprs", n.exprs())
		r.value("was_deparenthesized", n.was_deparenthesized())
	}),
	verifCast(func(r *verifRec, n *MathText) {
		switch k := n.get().(type) {
		case *MathTextKind_Character:
			r.value("get", "character "+string(k.c))
		case *MathTextKind_Number:
			r.value("get", "number "+k.str)
		}
	}),
	verifCast(func(r *verifRec, n *MathIdent) { r.value("get", n.get()) }),
	verifCast(func(r *verifRec, n *MathShorthand) { r.value("get", n.get()) }),
	verifCast[*MathAlignPoint](nil),
	verifCast(func(r *verifRec, n *MathDelimited) {
		r.node("open", n.open())
		r.node("body", n.body())
		r.node("close", n.close())
	}),
	verifCast(func(r *verifRec, n *MathAttach) {
		r.node("base", n.base())
		verifOpt(r, "bottom", n.bottom())
		verifOpt(r, "top", n.top())
		verifOpt(r, "primes", n.primes())
	}),
	verifCast(func(r *verifRec, n *MathPrimes) { r.value("count", n.count()) }),
	verifCast(func(r *verifRec, n *MathFrac) {
		r.node("num", n.num())
		r.node("denom", n.denom())
	}),
	verifCast(func(r *verifRec, n *MathRoot) {
		if v, ok := n.index().Get(); ok {
			r.value("index", v)
		} else {
			r.none("index")
		}
		r.node("radicand", n.radicand())
	}),
	verifCast(func(r *verifRec, n *Ident) { r.value("get", n.get()) }),
	verifCast[*None](nil),
	verifCast[*Auto](nil),
	verifCast(func(r *verifRec, n *Bool) { r.value("get", n.get()) }),
	verifCast(func(r *verifRec, n *Int) { r.value("get", n.get()) }),
	verifCast(func(r *verifRec, n *Float) { r.value("get", n.get()) }),
	verifCast(func(r *verifRec, n *Numeric) {
		v, u := n.get()
		names := map[Unit]string{Unit_Pt: "pt", Unit_Mm: "mm", Unit_Cm: "cm", Unit_In: "in", Unit_Rad: "rad",
			Unit_Deg: "deg", Unit_Em: "em", Unit_Fr: "fr", Unit_Percent: "%"}
		r.value("get", fmt.Sprint(v, " ", names[u]))
	}),
	verifCast(func(r *verifRec, n *Str) {
		r.value("get", n.get())
		r.value("Get", n.Get())
	}),
	verifCast(func(r *verifRec, n *CodeBlock) { r.node("body", n.body()) }),
	verifCast(func(r *verifRec, n *Code) { verifList(r, "exprs", n.exprs()) }),
	verifCast(func(r *verifRec, n *ContentBlock) { r.node("body", n.body()) }),
	verifCast(func(r *verifRec, n *Parenthesized) {
		r.node("expr", n.expr())
		r.node("pattern", n.pattern())
	}),
	verifCast(func(r *verifRec, n *Array) { verifList(r, "items", n.items()) }),
	verifCast(func(r *verifRec, n *Dict) { verifList(r, "items", n.items()) }),
	verifCast(func(r *verifRec, n *Named) {
		r.node("name", n.name())
		r.node("expr", n.expr())
		r.node("pattern", n.pattern())
	}),
	verifCast(func(r *verifRec, n *Keyed) {
		r.node("key", n.key())
		r.node("expr", n.expr())
	}),
	verifCast(func(r *verifRec, n *Spread) {
		r.node("expr", n.expr())
		verifOpt(r, "sink_ident", n.sink_ident())
		verifOpt(r, "sink_expr", n.sink_expr())
	}),
	verifCast(func(r *verifRec, n *Unary) {
		r.value("op", n.op())
		r.node("expr", n.expr())
	}),
	verifCast(func(r *verifRec, n *Binary) {
		r.value("op", n.op())
		r.node("lhs", n.lhs())
		r.node("rhs", n.rhs())
	}),
	verifCast(func(r *verifRec, n *FieldAccess) {
		r.node("target", n.target())
		r.node("field", n.field())
	}),
	verifCast(func(r *verifRec, n *FuncCall) {
		r.node("callee", n.callee())
		r.node("args", n.args())
	}),
	verifCast(func(r *verifRec, n *Args) {
		verifList(r, "items", n.items())
		r.value("trailing_comma", n.trailing_comma())
	}),
	verifCast(func(r *verifRec, n *Closure) {
		verifOpt(r, "name", n.name())
		r.node("params", n.params())
		r.node("body", n.body())
	}),
	verifCast(func(r *verifRec, n *Params) { verifList(r, "children", n.children()) }),
	verifCast[*Underscore](nil),
	verifCast(func(r *verifRec, n *Destructuring) {
		verifList(r, "items", n.items())
		verifList(r, "bindings", n.bindings())
	}),
	verifCast(func(r *verifRec, n *LetBinding) {
		switch k := n.kind().(type) {
		case *LetBindingKind_Normal:
			r.node("kind.normal", k.pattern)
			verifList(r, "bindings", k.bindings())
		case *LetBindingKind_Closure:
			r.node("kind.closure", k.ident)
			verifList(r, "bindings", k.bindings())
		}
		verifOpt(r, "init", n.init())
	}),
	verifCast(func(r *verifRec, n *DestructAssignment) {
		r.node("pattern", n.pattern())
		r.node("value", n.value())
	}),
	verifCast(func(r *verifRec, n *SetRule) {
		r.node("target", n.target())
		r.node("args", n.args())
		verifOpt(r, "condition", n.condition())
	}),
	verifCast(func(r *verifRec, n *ShowRule) {
		verifOpt(r, "selector", n.selector())
		r.node("transform", n.transform())
	}),
	verifCast(func(r *verifRec, n *Contextual) { r.node("body", n.body()) }),
	verifCast(func(r *verifRec, n *Conditional) {
		r.node("condition", n.condition())
		r.node("if_body", n.if_body())
		verifOpt(r, "else_body", n.else_body())
	}),
	verifCast(func(r *verifRec, n *WhileLoop) {
		r.node("condition", n.condition())
		r.node("body", n.body())
	}),
	verifCast(func(r *verifRec, n *ForLoop) {
		r.node("pattern", n.pattern())
		r.node("iterable", n.iterable())
		r.node("body", n.body())
		verifList(r, "bindings", n.pattern().bindings())
	}),
	verifCast(func(r *verifRec, n *ModuleImport) {
		r.node("source", n.source())
		if i, ok := n.imports().Get(); ok {
			switch i := i.(type) {
			case *Imports_Wildcard:
				r.value("imports", "*")
			case *Imports_Items:
				r.node("imports", i.items)
			}
		} else {
			r.none("imports")
		}
		verifOpt(r, "new_name", n.new_name())
		switch name, err := n.bare_name(); err {
		case nil:
			r.value("bare_name", "name "+name)
		case ErrBareImport_Dynamic:
			r.value("bare_name", "dynamic")
		case ErrBareImport_PathInvalid:
			r.value("bare_name", "path invalid")
		case ErrBareImport_PackageInvalid:
			r.value("bare_name", "package invalid")
		default:
			r.value("bare_name", "other error")
		}
	}),
	verifCast(func(r *verifRec, n *ImportItems) {
		var paths []*ImportItemPath
		var names, bound []*Ident
		for _, i := range n.iter() {
			paths = append(paths, i.path())
			names = append(names, i.original_name())
			bound = append(bound, i.bound_name())
		}
		verifList(r, "paths", paths)
		verifList(r, "original_names", names)
		verifList(r, "bound_names", bound)
	}),
	verifCast(func(r *verifRec, n *ImportItemPath) {
		verifList(r, "iter", n.iter())
		r.node("name", n.name())
	}),
	verifCast(func(r *verifRec, n *RenamedImportItem) {
		r.node("path", n.path())
		r.node("original_name", n.original_name())
		r.node("new_name", n.new_name())
	}),
	verifCast(func(r *verifRec, n *ModuleInclude) { r.node("source", n.source()) }),
	verifCast[*LoopBreak](nil),
	verifCast[*LoopContinue](nil),
	verifCast(func(r *verifRec, n *FuncReturn) { verifOpt(r, "body", n.body()) }),
}
