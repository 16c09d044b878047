package opencypher

import (
	"github.com/antlr/antlr4/runtime/Go/antlr"

	"github.com/cloudprivacylabs/opencypher/parser"
)

// Contracts of the translation of patterns and clauses.

//@ opaque oC_PatternPart oC_PatternElement oC_NodePattern oC_PatternElementChain oC_RelationshipPattern oC_RelationshipTypes oC_RelTypeName oC_Properties oC_RangeLiteral oC_Pattern

// ------------------------------------------------------------ patterns

//@ unit tPattern target=oC_Pattern props=C24,C23 args=ctx res=res waive=type_assertion

func sTPatPart(ctx *parser.OC_PatternContext, i int) PatternPart {
	return oC_PatternPart(ctx.AllOC_PatternPart()[i].(*parser.OC_PatternPartContext))
}

func tPattern_pre(ctx *parser.OC_PatternContext) bool { return ctx != nil }

func tPattern_post_parts(ctx *parser.OC_PatternContext, gi int, res Pattern) bool {
	n := len(ctx.AllOC_PatternPart())
	return len(res.Parts) == n && (gi < 0 || gi >= n || vSameAny(res.Parts[gi], sTPatPart(ctx, gi)))
}

func tPattern_inv_parts(ctx *parser.OC_PatternContext, gi int, ret Pattern, i int) bool {
	return len(ret.Parts) == i+1 && (gi < 0 || gi > i || vSameAny(ret.Parts[gi], sTPatPart(ctx, gi)))
}

//@ unit tPart target=oC_PatternPart props=C24,C23,C25 args=ctx res=res inline=oC_AnonymousPatternPart waive=type_assertion

func tPart_pre(ctx *parser.OC_PatternPartContext) bool { return ctx != nil }

func tPart_post_part(ctx *parser.OC_PatternPartContext, gi int, res PatternPart) bool {
	v := ctx.OC_Variable()
	if (v == nil) != (res.variable == nil) {
		return false
	}
	if v != nil && *res.variable != oC_Variable(v.(*parser.OC_VariableContext)) {
		return false
	}
	start, path := oC_PatternElement(ctx.OC_AnonymousPatternPart().(*parser.OC_AnonymousPatternPartContext).OC_PatternElement().(*parser.OC_PatternElementContext))
	return vSameAny(res.start, start) && len(res.path) == len(path) && (gi < 0 || gi >= len(path) || vSameAny(res.path[gi], path[gi]))
}

//@ unit tElement target=oC_PatternElement props=C24,C23 args=ctx res=start,chain waive=type_assertion;precondition_tElement
//@ rec sTInner

// sTInner is the pattern inside all parentheses
func sTInner(ctx *parser.OC_PatternElementContext) *parser.OC_PatternElementContext {
	if p := ctx.OC_PatternElement(); p != nil {
		return sTInner(p.(*parser.OC_PatternElementContext))
	}
	return ctx
}

func sTChain(ctx *parser.OC_PatternElementContext, i int) patternChain {
	return oC_PatternElementChain(ctx.AllOC_PatternElementChain()[i].(*parser.OC_PatternElementChainContext))
}

func tElement_pre(ctx *parser.OC_PatternElementContext) bool { return ctx != nil }

func tElement_post_element(ctx *parser.OC_PatternElementContext, gi int, start nodePattern, chain []patternChain) bool {
	c := sTInner(ctx)
	n := len(c.AllOC_PatternElementChain())
	return vSameAny(start, oC_NodePattern(c.OC_NodePattern().(*parser.OC_NodePatternContext))) && len(chain) == n && (gi < 0 || gi >= n || vSameAny(chain[gi], sTChain(c, gi)))
}

func tElement_inv_chain(ctx *parser.OC_PatternElementContext, gi int, locChain []patternChain, i int) bool {
	return len(locChain) == i+1 && (gi < 0 || gi > i || vSameAny(locChain[gi], sTChain(ctx, gi)))
}

//@ unit tNode target=oC_NodePattern props=C24,C23 args=ctx res=res waive=type_assertion

func tNode_pre(ctx *parser.OC_NodePatternContext) bool { return ctx != nil }

func tNode_post_parts(ctx *parser.OC_NodePatternContext, res nodePattern) bool {
	v, l, p := ctx.OC_Variable(), ctx.OC_NodeLabels(), ctx.OC_Properties()
	if (v == nil) != (res.variable == nil) || (l == nil) != (res.labels == nil) || (p == nil) != (res.properties == nil) {
		return false
	}
	return (v == nil || *res.variable == oC_Variable(v.(*parser.OC_VariableContext))) &&
		(l == nil || vSameAny(*res.labels, oC_NodeLabels(l.(*parser.OC_NodeLabelsContext)))) &&
		(p == nil || vSameAny(*res.properties, oC_Properties(p.(*parser.OC_PropertiesContext))))
}

//@ unit tChain target=oC_PatternElementChain props=C24,C23 args=ctx res=res waive=type_assertion

func tChain_pre(ctx *parser.OC_PatternElementChainContext) bool { return ctx != nil }

func tChain_post_parts(ctx *parser.OC_PatternElementChainContext, res patternChain) bool {
	return vSameAny(res.rel, oC_RelationshipPattern(ctx.OC_RelationshipPattern().(*parser.OC_RelationshipPatternContext))) &&
		vSameAny(res.node, oC_NodePattern(ctx.OC_NodePattern().(*parser.OC_NodePatternContext)))
}

//@ unit tRel target=oC_RelationshipPattern props=C24,C23 args=ctx res=res waive=type_assertion

func tRel_pre(ctx *parser.OC_RelationshipPatternContext) bool { return ctx != nil }

// the arrow heads are the directions
func tRel_post_direction(ctx *parser.OC_RelationshipPatternContext, res relationshipPattern) bool {
	return res.toLeft == (ctx.OC_LeftArrowHead() != nil) && res.toRight == (ctx.OC_RightArrowHead() != nil)
}

func tRel_post_detail(ctx *parser.OC_RelationshipPatternContext, res relationshipPattern) bool {
	d := ctx.OC_RelationshipDetail()
	if d == nil {
		return res.variable == nil && res.relTypes == nil && res.rng == nil && res.properties == nil
	}
	x := d.(*parser.OC_RelationshipDetailContext)
	v, t, r, p := x.OC_Variable(), x.OC_RelationshipTypes(), x.OC_RangeLiteral(), x.OC_Properties()
	if (v == nil) != (res.variable == nil) || (t == nil) != (res.relTypes == nil) || (r == nil) != (res.rng == nil) || (p == nil) != (res.properties == nil) {
		return false
	}
	return (v == nil || *res.variable == oC_Variable(v.(*parser.OC_VariableContext))) &&
		(t == nil || vSameAny(*res.relTypes, oC_RelationshipTypes(t.(*parser.OC_RelationshipTypesContext)))) &&
		(r == nil || vSameAny(*res.rng, oC_RangeLiteral(r.(*parser.OC_RangeLiteralContext)))) &&
		(p == nil || vSameAny(*res.properties, oC_Properties(p.(*parser.OC_PropertiesContext))))
}

//@ unit tRelTypes target=oC_RelationshipTypes props=C24,C23 args=ctx res=res waive=type_assertion
//@ unit tRelType target=oC_RelTypeName props=C24,C23,C16 args=ctx res=res waive=type_assertion

func sTRelType(ctx *parser.OC_RelationshipTypesContext, i int) schemaName {
	return oC_RelTypeName(ctx.AllOC_RelTypeName()[i].(*parser.OC_RelTypeNameContext))
}

func tRelTypes_pre(ctx *parser.OC_RelationshipTypesContext) bool { return ctx != nil }

func tRelTypes_post_types(ctx *parser.OC_RelationshipTypesContext, gi int, res relationshipTypes) bool {
	n := len(ctx.AllOC_RelTypeName())
	return len(res.rel) == n && (gi < 0 || gi >= n || vSameAny(res.rel[gi], sTRelType(ctx, gi)))
}

func tRelTypes_inv_types(ctx *parser.OC_RelationshipTypesContext, gi int, ret relationshipTypes, i int) bool {
	return len(ret.rel) == i+1 && (gi < 0 || gi > i || vSameAny(ret.rel[gi], sTRelType(ctx, gi)))
}

func tRelType_pre(ctx *parser.OC_RelTypeNameContext) bool { return ctx != nil }

func tRelType_post_name(ctx *parser.OC_RelTypeNameContext, res schemaName) bool {
	return vSameAny(res, oC_SchemaName(ctx.OC_SchemaName().(*parser.OC_SchemaNameContext)))
}

//@ unit tProps target=oC_Properties props=C24,C23 args=ctx res=res waive=type_assertion
//@ unit tParam target=oC_Parameter props=C17,C16 args=ctx res=res waive=type_assertion

func tProps_pre(ctx *parser.OC_PropertiesContext) bool { return ctx != nil }

func tProps_post_kind(ctx *parser.OC_PropertiesContext, res Properties) bool {
	if x := ctx.OC_MapLiteral(); x != nil {
		return res.Param == nil && res.Map == oC_MapLiteral(x.(*parser.OC_MapLiteralContext))
	}
	return res.Map == nil && res.Param != nil && *res.Param == oC_Parameter(ctx.OC_Parameter().(*parser.OC_ParameterContext))
}

func tParam_pre(ctx *parser.OC_ParameterContext) bool {
	return ctx != nil && (ctx.OC_SymbolicName() != nil || ctx.DecimalInteger() != nil)
}

// the name with $ before it
func tParam_post_name(ctx *parser.OC_ParameterContext, res Parameter) bool {
	if x := ctx.OC_SymbolicName(); x != nil {
		return string(res) == "$"+string(oC_SymbolicName(x.(*parser.OC_SymbolicNameContext)))
	}
	return string(res) == "$"+ctx.DecimalInteger().GetText()
}

//@ unit tRange target=oC_RangeLiteral props=C24 args=ctx res=res waive=type_assertion
//@ rec sTRngN sTRngDots sTRngAt

// sTRngN counts the bounds of the first n children
func sTRngN(ctx *parser.OC_RangeLiteralContext, n int) int {
	if n <= 0 {
		return 0
	}
	r := sTRngN(ctx, n-1)
	if _, ok := ctx.GetChild(n - 1).(antlr.TerminalNode); ok {
		return r
	}
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_IntegerLiteralContext); ok {
		return r + 1
	}
	return r
}

// sTRngDots counts the bounds before the dots
func sTRngDots(ctx *parser.OC_RangeLiteralContext, n int) int {
	if n <= 0 {
		return -1
	}
	r := sTRngDots(ctx, n-1)
	if t, ok := ctx.GetChild(n - 1).(antlr.TerminalNode); ok && t.GetText() == ".." {
		return sTRngN(ctx, n-1)
	}
	return r
}

func sTRngAt(ctx *parser.OC_RangeLiteralContext, n, k int) int {
	if n <= 0 {
		return -1
	}
	r := sTRngAt(ctx, n-1, k)
	if _, ok := ctx.GetChild(n - 1).(antlr.TerminalNode); ok {
		return r
	}
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_IntegerLiteralContext); ok && sTRngN(ctx, n-1) == k {
		return n - 1
	}
	return r
}

func sTBound(ctx *parser.OC_RangeLiteralContext, n, k int) intLiteral {
	return oC_IntegerLiteral(ctx.GetChild(sTRngAt(ctx, n, k)).(*parser.OC_IntegerLiteralContext))
}

func tRange_pre(ctx *parser.OC_RangeLiteralContext) bool {
	return ctx != nil && ctx.GetChildCount() >= 0
}

// *, *n, *n.., *..n and *n..m
func tRange_post_bounds(ctx *parser.OC_RangeLiteralContext, res rangeLiteral) bool {
	c := ctx.GetChildCount()
	n, d := sTRngN(ctx, c), sTRngDots(ctx, c)
	if n == 0 {
		return res.from == nil && res.to == nil
	}
	if n == 2 {
		return res.from != nil && res.to != nil && *res.from == sTBound(ctx, c, 0) && *res.to == sTBound(ctx, c, 1)
	}
	if n == 1 && d == 0 {
		return res.from == nil && res.to != nil && *res.to == sTBound(ctx, c, 0)
	}
	if n == 1 && d == 1 {
		return res.to == nil && res.from != nil && *res.from == sTBound(ctx, c, 0)
	}
	return n != 1 || res.from != nil && res.to != nil && *res.from == sTBound(ctx, c, 0) && *res.to == sTBound(ctx, c, 0)
}

func tRange_inv_bounds(ctx *parser.OC_RangeLiteralContext, values []intLiteral, rangeIndex, i int) bool {
	return i <= ctx.GetChildCount() && len(values) == sTRngN(ctx, i) && rangeIndex == sTRngDots(ctx, i) && rangeIndex >= -1 && rangeIndex <= len(values) &&
		(len(values) <= 0 || values[0] == sTBound(ctx, i, 0)) && (len(values) <= 1 || values[1] == sTBound(ctx, i, 1))
}

func tRange_var_children(ctx *parser.OC_RangeLiteralContext, i int) int { return ctx.GetChildCount() - i }

//@ unit tRelPattern target=oC_RelationshipsPattern props=C24 args=ctx res=res waive=type_assertion

func sTRelChain(ctx *parser.OC_RelationshipsPatternContext, i int) patternChain {
	return oC_PatternElementChain(ctx.AllOC_PatternElementChain()[i].(*parser.OC_PatternElementChainContext))
}

func tRelPattern_pre(ctx *parser.OC_RelationshipsPatternContext) bool { return ctx != nil }

func tRelPattern_post_parts(ctx *parser.OC_RelationshipsPatternContext, gi int, res relationshipsPattern) bool {
	n := len(ctx.AllOC_PatternElementChain())
	return vSameAny(res.start, oC_NodePattern(ctx.OC_NodePattern().(*parser.OC_NodePatternContext))) && len(res.chain) == n && (gi < 0 || gi >= n || vSameAny(res.chain[gi], sTRelChain(ctx, gi)))
}

func tRelPattern_inv_parts(ctx *parser.OC_RelationshipsPatternContext, gi int, ret relationshipsPattern, i int) bool {
	return vSameAny(ret.start, oC_NodePattern(ctx.OC_NodePattern().(*parser.OC_NodePatternContext))) && len(ret.chain) == i+1 && (gi < 0 || gi > i || vSameAny(ret.chain[gi], sTRelChain(ctx, gi)))
}
