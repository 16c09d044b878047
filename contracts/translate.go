package opencypher

import (
	"github.com/antlr/antlr4/runtime/Go/antlr"

	"github.com/cloudprivacylabs/opencypher/parser"
)

// Contracts of the translation of parse trees. Every translation has a unit
// of its own, and the others know it as a function of the parse tree. The
// accessors of parse trees are functions of the tree.

//@ opaque oC_OrExpression oC_XorExpression oC_AndExpression oC_NotExpression oC_ComparisonExpression oC_PartialComparisonExpression
//@ opaque oC_AddOrSubtractExpression oC_MultiplyDivideModuloExpression oC_PowerOfExpression oC_UnaryAddOrSubtractExpression

//@ unit tOr target=oC_OrExpression props=C17 args=ctx res=res waive=type_assertion
//@ unit tXor target=oC_XorExpression props=C17 args=ctx res=res waive=type_assertion
//@ unit tAnd target=oC_AndExpression props=C17 args=ctx res=res waive=type_assertion
//@ unit tNot target=oC_NotExpression props=C17 args=ctx res=res waive=type_assertion
//@ unit tCmp target=oC_ComparisonExpression props=C17,C05 args=ctx res=res waive=type_assertion

func sTXor(ctx *parser.OC_OrExpressionContext, i int) Expression {
	return oC_XorExpression(ctx.AllOC_XorExpression()[i].(*parser.OC_XorExpressionContext))
}

func tOr_pre(ctx *parser.OC_OrExpressionContext) bool { return ctx != nil }

// every operand in its place, and a single one is the expression
func tOr_post_operands(ctx *parser.OC_OrExpressionContext, gi int, res Expression) bool {
	n := len(ctx.AllOC_XorExpression())
	if n == 1 {
		return vSameAny(res, sTXor(ctx, 0))
	}
	r, ok := res.(orExpression)
	return ok && len(r.parts) == n && (gi < 0 || gi >= n || vSameAny(r.parts[gi], sTXor(ctx, gi)))
}

func tOr_inv_operands(ctx *parser.OC_OrExpressionContext, ret orExpression, gi, i int) bool {
	return len(ret.parts) == i+1 && (i < 0 || vSameAny(ret.parts[0], sTXor(ctx, 0))) && (gi < 0 || gi > i || vSameAny(ret.parts[gi], sTXor(ctx, gi)))
}

func sTAnd(ctx *parser.OC_XorExpressionContext, i int) Expression {
	return oC_AndExpression(ctx.AllOC_AndExpression()[i].(*parser.OC_AndExpressionContext))
}

func tXor_pre(ctx *parser.OC_XorExpressionContext) bool { return ctx != nil }

func tXor_post_operands(ctx *parser.OC_XorExpressionContext, gi int, res Expression) bool {
	n := len(ctx.AllOC_AndExpression())
	if n == 1 {
		return vSameAny(res, sTAnd(ctx, 0))
	}
	r, ok := res.(xorExpression)
	return ok && len(r.parts) == n && (gi < 0 || gi >= n || vSameAny(r.parts[gi], sTAnd(ctx, gi)))
}

func tXor_inv_operands(ctx *parser.OC_XorExpressionContext, ret xorExpression, gi, i int) bool {
	return len(ret.parts) == i+1 && (i < 0 || vSameAny(ret.parts[0], sTAnd(ctx, 0))) && (gi < 0 || gi > i || vSameAny(ret.parts[gi], sTAnd(ctx, gi)))
}

func sTNot(ctx *parser.OC_AndExpressionContext, i int) Expression {
	return oC_NotExpression(ctx.AllOC_NotExpression()[i].(*parser.OC_NotExpressionContext))
}

func tAnd_pre(ctx *parser.OC_AndExpressionContext) bool { return ctx != nil }

func tAnd_post_operands(ctx *parser.OC_AndExpressionContext, gi int, res Expression) bool {
	n := len(ctx.AllOC_NotExpression())
	if n == 1 {
		return vSameAny(res, sTNot(ctx, 0))
	}
	r, ok := res.(andExpression)
	return ok && len(r.parts) == n && (gi < 0 || gi >= n || vSameAny(r.parts[gi], sTNot(ctx, gi)))
}

func tAnd_inv_operands(ctx *parser.OC_AndExpressionContext, ret andExpression, gi, i int) bool {
	return len(ret.parts) == i+1 && (i < 0 || vSameAny(ret.parts[0], sTNot(ctx, 0))) && (gi < 0 || gi > i || vSameAny(ret.parts[gi], sTNot(ctx, gi)))
}

// ---------------------------------------------------------------- NOT

//@ rec sTNots

// sTNots: n times NOT before the comparison
func sTNots(ctx *parser.OC_NotExpressionContext, n int) Expression {
	if n <= 0 {
		return oC_ComparisonExpression(ctx.OC_ComparisonExpression().(*parser.OC_ComparisonExpressionContext))
	}
	e := sTNots(ctx, n-1)
	return notExpression{part: e}
}

func tNot_pre(ctx *parser.OC_NotExpressionContext) bool { return ctx != nil }

func tNot_post_nots(ctx *parser.OC_NotExpressionContext, res Expression) bool {
	return vSameAny(res, sTNots(ctx, len(ctx.AllNOT())))
}

func tNot_inv_nots(ctx *parser.OC_NotExpressionContext, ret Expression, i int) bool {
	return vSameAny(ret, sTNots(ctx, i+1))
}

// --------------------------------------------------------- comparisons

func sTPartial(ctx *parser.OC_ComparisonExpressionContext, i int) partialComparisonExpression {
	return oC_PartialComparisonExpression(ctx.AllOC_PartialComparisonExpression()[i].(*parser.OC_PartialComparisonExpressionContext))
}

func sSamePartial(a, b partialComparisonExpression) bool {
	return a.op == b.op && vSameAny(a.expr, b.expr)
}

func tCmp_pre(ctx *parser.OC_ComparisonExpressionContext) bool { return ctx != nil }

func tCmp_post_operands(ctx *parser.OC_ComparisonExpressionContext, gi int, res Expression) bool {
	n := len(ctx.AllOC_PartialComparisonExpression())
	first := oC_AddOrSubtractExpression(ctx.OC_AddOrSubtractExpression().(*parser.OC_AddOrSubtractExpressionContext))
	if n == 0 {
		return vSameAny(res, first)
	}
	r, ok := res.(comparisonExpression)
	return ok && vSameAny(r.first, first) && len(r.second) == n && (gi < 0 || gi >= n || sSamePartial(r.second[gi], sTPartial(ctx, gi)))
}

func tCmp_inv_operands(ctx *parser.OC_ComparisonExpressionContext, ret comparisonExpression, gi, i int) bool {
	return len(ret.second) == i+1 && (gi < 0 || gi > i || sSamePartial(ret.second[gi], sTPartial(ctx, gi)))
}

func tCmp_inv_first(ctx *parser.OC_ComparisonExpressionContext, ret comparisonExpression) bool {
	return vSameAny(ret.first, oC_AddOrSubtractExpression(ctx.OC_AddOrSubtractExpression().(*parser.OC_AddOrSubtractExpressionContext)))
}

//@ unit tPartial target=oC_PartialComparisonExpression props=C17,C05 args=ctx res=res waive=type_assertion
//@ rec sTOp

func sTIsCmpOp(t string) bool {
	return t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == ">="
}

// sTOp is the last operator of the first n children
func sTOp(ctx *parser.OC_PartialComparisonExpressionContext, n int) string {
	if n <= 0 {
		return ""
	}
	r := sTOp(ctx, n-1)
	if tok, ok := ctx.GetChild(n - 1).(antlr.TerminalNode); ok && sTIsCmpOp(tok.GetText()) {
		return tok.GetText()
	}
	return r
}

func tPartial_pre(ctx *parser.OC_PartialComparisonExpressionContext) bool {
	return ctx != nil && ctx.GetChildCount() >= 0
}

func tPartial_post_value(ctx *parser.OC_PartialComparisonExpressionContext, res partialComparisonExpression) bool {
	return res.op == sTOp(ctx, ctx.GetChildCount()) && vSameAny(res.expr, oC_AddOrSubtractExpression(ctx.OC_AddOrSubtractExpression().(*parser.OC_AddOrSubtractExpressionContext)))
}

func tPartial_inv_op(ctx *parser.OC_PartialComparisonExpressionContext, ret partialComparisonExpression, i int) bool {
	return ret.op == sTOp(ctx, i) && vSameAny(ret.expr, oC_AddOrSubtractExpression(ctx.OC_AddOrSubtractExpression().(*parser.OC_AddOrSubtractExpressionContext)))
}

func tPartial_var_children(ctx *parser.OC_PartialComparisonExpressionContext, i int) int { return ctx.GetChildCount() - i }

// ------------------------------------------------- operands with operators

//@ unit tAdd target=oC_AddOrSubtractExpression props=C17 args=ctx res=res waive=type_assertion
//@ rec sTAddN sTAddSub sTAddAt

func sTMulAt(ctx *parser.OC_AddOrSubtractExpressionContext, at int) Expression {
	return oC_MultiplyDivideModuloExpression(ctx.GetChild(at).(*parser.OC_MultiplyDivideModuloExpressionContext))
}

// sTAddN counts the operands of the first n children
func sTAddN(ctx *parser.OC_AddOrSubtractExpressionContext, n int) int {
	if n <= 0 {
		return 0
	}
	r := sTAddN(ctx, n-1)
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_MultiplyDivideModuloExpressionContext); ok {
		return r + 1
	}
	return r
}

// sTAddSub: the last sign of the first n children is a minus
func sTAddSub(ctx *parser.OC_AddOrSubtractExpressionContext, n int) bool {
	if n <= 0 {
		return false
	}
	r := sTAddSub(ctx, n-1)
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_MultiplyDivideModuloExpressionContext); ok {
		return r
	}
	if term, ok := ctx.GetChild(n - 1).(antlr.TerminalNode); ok && (term.GetText() == "+" || term.GetText() == "-") {
		return term.GetText() == "-"
	}
	return r
}

// sTAddAt: where operand k is among the first n children
func sTAddAt(ctx *parser.OC_AddOrSubtractExpressionContext, n, k int) int {
	if n <= 0 {
		return -1
	}
	r := sTAddAt(ctx, n-1, k)
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_MultiplyDivideModuloExpressionContext); ok && sTAddN(ctx, n-1) == k {
		return n - 1
	}
	return r
}

func tAdd_pre(ctx *parser.OC_AddOrSubtractExpressionContext) bool {
	return ctx != nil && ctx.GetChildCount() >= 0
}

func sTAddIs(ctx *parser.OC_AddOrSubtractExpressionContext, n, k int, p addOrSubtractExpressionPart) bool {
	at := sTAddAt(ctx, n, k)
	return at >= 0 && p.sub == sTAddSub(ctx, at) && vSameAny(p.expr, sTMulAt(ctx, at))
}

func tAdd_post_operands(ctx *parser.OC_AddOrSubtractExpressionContext, gi int, res Expression) bool {
	c := ctx.GetChildCount()
	n := sTAddN(ctx, c)
	if n == 1 {
		return vSameAny(res, sTMulAt(ctx, sTAddAt(ctx, c, 0)))
	}
	r, ok := res.(*addOrSubtractExpression)
	return ok && vFresh(r) && len(r.parts) == n && (gi < 0 || gi >= n || sTAddIs(ctx, c, gi, r.parts[gi])) && r.constValue == nil
}

func tAdd_inv_operands(ctx *parser.OC_AddOrSubtractExpressionContext, ret addOrSubtractExpression, sub bool, gi, i int) bool {
	return len(ret.parts) == sTAddN(ctx, i) && sub == sTAddSub(ctx, i) && (len(ret.parts) == 0 || sTAddIs(ctx, i, 0, ret.parts[0])) && (gi < 0 || gi >= len(ret.parts) || sTAddIs(ctx, i, gi, ret.parts[gi])) && ret.constValue == nil
}

func tAdd_var_children(ctx *parser.OC_AddOrSubtractExpressionContext, i int) int { return ctx.GetChildCount() - i }

//@ unit tMul target=oC_MultiplyDivideModuloExpression props=C17 args=ctx res=res waive=type_assertion
//@ rec sTMulN sTMulOp sTPowAt

func sTPow(ctx *parser.OC_MultiplyDivideModuloExpressionContext, at int) Evaluatable {
	return oC_PowerOfExpression(ctx.GetChild(at).(*parser.OC_PowerOfExpressionContext))
}

func sTMulN(ctx *parser.OC_MultiplyDivideModuloExpressionContext, n int) int {
	if n <= 0 {
		return 0
	}
	r := sTMulN(ctx, n-1)
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_PowerOfExpressionContext); ok {
		return r + 1
	}
	return r
}

// sTMulOp is the last operator of the first n children
func sTMulOp(ctx *parser.OC_MultiplyDivideModuloExpressionContext, n int) rune {
	if n <= 0 {
		return 0
	}
	r := sTMulOp(ctx, n-1)
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_PowerOfExpressionContext); ok {
		return r
	}
	if term, ok := ctx.GetChild(n - 1).(antlr.TerminalNode); ok {
		if term.GetText() == "*" {
			return '*'
		}
		if term.GetText() == "/" {
			return '/'
		}
		if term.GetText() == "%" {
			return '%'
		}
	}
	return r
}

func sTPowAt(ctx *parser.OC_MultiplyDivideModuloExpressionContext, n, k int) int {
	if n <= 0 {
		return -1
	}
	r := sTPowAt(ctx, n-1, k)
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_PowerOfExpressionContext); ok && sTMulN(ctx, n-1) == k {
		return n - 1
	}
	return r
}

func tMul_pre(ctx *parser.OC_MultiplyDivideModuloExpressionContext) bool {
	return ctx != nil && ctx.GetChildCount() >= 0
}

func sTMulIs(ctx *parser.OC_MultiplyDivideModuloExpressionContext, n, k int, p multiplyDivideModuloExpressionPart) bool {
	at := sTPowAt(ctx, n, k)
	return at >= 0 && p.op == sTMulOp(ctx, at) && vSameAny(p.expr, sTPow(ctx, at))
}

func tMul_post_operands(ctx *parser.OC_MultiplyDivideModuloExpressionContext, gi int, res Expression) bool {
	c := ctx.GetChildCount()
	n := sTMulN(ctx, c)
	if n == 1 {
		return vSameAny(res, sTPow(ctx, sTPowAt(ctx, c, 0)))
	}
	r, ok := res.(*multiplyDivideModuloExpression)
	return ok && vFresh(r) && len(r.parts) == n && (gi < 0 || gi >= n || sTMulIs(ctx, c, gi, r.parts[gi])) && r.constValue == nil
}

func tMul_inv_operands(ctx *parser.OC_MultiplyDivideModuloExpressionContext, ret multiplyDivideModuloExpression, lastOp rune, gi, i int) bool {
	return len(ret.parts) == sTMulN(ctx, i) && lastOp == sTMulOp(ctx, i) && (len(ret.parts) == 0 || sTMulIs(ctx, i, 0, ret.parts[0])) && (gi < 0 || gi >= len(ret.parts) || sTMulIs(ctx, i, gi, ret.parts[gi])) && ret.constValue == nil
}

func tMul_var_children(ctx *parser.OC_MultiplyDivideModuloExpressionContext, i int) int { return ctx.GetChildCount() - i }

//@ unit tPow target=oC_PowerOfExpression props=C17 args=ctx res=res waive=type_assertion

func sTUnary(ctx *parser.OC_PowerOfExpressionContext, i int) Evaluatable {
	return oC_UnaryAddOrSubtractExpression(ctx.AllOC_UnaryAddOrSubtractExpression()[i].(*parser.OC_UnaryAddOrSubtractExpressionContext))
}

func tPow_pre(ctx *parser.OC_PowerOfExpressionContext) bool { return ctx != nil }

func tPow_post_operands(ctx *parser.OC_PowerOfExpressionContext, gi int, res Evaluatable) bool {
	n := len(ctx.AllOC_UnaryAddOrSubtractExpression())
	if n == 1 {
		return vSameAny(res, sTUnary(ctx, 0))
	}
	r, ok := res.(*powerOfExpression)
	return ok && vFresh(r) && len(r.parts) == n && (gi < 0 || gi >= n || vSameAny(r.parts[gi], sTUnary(ctx, gi))) && r.constValue == nil
}

func tPow_inv_operands(ctx *parser.OC_PowerOfExpressionContext, ret powerOfExpression, gi, i int) bool {
	return len(ret.parts) == i+1 && (i < 0 || vSameAny(ret.parts[0], sTUnary(ctx, 0))) && (gi < 0 || gi > i || vSameAny(ret.parts[gi], sTUnary(ctx, gi))) && ret.constValue == nil
}

// --------------------------------------------------------------- signs

//@ opaque oC_StringListNullOperatorExpression oC_PropertyOrLabelsExpression oC_StringOperatorExpression oC_ListOperatorExpression oC_NullOperatorExpression
//@ unit tUnary target=oC_UnaryAddOrSubtractExpression props=C17 args=ctx res=res waive=type_assertion
//@ rec sTMinus sTBaseAt

// sTMinus counts the minus signs of the first n children
func sTMinus(ctx *parser.OC_UnaryAddOrSubtractExpressionContext, n int) int {
	if n <= 0 {
		return 0
	}
	r := sTMinus(ctx, n-1)
	if tok, ok := ctx.GetChild(n - 1).(antlr.TerminalNode); ok && tok.GetText() == "-" {
		return r + 1
	}
	return r
}

func sTBaseAt(ctx *parser.OC_UnaryAddOrSubtractExpressionContext, n int) int {
	if n <= 0 {
		return -1
	}
	r := sTBaseAt(ctx, n-1)
	if _, ok := ctx.GetChild(n - 1).(antlr.TerminalNode); ok {
		return r
	}
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_StringListNullOperatorExpressionContext); ok {
		return n - 1
	}
	return r
}

func sTBaseIs(ctx *parser.OC_UnaryAddOrSubtractExpressionContext, n int, e stringListNullOperatorExpression) bool {
	at := sTBaseAt(ctx, n)
	return at < 0 || vSameAny(e, oC_StringListNullOperatorExpression(ctx.GetChild(at).(*parser.OC_StringListNullOperatorExpressionContext)))
}

func tUnary_pre(ctx *parser.OC_UnaryAddOrSubtractExpressionContext) bool {
	return ctx != nil && ctx.GetChildCount() >= 0 && sTBaseAt(ctx, ctx.GetChildCount()) >= 0
}

// sTNegated: u negates the base m times (the first three are looked at)
func sTNegated(ctx *parser.OC_UnaryAddOrSubtractExpressionContext, u *unaryAddOrSubtractExpression, m int) bool {
	if !u.neg || u.constValue != nil {
		return false
	}
	if m == 1 {
		return sTBaseIs(ctx, ctx.GetChildCount(), u.expr)
	}
	v, ok := u.expr.propertyOrLabels.atom.(*unaryAddOrSubtractExpression)
	if !ok || len(u.expr.parts) > 0 || len(u.expr.propertyOrLabels.propertyLookup) > 0 || u.expr.propertyOrLabels.nodeLabels != nil || !v.neg || v.constValue != nil {
		return false
	}
	if m == 2 {
		return sTBaseIs(ctx, ctx.GetChildCount(), v.expr)
	}
	w, ok := v.expr.propertyOrLabels.atom.(*unaryAddOrSubtractExpression)
	return ok && len(v.expr.parts) == 0 && len(v.expr.propertyOrLabels.propertyLookup) == 0 && v.expr.propertyOrLabels.nodeLabels == nil && w.neg && w.constValue == nil && (m > 3 || sTBaseIs(ctx, ctx.GetChildCount(), w.expr))
}

func tUnary_post_signs(ctx *parser.OC_UnaryAddOrSubtractExpressionContext, res Evaluatable) bool {
	m := sTMinus(ctx, ctx.GetChildCount())
	if m == 0 {
		e, ok := res.(stringListNullOperatorExpression)
		return ok && sTBaseIs(ctx, ctx.GetChildCount(), e)
	}
	u, ok := res.(*unaryAddOrSubtractExpression)
	return ok && sTNegated(ctx, u, m)
}

func tUnary_inv_minus(ctx *parser.OC_UnaryAddOrSubtractExpressionContext, minus, i int) bool {
	return minus == sTMinus(ctx, i)
}

func tUnary_inv_base(ctx *parser.OC_UnaryAddOrSubtractExpressionContext, ret unaryAddOrSubtractExpression, i int) bool {
	return !ret.neg && ret.constValue == nil && sTBaseIs(ctx, i, ret.expr)
}

func tUnary_inv_signs(ctx *parser.OC_UnaryAddOrSubtractExpressionContext, result *unaryAddOrSubtractExpression, minus int) bool {
	m := sTMinus(ctx, ctx.GetChildCount())
	return minus >= 1 && minus <= m && sTNegated(ctx, result, m-minus+1)
}

func tUnary_var_children(ctx *parser.OC_UnaryAddOrSubtractExpressionContext, i int) int { return ctx.GetChildCount() - i }

func tUnary_inv_bound(ctx *parser.OC_UnaryAddOrSubtractExpressionContext, i int) bool {
	return i <= ctx.GetChildCount()
}

func tUnary_inv_few(minus, i int) bool { return minus >= 0 && minus <= i }
