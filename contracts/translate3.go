package opencypher

import (
	"strconv"
	"strings"

	"github.com/antlr/antlr4/runtime/Go/antlr"

	"github.com/cloudprivacylabs/opencypher/parser"
)

//@ opaque oC_Literal oC_Parameter oC_CaseExpression oC_ListComprehension oC_PatternComprehension oC_FilterExpression oC_RelationshipsPattern oC_FunctionInvocation
//@ opaque oC_NumberLiteral oC_BooleanLiteral oC_MapLiteral oC_ListLiteral oC_IntegerLiteral oC_DoubleLiteral unescapeStringLiteral oC_CaseAlternatives oC_FunctionName

//@ unit tExpr target=oC_Expression props=C17 args=ctx res=res waive=type_assertion

func tExpr_pre(ctx *parser.OC_ExpressionContext) bool { return ctx != nil }

func tExpr_post_or(ctx *parser.OC_ExpressionContext, res Expression) bool {
	return vSameAny(res, oC_OrExpression(ctx.OC_OrExpression().(*parser.OC_OrExpressionContext)))
}

// --------------------------------------------------------------- atoms

//@ unit tAtom target=oC_Atom props=C17 args=ctx res=res waive=type_assertion

func tAtom_pre(ctx *parser.OC_AtomContext) bool { return ctx != nil }

func sTFilter(ctx *parser.OC_AtomContext, op string, res atom) bool {
	f, ok := res.(filterAtom)
	return ok && f.op == op && vSameAny(f.filter, oC_FilterExpression(ctx.OC_FilterExpression().(*parser.OC_FilterExpressionContext)))
}

func tAtom_post_kind(ctx *parser.OC_AtomContext, res atom) bool {
	if x := ctx.OC_Literal(); x != nil {
		return vSameAny(res, oC_Literal(x.(*parser.OC_LiteralContext)))
	}
	if x := ctx.OC_Parameter(); x != nil {
		return vSameAny(res, oC_Parameter(x.(*parser.OC_ParameterContext)))
	}
	if x := ctx.OC_CaseExpression(); x != nil {
		return vSameAny(res, oC_CaseExpression(x.(*parser.OC_CaseExpressionContext)))
	}
	if ctx.COUNT() != nil {
		_, ok := res.(countAtom)
		return ok
	}
	if x := ctx.OC_ListComprehension(); x != nil {
		return vSameAny(res, oC_ListComprehension(x.(*parser.OC_ListComprehensionContext)))
	}
	if x := ctx.OC_PatternComprehension(); x != nil {
		return vSameAny(res, oC_PatternComprehension(x.(*parser.OC_PatternComprehensionContext)))
	}
	if ctx.ALL() != nil {
		return sTFilter(ctx, "ALL", res)
	}
	if ctx.ANY() != nil {
		return sTFilter(ctx, "ANY", res)
	}
	if ctx.NONE() != nil {
		return sTFilter(ctx, "NONE", res)
	}
	if ctx.SINGLE() != nil {
		return sTFilter(ctx, "SINGLE", res)
	}
	if x := ctx.OC_RelationshipsPattern(); x != nil {
		return vSameAny(res, oC_RelationshipsPattern(x.(*parser.OC_RelationshipsPatternContext)))
	}
	if x := ctx.OC_ParenthesizedExpression(); x != nil {
		return vSameAny(res, oC_Expression(x.(*parser.OC_ParenthesizedExpressionContext).OC_Expression().(*parser.OC_ExpressionContext)))
	}
	if x := ctx.OC_FunctionInvocation(); x != nil {
		return vSameAny(res, oC_FunctionInvocation(x.(*parser.OC_FunctionInvocationContext)))
	}
	return vSameAny(res, oC_Variable(ctx.OC_Variable().(*parser.OC_VariableContext)))
}

// ------------------------------------------------------------ literals

//@ unit tLiteral target=oC_Literal props=C17,C16,C19 args=ctx res=res waive=type_assertion

// the lexer gives strings with both of their quotes
func tLiteral_pre(ctx *parser.OC_LiteralContext) bool {
	return ctx != nil && (ctx.StringLiteral() == nil || len(ctx.StringLiteral().GetText()) >= 2)
}

func tLiteral_post_kind(ctx *parser.OC_LiteralContext, res Evaluatable) bool {
	if ctx.NULL() != nil {
		_, ok := res.(nullLiteral)
		return ok
	}
	if x := ctx.OC_NumberLiteral(); x != nil {
		return vSameAny(res, oC_NumberLiteral(x.(*parser.OC_NumberLiteralContext)))
	}
	if s := ctx.StringLiteral(); s != nil {
		t := s.GetText()
		l, ok := res.(stringLiteral)
		return ok && string(l) == unescapeStringLiteral(t[1:len(t)-1])
	}
	if x := ctx.OC_BooleanLiteral(); x != nil {
		return vSameAny(res, oC_BooleanLiteral(x.(*parser.OC_BooleanLiteralContext)))
	}
	if x := ctx.OC_MapLiteral(); x != nil {
		return vSameAny(res, oC_MapLiteral(x.(*parser.OC_MapLiteralContext)))
	}
	return vSameAny(res, oC_ListLiteral(ctx.OC_ListLiteral().(*parser.OC_ListLiteralContext)))
}

//@ unit tNumber target=oC_NumberLiteral props=C17,C19 args=ctx res=res waive=type_assertion
//@ unit tBool target=oC_BooleanLiteral props=C17,C19 args=ctx res=res
//@ unit tInt target=oC_IntegerLiteral props=C17,C19 args=ctx res=res waive=panic_
//@ unit tDouble target=oC_DoubleLiteral props=C17,C19 args=ctx res=res waive=panic_

func tNumber_pre(ctx *parser.OC_NumberLiteralContext) bool { return ctx != nil }

func tNumber_post_kind(ctx *parser.OC_NumberLiteralContext, res Evaluatable) bool {
	if x := ctx.OC_DoubleLiteral(); x != nil {
		return vSameAny(res, oC_DoubleLiteral(x.(*parser.OC_DoubleLiteralContext)))
	}
	return vSameAny(res, oC_IntegerLiteral(ctx.OC_IntegerLiteral().(*parser.OC_IntegerLiteralContext)))
}

func tBool_pre(ctx *parser.OC_BooleanLiteralContext) bool { return ctx != nil }

func tBool_post_value(ctx *parser.OC_BooleanLiteralContext, res booleanLiteral) bool {
	return bool(res) == (ctx.TRUE() != nil)
}

// the lexer gives hexadecimal numbers with their prefix, and one of the kinds
func tInt_pre(ctx *parser.OC_IntegerLiteralContext) bool {
	return ctx != nil && (ctx.HexInteger() == nil || len(ctx.HexInteger().GetText()) >= 2) &&
		(ctx.HexInteger() != nil || ctx.OctalInteger() != nil || ctx.DecimalInteger() != nil)
}

func tInt_post_value(ctx *parser.OC_IntegerLiteralContext, res intLiteral) bool {
	if x := ctx.HexInteger(); x != nil {
		v, err := strconv.ParseInt(x.GetText()[2:], 16, 64)
		return err == nil && int64(res) == v
	}
	if x := ctx.OctalInteger(); x != nil {
		v, err := strconv.ParseInt(x.GetText(), 8, 64)
		return err == nil && int64(res) == v
	}
	v, err := strconv.Atoi(ctx.DecimalInteger().GetText())
	return err == nil && int(res) == v
}

func tDouble_pre(ctx *parser.OC_DoubleLiteralContext) bool { return ctx != nil }

func tDouble_post_value(ctx *parser.OC_DoubleLiteralContext, res doubleLiteral) bool {
	v, err := strconv.ParseFloat(ctx.GetText(), 64)
	return err == nil && vSameAny(float64(res), v)
}

//@ unit tList target=oC_ListLiteral props=C17,C19 args=ctx res=res waive=type_assertion

func sTElem(ctx *parser.OC_ListLiteralContext, i int) Expression {
	return oC_Expression(ctx.AllOC_Expression()[i].(*parser.OC_ExpressionContext))
}

func tList_pre(ctx *parser.OC_ListLiteralContext) bool { return ctx != nil }

func tList_post_elements(ctx *parser.OC_ListLiteralContext, gi int, res *listLiteral) bool {
	n := len(ctx.AllOC_Expression())
	return vFresh(res) && res.constValue == nil && len(res.values) == n && (gi < 0 || gi >= n || vSameAny(res.values[gi], sTElem(ctx, gi)))
}

func tList_inv_elements(ctx *parser.OC_ListLiteralContext, gi int, ret listLiteral, i int) bool {
	return ret.constValue == nil && len(ret.values) == i+1 && (gi < 0 || gi > i || vSameAny(ret.values[gi], sTElem(ctx, gi)))
}

//@ unit tMap target=oC_MapLiteral props=C17,C19 args=ctx res=res waive=type_assertion
//@ rec sTMapN sTMapAt sTMapKey

// sTMapN counts the values of the first n children
func sTMapN(ctx *parser.OC_MapLiteralContext, n int) int {
	if n <= 0 {
		return 0
	}
	r := sTMapN(ctx, n-1)
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_ExpressionContext); ok {
		return r + 1
	}
	return r
}

func sTMapAt(ctx *parser.OC_MapLiteralContext, n, k int) int {
	if n <= 0 {
		return -1
	}
	r := sTMapAt(ctx, n-1, k)
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_ExpressionContext); ok && sTMapN(ctx, n-1) == k {
		return n - 1
	}
	return r
}

// sTMapKey is the last key of the first n children
func sTMapKey(ctx *parser.OC_MapLiteralContext, n int) int {
	if n <= 0 {
		return -1
	}
	r := sTMapKey(ctx, n-1)
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_PropertyKeyNameContext); ok {
		return n - 1
	}
	return r
}

func sTMapName(ctx *parser.OC_MapLiteralContext, at int) schemaName {
	if at < 0 {
		return schemaName{}
	}
	return oC_SchemaName(ctx.GetChild(at).(*parser.OC_PropertyKeyNameContext).OC_SchemaName().(*parser.OC_SchemaNameContext))
}

func sTMapIs(ctx *parser.OC_MapLiteralContext, n, gi int, m listOfKeyValues) bool {
	if len(m) != sTMapN(ctx, n) {
		return false
	}
	if gi < 0 || gi >= len(m) {
		return true
	}
	at := sTMapAt(ctx, n, gi)
	return at >= 0 && m[gi].key == sTMapName(ctx, sTMapKey(ctx, at)).String() && vSameAny(m[gi].value, oC_Expression(ctx.GetChild(at).(*parser.OC_ExpressionContext)))
}

type listOfKeyValues = []mapKeyValue

func tMap_pre(ctx *parser.OC_MapLiteralContext) bool {
	return ctx != nil && ctx.GetChildCount() >= 0
}

// every value under the key before it
func tMap_post_entries(ctx *parser.OC_MapLiteralContext, gi int, res *mapLiteral) bool {
	return vFresh(res) && res.constValue == nil && sTMapIs(ctx, ctx.GetChildCount(), gi, res.keyValues)
}

func tMap_inv_entries(ctx *parser.OC_MapLiteralContext, gi int, ret mapLiteral, i int) bool {
	return i <= ctx.GetChildCount() && ret.constValue == nil && sTMapIs(ctx, i, gi, ret.keyValues)
}

func tMap_inv_key(ctx *parser.OC_MapLiteralContext, keyName schemaName, i int) bool {
	return vSameAny(keyName, sTMapName(ctx, sTMapKey(ctx, i)))
}

func tMap_var_children(ctx *parser.OC_MapLiteralContext, i int) int { return ctx.GetChildCount() - i }

// ---------------------------------------------------------------- CASE

//@ unit tCase target=oC_CaseExpression props=C17,C07 args=ctx res=res waive=type_assertion
//@ unit tAlt target=oC_CaseAlternatives props=C17,C07 args=ctx res=res waive=type_assertion
//@ rec sTElse sTTestAt sTDefAt

func sTAlt(ctx *parser.OC_CaseExpressionContext, i int) caseAlternative {
	return oC_CaseAlternatives(ctx.AllOC_CaseAlternatives()[i].(*parser.OC_CaseAlternativesContext))
}

func sTElse(ctx *parser.OC_CaseExpressionContext, n int) bool {
	if n <= 0 {
		return false
	}
	r := sTElse(ctx, n-1)
	term, ok := ctx.GetChild(n - 1).(antlr.TerminalNode)
	return r || ok && strings.ToUpper(term.GetText()) == "ELSE"
}

func sTCaseExpr(t antlr.Tree) bool {
	if _, ok := t.(antlr.TerminalNode); ok {
		return false
	}
	_, ok := t.(*parser.OC_ExpressionContext)
	return ok
}

// sTTestAt is the last expression before ELSE
func sTTestAt(ctx *parser.OC_CaseExpressionContext, n int) int {
	if n <= 0 {
		return -1
	}
	r := sTTestAt(ctx, n-1)
	if sTCaseExpr(ctx.GetChild(n-1)) && !sTElse(ctx, n-1) {
		return n - 1
	}
	return r
}

// sTDefAt is the last expression behind ELSE
func sTDefAt(ctx *parser.OC_CaseExpressionContext, n int) int {
	if n <= 0 {
		return -1
	}
	r := sTDefAt(ctx, n-1)
	if sTCaseExpr(ctx.GetChild(n-1)) && sTElse(ctx, n-1) {
		return n - 1
	}
	return r
}

func sTCaseAt(ctx *parser.OC_CaseExpressionContext, at int, e Expression) bool {
	if at < 0 {
		return e == nil
	}
	return vSameAny(e, oC_Expression(ctx.GetChild(at).(*parser.OC_ExpressionContext)))
}

func tCase_pre(ctx *parser.OC_CaseExpressionContext) bool {
	return ctx != nil && ctx.GetChildCount() >= 0
}

func tCase_post_alternatives(ctx *parser.OC_CaseExpressionContext, gi int, res caseClause) bool {
	n := len(ctx.AllOC_CaseAlternatives())
	return len(res.alternatives) == n && (gi < 0 || gi >= n || vSameAny(res.alternatives[gi], sTAlt(ctx, gi)))
}

func tCase_inv_alternatives(ctx *parser.OC_CaseExpressionContext, gi int, ret caseClause, i int) bool {
	return ret.test == nil && ret.def == nil && len(ret.alternatives) == i+1 && (gi < 0 || gi > i || vSameAny(ret.alternatives[gi], sTAlt(ctx, gi)))
}

func tCase_inv_done(ctx *parser.OC_CaseExpressionContext, gi int, ret caseClause) bool {
	return tCase_post_alternatives(ctx, gi, ret)
}

func tCase_post_tests(ctx *parser.OC_CaseExpressionContext, res caseClause) bool {
	n := ctx.GetChildCount()
	return sTCaseAt(ctx, sTTestAt(ctx, n), res.test) && sTCaseAt(ctx, sTDefAt(ctx, n), res.def)
}

func tCase_inv_tests(ctx *parser.OC_CaseExpressionContext, ret caseClause, i int) bool {
	return i <= ctx.GetChildCount() && sTCaseAt(ctx, sTTestAt(ctx, i), ret.test) && sTCaseAt(ctx, sTDefAt(ctx, i), ret.def)
}

func tCase_inv_else(ctx *parser.OC_CaseExpressionContext, elseSeen bool, i int) bool {
	return elseSeen == sTElse(ctx, i)
}

func tCase_var_children(ctx *parser.OC_CaseExpressionContext, i int) int { return ctx.GetChildCount() - i }

func tAlt_pre(ctx *parser.OC_CaseAlternativesContext) bool {
	return ctx != nil && len(ctx.AllOC_Expression()) >= 2
}

func tAlt_post_value(ctx *parser.OC_CaseAlternativesContext, res caseAlternative) bool {
	return vSameAny(res.when, oC_Expression(ctx.AllOC_Expression()[0].(*parser.OC_ExpressionContext))) &&
		vSameAny(res.then, oC_Expression(ctx.AllOC_Expression()[1].(*parser.OC_ExpressionContext)))
}

// --------------------------------------------------------------- calls

//@ unit tCall target=oC_FunctionInvocation props=C18,C17 args=ctx res=res waive=type_assertion
//@ unit tFname target=oC_FunctionName props=C18 args=ctx res=res waive=type_assertion

func sTArg(ctx *parser.OC_FunctionInvocationContext, i int) Expression {
	return oC_Expression(ctx.AllOC_Expression()[i].(*parser.OC_ExpressionContext))
}

func tCall_pre(ctx *parser.OC_FunctionInvocationContext) bool { return ctx != nil }

func tCall_post_args(ctx *parser.OC_FunctionInvocationContext, gi int, res *functionInvocation) bool {
	n := len(ctx.AllOC_Expression())
	return vFresh(res) && res.function == nil && res.distinct == (ctx.DISTINCT() != nil) && len(res.args) == n && (gi < 0 || gi >= n || vSameAny(res.args[gi], sTArg(ctx, gi)))
}

func tCall_inv_args(ctx *parser.OC_FunctionInvocationContext, gi int, ret functionInvocation, i int) bool {
	return len(ret.args) == i+1 && (gi < 0 || gi > i || vSameAny(ret.args[gi], sTArg(ctx, gi)))
}

func tCall_inv_rest(ctx *parser.OC_FunctionInvocationContext, gi int, ret functionInvocation) bool {
	n := oC_FunctionName(ctx.OC_FunctionName().(*parser.OC_FunctionNameContext))
	return ret.function == nil && ret.distinct == (ctx.DISTINCT() != nil) && len(ret.name) == len(n) && (gi < 0 || gi >= len(n) || ret.name[gi] == n[gi])
}

func tCall_post_name(ctx *parser.OC_FunctionInvocationContext, gi int, res *functionInvocation) bool {
	n := oC_FunctionName(ctx.OC_FunctionName().(*parser.OC_FunctionNameContext))
	return len(res.name) == len(n) && (gi < 0 || gi >= len(n) || res.name[gi] == n[gi])
}

func sTNs(ctx *parser.OC_FunctionNameContext) *parser.OC_NamespaceContext {
	return ctx.OC_Namespace().(*parser.OC_NamespaceContext)
}

func tFname_pre(ctx *parser.OC_FunctionNameContext) bool { return ctx != nil }

// the names of the namespace and then the name, or EXISTS
func tFname_post_names(ctx *parser.OC_FunctionNameContext, gi int, res []symbolicName) bool {
	if ctx.EXISTS() != nil {
		return len(res) == 1 && res[0] == "EXISTS"
	}
	names := sTNs(ctx).AllOC_SymbolicName()
	n := len(names)
	if len(res) != n+1 {
		return false
	}
	if gi < 0 || gi >= n {
		return res[n] == oC_SymbolicName(ctx.OC_SymbolicName().(*parser.OC_SymbolicNameContext))
	}
	return res[gi] == oC_SymbolicName(names[gi].(*parser.OC_SymbolicNameContext))
}

func tFname_inv_names(ctx *parser.OC_FunctionNameContext, gi int, ret []symbolicName, i int) bool {
	return len(ret) == i+1 && (gi < 0 || gi > i || ret[gi] == oC_SymbolicName(sTNs(ctx).AllOC_SymbolicName()[gi].(*parser.OC_SymbolicNameContext)))
}
