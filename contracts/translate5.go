package opencypher

import (
	"github.com/antlr/antlr4/runtime/Go/antlr"

	"github.com/cloudprivacylabs/opencypher/parser"
)

// Contracts of the translation of queries and clauses.

//@ opaque oC_RegularQuery oC_StandaloneCall oC_SingleQuery oC_Union oC_SinglePartQuery oC_MultiPartQuery oC_ReadingClause oC_UpdatingClause oC_Return oC_Match oC_Unwind oC_InQueryCall
//@ opaque oC_Create oC_Merge oC_Delete oC_Set oC_Remove oC_ProjectionBody oC_ProjectionItems oC_ProjectionItem oC_Order oC_SetItem oC_RemoveItem oC_PropertyExpression oC_Where

//@ unit tCypher target=oC_Cypher props=C27,C17 args=ctx res=res inline=oC_Statement;oC_Query waive=type_assertion

func sTQuery(ctx *parser.OC_CypherContext) *parser.OC_QueryContext {
	return ctx.OC_Statement().(*parser.OC_StatementContext).OC_Query().(*parser.OC_QueryContext)
}

func tCypher_pre(ctx *parser.OC_CypherContext) bool { return ctx != nil }

func tCypher_post_query(ctx *parser.OC_CypherContext, res Evaluatable) bool {
	if x := sTQuery(ctx).OC_RegularQuery(); x != nil {
		return vSameAny(res, oC_RegularQuery(x.(*parser.OC_RegularQueryContext)))
	}
	return vSameAny(res, oC_StandaloneCall(sTQuery(ctx).OC_StandaloneCall().(*parser.OC_StandaloneCallContext)))
}

//@ unit tRegular target=oC_RegularQuery props=C11,C27 args=ctx res=res waive=type_assertion
//@ unit tUnion target=oC_Union props=C11 args=ctx res=res waive=type_assertion
//@ unit tSingle target=oC_SingleQuery props=C27 args=ctx res=res waive=type_assertion
//@ unit tSinglePart target=oC_SinglePartQuery props=C27,C12 args=ctx res=res waive=type_assertion

func sTUnion(ctx *parser.OC_RegularQueryContext, i int) union {
	return oC_Union(ctx.AllOC_Union()[i].(*parser.OC_UnionContext))
}

func sTFirst(ctx *parser.OC_RegularQueryContext) Evaluatable {
	return oC_SingleQuery(ctx.OC_SingleQuery().(*parser.OC_SingleQueryContext))
}

func tRegular_pre(ctx *parser.OC_RegularQueryContext) bool { return ctx != nil }

func tRegular_post_queries(ctx *parser.OC_RegularQueryContext, gi int, res regularQuery) bool {
	n := len(ctx.AllOC_Union())
	return vSameAny(res.singleQuery, sTFirst(ctx)) && len(res.unions) == n && (gi < 0 || gi >= n || vSameAny(res.unions[gi], sTUnion(ctx, gi)))
}

func tRegular_inv_queries(ctx *parser.OC_RegularQueryContext, gi int, ret regularQuery, i int) bool {
	return vSameAny(ret.singleQuery, sTFirst(ctx)) && len(ret.unions) == i+1 && (gi < 0 || gi > i || vSameAny(ret.unions[gi], sTUnion(ctx, gi)))
}

func tUnion_pre(ctx *parser.OC_UnionContext) bool { return ctx != nil }

func tUnion_post_value(ctx *parser.OC_UnionContext, res union) bool {
	return res.all == (ctx.ALL() != nil) && vSameAny(res.singleQuery, oC_SingleQuery(ctx.OC_SingleQuery().(*parser.OC_SingleQueryContext)))
}

func tSingle_pre(ctx *parser.OC_SingleQueryContext) bool { return ctx != nil }

func tSingle_post_value(ctx *parser.OC_SingleQueryContext, res Evaluatable) bool {
	if x := ctx.OC_SinglePartQuery(); x != nil {
		return vSameAny(res, oC_SinglePartQuery(x.(*parser.OC_SinglePartQueryContext)))
	}
	return vSameAny(res, oC_MultiPartQuery(ctx.OC_MultiPartQuery().(*parser.OC_MultiPartQueryContext)))
}

func sTRead(ctx *parser.OC_SinglePartQueryContext, i int) ReadingClause {
	return oC_ReadingClause(ctx.AllOC_ReadingClause()[i].(*parser.OC_ReadingClauseContext))
}

func sTUpdate(ctx *parser.OC_SinglePartQueryContext, i int) UpdatingClause {
	return oC_UpdatingClause(ctx.AllOC_UpdatingClause()[i].(*parser.OC_UpdatingClauseContext))
}

func tSinglePart_pre(ctx *parser.OC_SinglePartQueryContext) bool { return ctx != nil }

// the clauses in their order
func tSinglePart_post_reads(ctx *parser.OC_SinglePartQueryContext, gi int, res singlePartQuery) bool {
	n := len(ctx.AllOC_ReadingClause())
	return len(res.read) == n && (gi < 0 || gi >= n || vSameAny(res.read[gi], sTRead(ctx, gi)))
}

func tSinglePart_post_updates(ctx *parser.OC_SinglePartQueryContext, gi int, res singlePartQuery) bool {
	n := len(ctx.AllOC_UpdatingClause())
	return len(res.update) == n && (gi < 0 || gi >= n || vSameAny(res.update[gi], sTUpdate(ctx, gi)))
}

func tSinglePart_post_return(ctx *parser.OC_SinglePartQueryContext, res singlePartQuery) bool {
	x := ctx.OC_Return()
	if x == nil {
		return res.ret == nil
	}
	return res.ret != nil && vSameAny(*res.ret, oC_Return(x.(*parser.OC_ReturnContext)))
}

func tSinglePart_inv_reads(ctx *parser.OC_SinglePartQueryContext, gi int, ret singlePartQuery, i int) bool {
	return ret.ret == nil && len(ret.update) == 0 && len(ret.read) == i+1 && (gi < 0 || gi > i || vSameAny(ret.read[gi], sTRead(ctx, gi)))
}

func tSinglePart_inv_updates(ctx *parser.OC_SinglePartQueryContext, gi int, ret singlePartQuery, i int) bool {
	return ret.ret == nil && len(ret.update) == i+1 && (gi < 0 || gi > i || vSameAny(ret.update[gi], sTUpdate(ctx, gi)))
}

func tSinglePart_inv_done(ctx *parser.OC_SinglePartQueryContext, gi int, ret singlePartQuery) bool {
	return tSinglePart_post_reads(ctx, gi, ret)
}

// ------------------------------------------------------------- clauses

//@ unit tReading target=oC_ReadingClause props=C27 args=ctx res=res waive=type_assertion
//@ unit tUpdating target=oC_UpdatingClause props=C27 args=ctx res=res waive=type_assertion
//@ unit tMatch target=oC_Match props=C24 args=ctx res=res waive=type_assertion
//@ unit tWhere target=oC_Where props=C24 args=ctx res=res waive=type_assertion

func tReading_pre(ctx *parser.OC_ReadingClauseContext) bool { return ctx != nil }

func tReading_post_kind(ctx *parser.OC_ReadingClauseContext, res ReadingClause) bool {
	if x := ctx.OC_Match(); x != nil {
		return vSameAny(res, oC_Match(x.(*parser.OC_MatchContext)))
	}
	if x := ctx.OC_Unwind(); x != nil {
		return vSameAny(res, oC_Unwind(x.(*parser.OC_UnwindContext)))
	}
	return vSameAny(res, oC_InQueryCall(ctx.OC_InQueryCall().(*parser.OC_InQueryCallContext)))
}

func tUpdating_pre(ctx *parser.OC_UpdatingClauseContext) bool { return ctx != nil }

func tUpdating_post_kind(ctx *parser.OC_UpdatingClauseContext, res UpdatingClause) bool {
	if x := ctx.OC_Create(); x != nil {
		return vSameAny(res, oC_Create(x.(*parser.OC_CreateContext)))
	}
	if x := ctx.OC_Merge(); x != nil {
		return vSameAny(res, oC_Merge(x.(*parser.OC_MergeContext)))
	}
	if x := ctx.OC_Delete(); x != nil {
		return vSameAny(res, oC_Delete(x.(*parser.OC_DeleteContext)))
	}
	if x := ctx.OC_Set(); x != nil {
		return vSameAny(res, oC_Set(x.(*parser.OC_SetContext)))
	}
	return vSameAny(res, oC_Remove(ctx.OC_Remove().(*parser.OC_RemoveContext)))
}

func tMatch_pre(ctx *parser.OC_MatchContext) bool { return ctx != nil }

func tMatch_post_value(ctx *parser.OC_MatchContext, res Match) bool {
	if res.Optional != (ctx.OPTIONAL() != nil) || !vSameAny(res.Pattern, oC_Pattern(ctx.OC_Pattern().(*parser.OC_PatternContext))) {
		return false
	}
	w := ctx.OC_Where()
	if w == nil {
		return res.Where == nil
	}
	return vSameAny(res.Where, oC_Where(w.(*parser.OC_WhereContext)))
}

func tWhere_pre(ctx *parser.OC_WhereContext) bool { return ctx != nil }

func tWhere_post_value(ctx *parser.OC_WhereContext, res Expression) bool {
	return vSameAny(res, oC_Expression(ctx.OC_Expression().(*parser.OC_ExpressionContext)))
}

// -------------------------------------------------------------- RETURN

//@ unit tReturn target=oC_Return props=C12 args=ctx res=res waive=type_assertion
//@ unit tBody target=oC_ProjectionBody props=C12 args=ctx res=res inline=oC_Skip;oC_Limit waive=type_assertion
//@ unit tItems target=oC_ProjectionItems props=C12 args=ctx res=res waive=type_assertion
//@ unit tItem target=oC_ProjectionItem props=C12 args=ctx res=res waive=type_assertion

func tReturn_pre(ctx *parser.OC_ReturnContext) bool { return ctx != nil }

func tReturn_post_body(ctx *parser.OC_ReturnContext, res returnClause) bool {
	return vSameAny(res.projection, oC_ProjectionBody(ctx.OC_ProjectionBody().(*parser.OC_ProjectionBodyContext)))
}

func tBody_pre(ctx *parser.OC_ProjectionBodyContext) bool { return ctx != nil }

func tBody_post_items(ctx *parser.OC_ProjectionBodyContext, res projectionBody) bool {
	return res.distinct == (ctx.DISTINCT() != nil) && vSameAny(res.items, oC_ProjectionItems(ctx.OC_ProjectionItems().(*parser.OC_ProjectionItemsContext)))
}

func tBody_post_window(ctx *parser.OC_ProjectionBodyContext, res projectionBody) bool {
	s, l := ctx.OC_Skip(), ctx.OC_Limit()
	if (s == nil) && res.skip != nil || l == nil && res.limit != nil {
		return false
	}
	return (s == nil || vSameAny(res.skip, oC_Expression(s.(*parser.OC_SkipContext).OC_Expression().(*parser.OC_ExpressionContext)))) &&
		(l == nil || vSameAny(res.limit, oC_Expression(l.(*parser.OC_LimitContext).OC_Expression().(*parser.OC_ExpressionContext))))
}

func sTItem(ctx *parser.OC_ProjectionItemsContext, i int) projectionItem {
	return oC_ProjectionItem(ctx.AllOC_ProjectionItem()[i].(*parser.OC_ProjectionItemContext))
}

func sTStar(ctx *parser.OC_ProjectionItemsContext) bool {
	t, ok := ctx.GetChild(0).(antlr.TerminalNode)
	return ok && t.GetText() == "*"
}

func tItems_pre(ctx *parser.OC_ProjectionItemsContext) bool { return ctx != nil }

func tItems_post_items(ctx *parser.OC_ProjectionItemsContext, gi int, res projectionItems) bool {
	n := len(ctx.AllOC_ProjectionItem())
	return res.all == sTStar(ctx) && len(res.items) == n && (gi < 0 || gi >= n || vSameAny(res.items[gi], sTItem(ctx, gi)))
}

func tItems_inv_items(ctx *parser.OC_ProjectionItemsContext, gi int, ret projectionItems, i int) bool {
	return ret.all == sTStar(ctx) && len(ret.items) == i+1 && (gi < 0 || gi > i || vSameAny(ret.items[gi], sTItem(ctx, gi)))
}

func tItem_pre(ctx *parser.OC_ProjectionItemContext) bool { return ctx != nil }

func tItem_post_item(ctx *parser.OC_ProjectionItemContext, res projectionItem) bool {
	v := ctx.OC_Variable()
	if (v == nil) != (res.variable == nil) {
		return false
	}
	return vSameAny(res.expr, oC_Expression(ctx.OC_Expression().(*parser.OC_ExpressionContext))) && (v == nil || *res.variable == oC_Variable(v.(*parser.OC_VariableContext)))
}

// ----------------------------------------------------- SET and REMOVE

//@ unit tSet target=oC_Set props=C20 args=ctx res=res waive=type_assertion
//@ unit tSetItem target=oC_SetItem props=C20 args=ctx res=res waive=type_assertion
//@ unit tPropExpr target=oC_PropertyExpression props=C20,C21 args=ctx res=res waive=type_assertion
//@ unit tRemove target=oC_Remove props=C21 args=ctx res=res waive=type_assertion
//@ unit tRemoveItem target=oC_RemoveItem props=C21 args=ctx res=res waive=type_assertion
//@ unit tDelete target=oC_Delete props=C22 args=ctx res=res waive=type_assertion
//@ unit tCreate target=oC_Create props=C23 args=ctx res=res waive=type_assertion
//@ unit tMerge target=oC_Merge props=C25 args=ctx res=res waive=type_assertion
//@ rec sTSetOp

func sTSetItem(ctx *parser.OC_SetContext, i int) setItem {
	return oC_SetItem(ctx.AllOC_SetItem()[i].(*parser.OC_SetItemContext))
}

func tSet_pre(ctx *parser.OC_SetContext) bool { return ctx != nil }

func tSet_post_items(ctx *parser.OC_SetContext, gi int, res UpdatingClause) bool {
	n := len(ctx.AllOC_SetItem())
	r, ok := res.(*set)
	return ok && vFresh(r) && len(r.items) == n && (gi < 0 || gi >= n || vSameAny(r.items[gi], sTSetItem(ctx, gi)))
}

func tSet_inv_items(ctx *parser.OC_SetContext, gi int, ret set, i int) bool {
	return len(ret.items) == i+1 && (gi < 0 || gi > i || vSameAny(ret.items[gi], sTSetItem(ctx, gi)))
}

func sTIsSetOp(t antlr.Tree) bool {
	x, ok := t.(antlr.TerminalNode)
	return ok && (x.GetText() == "=" || x.GetText() == "+=")
}

// sTSetOp is the first operator of the children from n on
func sTSetOp(ctx *parser.OC_SetItemContext, n int) string {
	if n >= ctx.GetChildCount() {
		return ""
	}
	if sTIsSetOp(ctx.GetChild(n)) {
		return ctx.GetChild(n).(antlr.TerminalNode).GetText()
	}
	return sTSetOp(ctx, n+1)
}

func tSetItem_pre(ctx *parser.OC_SetItemContext) bool {
	return ctx != nil && ctx.GetChildCount() >= 0
}

func sTSetVar(ctx *parser.OC_SetItemContext, res setItem) bool {
	return res.property == nil && res.variable != nil && *res.variable == oC_Variable(ctx.OC_Variable().(*parser.OC_VariableContext))
}

// p.k = e, v = e, v += e, or v:labels
func tSetItem_post_item(ctx *parser.OC_SetItemContext, res setItem) bool {
	p, x := ctx.OC_PropertyExpression(), ctx.OC_Expression()
	if p != nil {
		return res.variable == nil && len(res.nodeLabels) == 0 && res.property != nil && vSameAny(*res.property, oC_PropertyExpression(p.(*parser.OC_PropertyExpressionContext))) &&
			vSameAny(res.expression, oC_Expression(x.(*parser.OC_ExpressionContext)))
	}
	if !sTSetVar(ctx, res) {
		return false
	}
	if x != nil {
		return len(res.nodeLabels) == 0 && vSameAny(res.expression, oC_Expression(x.(*parser.OC_ExpressionContext))) && res.op == sTSetOp(ctx, 0)
	}
	return res.expression == nil && vSameAny(res.nodeLabels, oC_NodeLabels(ctx.OC_NodeLabels().(*parser.OC_NodeLabelsContext)))
}

func tSetItem_inv_op(ctx *parser.OC_SetItemContext, ret setItem, i int) bool {
	return ret.op == "" && sTSetOp(ctx, 0) == sTSetOp(ctx, i)
}

func tSetItem_inv_item(ctx *parser.OC_SetItemContext, ret setItem) bool {
	return sTSetVar(ctx, ret) && len(ret.nodeLabels) == 0 && vSameAny(ret.expression, oC_Expression(ctx.OC_Expression().(*parser.OC_ExpressionContext)))
}

func tSetItem_var_children(ctx *parser.OC_SetItemContext, i int) int { return ctx.GetChildCount() - i }

func sTSetLookup(ctx *parser.OC_PropertyExpressionContext, i int) schemaName {
	return oC_PropertyLookup(ctx.AllOC_PropertyLookup()[i].(*parser.OC_PropertyLookupContext))
}

func tPropExpr_pre(ctx *parser.OC_PropertyExpressionContext) bool { return ctx != nil }

func tPropExpr_post_value(ctx *parser.OC_PropertyExpressionContext, gi int, res propertyExpression) bool {
	n := len(ctx.AllOC_PropertyLookup())
	return vSameAny(res.atom, oC_Atom(ctx.OC_Atom().(*parser.OC_AtomContext))) && len(res.lookup) == n && (gi < 0 || gi >= n || vSameAny(res.lookup[gi], sTSetLookup(ctx, gi)))
}

func tPropExpr_inv_value(ctx *parser.OC_PropertyExpressionContext, gi int, ret propertyExpression, i int) bool {
	return vSameAny(ret.atom, oC_Atom(ctx.OC_Atom().(*parser.OC_AtomContext))) && len(ret.lookup) == i+1 && (gi < 0 || gi > i || vSameAny(ret.lookup[gi], sTSetLookup(ctx, gi)))
}

func sTRemoveItem(ctx *parser.OC_RemoveContext, i int) removeItem {
	return oC_RemoveItem(ctx.AllOC_RemoveItem()[i].(*parser.OC_RemoveItemContext))
}

func tRemove_pre(ctx *parser.OC_RemoveContext) bool { return ctx != nil }

func tRemove_post_items(ctx *parser.OC_RemoveContext, gi int, res UpdatingClause) bool {
	n := len(ctx.AllOC_RemoveItem())
	r, ok := res.(remove)
	return ok && len(r.items) == n && (gi < 0 || gi >= n || vSameAny(r.items[gi], sTRemoveItem(ctx, gi)))
}

func tRemove_inv_items(ctx *parser.OC_RemoveContext, gi int, ret remove, i int) bool {
	return len(ret.items) == i+1 && (gi < 0 || gi > i || vSameAny(ret.items[gi], sTRemoveItem(ctx, gi)))
}

func tRemoveItem_pre(ctx *parser.OC_RemoveItemContext) bool { return ctx != nil }

func tRemoveItem_post_item(ctx *parser.OC_RemoveItemContext, res removeItem) bool {
	v, l, p := ctx.OC_Variable(), ctx.OC_NodeLabels(), ctx.OC_PropertyExpression()
	if (v == nil) != (res.variable == nil) || (p == nil) != (res.property == nil) {
		return false
	}
	return (v == nil || *res.variable == oC_Variable(v.(*parser.OC_VariableContext))) &&
		(l == nil && len(res.nodeLabels) == 0 || l != nil && vSameAny(res.nodeLabels, oC_NodeLabels(l.(*parser.OC_NodeLabelsContext)))) &&
		(p == nil || vSameAny(*res.property, oC_PropertyExpression(p.(*parser.OC_PropertyExpressionContext))))
}

func sTDeleted(ctx *parser.OC_DeleteContext, i int) Expression {
	return oC_Expression(ctx.AllOC_Expression()[i].(*parser.OC_ExpressionContext))
}

func tDelete_pre(ctx *parser.OC_DeleteContext) bool { return ctx != nil }

func tDelete_post_exprs(ctx *parser.OC_DeleteContext, gi int, res UpdatingClause) bool {
	n := len(ctx.AllOC_Expression())
	r, ok := res.(deleteClause)
	return ok && r.detach == (ctx.DETACH() != nil) && len(r.exprs) == n && (gi < 0 || gi >= n || vSameAny(r.exprs[gi], sTDeleted(ctx, gi)))
}

func tDelete_inv_exprs(ctx *parser.OC_DeleteContext, gi int, ret deleteClause, i int) bool {
	return ret.detach == (ctx.DETACH() != nil) && len(ret.exprs) == i+1 && (gi < 0 || gi > i || vSameAny(ret.exprs[gi], sTDeleted(ctx, gi)))
}

func tCreate_pre(ctx *parser.OC_CreateContext) bool { return ctx != nil }

func tCreate_post_pattern(ctx *parser.OC_CreateContext, res UpdatingClause) bool {
	r, ok := res.(create)
	return ok && vSameAny(r.pattern, oC_Pattern(ctx.OC_Pattern().(*parser.OC_PatternContext)))
}

func sTAction(ctx *parser.OC_MergeContext, i int) *parser.OC_MergeActionContext {
	return ctx.AllOC_MergeAction()[i].(*parser.OC_MergeActionContext)
}

func sTActionIs(ctx *parser.OC_MergeContext, i int, a mergeAction) bool {
	x := sTAction(ctx, i)
	return (a.on == mergeActionOnMatch) == (x.MATCH() != nil) && (a.on == mergeActionOnMatch || a.on == mergeActionOnCreate) && vSameAny(a.set, oC_Set(x.OC_Set().(*parser.OC_SetContext)))
}

func tMerge_pre(ctx *parser.OC_MergeContext) bool { return ctx != nil }

// ON MATCH and ON CREATE with what they set
func tMerge_post_actions(ctx *parser.OC_MergeContext, gi int, res UpdatingClause) bool {
	n := len(ctx.AllOC_MergeAction())
	r, ok := res.(merge)
	return ok && vSameAny(r.pattern, oC_PatternPart(ctx.OC_PatternPart().(*parser.OC_PatternPartContext))) && len(r.actions) == n && (gi < 0 || gi >= n || sTActionIs(ctx, gi, r.actions[gi]))
}

func tMerge_inv_actions(ctx *parser.OC_MergeContext, gi int, ret merge, i int) bool {
	return vSameAny(ret.pattern, oC_PatternPart(ctx.OC_PatternPart().(*parser.OC_PatternPartContext))) && len(ret.actions) == i+1 && (gi < 0 || gi > i || sTActionIs(ctx, gi, ret.actions[gi]))
}

//@ unit parseEval target=ParseAndEvaluate props=C17 args=input,ctx res=res,err reads=Parse

// what parses gives something to evaluate
func parseEval_pre_value(input string) bool {
	e, err := Parse(input)
	return err != nil || e != nil
}

// what does not parse is an error, and what does is evaluated in the context
func parseEval_post_value(input string, ctx *EvalContext, res Value, err error) bool {
	return vOld(func() bool {
		e, perr := Parse(input)
		if perr != nil {
			return err != nil
		}
		v, verr := e.Evaluate(ctx)
		return vSameErr(err, verr) && (verr != nil || vSameAny(res, v))
	})
}
