package opencypher

import (
	"strconv"
	"strings"

	"github.com/antlr/antlr4/runtime/Go/antlr"

	"github.com/cloudprivacylabs/opencypher/parser"
)

// Contracts of the translation of operands: strings, lists, null checks,
// properties, atoms, literals, CASE and calls.

//@ opaque oC_Atom oC_PropertyLookup oC_NodeLabels oC_Expression oC_SchemaName oC_SymbolicName oC_ReservedWord oC_Variable

// sSameList: the same list, or both empty
func sSameNames(a, b []schemaName) bool { return vSameAny(NodeLabels(a), NodeLabels(b)) }

//@ unit tSln target=oC_StringListNullOperatorExpression props=C17 args=ctx res=res waive=type_assertion
//@ rec sTSlnN sTSlnAt sTSlnBase

func sTIsPart(t antlr.Tree) bool {
	switch t.(type) {
	case *parser.OC_StringOperatorExpressionContext, *parser.OC_ListOperatorExpressionContext, *parser.OC_NullOperatorExpressionContext:
		return true
	}
	return false
}

func sTPart(t antlr.Tree) stringListNullOperatorExpressionPart {
	switch p := t.(type) {
	case *parser.OC_StringOperatorExpressionContext:
		return oC_StringOperatorExpression(p)
	case *parser.OC_ListOperatorExpressionContext:
		return oC_ListOperatorExpression(p)
	case *parser.OC_NullOperatorExpressionContext:
		return oC_NullOperatorExpression(p)
	}
	return stringListNullOperatorExpressionPart{}
}

// sTSlnN counts the operators of the first n children
func sTSlnN(ctx *parser.OC_StringListNullOperatorExpressionContext, n int) int {
	if n <= 0 {
		return 0
	}
	r := sTSlnN(ctx, n-1)
	if sTIsPart(ctx.GetChild(n - 1)) {
		return r + 1
	}
	return r
}

func sTSlnAt(ctx *parser.OC_StringListNullOperatorExpressionContext, n, k int) int {
	if n <= 0 {
		return -1
	}
	r := sTSlnAt(ctx, n-1, k)
	if sTIsPart(ctx.GetChild(n-1)) && sTSlnN(ctx, n-1) == k {
		return n - 1
	}
	return r
}

// sTSlnBase: where the operand is
func sTSlnBase(ctx *parser.OC_StringListNullOperatorExpressionContext, n int) int {
	if n <= 0 {
		return -1
	}
	r := sTSlnBase(ctx, n-1)
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_PropertyOrLabelsExpressionContext); ok {
		return n - 1
	}
	return r
}

func sTSlnIs(ctx *parser.OC_StringListNullOperatorExpressionContext, n, gi int, e stringListNullOperatorExpression) bool {
	b := sTSlnBase(ctx, n)
	if b >= 0 && !vSameAny(e.propertyOrLabels, oC_PropertyOrLabelsExpression(ctx.GetChild(b).(*parser.OC_PropertyOrLabelsExpressionContext))) {
		return false
	}
	if len(e.parts) != sTSlnN(ctx, n) {
		return false
	}
	at := sTSlnAt(ctx, n, gi)
	return gi < 0 || gi >= len(e.parts) || at >= 0 && vSameAny(e.parts[gi], sTPart(ctx.GetChild(at)))
}

func tSln_pre(ctx *parser.OC_StringListNullOperatorExpressionContext) bool {
	return ctx != nil && ctx.GetChildCount() >= 0 && sTSlnBase(ctx, ctx.GetChildCount()) >= 0
}

// the operand with its operators in their order
func tSln_post_parts(ctx *parser.OC_StringListNullOperatorExpressionContext, gi int, res stringListNullOperatorExpression) bool {
	return sTSlnIs(ctx, ctx.GetChildCount(), gi, res)
}

func tSln_inv_parts(ctx *parser.OC_StringListNullOperatorExpressionContext, gi int, ret stringListNullOperatorExpression, i int) bool {
	return i <= ctx.GetChildCount() && sTSlnIs(ctx, i, gi, ret)
}

func tSln_var_children(ctx *parser.OC_StringListNullOperatorExpressionContext, i int) int { return ctx.GetChildCount() - i }

//@ unit tListOp target=oC_ListOperatorExpression props=C17,C06 args=ctx res=res waive=type_assertion
//@ rec sTDots sTIndexAt sTUptoAt

func sTIsDots(t antlr.Tree) bool {
	if _, ok := t.(*parser.OC_ExpressionContext); ok {
		return false
	}
	term, ok := t.(antlr.TerminalNode)
	return ok && term.GetText() == ".."
}

func sTDots(ctx *parser.OC_ListOperatorExpressionContext, n int) bool {
	if n <= 0 {
		return false
	}
	r := sTDots(ctx, n-1)
	return r || sTIsDots(ctx.GetChild(n-1))
}

// sTIndexAt is the last expression before the dots
func sTIndexAt(ctx *parser.OC_ListOperatorExpressionContext, n int) int {
	if n <= 0 {
		return -1
	}
	r := sTIndexAt(ctx, n-1)
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_ExpressionContext); ok && !sTDots(ctx, n-1) {
		return n - 1
	}
	return r
}

// sTUptoAt is the last expression behind the dots
func sTUptoAt(ctx *parser.OC_ListOperatorExpressionContext, n int) int {
	if n <= 0 {
		return -1
	}
	r := sTUptoAt(ctx, n-1)
	if sTIsDots(ctx.GetChild(n - 1)) {
		return -1
	}
	if _, ok := ctx.GetChild(n - 1).(*parser.OC_ExpressionContext); ok && sTDots(ctx, n-1) {
		return n - 1
	}
	return r
}

// sTExprAt: e is the expression there, or none
func sTExprAt(ctx *parser.OC_ListOperatorExpressionContext, at int, e Expression) bool {
	if at < 0 {
		return e == nil
	}
	return vSameAny(e, oC_Expression(ctx.GetChild(at).(*parser.OC_ExpressionContext)))
}

func tListOp_pre(ctx *parser.OC_ListOperatorExpressionContext) bool {
	return ctx != nil && ctx.GetChildCount() >= 0
}

func tListOp_post_kind(ctx *parser.OC_ListOperatorExpressionContext, res stringListNullOperatorExpressionPart) bool {
	if res.stringOp != nil || res.isNull != nil {
		return false
	}
	n := ctx.GetChildCount()
	if x := ctx.OC_PropertyOrLabelsExpression(); x != nil {
		return res.listIndex == nil && res.listRange == nil && vSameAny(res.listIn, oC_PropertyOrLabelsExpression(x.(*parser.OC_PropertyOrLabelsExpressionContext)))
	}
	if res.listIn != nil {
		return false
	}
	if sTDots(ctx, n) {
		return res.listIndex == nil && res.listRange != nil && sTExprAt(ctx, sTIndexAt(ctx, n), res.listRange.first) && sTExprAt(ctx, sTUptoAt(ctx, n), res.listRange.second)
	}
	return res.listRange == nil && sTExprAt(ctx, sTIndexAt(ctx, n), res.listIndex)
}

func tListOp_inv_dots(ctx *parser.OC_ListOperatorExpressionContext, rng *listRangeExpression, i int) bool {
	if !sTDots(ctx, i) {
		return rng == nil
	}
	return rng != nil && vFresh(rng) && sTExprAt(ctx, sTIndexAt(ctx, i), rng.first) && sTExprAt(ctx, sTUptoAt(ctx, i), rng.second)
}

func tListOp_inv_index(ctx *parser.OC_ListOperatorExpressionContext, index Expression, i int) bool {
	return sTExprAt(ctx, sTIndexAt(ctx, i), index)
}

func tListOp_inv_bound(ctx *parser.OC_ListOperatorExpressionContext, i int) bool {
	return i <= ctx.GetChildCount()
}

func tListOp_var_children(ctx *parser.OC_ListOperatorExpressionContext, i int) int { return ctx.GetChildCount() - i }

//@ unit tStrOp target=oC_StringOperatorExpression props=C17,C06 args=ctx res=res waive=type_assertion

func tStrOp_pre(ctx *parser.OC_StringOperatorExpressionContext) bool { return ctx != nil }

func tStrOp_post_kind(ctx *parser.OC_StringOperatorExpressionContext, res stringListNullOperatorExpressionPart) bool {
	return res.listIn == nil && res.listIndex == nil && res.listRange == nil && res.isNull == nil && vFresh(res.stringOp) &&
		vSameAny(res.stringOp.expr, oC_PropertyOrLabelsExpression(ctx.OC_PropertyOrLabelsExpression().(*parser.OC_PropertyOrLabelsExpressionContext)))
}

// the operator is the one that is written
func tStrOp_post_operator(ctx *parser.OC_StringOperatorExpressionContext, res stringListNullOperatorExpressionPart) bool {
	s, e, c := ctx.STARTS() != nil, ctx.ENDS() != nil, ctx.CONTAINS() != nil
	op := res.stringOp.operator
	return (!s || e || c || op == "STARTS") && (!e || s || c || op == "ENDS") && (!c || s || e || op == "CONTAINS")
}

//@ unit tNullOp target=oC_NullOperatorExpression props=C17,C07 args=ctx res=res

func tNullOp_pre(ctx *parser.OC_NullOperatorExpressionContext) bool { return ctx != nil }

func tNullOp_post_value(ctx *parser.OC_NullOperatorExpressionContext, res stringListNullOperatorExpressionPart) bool {
	return res.stringOp == nil && res.listIn == nil && res.listIndex == nil && res.listRange == nil && res.isNull != nil && *res.isNull == (ctx.NOT() == nil)
}

//@ unit tProp target=oC_PropertyOrLabelsExpression props=C17,C10 args=ctx res=res waive=type_assertion

func sTLookup(ctx *parser.OC_PropertyOrLabelsExpressionContext, i int) schemaName {
	return oC_PropertyLookup(ctx.AllOC_PropertyLookup()[i].(*parser.OC_PropertyLookupContext))
}

func tProp_pre(ctx *parser.OC_PropertyOrLabelsExpressionContext) bool { return ctx != nil }

func tProp_post_atom(ctx *parser.OC_PropertyOrLabelsExpressionContext, res propertyOrLabelsExpression) bool {
	return vSameAny(res.atom, oC_Atom(ctx.OC_Atom().(*parser.OC_AtomContext)))
}

func tProp_post_lookups(ctx *parser.OC_PropertyOrLabelsExpressionContext, gi int, res propertyOrLabelsExpression) bool {
	return len(res.propertyLookup) == len(ctx.AllOC_PropertyLookup()) && (gi < 0 || gi >= len(res.propertyLookup) || vSameAny(res.propertyLookup[gi], sTLookup(ctx, gi)))
}

func tProp_inv_lookups(ctx *parser.OC_PropertyOrLabelsExpressionContext, gi int, ret propertyOrLabelsExpression, i int) bool {
	return len(ret.propertyLookup) == i+1 && (gi < 0 || gi > i || vSameAny(ret.propertyLookup[gi], sTLookup(ctx, gi)))
}

func tProp_inv_atom(ctx *parser.OC_PropertyOrLabelsExpressionContext, ret propertyOrLabelsExpression) bool {
	return ret.nodeLabels == nil && vSameAny(ret.atom, oC_Atom(ctx.OC_Atom().(*parser.OC_AtomContext)))
}

func tProp_post_labels(ctx *parser.OC_PropertyOrLabelsExpressionContext, res propertyOrLabelsExpression) bool {
	l := ctx.OC_NodeLabels()
	if l == nil {
		return res.nodeLabels == nil
	}
	return res.nodeLabels != nil && vSameAny(*res.nodeLabels, oC_NodeLabels(l.(*parser.OC_NodeLabelsContext)))
}

// --------------------------------------------------------------- names

//@ unit tLookup target=oC_PropertyLookup props=C16,C10 args=ctx res=res inline=oC_PropertyKeyName waive=type_assertion
//@ unit tSchema target=oC_SchemaName props=C16 args=ctx res=res waive=type_assertion
//@ unit tSymbol target=oC_SymbolicName props=C16 args=ctx res=res
//@ unit tReserved target=oC_ReservedWord props=C16 args=ctx res=res
//@ unit tVariable target=oC_Variable props=C16 args=ctx res=res waive=type_assertion

func tLookup_pre(ctx *parser.OC_PropertyLookupContext) bool { return ctx != nil }

func tLookup_post_name(ctx *parser.OC_PropertyLookupContext, res schemaName) bool {
	return vSameAny(res, oC_SchemaName(ctx.OC_PropertyKeyName().(*parser.OC_PropertyKeyNameContext).OC_SchemaName().(*parser.OC_SchemaNameContext)))
}

func tSchema_pre(ctx *parser.OC_SchemaNameContext) bool { return ctx != nil }

// a name, or a reserved word in the place of one
func tSchema_post_name(ctx *parser.OC_SchemaNameContext, res schemaName) bool {
	if ctx.OC_SymbolicName() != nil {
		return res.reservedWord == nil && res.symbolicName != nil && *res.symbolicName == oC_SymbolicName(ctx.OC_SymbolicName().(*parser.OC_SymbolicNameContext))
	}
	return res.symbolicName == nil && res.reservedWord != nil && *res.reservedWord == oC_ReservedWord(ctx.OC_ReservedWord().(*parser.OC_ReservedWordContext))
}

// and String is what was written
func tSchema_post_string(ctx *parser.OC_SchemaNameContext, res schemaName) bool {
	if ctx.OC_SymbolicName() != nil {
		return res.String() == string(oC_SymbolicName(ctx.OC_SymbolicName().(*parser.OC_SymbolicNameContext)))
	}
	return res.String() == string(oC_ReservedWord(ctx.OC_ReservedWord().(*parser.OC_ReservedWordContext)))
}

// the lexer gives names in backticks with both of them
func tSymbol_pre(ctx *parser.OC_SymbolicNameContext) bool {
	return ctx != nil && (ctx.EscapedSymbolicName() == nil || len(ctx.EscapedSymbolicName().GetText()) >= 2)
}

func tSymbol_post_name(ctx *parser.OC_SymbolicNameContext, res symbolicName) bool {
	if ctx.EscapedSymbolicName() == nil {
		return string(res) == ctx.GetText()
	}
	t := ctx.EscapedSymbolicName().GetText()
	return string(res) == strings.ReplaceAll(t[1:len(t)-1], "``", "`")
}

func tReserved_pre(ctx *parser.OC_ReservedWordContext) bool { return ctx != nil }

func tReserved_post_word(ctx *parser.OC_ReservedWordContext, res reservedWord) bool {
	return string(res) == ctx.GetText()
}

func tVariable_pre(ctx *parser.OC_VariableContext) bool { return ctx != nil }

func tVariable_post_name(ctx *parser.OC_VariableContext, res variable) bool {
	return string(res) == string(oC_SymbolicName(ctx.OC_SymbolicName().(*parser.OC_SymbolicNameContext)))
}

//@ unit tLabels target=oC_NodeLabels props=C16,C23 args=ctx res=res waive=type_assertion

func sTLabel(ctx *parser.OC_NodeLabelsContext, i int) schemaName {
	return oC_SchemaName(ctx.AllOC_NodeLabel()[i].(*parser.OC_NodeLabelContext).OC_LabelName().(*parser.OC_LabelNameContext).OC_SchemaName().(*parser.OC_SchemaNameContext))
}

func tLabels_pre(ctx *parser.OC_NodeLabelsContext) bool { return ctx != nil }

func tLabels_post_labels(ctx *parser.OC_NodeLabelsContext, gi int, res NodeLabels) bool {
	n := len(ctx.AllOC_NodeLabel())
	return len(res) == n && (gi < 0 || gi >= n || vSameAny(res[gi], sTLabel(ctx, gi)))
}

func tLabels_inv_labels(ctx *parser.OC_NodeLabelsContext, gi int, ret []schemaName, i int) bool {
	return len(ret) == i+1 && (gi < 0 || gi > i || vSameAny(ret[gi], sTLabel(ctx, gi)))
}

//@ unit escLabel target=EscapeLabelLiteral props=C16 args=s res=res
//@ unit escKey target=EscapePropertyKeyLiteral props=C16 args=s res=res

func escLabel_post_form(s string, res string) bool {
	return res == "`"+strings.ReplaceAll(s, "`", "``")+"`"
}

func escKey_post_form(s string, res string) bool {
	return res == "`"+strings.ReplaceAll(s, "`", "``")+"`"
}

//@ unit unesc target=unescapeStringLiteral props=C16 args=s res=res
//@ rec sUnesc

func sPutByte(acc string, b byte) string {
	var bld strings.Builder
	bld.WriteString(acc)
	bld.WriteByte(b)
	return bld.String()
}

func sPutRune(acc string, r rune) string {
	var bld strings.Builder
	bld.WriteString(acc)
	bld.WriteRune(r)
	return bld.String()
}

// sHex reads the n hexadecimal digits at i, or as many as there are
func sHex(s string, i, n int) (uint64, bool) {
	to := i + n
	if to > len(s) {
		to = len(s)
	}
	c, err := strconv.ParseUint(s[i:to], 16, 32)
	return c, err == nil
}

// sEscape is the byte that the letter behind a backslash stands for
func sEscape(c byte) byte {
	switch c {
	case 'b', 'B':
		return 8
	case 'f', 'F':
		return 12
	case 'n', 'N':
		return 10
	case 'r', 'R':
		return 13
	case 't', 'T':
		return 9
	}
	return c
}

// sUnesc is acc with what s from i on stands for behind it
func sUnesc(s string, i int, acc string) string {
	if i >= len(s) {
		return acc
	}
	if s[i] != '\\' || i+1 == len(s) {
		return sUnesc(s, i+1, sPutByte(acc, s[i]))
	}
	if s[i+1] == 'U' && i+10 <= len(s) {
		if c, ok := sHex(s, i+2, 8); ok {
			return sUnesc(s, i+10, sPutRune(acc, rune(c)))
		}
	}
	if s[i+1] == 'u' || s[i+1] == 'U' {
		if c, ok := sHex(s, i+2, 4); ok {
			return sUnesc(s, i+6, sPutRune(acc, rune(c)))
		}
	}
	return sUnesc(s, i+2, sPutByte(acc, sEscape(s[i+1])))
}

func unesc_post_text(s string, res string) bool { return res == sUnesc(s, 0, "") }

func unesc_inv_rest(s string, bld string, i int) bool {
	return i >= 0 && sUnesc(s, i, bld) == sUnesc(s, 0, "")
}

func unesc_var_rest(s string, i int) int { return len(s) - i }

//@ unit escStr target=EscapeStringLiteral props=C16 args=s res=res
//@ rec sEscStr

// sEscStr is acc with the characters of s from i on behind it, and a
// backslash before quotes and backslashes
func sEscStr(s string, i int, acc string) string {
	if i >= len(s) {
		return acc
	}
	c := vRuneAt(s, i)
	switch c {
	case '\\':
		return sEscStr(s, i+vRuneLen(s, i), sPutRune(sPutRune(acc, '\\'), '\\'))
	case '"':
		return sEscStr(s, i+vRuneLen(s, i), sPutRune(sPutRune(acc, '\\'), '"'))
	}
	return sEscStr(s, i+vRuneLen(s, i), sPutRune(acc, c))
}

func escStr_post_text(s string, res string) bool {
	return res == sPutRune(sEscStr(s, 0, sPutRune("", '"')), '"')
}

func escStr_inv_rest(s string, bld string, i int) bool {
	return i >= 0 && sEscStr(s, i, bld) == sEscStr(s, 0, sPutRune("", '"'))
}
