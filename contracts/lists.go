package opencypher

import "strings"

// Contracts for the list, string and null operators that follow an operand.

// ------------------------------------------------------- x IN list

//@ rec sInFrom sPartsFrom

// sInFrom tells whether x is among the elements of list from idx on; seen is
// set if a null was seen before
func sInFrom(list []Value, x interface{}, idx int, seen bool) (interface{}, error) {
	if idx >= len(list) {
		if seen {
			return nil, nil
		}
		return false, nil
	}
	y := list[idx].Get()
	if y == nil {
		return sInFrom(list, x, idx+1, true)
	}
	c, err := comparePrimitiveValues(x, y)
	if err != nil {
		return nil, err
	}
	if c == 0 {
		return true, nil
	}
	return sInFrom(list, x, idx+1, seen)
}

// sIndex is list[i]
func sIndex(list []Value, i int) interface{} {
	if i < 0 {
		i += len(list)
	}
	if i < 0 || i >= len(list) {
		return nil
	}
	return list[i].Get()
}

func sClamp(i, n int) int {
	if i > n {
		return n
	}
	return i
}

// sBound is a bound of list[a..b]: its value, whether it is there, and
// whether it can be used
func sBound(e Evaluatable, ctx *EvalContext, def int) (i int, null bool, err error) {
	if e == nil {
		return def, false, nil
	}
	v, err := e.Evaluate(ctx)
	if err != nil {
		return 0, false, err
	}
	if v.Get() == nil {
		return 0, true, nil
	}
	i, ok := v.Get().(int)
	if !ok {
		return 0, false, ErrInvalidListIndex
	}
	return i, false, nil
}

// sPart is the result of the operators whose result is not a new list
func sPart(expr stringListNullOperatorExpressionPart, ctx *EvalContext, in interface{}) (interface{}, error) {
	switch {
	case expr.isNull != nil:
		return (in == nil) == *expr.isNull, nil
	case expr.listIndex != nil:
		list, ok := in.([]Value)
		if !ok && in != nil {
			return nil, ErrNotAList
		}
		v, err := expr.listIndex.Evaluate(ctx)
		if err != nil {
			return nil, err
		}
		if v.Get() == nil {
			return nil, nil
		}
		i, ok := v.Get().(int)
		if !ok {
			return nil, ErrInvalidListIndex
		}
		return sIndex(list, i), nil
	case expr.listIn != nil:
		v, err := expr.listIn.Evaluate(ctx)
		if err != nil {
			return nil, err
		}
		list, ok := v.Get().([]Value)
		if !ok && v.Get() != nil {
			return nil, ErrNotAList
		}
		if v.Get() == nil || in == nil {
			return nil, nil
		}
		return sInFrom(list, in, 0, false)
	}
	return sStringOp(expr.stringOp, ctx, in)
}

// sStringOp is STARTS WITH, ENDS WITH, CONTAINS
func sStringOp(expr *stringOperatorExpression, ctx *EvalContext, in interface{}) (interface{}, error) {
	v, err := expr.expr.Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	if in == nil || v.Get() == nil {
		return nil, nil
	}
	s, ok := in.(string)
	if !ok {
		return nil, ErrInvalidStringOperation
	}
	t, ok := v.Get().(string)
	if !ok {
		return nil, ErrInvalidStringOperation
	}
	switch expr.operator {
	case "STARTS":
		return strings.HasPrefix(s, t), nil
	case "ENDS":
		return strings.HasSuffix(s, t), nil
	}
	return strings.Contains(s, t), nil
}

// sIsRange tells whether the operator is list[a..b]
func sIsRange(expr stringListNullOperatorExpressionPart) bool {
	return expr.isNull == nil && expr.listIndex == nil && expr.listIn == nil && expr.listRange != nil
}

// sRange is what list[a..b] selects: the elements from a to b, or null
func sRange(expr stringListNullOperatorExpressionPart, ctx *EvalContext, in interface{}) (list []Value, a, b int, null bool, err error) {
	list, ok := in.([]Value)
	if !ok {
		if in != nil {
			return nil, 0, 0, false, ErrNotAList
		}
		return nil, 0, 0, true, nil
	}
	a, null, err = sBound(expr.listRange.first, ctx, 0)
	if err != nil || null {
		return nil, 0, 0, null, err
	}
	b, null, err = sBound(expr.listRange.second, ctx, len(list))
	if err != nil || null {
		return nil, 0, 0, null, err
	}
	if a < 0 || b < 0 {
		return nil, 0, 0, false, ErrInvalidListIndex
	}
	b = sClamp(b, len(list))
	a = sClamp(a, b)
	return list, a, b, false, nil
}

// sIsRangeResult tells whether a value is what list[a..b] selects
func sIsRangeResult(expr stringListNullOperatorExpressionPart, ctx *EvalContext, in interface{}, v interface{}, e error) bool {
	list, a, b, null, err := sRange(expr, ctx, in)
	if err != nil || e != nil {
		return err != nil && e != nil
	}
	if null {
		return v == nil
	}
	l, ok := v.([]Value)
	return ok && len(l) == b-a && vForallInt(0, b-a, func(i int) bool { return vSameValue(l[i], list[a+i]) })
}

// list[i], list[a..b], x IN list, IS NULL, IS NOT NULL, and the string
// operators: the list of a result is always a new one

//@ unit listop target=(stringListNullOperatorExpressionPart).evaluate props=C07,C08,C15 args=expr,ctx,in res=res,err only=const:C15 only=list:C07 only=listNonNull:C07

func listop_pre(expr stringListNullOperatorExpressionPart, ctx, ctx2 *EvalContext, in Value) bool {
	return in != nil && (expr.isNull != nil || expr.listIndex != nil || expr.listIn != nil || expr.listRange != nil || expr.stringOp != nil && expr.stringOp.expr != nil)
}

func listop_inv_in(expr stringListNullOperatorExpressionPart, ctx *EvalContext, in Value, i int, hasNull bool) bool {
	if expr.listIn == nil {
		return true
	}
	v, err := expr.listIn.Evaluate(ctx)
	if err != nil {
		return true
	}
	list, ok := v.Get().([]Value)
	if !ok {
		return true
	}
	v1, e1 := sInFrom(list, in.Get(), 0, false)
	v2, e2 := sInFrom(list, in.Get(), i, hasNull)
	return vSameAny(v1, v2) && vSameErr(e1, e2)
}

func listop_inv_copy(expr stringListNullOperatorExpressionPart, ctx *EvalContext, in Value, i int, arr []Value) bool {
	if !sIsRange(expr) {
		return true
	}
	list, a, b, null, err := sRange(expr, ctx, in.Get())
	return null || err != nil || a <= i && i <= b && len(arr) == i-a && vForallInt(0, i-a, func(j int) bool { return vSameValue(arr[j], list[a+j]) })
}

func listop_inv_copyConst(expr stringListNullOperatorExpressionPart, ctx *EvalContext, in Value, i int, constant bool) bool {
	if !sIsRange(expr) {
		return true
	}
	list, a, b, null, err := sRange(expr, ctx, in.Get())
	return !constant || null || err != nil || a <= i && i <= b && vForallInt(a, i, func(j int) bool { return list[j].IsConst() })
}

// a bound that is constant is the same in every context
func listop_inv_rangeConst(expr stringListNullOperatorExpressionPart, ctx, ctx2 *EvalContext, in Value, constant bool) bool {
	if !sIsRange(expr) || !constant {
		return true
	}
	_, a, b, null, err := sRange(expr, ctx, in.Get())
	_, a2, b2, null2, err2 := sRange(expr, ctx2, in.Get())
	return in.IsConst() && a == a2 && b == b2 && null == null2 && vSameErr(err, err2)
}

func listop_post_value(expr stringListNullOperatorExpressionPart, ctx *EvalContext, in Value, res Value, err error) bool {
	if sIsRange(expr) {
		return true
	}
	v, e := sPart(expr, ctx, in.Get())
	if e != nil {
		return err != nil
	}
	return err == nil && vSameAny(res.Get(), v)
}

func listop_post_list(expr stringListNullOperatorExpressionPart, ctx *EvalContext, in Value, res Value, err error) bool {
	if !sIsRange(expr) {
		return true
	}
	if err != nil {
		return sIsRangeResult(expr, ctx, in.Get(), nil, err)
	}
	return sIsRangeResult(expr, ctx, in.Get(), res.Get(), nil)
}

func listop_post_result(res Value, err error) bool { return err != nil || res != nil }

func listop_post_const(expr stringListNullOperatorExpressionPart, ctx2 *EvalContext, in Value, res Value, err error) bool {
	if err != nil || !res.IsConst() {
		return true
	}
	if !in.IsConst() {
		return false
	}
	if sIsRange(expr) {
		return sIsRangeResult(expr, ctx2, in.Get(), res.Get(), nil)
	}
	v, e := sPart(expr, ctx2, in.Get())
	return e == nil && vSameAny(v, res.Get())
}

// The chain of operators is applied from left to right

//@ unit listops target=(stringListNullOperatorExpression).Evaluate props=C07,C08,C15 args=expr,ctx res=res,err calls=listop reads=(stringListNullOperatorExpressionPart).evaluate only=const:C15

func sPartsFrom(expr stringListNullOperatorExpression, ctx *EvalContext, idx int, in Value) (Value, error) {
	if idx >= len(expr.parts) {
		return in, nil
	}
	v, err := expr.parts[idx].evaluate(ctx, in)
	if err != nil {
		return nil, err
	}
	return sPartsFrom(expr, ctx, idx+1, v)
}

func sListOps(expr stringListNullOperatorExpression, ctx *EvalContext) (Value, error) {
	v, err := expr.propertyOrLabels.Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	return sPartsFrom(expr, ctx, 0, v)
}

func listops_pre(expr stringListNullOperatorExpression, ctx, ctx2 *EvalContext) bool {
	return vForallInt(0, len(expr.parts), func(i int) bool {
		p := expr.parts[i]
		return p.isNull != nil || p.listIndex != nil || p.listIn != nil || p.listRange != nil || p.stringOp != nil && p.stringOp.expr != nil
	})
}

func listops_inv_fold(expr stringListNullOperatorExpression, ctx *EvalContext, i int, val Value) bool {
	v1, e1 := sListOps(expr, ctx)
	v2, e2 := sPartsFrom(expr, ctx, i, val)
	return vSameAny(v1, v2) && vSameErr(e1, e2)
}

func listops_inv_const(expr stringListNullOperatorExpression, ctx *EvalContext, val Value) bool {
	v, _ := expr.propertyOrLabels.Evaluate(ctx)
	return !val.IsConst() || v.IsConst()
}

func listops_inv_nonnil(val Value) bool { return val != nil }

func listops_post_value(expr stringListNullOperatorExpression, ctx *EvalContext, res Value, err error) bool {
	v, e := sListOps(expr, ctx)
	if e != nil {
		return err != nil
	}
	return err == nil && vSameAny(res, v)
}

// nothing that depends on a property or a variable is constant
func listops_post_const(expr stringListNullOperatorExpression, ctx *EvalContext, res Value, err error) bool {
	v, e := expr.propertyOrLabels.Evaluate(ctx)
	return err != nil || !res.IsConst() || e == nil && v.IsConst()
}
