package opencypher

// -------------------------------------------------- ordering of values

//@ opaque comparePrimitiveValues
//@ unit cmp target=comparePrimitiveValues props=C04,C05,C07,C11,C14 args=a,b res=res,err

// sCmp is the order of two values: null before anything else, numbers by
// their value, strings and booleans, durations and times by their components
func sCmp(a, b interface{}) (int, bool) {
	if a == nil || b == nil {
		return sSign(a != nil && b == nil, a == nil && b == nil), true
	}
	switch x := a.(type) {
	case bool:
		if y, ok := b.(bool); ok {
			return sSign(x && !y, x == y), true
		}
	case int:
		switch y := b.(type) {
		case int:
			return sSign(x > y, x == y), true
		case float64:
			return sSign(!(float64(x) <= y), float64(x) == y), true
		}
	case float64:
		switch y := b.(type) {
		case int:
			return sSign(!(x <= float64(y)), x == float64(y)), true
		case float64:
			return sSign(!(x <= y), x == y), true
		}
	case string:
		if y, ok := b.(string); ok {
			return sSign(x > y, x == y), true
		}
	case Duration:
		if y, ok := b.(Duration); ok {
			return sDurCmp(x, y), true
		}
	case Date:
		if y, ok := b.(Date); ok {
			return sSign(y.Time().Before(x.Time()), x.Time().Equal(y.Time())), true
		}
	case LocalTime:
		if y, ok := b.(LocalTime); ok {
			return sSign(y.Time().Before(x.Time()), x.Time().Equal(y.Time())), true
		}
	case LocalDateTime:
		if y, ok := b.(LocalDateTime); ok {
			return sSign(y.Time().Before(x.Time()), x.Time().Equal(y.Time())), true
		}
	}
	return 0, false
}

func sSign(greater, equal bool) int {
	if equal {
		return 0
	}
	if greater {
		return 1
	}
	return -1
}

// durations compare by months, then days, then seconds, then nanoseconds
func sDurCmp(x, y Duration) int {
	if x.Months != y.Months {
		return sSign(x.Months > y.Months, false)
	}
	if x.Days != y.Days {
		return sSign(x.Days > y.Days, false)
	}
	if x.Seconds != y.Seconds {
		return sSign(x.Seconds > y.Seconds, false)
	}
	return sSign(x.Nanos > y.Nanos, x.Nanos == y.Nanos)
}

func cmp_post_order(a, b interface{}, res int, err error) bool {
	r, ok := sCmp(a, b)
	if !ok {
		return err != nil
	}
	if err != nil {
		return false
	}
	return res < 0 == (r < 0) && res > 0 == (r > 0)
}

// The order is total on every kind of value; NaN and integers beyond the
// exact range of floating point numbers mixed with floating point numbers
// are left out

func sComparable(v interface{}) bool {
	f, ok := v.(float64)
	return !ok || !vIsNaN(f)
}

func sExact(v interface{}) bool {
	n, ok := v.(int)
	return !ok || n >= -9007199254740992 && n <= 9007199254740992
}

//@ lemma cmpReflexive props=C04

func cmpReflexive(a interface{}) bool {
	r, ok := sCmp(a, a)
	return !sComparable(a) || !ok || r == 0
}

//@ lemma cmpAntisymmetric props=C04

func cmpAntisymmetric(a, b interface{}) bool {
	if !sComparable(a) || !sComparable(b) {
		return true
	}
	r1, ok1 := sCmp(a, b)
	r2, ok2 := sCmp(b, a)
	return ok1 == ok2 && (!ok1 || r1 == -r2)
}

//@ lemma cmpTransitive props=C04

func cmpTransitive(a, b, c interface{}) bool {
	if !sComparable(a) || !sComparable(b) || !sComparable(c) || !sExact(a) || !sExact(b) || !sExact(c) {
		return true
	}
	r1, ok1 := sCmp(a, b)
	r2, ok2 := sCmp(b, c)
	r3, ok3 := sCmp(a, c)
	if !ok1 || !ok2 || !ok3 || r1 > 0 || r2 > 0 {
		return true
	}
	return r3 <= 0 && (r3 == 0) == (r1 == 0 && r2 == 0)
}

// ------------------------------------------------- chained comparisons

//@ rec sCompFrom
//@ unit comparison target=(comparisonExpression).Evaluate props=C05,C15 args=expr,ctx res=res,err only=const:C15

// sAnd3 is the conjunction of three-valued logic
func sAnd3(a, b interface{}) interface{} {
	if a == false || b == false {
		return false
	}
	if a == nil || b == nil {
		return nil
	}
	return true
}

func sOr3(a, b interface{}) interface{} {
	if a == true || b == true {
		return true
	}
	if a == nil || b == nil {
		return nil
	}
	return false
}

func sXor3(a, b interface{}) interface{} {
	if a == nil || b == nil {
		return nil
	}
	return a != b
}

func sRel(op string, r int) bool {
	switch op {
	case "=":
		return r == 0
	case "<>":
		return r != 0
	case "<":
		return r < 0
	case "<=":
		return r <= 0
	case ">":
		return r > 0
	case ">=":
		return r >= 0
	}
	return false
}

// sCompFrom is the conjunction of the links from idx on
func sCompFrom(expr comparisonExpression, ctx *EvalContext, idx int, left, acc interface{}) (interface{}, error) {
	if idx >= len(expr.second) {
		return acc, nil
	}
	v, err := expr.second[idx].expr.Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	right := v.Get()
	if left == nil || right == nil {
		return sCompFrom(expr, ctx, idx+1, right, sAnd3(acc, nil))
	}
	r, err := comparePrimitiveValues(left, right)
	if err != nil {
		return nil, err
	}
	return sCompFrom(expr, ctx, idx+1, right, sAnd3(acc, sRel(expr.second[idx].op, r)))
}

func sComp(expr comparisonExpression, ctx *EvalContext) (interface{}, error) {
	v, err := expr.first.Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	return sCompFrom(expr, ctx, 0, v.Get(), true)
}

func comparison_pre(expr comparisonExpression, ctx, ctx2 *EvalContext) bool {
	return expr.first != nil && vForallInt(0, len(expr.second), func(i int) bool { return expr.second[i].expr != nil })
}

func comparison_inv_tri(ret RValue) bool {
	return ret.Value == nil || ret.Value == true || ret.Value == false
}

func comparison_inv_left(val Value) bool { return val != nil }

func comparison_inv_fold(expr comparisonExpression, ctx *EvalContext, i int, val Value, ret RValue) bool {
	v1, e1 := sComp(expr, ctx)
	v2, e2 := sCompFrom(expr, ctx, i, val.Get(), ret.Value)
	return vSameAny(v1, v2) && vSameErr(e1, e2)
}

func comparison_inv_const(expr comparisonExpression, ctx2 *EvalContext, i int, val Value, ret RValue) bool {
	v1, e1 := sComp(expr, ctx2)
	v2, e2 := sCompFrom(expr, ctx2, i, val.Get(), ret.Value)
	return !ret.Const || vSameAny(v1, v2) && vSameErr(e1, e2)
}

func comparison_post_value(expr comparisonExpression, ctx *EvalContext, res Value, err error) bool {
	v, e := sComp(expr, ctx)
	if e != nil {
		return err != nil
	}
	return err == nil && vSameAny(res.Get(), v)
}

func comparison_post_tri(res Value, err error) bool {
	return err != nil || res.Get() == nil || res.Get() == true || res.Get() == false
}

func comparison_post_const(expr comparisonExpression, ctx2 *EvalContext, res Value, err error) bool {
	if err != nil || !res.IsConst() {
		return true
	}
	v, e := sComp(expr, ctx2)
	return e == nil && vSameAny(v, res.Get())
}

// ------------------------------------------------------ AND, OR, XOR, NOT

//@ rec sAndFrom sOrFrom sXorFrom
//@ unit and target=(andExpression).Evaluate props=C06,C15 args=expr,ctx res=res,err only=const:C15
//@ unit or target=(orExpression).Evaluate props=C06,C15 args=expr,ctx res=res,err only=const:C15
//@ unit xor target=(xorExpression).Evaluate props=C06,C15 args=expr,ctx res=res,err only=const:C15
//@ unit not target=(notExpression).Evaluate props=C06,C15 args=expr,ctx res=res,err only=const:C15

func sIsTri(v interface{}) bool {
	_, ok := v.(bool)
	return ok || v == nil
}

func sAndFrom(expr andExpression, ctx *EvalContext, idx int, acc interface{}) (interface{}, error) {
	if idx >= len(expr.parts) {
		return acc, nil
	}
	v, err := expr.parts[idx].Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	x := v.Get()
	if !sIsTri(x) {
		return nil, ErrNotABooleanExpression
	}
	if x == false {
		return false, nil
	}
	return sAndFrom(expr, ctx, idx+1, sAnd3(acc, x))
}

func sOrFrom(expr orExpression, ctx *EvalContext, idx int, acc interface{}) (interface{}, error) {
	if idx >= len(expr.parts) {
		return acc, nil
	}
	v, err := expr.parts[idx].Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	x := v.Get()
	if !sIsTri(x) {
		return nil, ErrNotABooleanExpression
	}
	if x == true {
		return true, nil
	}
	return sOrFrom(expr, ctx, idx+1, sOr3(acc, x))
}

func sXorFrom(expr xorExpression, ctx *EvalContext, idx int, acc interface{}) (interface{}, error) {
	if idx >= len(expr.parts) {
		return acc, nil
	}
	v, err := expr.parts[idx].Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	x := v.Get()
	if !sIsTri(x) {
		return nil, ErrNotABooleanExpression
	}
	return sXorFrom(expr, ctx, idx+1, sXor3(acc, x))
}

func sNot(expr notExpression, ctx *EvalContext) (interface{}, error) {
	v, err := expr.part.Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	x := v.Get()
	if !sIsTri(x) {
		return nil, ErrNotABooleanExpression
	}
	if x == nil {
		return nil, nil
	}
	return x != true, nil
}

func and_pre(expr andExpression, ctx, ctx2 *EvalContext) bool {
	return vForallInt(0, len(expr.parts), func(i int) bool { return expr.parts[i] != nil })
}
func or_pre(expr orExpression, ctx, ctx2 *EvalContext) bool {
	return vForallInt(0, len(expr.parts), func(i int) bool { return expr.parts[i] != nil })
}
func xor_pre(expr xorExpression, ctx, ctx2 *EvalContext) bool {
	return vForallInt(0, len(expr.parts), func(i int) bool { return expr.parts[i] != nil })
}
func not_pre(expr notExpression, ctx, ctx2 *EvalContext) bool { return expr.part != nil }

func and_inv_acc(ret RValue) bool { return ret.Value == nil || ret.Value == true }
func or_inv_acc(ret RValue) bool  { return ret.Value == nil || ret.Value == false }
func xor_inv_acc(ret RValue) bool {
	return ret.Value == nil || ret.Value == true || ret.Value == false
}

func and_inv_fold(expr andExpression, ctx *EvalContext, i int, ret RValue) bool {
	v1, e1 := sAndFrom(expr, ctx, 0, true)
	v2, e2 := sAndFrom(expr, ctx, i, ret.Value)
	return vSameAny(v1, v2) && vSameErr(e1, e2)
}
func or_inv_fold(expr orExpression, ctx *EvalContext, i int, ret RValue) bool {
	v1, e1 := sOrFrom(expr, ctx, 0, false)
	v2, e2 := sOrFrom(expr, ctx, i, ret.Value)
	return vSameAny(v1, v2) && vSameErr(e1, e2)
}
func xor_inv_fold(expr xorExpression, ctx *EvalContext, i int, ret RValue) bool {
	v1, e1 := sXorFrom(expr, ctx, 0, false)
	v2, e2 := sXorFrom(expr, ctx, i, ret.Value)
	return vSameAny(v1, v2) && vSameErr(e1, e2)
}
func and_inv_const(expr andExpression, ctx2 *EvalContext, i int, ret RValue) bool {
	v1, e1 := sAndFrom(expr, ctx2, 0, true)
	v2, e2 := sAndFrom(expr, ctx2, i, ret.Value)
	return !ret.Const || vSameAny(v1, v2) && vSameErr(e1, e2)
}
func or_inv_const(expr orExpression, ctx2 *EvalContext, i int, ret RValue) bool {
	v1, e1 := sOrFrom(expr, ctx2, 0, false)
	v2, e2 := sOrFrom(expr, ctx2, i, ret.Value)
	return !ret.Const || vSameAny(v1, v2) && vSameErr(e1, e2)
}
func xor_inv_const(expr xorExpression, ctx2 *EvalContext, i int, ret RValue) bool {
	v1, e1 := sXorFrom(expr, ctx2, 0, false)
	v2, e2 := sXorFrom(expr, ctx2, i, ret.Value)
	return !ret.Const || vSameAny(v1, v2) && vSameErr(e1, e2)
}

func and_post_value(expr andExpression, ctx *EvalContext, res Value, err error) bool {
	v, e := sAndFrom(expr, ctx, 0, true)
	if e != nil {
		return err != nil
	}
	return err == nil && vSameAny(res.Get(), v)
}
func or_post_value(expr orExpression, ctx *EvalContext, res Value, err error) bool {
	v, e := sOrFrom(expr, ctx, 0, false)
	if e != nil {
		return err != nil
	}
	return err == nil && vSameAny(res.Get(), v)
}
func xor_post_value(expr xorExpression, ctx *EvalContext, res Value, err error) bool {
	v, e := sXorFrom(expr, ctx, 0, false)
	if e != nil {
		return err != nil
	}
	return err == nil && vSameAny(res.Get(), v)
}
func not_post_value(expr notExpression, ctx *EvalContext, res Value, err error) bool {
	v, e := sNot(expr, ctx)
	if e != nil {
		return err != nil
	}
	return err == nil && vSameAny(res.Get(), v)
}
func and_post_const(expr andExpression, ctx2 *EvalContext, res Value, err error) bool {
	if err != nil || !res.IsConst() {
		return true
	}
	v, e := sAndFrom(expr, ctx2, 0, true)
	return e == nil && vSameAny(v, res.Get())
}
func or_post_const(expr orExpression, ctx2 *EvalContext, res Value, err error) bool {
	if err != nil || !res.IsConst() {
		return true
	}
	v, e := sOrFrom(expr, ctx2, 0, false)
	return e == nil && vSameAny(v, res.Get())
}
func xor_post_const(expr xorExpression, ctx2 *EvalContext, res Value, err error) bool {
	if err != nil || !res.IsConst() {
		return true
	}
	v, e := sXorFrom(expr, ctx2, 0, false)
	return e == nil && vSameAny(v, res.Get())
}
func not_post_const(expr notExpression, ctx2 *EvalContext, res Value, err error) bool {
	if err != nil || !res.IsConst() {
		return true
	}
	v, e := sNot(expr, ctx2)
	return e == nil && vSameAny(v, res.Get())
}

// The laws of three-valued logic

//@ lemma logicLaws props=C06

func logicLaws(a, b, c interface{}) bool {
	if a != nil && a != true && a != false || b != nil && b != true && b != false || c != nil && c != true && c != false {
		return true
	}
	return sAnd3(a, b) == sAnd3(b, a) && sOr3(a, b) == sOr3(b, a) && sXor3(a, b) == sXor3(b, a) &&
		sAnd3(a, sAnd3(b, c)) == sAnd3(sAnd3(a, b), c) && sOr3(a, sOr3(b, c)) == sOr3(sOr3(a, b), c) &&
		sNot3(sAnd3(a, b)) == sOr3(sNot3(a), sNot3(b)) && sNot3(sOr3(a, b)) == sAnd3(sNot3(a), sNot3(b)) &&
		sAnd3(a, true) == a && sOr3(a, false) == a && sAnd3(a, false) == false && sOr3(a, true) == true
}

func sNot3(a interface{}) interface{} {
	if a == nil {
		return nil
	}
	return a != true
}
