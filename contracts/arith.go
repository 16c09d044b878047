package opencypher

import (
	"math"
	"time"
)

// ---------------------------------------------------------------- * / %

//@ rec sMulFrom
//@ unit mul target=(*multiplyDivideModuloExpression).Evaluate props=C01,C15 args=expr,ctx res=res,err modifies=expr.constValue only=memo:C15 only=const:C15

// sMulStep is one application of an operator to numbers and durations
func sMulStep(a, b interface{}, op rune) (interface{}, error) {
	x, xi := a.(int)
	xf, xff := a.(float64)
	xd, xdd := a.(Duration)
	y, yi := b.(int)
	yf, yff := b.(float64)
	yd, ydd := b.(Duration)
	zero := yi && y == 0 || yff && yf == 0
	switch {
	case (xi || xff) && (yi || yff):
		if op != '*' && zero {
			return nil, ErrDivideByZero
		}
		if xi && yi {
			switch op {
			case '*':
				return x * y, nil
			case '/':
				return x / y, nil
			}
			return x % y, nil
		}
		if xi {
			xf = float64(x)
		}
		if yi {
			yf = float64(y)
		}
		switch op {
		case '*':
			return xf * yf, nil
		case '/':
			return xf / yf, nil
		}
		return math.Mod(xf, yf), nil
	case xdd && yi && op == '*':
		return sDurInt(xd, y), nil
	case xdd && yi && op == '/' && !zero:
		return Duration{Months: xd.Months / int64(y), Days: xd.Days / int64(y), Seconds: xd.Seconds / int64(y), Nanos: xd.Nanos / y}, nil
	case xdd && yff && op == '*':
		return sDurFloat(xd, yf), nil
	case xdd && yff && op == '/' && !zero:
		return Duration{Months: int64(float64(xd.Months) / yf), Days: int64(float64(xd.Days) / yf), Seconds: int64(float64(xd.Seconds) / yf), Nanos: int(float64(xd.Nanos) / yf)}, nil
	case xi && ydd && op == '*':
		return sDurInt(yd, x), nil
	case xff && ydd && op == '*':
		return sDurFloat(yd, xf), nil
	}
	return nil, ErrInvalidMultiplicativeOperation
}

func sDurInt(d Duration, n int) Duration {
	return Duration{Months: d.Months * int64(n), Days: d.Days * int64(n), Seconds: d.Seconds * int64(n), Nanos: d.Nanos * n}
}

func sDurFloat(d Duration, f float64) Duration {
	return Duration{Months: int64(float64(d.Months) * f), Days: int64(float64(d.Days) * f), Seconds: int64(float64(d.Seconds) * f), Nanos: int(float64(d.Nanos) * f)}
}

func sMulFrom(expr *multiplyDivideModuloExpression, ctx *EvalContext, idx int, acc interface{}) (interface{}, error) {
	if idx >= len(expr.parts) {
		return acc, nil
	}
	v, err := expr.parts[idx].expr.Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	val := v.Get()
	if acc == nil || val == nil {
		return nil, nil
	}
	r, err := sMulStep(acc, val, expr.parts[idx].op)
	if err != nil {
		return nil, err
	}
	return sMulFrom(expr, ctx, idx+1, r)
}

func sMul(expr *multiplyDivideModuloExpression, ctx *EvalContext) (interface{}, error) {
	v, err := expr.parts[0].expr.Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	return sMulFrom(expr, ctx, 1, v.Get())
}

func sMulMemoOK(expr *multiplyDivideModuloExpression, ctx *EvalContext) bool {
	if expr.constValue == nil {
		return true
	}
	v, err := sMul(expr, ctx)
	return err == nil && vSameAny(v, expr.constValue.Get())
}

func mul_pre(expr *multiplyDivideModuloExpression, ctx, ctx2 *EvalContext) bool {
	return expr != nil && len(expr.parts) > 0 &&
		vForallInt(0, len(expr.parts), func(i int) bool { return expr.parts[i].expr != nil }) &&
		sMulMemoOK(expr, ctx) && sMulMemoOK(expr, ctx2)
}

func mul_inv_fold(expr *multiplyDivideModuloExpression, ctx *EvalContext, i int, ret RValue) bool {
	if i == 0 {
		return true
	}
	v1, e1 := sMul(expr, ctx)
	v2, e2 := sMulFrom(expr, ctx, i, ret.Value)
	return vSameAny(v1, v2) && vSameErr(e1, e2)
}

func mul_inv_const(expr *multiplyDivideModuloExpression, ctx2 *EvalContext, i int, ret RValue) bool {
	if i == 0 || !ret.Const {
		return true
	}
	v1, e1 := sMul(expr, ctx2)
	v2, e2 := sMulFrom(expr, ctx2, i, ret.Value)
	return vSameAny(v1, v2) && vSameErr(e1, e2)
}

func mul_post_value(expr *multiplyDivideModuloExpression, ctx *EvalContext, res Value, err error) bool {
	v, e := sMul(expr, ctx)
	if e != nil {
		return err != nil
	}
	return err == nil && vSameAny(res.Get(), v)
}

// the memo is the value of the expression in every context
func mul_post_memo(expr *multiplyDivideModuloExpression, ctx2 *EvalContext) bool {
	return sMulMemoOK(expr, ctx2)
}

// a constant result is the value of the expression in every context
func mul_post_const(expr *multiplyDivideModuloExpression, ctx2 *EvalContext, res Value, err error) bool {
	if err != nil || !res.IsConst() {
		return true
	}
	v, e := sMul(expr, ctx2)
	return e == nil && vSameAny(v, res.Get())
}

// ------------------------------------------------------------------ + -

//@ rec sAddFrom
//@ opaque addlistlist
//@ unit add target=(*addOrSubtractExpression).Evaluate props=C02,C15 args=expr,ctx res=res,err modifies=expr.constValue only=memo:C15 only=const:C15

// sAddStep is one addition or subtraction
func sAddStep(a, b interface{}, sub bool) (interface{}, error) {
	switch x := a.(type) {
	case int:
		switch y := b.(type) {
		case int:
			if sub {
				return x - y, nil
			}
			return x + y, nil
		case float64:
			return sAddFloat(float64(x), y, sub), nil
		}
	case float64:
		switch y := b.(type) {
		case int:
			return sAddFloat(x, float64(y), sub), nil
		case float64:
			return sAddFloat(x, y, sub), nil
		}
	case string:
		if y, ok := b.(string); ok && !sub {
			return x + y, nil
		}
	case []Value:
		if y, ok := b.([]Value); ok && !sub {
			return addlistlist(x, y).Value, nil
		}
	case Duration:
		switch y := b.(type) {
		case Duration:
			if sub {
				return Duration{Months: x.Months - y.Months, Days: x.Days - y.Days, Seconds: x.Seconds - y.Seconds, Nanos: x.Nanos - y.Nanos}, nil
			}
			return Duration{Months: x.Months + y.Months, Days: x.Days + y.Days, Seconds: x.Seconds + y.Seconds, Nanos: x.Nanos + y.Nanos}, nil
		case Date:
			if !sub {
				return sDateAdd(y, x, false), nil
			}
		case LocalTime:
			if !sub {
				return sTimeAdd(y, x, false), nil
			}
		case LocalDateTime:
			if !sub {
				return sDateTimeAdd(y, x, false), nil
			}
		}
	case Date:
		if y, ok := b.(Duration); ok {
			return sDateAdd(x, y, sub), nil
		}
	case LocalTime:
		if y, ok := b.(Duration); ok {
			return sTimeAdd(x, y, sub), nil
		}
	case LocalDateTime:
		if y, ok := b.(Duration); ok {
			return sDateTimeAdd(x, y, sub), nil
		}
	}
	return nil, ErrInvalidAdditiveOperation
}

func sAddFloat(x, y float64, sub bool) float64 {
	if sub {
		return x - y
	}
	return x + y
}

func sNeg(d Duration, neg bool) Duration {
	if neg {
		return Duration{Months: -d.Months, Days: -d.Days, Seconds: -d.Seconds, Nanos: -d.Nanos}
	}
	return d
}

// a date moves by the months and days of the duration; times within the
// day do not matter
func sDateAdd(a Date, d Duration, sub bool) Date {
	t, n := a.Time(), sNeg(d, sub)
	return NewDate(time.Date(t.Year(), t.Month()+time.Month(n.Months), t.Day()+int(n.Days), 0, 0, 0, 0, t.Location()))
}

// a time of day moves by the seconds and nanoseconds, around the clock
func sTimeAdd(a LocalTime, d Duration, sub bool) LocalTime {
	t, n := a.Time(), sNeg(d, sub)
	return NewLocalTime(time.Date(1970, 1, 1, t.Hour(), t.Minute(), t.Second()+int(n.Seconds), t.Nanosecond()+n.Nanos, t.Location()))
}

func sDateTimeAdd(a LocalDateTime, d Duration, sub bool) LocalDateTime {
	t, n := a.Time(), sNeg(d, sub)
	return NewLocalDateTime(time.Date(t.Year(), t.Month()+time.Month(n.Months), t.Day()+int(n.Days), t.Hour(), t.Minute(), t.Second()+int(n.Seconds), t.Nanosecond()+n.Nanos, t.Location()))
}

// sAddFrom folds the operands from idx on, left to right; null is absorbing
func sAddFrom(expr *addOrSubtractExpression, ctx *EvalContext, idx int, acc interface{}) (interface{}, error) {
	if idx >= len(expr.parts) {
		return acc, nil
	}
	v, err := expr.parts[idx].expr.Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	val := v.Get()
	if acc == nil || val == nil {
		return sAddFrom(expr, ctx, idx+1, nil)
	}
	r, err := sAddStep(acc, val, expr.parts[idx].sub)
	if err != nil {
		return nil, err
	}
	return sAddFrom(expr, ctx, idx+1, r)
}

func sAdd(expr *addOrSubtractExpression, ctx *EvalContext) (interface{}, error) {
	v, err := expr.parts[0].expr.Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	return sAddFrom(expr, ctx, 1, v.Get())
}

func sAddMemoOK(expr *addOrSubtractExpression, ctx *EvalContext) bool {
	if expr.constValue == nil {
		return true
	}
	v, err := sAdd(expr, ctx)
	return err == nil && vSameAny(v, expr.constValue.Get())
}

func add_pre(expr *addOrSubtractExpression, ctx, ctx2 *EvalContext) bool {
	return expr != nil && len(expr.parts) > 0 && !expr.parts[0].sub &&
		vForallInt(0, len(expr.parts), func(i int) bool { return expr.parts[i].expr != nil }) &&
		sAddMemoOK(expr, ctx) && sAddMemoOK(expr, ctx2)
}

func add_inv_first(first bool, i int) bool { return first == (i == 0) }

func add_inv_fold(expr *addOrSubtractExpression, ctx *EvalContext, i int, ret RValue) bool {
	if i == 0 {
		return true
	}
	v1, e1 := sAdd(expr, ctx)
	v2, e2 := sAddFrom(expr, ctx, i, ret.Value)
	return vSameAny(v1, v2) && vSameErr(e1, e2)
}

func add_inv_const(expr *addOrSubtractExpression, ctx2 *EvalContext, i int, ret RValue) bool {
	if i == 0 || !ret.Const {
		return true
	}
	v1, e1 := sAdd(expr, ctx2)
	v2, e2 := sAddFrom(expr, ctx2, i, ret.Value)
	return vSameAny(v1, v2) && vSameErr(e1, e2)
}

func add_post_value(expr *addOrSubtractExpression, ctx *EvalContext, res Value, err error) bool {
	v, e := sAdd(expr, ctx)
	if e != nil {
		return err != nil
	}
	return err == nil && vSameAny(res.Get(), v)
}

func add_post_memo(expr *addOrSubtractExpression, ctx2 *EvalContext) bool {
	return sAddMemoOK(expr, ctx2)
}

func add_post_const(expr *addOrSubtractExpression, ctx2 *EvalContext, res Value, err error) bool {
	if err != nil || !res.IsConst() {
		return true
	}
	v, e := sAdd(expr, ctx2)
	return e == nil && vSameAny(v, res.Get())
}

// the concatenation of two lists
//@ unit addlistlist target=addlistlist props=C02 args=a,b res=res

func addlistlist_inv_first(a, b []Value, i int, loc1 []Value) bool {
	return vForallInt(0, i, func(j int) bool { return vSameValue(loc1[j], a[j]) })
}

func addlistlist_inv_len(a, b []Value, i int, loc1 []Value) bool {
	return len(loc1) == i && i <= len(a)
}

func addlistlist_inv_second(a, b []Value, i int, loc1 []Value) bool {
	return len(loc1) == len(a)+i && vForallInt(0, len(a), func(j int) bool { return vSameValue(loc1[j], a[j]) }) &&
		vForallInt(0, i, func(j int) bool { return vSameValue(loc1[len(a)+j], b[j]) })
}

func addlistlist_inv_constA(a, b []Value, i int, ret RValue) bool {
	return !ret.Const || vForallInt(0, i, func(j int) bool { return a[j].IsConst() })
}

func addlistlist_inv_constB(a, b []Value, i int, ret RValue) bool {
	return !ret.Const || vForallInt(0, i, func(j int) bool { return b[j].IsConst() })
}

func addlistlist_inv_constAll(a, b []Value, ret RValue) bool {
	return !ret.Const || vForallInt(0, len(a), func(j int) bool { return a[j].IsConst() })
}

func addlistlist_post_value(a, b []Value, res RValue) bool {
	l, ok := res.Value.([]Value)
	return ok && len(l) == len(a)+len(b) &&
		vForallInt(0, len(a), func(j int) bool { return vSameValue(l[j], a[j]) }) &&
		vForallInt(0, len(b), func(j int) bool { return vSameValue(l[len(a)+j], b[j]) })
}

func addlistlist_post_const(a, b []Value, res RValue) bool {
	return !res.Const || vForallInt(0, len(a), func(j int) bool { return a[j].IsConst() }) && vForallInt(0, len(b), func(j int) bool { return b[j].IsConst() })
}

// ------------------------------------------------------------------- ^

//@ rec sPowFrom
//@ unit power target=(*powerOfExpression).Evaluate props=C03,C15 args=expr,ctx res=res,err modifies=expr.constValue only=memo:C15 only=const:C15

func sNum(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func sPowFrom(expr *powerOfExpression, ctx *EvalContext, idx int, acc interface{}) (interface{}, error) {
	if idx >= len(expr.parts) {
		return acc, nil
	}
	v, err := expr.parts[idx].Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	val := v.Get()
	if acc == nil || val == nil {
		return nil, nil
	}
	x, okx := sNum(acc)
	y, oky := sNum(val)
	if !okx || !oky {
		return nil, ErrInvalidPowerOperation
	}
	return sPowFrom(expr, ctx, idx+1, math.Pow(x, y))
}

func sPow(expr *powerOfExpression, ctx *EvalContext) (interface{}, error) {
	v, err := expr.parts[0].Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	return sPowFrom(expr, ctx, 1, v.Get())
}

func sPowMemoOK(expr *powerOfExpression, ctx *EvalContext) bool {
	if expr.constValue == nil {
		return true
	}
	v, err := sPow(expr, ctx)
	return err == nil && vSameAny(v, expr.constValue.Get())
}

func power_pre(expr *powerOfExpression, ctx, ctx2 *EvalContext) bool {
	return expr != nil && len(expr.parts) > 0 &&
		vForallInt(0, len(expr.parts), func(i int) bool { return expr.parts[i] != nil }) &&
		sPowMemoOK(expr, ctx) && sPowMemoOK(expr, ctx2)
}

func power_inv_fold(expr *powerOfExpression, ctx *EvalContext, i int, ret RValue) bool {
	v1, e1 := sPow(expr, ctx)
	v2, e2 := sPowFrom(expr, ctx, i, ret.Value)
	return i == 0 || vSameAny(v1, v2) && vSameErr(e1, e2)
}

func power_inv_const(expr *powerOfExpression, ctx2 *EvalContext, i int, ret RValue) bool {
	v1, e1 := sPow(expr, ctx2)
	v2, e2 := sPowFrom(expr, ctx2, i, ret.Value)
	return i == 0 || !ret.Const || vSameAny(v1, v2) && vSameErr(e1, e2)
}

func power_post_value(expr *powerOfExpression, ctx *EvalContext, res Value, err error) bool {
	v, e := sPow(expr, ctx)
	if e != nil {
		return err != nil
	}
	return err == nil && vSameAny(res.Get(), v)
}

func power_post_memo(expr *powerOfExpression, ctx2 *EvalContext) bool {
	return sPowMemoOK(expr, ctx2)
}

func power_post_const(expr *powerOfExpression, ctx2 *EvalContext, res Value, err error) bool {
	if err != nil || !res.IsConst() {
		return true
	}
	v, e := sPow(expr, ctx2)
	return e == nil && vSameAny(v, res.Get())
}

// ------------------------------------------------------------- unary -

//@ unit unary target=(*unaryAddOrSubtractExpression).Evaluate props=C03,C15 args=expr,ctx res=res,err modifies=expr.constValue only=memo:C15 only=const:C15

func sUnary(expr *unaryAddOrSubtractExpression, ctx *EvalContext) (interface{}, error) {
	v, err := expr.expr.Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	val := v.Get()
	if !expr.neg || val == nil {
		return val, nil
	}
	switch x := val.(type) {
	case int:
		return -x, nil
	case float64:
		return -x, nil
	}
	return nil, ErrInvalidUnaryOperation
}

func sUnaryMemoOK(expr *unaryAddOrSubtractExpression, ctx *EvalContext) bool {
	if expr.constValue == nil {
		return true
	}
	v, err := sUnary(expr, ctx)
	return err == nil && vSameAny(v, expr.constValue.Get())
}

func unary_pre(expr *unaryAddOrSubtractExpression, ctx, ctx2 *EvalContext) bool {
	return expr != nil && sUnaryMemoOK(expr, ctx) && sUnaryMemoOK(expr, ctx2)
}

func unary_post_value(expr *unaryAddOrSubtractExpression, ctx *EvalContext, res Value, err error) bool {
	v, e := sUnary(expr, ctx)
	if e != nil {
		return err != nil
	}
	return err == nil && vSameAny(res.Get(), v)
}

func unary_post_memo(expr *unaryAddOrSubtractExpression, ctx2 *EvalContext) bool {
	return sUnaryMemoOK(expr, ctx2)
}

func unary_post_const(expr *unaryAddOrSubtractExpression, ctx2 *EvalContext, res Value, err error) bool {
	if err != nil || !res.IsConst() {
		return true
	}
	v, e := sUnary(expr, ctx2)
	return e == nil && vSameAny(v, res.Get())
}
