package opencypher

import (
	"math"
	"strconv"
	"strings"
	"unicode"
)

// Contracts of the built-in functions. The number of arguments and that
// they are values is checked by functionInvocation.Evaluate (unit call).

func sArgs(args []Value, min, max int) bool {
	return len(args) >= min && len(args) <= max && vForallInt(0, len(args), func(i int) bool { return args[i] != nil })
}

// sIs tells whether a function gave v, or failed when it has to
func sIs(v interface{}, fail bool, res Value, err error) bool {
	if fail {
		return err != nil
	}
	return err == nil && res != nil && vSameAny(res.Get(), v)
}

// ---------------------------------------------------------------- strings

//@ unit left target=leftFunc props=C08 args=ctx,args res=res,err
//@ unit right target=rightFunc props=C08 args=ctx,args res=res,err
//@ unit substring target=substringFunc props=C08 args=ctx,args res=res,err
//@ unit split target=splitFunc props=C08 args=ctx,args res=res,err
//@ unit trim target=trimFunc props=C08 args=ctx,args res=res,err
//@ unit ltrim target=ltrimFunc props=C08 args=ctx,args res=res,err
//@ unit rtrim target=rtrimFunc props=C08 args=ctx,args res=res,err
//@ unit size target=sizeFunc props=C08 args=ctx,args res=res,err

func left_pre(args []Value) bool      { return sArgs(args, 2, 2) }
func right_pre(args []Value) bool     { return sArgs(args, 2, 2) }
func substring_pre(args []Value) bool { return sArgs(args, 2, 3) }
func split_pre(args []Value) bool     { return sArgs(args, 2, 2) }
func trim_pre(args []Value) bool      { return sArgs(args, 1, 1) }
func ltrim_pre(args []Value) bool     { return sArgs(args, 1, 1) }
func rtrim_pre(args []Value) bool     { return sArgs(args, 1, 1) }
func size_pre(args []Value) bool      { return sArgs(args, 1, 1) }

func left_post_value(args []Value, res Value, err error) bool {
	if args[0].Get() == nil || args[1].Get() == nil {
		return sIs(nil, false, res, err)
	}
	s, ok := args[0].Get().(string)
	n, ok2 := args[1].Get().(int)
	if !ok || !ok2 {
		return sIs(nil, true, res, err)
	}
	if n < 0 {
		n = 0
	}
	if n > len(s) {
		n = len(s)
	}
	return sIs(s[:n], false, res, err)
}

func right_post_value(args []Value, res Value, err error) bool {
	if args[0].Get() == nil || args[1].Get() == nil {
		return sIs(nil, false, res, err)
	}
	s, ok := args[0].Get().(string)
	n, ok2 := args[1].Get().(int)
	if !ok || !ok2 {
		return sIs(nil, true, res, err)
	}
	if n < 0 {
		n = 0
	}
	if n > len(s) {
		n = len(s)
	}
	return sIs(s[len(s)-n:], false, res, err)
}

func substring_post_value(args []Value, res Value, err error) bool {
	if args[0].Get() == nil || args[1].Get() == nil {
		return sIs(nil, false, res, err)
	}
	s, ok := args[0].Get().(string)
	start, ok2 := args[1].Get().(int)
	if !ok || !ok2 {
		return sIs(nil, true, res, err)
	}
	n := len(s)
	if len(args) == 3 {
		if args[2].Get() == nil {
			return sIs(nil, false, res, err)
		}
		if n, ok = args[2].Get().(int); !ok {
			return sIs(nil, true, res, err)
		}
		if n < 0 {
			return sIs(nil, false, res, err)
		}
	}
	if start < 0 || start > len(s) {
		return sIs("", false, res, err)
	}
	if n > len(s)-start {
		n = len(s) - start
	}
	return sIs(s[start:start+n], false, res, err)
}

func sStr1(args []Value) (s string, null, ok bool) {
	if args[0].Get() == nil {
		return "", true, true
	}
	s, ok = args[0].Get().(string)
	return s, false, ok
}

func trim_post_value(args []Value, res Value, err error) bool {
	s, null, ok := sStr1(args)
	if null {
		return sIs(nil, false, res, err)
	}
	return sIs(strings.TrimSpace(s), !ok, res, err)
}

func ltrim_post_value(args []Value, res Value, err error) bool {
	s, null, ok := sStr1(args)
	if null {
		return sIs(nil, false, res, err)
	}
	return sIs(strings.TrimLeftFunc(s, unicode.IsSpace), !ok, res, err)
}

func rtrim_post_value(args []Value, res Value, err error) bool {
	s, null, ok := sStr1(args)
	if null {
		return sIs(nil, false, res, err)
	}
	return sIs(strings.TrimRightFunc(s, unicode.IsSpace), !ok, res, err)
}

func size_post_value(args []Value, res Value, err error) bool {
	switch v := args[0].Get().(type) {
	case []Value:
		return sIs(len(v), false, res, err)
	case string:
		return sIs(len(v), false, res, err)
	}
	return sIs(nil, false, res, err)
}

func sSplit(args []Value) (parts []string, null, ok bool) {
	if args[0].Get() == nil {
		return nil, true, true
	}
	s, ok := args[0].Get().(string)
	if !ok {
		return nil, false, false
	}
	if args[1].Get() == nil {
		return nil, true, true
	}
	d, ok := args[1].Get().(string)
	if !ok {
		return nil, false, false
	}
	return strings.Split(s, d), false, true
}

func split_inv_copy(args []Value, i int, out []Value) bool {
	parts, null, ok := sSplit(args)
	return null || !ok || len(out) == i && vForallInt(0, i, func(j int) bool { return vSameAny(out[j].Get(), parts[j]) })
}

func split_post_value(args []Value, res Value, err error) bool {
	parts, null, ok := sSplit(args)
	if null {
		return sIs(nil, false, res, err)
	}
	if !ok {
		return err != nil
	}
	if err != nil {
		return false
	}
	l, ok := res.Get().([]Value)
	return ok && len(l) == len(parts) && vForallInt(0, len(parts), func(j int) bool { return vSameAny(l[j].Get(), parts[j]) })
}

// ------------------------------------------------------------ conversions

//@ unit toInteger target=toIntegerFunc props=C09 args=ctx,args res=res,err
//@ unit toIntegerOrNull target=toIntegerOrNullFunc props=C09 args=ctx,args res=res,err
//@ unit toFloat target=toFloatFunc props=C09 args=ctx,args res=res,err
//@ unit toFloatOrNull target=toFloatOrNullFunc props=C09 args=ctx,args res=res,err

func toInteger_pre(args []Value) bool       { return sArgs(args, 1, 1) }
func toIntegerOrNull_pre(args []Value) bool { return sArgs(args, 1, 1) }
func toFloat_pre(args []Value) bool         { return sArgs(args, 1, 1) }
func toFloatOrNull_pre(args []Value) bool   { return sArgs(args, 1, 1) }

// sToInteger is the integer a value denotes
func sToInteger(v interface{}) (int, bool) {
	switch x := v.(type) {
	case int:
		return x, true
	case float64:
		return int(x), true
	case bool:
		if x {
			return 1, true
		}
		return 0, true
	case string:
		i, err := strconv.Atoi(x)
		return i, err == nil
	}
	return 0, false
}

// sToFloat is the number a value denotes
func sToFloat(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case float64:
		return x, true
	case string:
		f, err := strconv.ParseFloat(x, 64)
		return f, err == nil
	}
	return 0, false
}

func toInteger_post_value(args []Value, res Value, err error) bool {
	v := args[0].Get()
	if v == nil {
		return sIs(nil, false, res, err)
	}
	i, ok := sToInteger(v)
	return sIs(i, !ok, res, err)
}

func toIntegerOrNull_post_value(args []Value, res Value, err error) bool {
	i, ok := sToInteger(args[0].Get())
	if !ok {
		return sIs(nil, false, res, err)
	}
	return sIs(i, false, res, err)
}

func toFloat_post_value(args []Value, res Value, err error) bool {
	v := args[0].Get()
	if v == nil {
		return sIs(nil, false, res, err)
	}
	f, ok := sToFloat(v)
	return sIs(f, !ok, res, err)
}

func toFloatOrNull_post_value(args []Value, res Value, err error) bool {
	f, ok := sToFloat(args[0].Get())
	if !ok {
		return sIs(nil, false, res, err)
	}
	return sIs(f, false, res, err)
}

// ------------------------------------------------------------------ range

//@ unit range target=rangeFunc props=C10 args=ctx,args res=res,err

func range_pre(args []Value) bool { return sArgs(args, 2, 3) }

// sRangeArgs are start, end and step
func sRangeArgs(args []Value) (start, end, step int, ok bool) {
	start, ok = args[0].Get().(int)
	if !ok {
		return
	}
	end, ok = args[1].Get().(int)
	if !ok {
		return
	}
	step = 1
	if len(args) == 3 {
		step, ok = args[2].Get().(int)
	}
	return
}

// sBefore: at comes before end when walking by step
func sBefore(at, end, step int) bool {
	return step > 0 && at < end || step < 0 && at > end
}

// sNext is the value after at, if there is one
func sNext(at, step int) (next int, ok bool) {
	if step > 0 && at > math.MaxInt-step || step < 0 && at < math.MinInt-step {
		return 0, false
	}
	return at + step, true
}

// sProgression: l is start, start+step, ..., all before end
func sProgression(l []Value, start, end, step int) bool {
	return (len(l) == 0 || vSameAny(l[0].Get(), start)) &&
		vForallInt(0, len(l), func(i int) bool {
			at, ok := l[i].Get().(int)
			return ok && sBefore(at, end, step)
		}) &&
		vForallInt(1, len(l), func(i int) bool {
			at, _ := l[i-1].Get().(int)
			next, ok := sNext(at, step)
			return ok && vSameAny(l[i].Get(), next)
		})
}

func range_inv_progression(args []Value, arr []Value) bool {
	start, end, step, ok := sRangeArgs(args)
	return ok && sProgression(arr, start, end, step)
}

func range_inv_next(args []Value, at int, arr []Value) bool {
	start, _, step, ok := sRangeArgs(args)
	if !ok {
		return false
	}
	if len(arr) == 0 {
		return at == start
	}
	last, _ := arr[len(arr)-1].Get().(int)
	next, ok := sNext(last, step)
	return ok && at == next
}

// the list has all of the progression: nothing follows its last value
func range_post_value(args []Value, res Value, err error) bool {
	start, end, step, ok := sRangeArgs(args)
	if !ok {
		return err != nil
	}
	if err != nil {
		return false
	}
	l, ok := res.Get().([]Value)
	if !ok || !sProgression(l, start, end, step) {
		return false
	}
	if len(l) == 0 {
		return !sBefore(start, end, step)
	}
	last, _ := l[len(l)-1].Get().(int)
	next, ok := sNext(last, step)
	return !ok || !sBefore(next, end, step)
}
