package opencypher

// Contracts of CASE, of function calls, and of literals.

// ------------------------------------------------------------------- CASE

//@ rec sCaseFrom
//@ unit case target=(caseClause).Evaluate props=C14,C15 args=expr,ctx res=res,err only=const:C15

// sCaseFrom is the result of the alternatives from idx on
func sCaseFrom(expr caseClause, ctx *EvalContext, test interface{}, idx int) (Value, error) {
	if idx >= len(expr.alternatives) {
		if expr.def == nil {
			return RValue{}, nil
		}
		return expr.def.Evaluate(ctx)
	}
	v, err := expr.alternatives[idx].when.Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	when := v.Get()
	if expr.test != nil {
		if test == nil || when == nil {
			return sCaseFrom(expr, ctx, test, idx+1)
		}
		c, err := comparePrimitiveValues(test, when)
		if err != nil {
			return nil, err
		}
		if c == 0 {
			return expr.alternatives[idx].then.Evaluate(ctx)
		}
		return sCaseFrom(expr, ctx, test, idx+1)
	}
	if when == nil || when == false {
		return sCaseFrom(expr, ctx, test, idx+1)
	}
	if when != true {
		return nil, ErrNotABooleanExpression
	}
	return expr.alternatives[idx].then.Evaluate(ctx)
}

func sCase(expr caseClause, ctx *EvalContext) (Value, error) {
	if expr.test == nil {
		return sCaseFrom(expr, ctx, nil, 0)
	}
	v, err := expr.test.Evaluate(ctx)
	if err != nil {
		return nil, err
	}
	return sCaseFrom(expr, ctx, v.Get(), 0)
}

func case_pre(expr caseClause, ctx *EvalContext) bool {
	return vForallInt(0, len(expr.alternatives), func(i int) bool {
		return expr.alternatives[i].when != nil && expr.alternatives[i].then != nil
	})
}

func case_inv_from(expr caseClause, ctx *EvalContext, i int) bool {
	v1, e1 := sCase(expr, ctx)
	var t interface{}
	if expr.test != nil {
		v, _ := expr.test.Evaluate(ctx)
		t = v.Get()
	}
	v2, e2 := sCaseFrom(expr, ctx, t, i)
	return vSameAny(v1, v2) && vSameErr(e1, e2)
}

func case_post_value(expr caseClause, ctx *EvalContext, res Value, err error) bool {
	v, e := sCase(expr, ctx)
	if e != nil {
		return err != nil
	}
	return err == nil && vSameAny(res.Get(), v.Get())
}

// --------------------------------------------------------- function calls

//@ unit call target=(*functionInvocation).Evaluate props=C18,C15 args=expr,ctx res=res,err modifies=expr.function,expr.constArgs,expr.constArgValues reads=(*EvalContext).GetFunction only=memo:C15 only=memo2:C15

// the arguments can be evaluated, and what is remembered of them is what
// they are. names are the parts of the name of the function.
func call_pre(expr *functionInvocation, ctx, ctx2 *EvalContext, names []string, k int) bool {
	if expr == nil {
		return false
	}
	if f, err := ctx.GetFunction(names); err == nil && f.ValueFunc == nil && f.Func == nil {
		return false
	}
	return vForallInt(0, len(expr.args), func(i int) bool { return expr.args[i] != nil }) &&
		len(names) == len(expr.name) && vForallInt(0, len(names), func(i int) bool { return names[i] == string(expr.name[i]) }) &&
		sCallMemo(expr, ctx) && sCallMemo(expr, ctx2) && sCallFunction(expr, ctx, names)
}

// sCallFunction: the remembered function is the one of that name
func sCallFunction(expr *functionInvocation, ctx *EvalContext, names []string) bool {
	if expr.function == nil {
		return true
	}
	f, err := ctx.GetFunction(names)
	return err == nil && vSameFunction(*expr.function, f)
}

// sCallMemo: the remembered arguments are those of every evaluation
func sCallMemo(expr *functionInvocation, ctx *EvalContext) bool {
	return expr.constArgs == nil ||
		len(expr.constArgs) == len(expr.args) && len(expr.constArgValues) == len(expr.args) &&
			vForallInt(0, len(expr.args), func(i int) bool {
				v, err := expr.args[i].Evaluate(ctx)
				return err == nil && v.IsConst() && vSameAny(expr.constArgs[i], v) && vSameValue(expr.constArgValues[i], v)
			})
}

// sArgFails: one of the arguments before n fails
func sArgsOK(expr *functionInvocation, ctx *EvalContext, n int) bool {
	return vForallInt(0, n, func(i int) bool {
		_, err := expr.args[i].Evaluate(ctx)
		return err == nil
	})
}

func call_inv_names(expr *functionInvocation, i int, fname []string) bool {
	return len(fname) == i && vForallInt(0, i, func(j int) bool { return fname[j] == string(expr.name[j]) })
}

func call_inv_args(expr *functionInvocation, ctx *EvalContext, i int, args []Evaluatable) bool {
	return len(args) == i && vForallInt(0, i, func(j int) bool {
		v, err := expr.args[j].Evaluate(ctx)
		return err == nil && vSameAny(args[j], v)
	})
}

func call_inv_values(expr *functionInvocation, ctx *EvalContext, i int, args []Value) bool {
	return len(args) == i && vForallInt(0, i, func(j int) bool {
		v, err := expr.args[j].Evaluate(ctx)
		return err == nil && vSameValue(args[j], v)
	})
}

func call_inv_const(args []Value, constant bool) bool {
	return !constant || vForallInt(0, len(args), func(j int) bool { return args[j].IsConst() })
}

// the function is applied to the values of the arguments (vals, exprs), or
// the call fails: the function is not known, the number of arguments is
// wrong, or an argument fails
func call_post_value(expr *functionInvocation, ctx *EvalContext, names []string, vals []Value, exprs []Evaluatable, k int, res Value, err error) bool {
	return vOld(func() bool {
		f, ferr := ctx.GetFunction(names)
		if ferr != nil {
			return err != nil
		}
		if len(expr.args) < f.MinArgs || f.MaxArgs != -1 && len(expr.args) > f.MaxArgs {
			return err != nil
		}
		if 0 <= k && k < len(expr.args) {
			if _, e := expr.args[k].Evaluate(ctx); e != nil {
				return err != nil
			}
		}
		if !sArgsOK(expr, ctx, len(expr.args)) {
			return true
		}
		if len(vals) != len(expr.args) || len(exprs) != len(expr.args) || !vForallInt(0, len(vals), func(i int) bool {
			v, _ := expr.args[i].Evaluate(ctx)
			return vSameValue(vals[i], v) && vSameAny(exprs[i], v)
		}) {
			return true
		}
		if f.ValueFunc != nil {
			v, e := f.ValueFunc(ctx, vals)
			return vSameAny(res, v) && vSameAny(err, e)
		}
		if f.Func == nil {
			return true
		}
		v, e := f.Func(ctx, exprs)
		return vSameAny(res, v) && vSameAny(err, e)
	})
}

func call_post_memo(expr *functionInvocation, ctx2 *EvalContext) bool { return sCallMemo(expr, ctx2) }

func call_post_memo2(expr *functionInvocation, ctx *EvalContext) bool {
	return sCallMemo(expr, ctx)
}

func call_post_function(expr *functionInvocation, ctx *EvalContext, names []string) bool {
	if expr.function == nil {
		return true
	}
	now := *expr.function
	return vOld(func() bool {
		f, err := ctx.GetFunction(names)
		return err == nil && vSameFunction(now, f)
	})
}
