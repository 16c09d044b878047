package opencypher

import "github.com/cloudprivacylabs/lpg/v2"

// Contracts of evaluation contexts: variables, parameters, functions.

//@ rec sGetVar sGetParameter sDotted
//@ unit getVar target=(*EvalContext).GetVar props=C13,C15 args=ctx,name res=res,err only=notConst:C15

// sGetVar is the value of the innermost binding, as a variable
func sGetVar(ctx *EvalContext, name string) (Value, error) {
	v, ok := ctx.variables[name]
	if ok {
		if rv, isR := v.(RValue); isR {
			return RValue{Value: rv.Value}, nil
		}
		return v, nil
	}
	if ctx.parent == nil {
		return nil, ErrUnknownVariable{Name: name}
	}
	return sGetVar(ctx.parent, name)
}

func getVar_pre(ctx *EvalContext) bool { return ctx != nil }

func getVar_inv_scope(ctx *EvalContext, name string, c *EvalContext) bool {
	if c == nil {
		return false
	}
	v1, e1 := sGetVar(ctx, name)
	v2, e2 := sGetVar(c, name)
	return vSameAny(v1, v2) && vSameAny(e1, e2)
}

func getVar_post_nearest(ctx *EvalContext, name string, res Value, err error) bool {
	v, e := sGetVar(ctx, name)
	if e != nil {
		return vSameAny(err, e)
	}
	return err == nil && res != nil && vSameValue(res, v)
}

// post_result clauses are also known to callers that see no other clause
func getVar_post_result(res Value, err error) bool { return err != nil || res != nil }

//@ unit getParameter target=(*EvalContext).GetParameter props=C13 args=ctx,key res=res,err

func sGetParameter(ctx *EvalContext, key string) (Value, error) {
	if v, ok := ctx.parameters[key]; ok {
		return v, nil
	}
	if ctx.parent == nil {
		return nil, ErrUnknownParameter{Key: key}
	}
	return sGetParameter(ctx.parent, key)
}

func getParameter_pre(ctx *EvalContext) bool { return ctx != nil }

func getParameter_inv_scope(ctx *EvalContext, key string, c *EvalContext) bool {
	if c == nil {
		return false
	}
	v1, e1 := sGetParameter(ctx, key)
	v2, e2 := sGetParameter(c, key)
	return vSameAny(v1, v2) && vSameAny(e1, e2)
}

func getParameter_post_nearest(ctx *EvalContext, key string, res Value, err error) bool {
	v, e := sGetParameter(ctx, key)
	if e != nil {
		return vSameAny(err, e)
	}
	return err == nil && vSameAny(res, v)
}

//@ unit getFunction target=(*EvalContext).GetFunction props=C13,C18 args=ctx,name res=res,err

// sDotted is the first n parts of a name, with dots between them
func sDotted(name []string, n int) string {
	if n <= 0 {
		return ""
	}
	if n == 1 {
		return name[0]
	}
	return sDotted(name, n-1) + "." + name[n-1]
}

func getFunction_pre(ctx *EvalContext) bool { return ctx != nil }

func getFunction_inv_name(name []string, i int, s string) bool {
	return s == sDotted(name, i)
}

func getFunction_post_registered(ctx *EvalContext, name []string, res Function, err error) bool {
	f, ok := ctx.funcMap[sDotted(name, len(name))]
	if !ok {
		return vSameAny(err, ErrUnknownFunction{Name: sDotted(name, len(name))})
	}
	return err == nil && vSameFunction(res, f)
}

//@ unit setVar target=(*EvalContext).SetVar props=C13 args=ctx,name,value modifies=map:ctx.variables

func setVar_pre(ctx *EvalContext, value Value) bool {
	return ctx != nil && ctx.variables != nil && value != nil
}

func setVar_post_binds(ctx *EvalContext, name string, value Value, k string) bool {
	v, ok := ctx.variables[k]
	if k == name {
		return ok && vSameValue(v, value)
	}
	return sUnchanged(ctx, k, v, ok)
}

// sUnchanged: v and ok are what k was bound to before the call
func sUnchanged(ctx *EvalContext, k string, v Value, ok bool) bool {
	return vOld(func() bool {
		v0, ok0 := ctx.variables[k]
		return ok0 == ok && (!ok || vSameAny(v, v0))
	})
}

//@ unit setParameter target=(*EvalContext).SetParameter props=C13 args=ctx,key,value res=res modifies=map:ctx.parameters

func setParameter_pre(ctx *EvalContext, value Value) bool {
	return ctx != nil && ctx.parameters != nil && value != nil
}

func setParameter_post_binds(ctx *EvalContext, key string, value Value, k string, res *EvalContext) bool {
	v, ok := ctx.parameters[k]
	if res != ctx {
		return false
	}
	if k == key {
		return ok && vSameValue(v, value)
	}
	return vOld(func() bool {
		v0, ok0 := ctx.parameters[k]
		return ok0 == ok && (!ok || vSameAny(v, v0))
	})
}

//@ unit removeVar target=(*EvalContext).RemoveVar props=C13 args=ctx,name modifies=map:ctx.variables

func removeVar_pre(ctx *EvalContext) bool { return ctx != nil }

func removeVar_post_unbinds(ctx *EvalContext, name string, k string) bool {
	v, ok := ctx.variables[k]
	if k == name {
		return !ok
	}
	return sUnchanged(ctx, k, v, ok)
}

//@ unit setVars target=(*EvalContext).SetVars props=C13 args=ctx,m modifies=map:ctx.variables

// the two maps are different ones, and no name is empty
func setVars_pre(ctx *EvalContext, m map[string]Value) bool {
	_, empty := m[""]
	return ctx != nil && ctx.variables != nil && !vSameMap(ctx.variables, m) && !empty
}

// sNamed: names made for unnamed parts of patterns start with a digit
func sNamed(k string) bool { return k != "" && !(k[0] >= '0' && k[0] <= '9') }

func setVars_inv_bound(ctx *EvalContext, m map[string]Value, seen vSet) bool {
	return vForallStr(func(k string) bool {
		v, ok := ctx.variables[k]
		w, in := m[k]
		if in && sNamed(k) && vHas(seen, k) {
			return ok && vSameAny(v, w)
		}
		return sUnchanged(ctx, k, v, ok)
	})
}

func setVars_inv_m(ctx *EvalContext, m map[string]Value) bool {
	return vForallStr(func(k string) bool {
		w, in := m[k]
		return vOld(func() bool {
			w0, in0 := m[k]
			return in == in0 && vSameAny(w, w0)
		})
	})
}

func setVars_post_binds(ctx *EvalContext, m map[string]Value, k string) bool {
	v, ok := ctx.variables[k]
	w, in := m[k]
	if in && sNamed(k) {
		return ok && vSameAny(v, w)
	}
	return sUnchanged(ctx, k, v, ok)
}

//@ unit subContext target=(*EvalContext).SubContext props=C13 args=ctx res=res

func subContext_pre(ctx *EvalContext) bool { return ctx != nil }

func subContext_post_inner(ctx *EvalContext, k string, res *EvalContext) bool {
	if res == nil || res.parent != ctx || !vSameMap(res.funcMap, ctx.funcMap) || res.graph != ctx.graph {
		return false
	}
	if !vFresh(res) || !vFresh(res.variables) || !vFresh(res.parameters) || vSameMap(res.variables, res.parameters) || res.variables == nil || res.parameters == nil {
		return false
	}
	_, v := res.variables[k]
	_, p := res.parameters[k]
	return !v && !p
}

//@ unit newContext target=NewEvalContext props=C13 args=graph res=res

func newContext_post_empty(graph *lpg.Graph, k string, res *EvalContext) bool {
	if res == nil || res.parent != nil || res.graph != graph || !vSameMap(res.funcMap, globalFuncs) {
		return false
	}
	if !vFresh(res) || !vFresh(res.variables) || !vFresh(res.parameters) || vSameMap(res.variables, res.parameters) || res.variables == nil || res.parameters == nil {
		return false
	}
	_, v := res.variables[k]
	_, p := res.parameters[k]
	return !v && !p
}

//@ unit variable target=(variable).Evaluate props=C13,C15 args=expr,ctx res=res,err calls=getVar

func variable_pre(ctx *EvalContext) bool { return ctx != nil }

func variable_post_value(expr variable, ctx *EvalContext, res Value, err error) bool {
	v, e := sGetVar(ctx, string(expr))
	if e != nil {
		return vSameAny(err, e)
	}
	return err == nil && vSameAny(res.Get(), v.Get()) && !res.IsConst()
}

//@ unit parameter target=(Parameter).Evaluate props=C13 args=expr,ctx res=res,err calls=getParameter

func parameter_pre(ctx *EvalContext) bool { return ctx != nil }

func parameter_post_value(expr Parameter, ctx *EvalContext, res Value, err error) bool {
	v, e := sGetParameter(ctx, string(expr))
	if e != nil {
		return vSameAny(err, e)
	}
	return err == nil && vSameAny(res, v)
}
