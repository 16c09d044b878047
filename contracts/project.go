package opencypher

import "strconv"

// Contracts of RETURN.

//@ rec sProjErr sProjHas sProjVal

func sProjName(item projectionItem, i int) string {
	if item.variable != nil {
		return string(*item.variable)
	}
	return strconv.Itoa(i + 1)
}

// sProjErr: the first error of the items from i on
func sProjErr(items []projectionItem, ctx *EvalContext, i int) error {
	if i >= len(items) {
		return nil
	}
	if _, err := items[i].expr.Evaluate(ctx); err != nil {
		return err
	}
	return sProjErr(items, ctx, i+1)
}

// sProjHas: one of the first n items has the name
func sProjHas(items []projectionItem, n int, s string) bool {
	if n <= 0 {
		return false
	}
	r := sProjHas(items, n-1, s)
	return r || sProjName(items[n-1], n-1) == s
}

// sProjVal: the value of the last of the first n items that has the name
func sProjVal(items []projectionItem, ctx *EvalContext, n int, s string) Value {
	if n <= 0 {
		return nil
	}
	r := sProjVal(items, ctx, n-1, s)
	v, _ := items[n-1].expr.Evaluate(ctx)
	if sProjName(items[n-1], n-1) == s {
		return v
	}
	return r
}

//@ unit project target=(projectionItems).Project props=C12 args=prj,ctx,values res=res,err modifies=map:ctx.variables writesctx=1

func project_pre(prj projectionItems, ctx *EvalContext, values map[string]Value) bool {
	return ctx != nil && ctx.variables != nil && !vSameMap(ctx.variables, values)
}

func project_pre_items(prj projectionItems) bool {
	return vForallInt(0, len(prj.items), func(i int) bool { return prj.items[i].expr != nil })
}

// RETURN * keeps the row
func project_post_all(prj projectionItems, values map[string]Value, gs string, res map[string]Value, err error) bool {
	if !prj.all {
		return true
	}
	v, ok := res[gs]
	w, in := values[gs]
	return err == nil && vFresh(res) && ok == in && (!ok || vSameAny(v, w))
}

func project_inv_copied(values, ret map[string]Value, gs string, seen vSet) bool {
	v, ok := ret[gs]
	w, in := values[gs]
	return ok == (in && vHas(seen, gs)) && (!ok || vSameAny(v, w))
}

// otherwise the variables are those of the row
func project_post_vars(prj projectionItems, ctx *EvalContext, values map[string]Value, gs string) bool {
	v, ok := ctx.variables[gs]
	w, in := values[gs]
	if in && !prj.all {
		return ok && vSameAny(v, w)
	}
	return sUnchanged(ctx, gs, v, ok)
}

func project_inv_bound(ctx *EvalContext, values map[string]Value, gs string, seen vSet) bool {
	v, ok := ctx.variables[gs]
	w, in := values[gs]
	if in && vHas(seen, gs) {
		return ok && vSameAny(v, w)
	}
	return sUnchanged(ctx, gs, v, ok)
}

func project_inv_values(values map[string]Value, gs string) bool {
	w, in := values[gs]
	return vOld(func() bool {
		w0, in0 := values[gs]
		return in == in0 && vSameAny(w, w0)
	})
}

// and the columns are the values of the items
func project_post_items(prj projectionItems, ctx *EvalContext, gs string, res map[string]Value, err error) bool {
	if prj.all {
		return true
	}
	e := sProjErr(prj.items, ctx, 0)
	if e != nil {
		return vSameErr(err, e) && res == nil
	}
	v, ok := res[gs]
	return err == nil && vFresh(res) && ok == sProjHas(prj.items, len(prj.items), gs) && (!ok || vSameValue(v, sProjVal(prj.items, ctx, len(prj.items), gs)))
}

func project_inv_items(prj projectionItems, ctx *EvalContext, ret map[string]Value, gs string, i int) bool {
	v, ok := ret[gs]
	return vSameErr(sProjErr(prj.items, ctx, 0), sProjErr(prj.items, ctx, i+1)) &&
		ok == sProjHas(prj.items, i+1, gs) && (!ok || vSameValue(v, sProjVal(prj.items, ctx, i+1, gs)))
}

//@ unit projected target=(projectionItems).getProjectedNames props=C12 args=prj res=res

func projected_post_names(prj projectionItems, gi int, res []string) bool {
	return vFresh(res) && len(res) == len(prj.items) && (gi < 0 || gi >= len(res) || res[gi] == sProjName(prj.items[gi], gi))
}

func projected_inv_names(prj projectionItems, gi int, ret []string, i int) bool {
	return len(ret) == i+1 && (gi < 0 || gi >= len(ret) || ret[gi] == sProjName(prj.items[gi], gi))
}
