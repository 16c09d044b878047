package opencypher

import "github.com/cloudprivacylabs/lpg/v2"

// Contracts of literals and of property access.

//@ rec sProps sListFails sMapFails sMapAt
//@ unit intLit target=(intLiteral).Evaluate props=C19 args=expr,ctx res=res,err
//@ unit boolLit target=(booleanLiteral).Evaluate props=C19 args=expr,ctx res=res,err
//@ unit doubleLit target=(doubleLiteral).Evaluate props=C19 args=expr,ctx res=res,err
//@ unit stringLit target=(stringLiteral).Evaluate props=C19 args=expr,ctx res=res,err
//@ unit nullLit target=(nullLiteral).Evaluate props=C19 args=expr,ctx res=res,err

func intLit_post_value(expr intLiteral, res Value, err error) bool {
	return err == nil && vSameAny(res.Get(), int(expr))
}

func boolLit_post_value(expr booleanLiteral, res Value, err error) bool {
	return err == nil && vSameAny(res.Get(), bool(expr))
}

func doubleLit_post_value(expr doubleLiteral, res Value, err error) bool {
	return err == nil && vSameAny(res.Get(), float64(expr))
}

func stringLit_post_value(expr stringLiteral, res Value, err error) bool {
	return err == nil && vSameAny(res.Get(), string(expr))
}

func nullLit_post_value(expr nullLiteral, res Value, err error) bool {
	return err == nil && res.Get() == nil
}

// ------------------------------------------------------------------ lists

//@ unit list target=(*listLiteral).Evaluate props=C19,C15 args=expr,ctx res=res,err modifies=expr.constValue only=memo:C15 only=const:C15

// sListFails: an element from idx on fails
func sListFails(expr *listLiteral, ctx *EvalContext, idx int) bool {
	if idx >= len(expr.values) {
		return false
	}
	if _, err := expr.values[idx].Evaluate(ctx); err != nil {
		return true
	}
	return sListFails(expr, ctx, idx+1)
}

// sListIs: v is the list of the elements
func sListIs(expr *listLiteral, ctx *EvalContext, v Value) bool {
	l, ok := v.Get().([]Value)
	return ok && len(l) == len(expr.values) && vForallInt(0, len(l), func(i int) bool {
		w, err := expr.values[i].Evaluate(ctx)
		return err == nil && vSameValue(l[i], w)
	})
}

func sListConst(v Value) bool {
	l, ok := v.Get().([]Value)
	return ok && v.IsConst() && vForallInt(0, len(l), func(i int) bool { return l[i].IsConst() })
}

func list_pre(expr *listLiteral, ctx, ctx2 *EvalContext) bool {
	return expr != nil && vForallInt(0, len(expr.values), func(i int) bool { return expr.values[i] != nil }) &&
		(expr.constValue == nil || sListIs(expr, ctx, expr.constValue) && sListIs(expr, ctx2, expr.constValue) && sListConst(expr.constValue) && !sListFails(expr, ctx, 0))
}

func list_inv_fails(expr *listLiteral, ctx *EvalContext, i int) bool {
	return sListFails(expr, ctx, 0) == sListFails(expr, ctx, i)
}

func list_inv_elements(expr *listLiteral, ctx *EvalContext, i int, ret []Value) bool {
	return len(ret) == i && vForallInt(0, i, func(j int) bool {
		w, err := expr.values[j].Evaluate(ctx)
		return err == nil && vSameValue(ret[j], w)
	})
}

func list_inv_const(ret []Value, val RValue) bool {
	return !val.Const || vForallInt(0, len(ret), func(i int) bool { return ret[i].IsConst() })
}

func list_post_value(expr *listLiteral, ctx *EvalContext, res Value, err error) bool {
	if sListFails(expr, ctx, 0) {
		return err != nil
	}
	return err == nil && sListIs(expr, ctx, res)
}

func list_post_const(expr *listLiteral, ctx2 *EvalContext, res Value, err error) bool {
	return err != nil || !res.IsConst() || sListIs(expr, ctx2, res) && sListConst(res)
}

func list_post_memo(expr *listLiteral, ctx, ctx2 *EvalContext) bool {
	return expr.constValue == nil || sListIs(expr, ctx, expr.constValue) && sListIs(expr, ctx2, expr.constValue) && sListConst(expr.constValue)
}

// ------------------------------------------------------------------- maps

//@ unit map target=(*mapLiteral).Evaluate props=C19,C15 args=expr,ctx res=res,err modifies=expr.constValue only=memo:C15 only=const:C15

// sMapFails: an entry from idx on fails
func sMapFails(expr *mapLiteral, ctx *EvalContext, idx int) bool {
	if idx >= len(expr.keyValues) {
		return false
	}
	if len(expr.keyValues[idx].key) == 0 {
		return true
	}
	if _, err := expr.keyValues[idx].value.Evaluate(ctx); err != nil {
		return true
	}
	return sMapFails(expr, ctx, idx+1)
}

// sMapAt is the value of key k in the first n entries: the last one counts
func sMapAt(expr *mapLiteral, ctx *EvalContext, k string, n int) (Value, bool) {
	if n <= 0 {
		return nil, false
	}
	if expr.keyValues[n-1].key == k {
		v, _ := expr.keyValues[n-1].value.Evaluate(ctx)
		return v, true
	}
	return sMapAt(expr, ctx, k, n-1)
}

// sMapIs: v is a map with the value of key k
func sMapIs(expr *mapLiteral, ctx *EvalContext, k string, v Value) bool {
	m, ok := v.Get().(map[string]Value)
	if !ok {
		return false
	}
	w, has := m[k]
	x, want := sMapAt(expr, ctx, k, len(expr.keyValues))
	return has == want && (!has || vSameValue(w, x))
}

func map_pre(expr *mapLiteral, ctx, ctx2 *EvalContext, k string) bool {
	return expr != nil && vForallInt(0, len(expr.keyValues), func(i int) bool { return expr.keyValues[i].value != nil }) &&
		(expr.constValue == nil || sMapIs(expr, ctx, k, expr.constValue) && sMapIs(expr, ctx2, k, expr.constValue) && expr.constValue.IsConst() && !sMapFails(expr, ctx, 0))
}

func map_inv_fails(expr *mapLiteral, ctx *EvalContext, i int) bool {
	return sMapFails(expr, ctx, 0) == sMapFails(expr, ctx, i)
}

func map_inv_entries(expr *mapLiteral, ctx *EvalContext, k string, i int, m map[string]Value) bool {
	w, has := m[k]
	x, want := sMapAt(expr, ctx, k, i)
	return has == want && (!has || vSameValue(w, x))
}

// as long as all are constant, the entries are those of every context
func map_inv_const(expr *mapLiteral, ctx2 *EvalContext, k string, i int, m map[string]Value, val RValue) bool {
	if !val.Const {
		return true
	}
	w, has := m[k]
	x, want := sMapAt(expr, ctx2, k, i)
	return has == want && (!has || vSameValue(w, x))
}

func map_post_value(expr *mapLiteral, ctx *EvalContext, k string, res Value, err error) bool {
	if sMapFails(expr, ctx, 0) {
		return err != nil
	}
	return err == nil && sMapIs(expr, ctx, k, res)
}

func map_post_const(expr *mapLiteral, ctx2 *EvalContext, k string, res Value, err error) bool {
	return err != nil || !res.IsConst() || sMapIs(expr, ctx2, k, res)
}

func map_post_memo(expr *mapLiteral, ctx, ctx2 *EvalContext, k string) bool {
	return expr.constValue == nil || sMapIs(expr, ctx, k, expr.constValue) && sMapIs(expr, ctx2, k, expr.constValue) && expr.constValue.IsConst()
}

// -------------------------------------------------------------- properties

//@ unit valueOf target=ValueOf props=C19,C20 args=in res=res

// sSupported: values of this type can be handled
func sSupported(in interface{}) bool {
	switch v := in.(type) {
	case nil, int, int8, int16, int32, int64, uint8, uint16, uint32, string, bool, float64, float32, Duration, Date, LocalDateTime, LocalTime,
		*lpg.Node, lpg.PathElement, []*lpg.Edge, []Value, map[string]Value, lpg.StringSet, *lpg.Path:
		return true
	case RValue:
		return v.Value == nil || true
	}
	return false
}

// sNative is the value something from outside stands for
func sNative(in interface{}) interface{} {
	switch v := in.(type) {
	case int8:
		return int(v)
	case int16:
		return int(v)
	case int32:
		return int(v)
	case int64:
		return int(v)
	case uint8:
		return int(v)
	case uint16:
		return int(v)
	case uint32:
		return int(v)
	case float32:
		return float64(v)
	case RValue:
		return v.Value
	}
	return in
}

func valueOf_pre(in interface{}) bool { return sSupported(in) }

func valueOf_post_value(in interface{}, res Value) bool {
	r, ok := res.(RValue)
	return ok && vSameAny(r.Value, sNative(in))
}

//@ unit proplabels target=(propertyOrLabelsExpression).Evaluate props=C15,C19 args=expr,ctx res=res,err only=notConst:C15 calls=valueOf waive=precondition_valueOf;index_out_of_range

func proplabels_pre(expr propertyOrLabelsExpression, ctx *EvalContext) bool {
	return expr.atom != nil && ctx != nil
}

type sHasProperties interface {
	GetProperty(string) (interface{}, bool)
}

type sHasNative interface{ GetNativeValue() interface{} }

// sProps looks up the properties from idx on
func sProps(expr propertyOrLabelsExpression, idx int, v interface{}) (interface{}, error) {
	if idx >= len(expr.propertyLookup) {
		return v, nil
	}
	var owner sHasProperties
	switch x := v.(type) {
	case nil:
		return nil, nil
	case sHasProperties:
		owner = x
	case *lpg.Path:
		// a path of one edge stands for the edge
		if x.NumEdges() == 1 {
			owner = x.GetEdge(0)
		}
	case []*lpg.Edge:
		owner = x[0]
	}
	if owner == nil {
		return nil, ErrValueDoesNotHaveProperties{}
	}
	p, has := owner.GetProperty(expr.propertyLookup[idx].String())
	if !has {
		return nil, nil
	}
	if n, ok := p.(sHasNative); ok {
		p = n.GetNativeValue()
	}
	return sProps(expr, idx+1, sNative(p))
}

func proplabels_inv_props(expr propertyOrLabelsExpression, ctx *EvalContext, i int, val RValue) bool {
	if expr.nodeLabels != nil {
		return true
	}
	v, _ := expr.atom.Evaluate(ctx)
	v1, e1 := sProps(expr, 0, v.Get())
	v2, e2 := sProps(expr, i, val.Value)
	return vSameAny(v1, v2) && vSameErr(e1, e2)
}

func proplabels_inv_notConst(val RValue) bool { return !val.Const }

// it is the value of the atom, or of its property, or of the property of
// that, and so on. null has only null properties, and what is neither a node
// nor an edge has none
func proplabels_post_value(expr propertyOrLabelsExpression, ctx *EvalContext, res Value, err error) bool {
	return expr.nodeLabels != nil || vOld(func() bool {
		v, e := expr.atom.Evaluate(ctx)
		if e != nil {
			return err != nil
		}
		w, e := sProps(expr, 0, v.Get())
		if e != nil {
			return err != nil
		}
		return err == nil && vSameAny(res.Get(), w)
	})
}

// it is never remembered
func proplabels_post_notConst(expr propertyOrLabelsExpression, res Value, err error) bool {
	return err != nil || !res.IsConst()
}
