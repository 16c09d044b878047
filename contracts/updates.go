package opencypher

import "github.com/cloudprivacylabs/lpg/v2"

// Contracts of the clauses that change the graph. The state of the graph and
// of the evaluation contexts is the world: the contract of a clause is that
// it acts on the world as a function below does, item by item, and that it
// refuses what that function refuses.

// vWorld identifies the state of the world
func vWorld() int { return 0 }

//@ erec sRemoveRows sRemoveItems
//@ rec sWithout
//@ unit remove target=(remove).Update props=C21 args=r,ctx,result res=res,err effects=(*EvalContext).SubContext;(*EvalContext).SetVars reads=(*EvalContext).GetVar

// sWithout is a set of labels without those of a list
func sWithout(set lpg.StringSet, l NodeLabels, i int) lpg.StringSet {
	if i >= len(l) {
		return set
	}
	set.Remove(l[i].String())
	return sWithout(set, l, i+1)
}

// sRemoveItems: the items of the clause from the i-th on, for one row. An
// item that is a property makes the property null; one that is a variable
// with labels takes these labels from the node, and leaves the others
func sRemoveItems(items []removeItem, ctx *EvalContext, i int) error {
	if i >= len(items) {
		return nil
	}
	if p := items[i].property; p != nil {
		v, err := p.Evaluate(ctx)
		if err != nil {
			return err
		}
		l, ok := v.(LValue)
		if !ok {
			return ErrNotAnLValue
		}
		l.Set(nil)
		return sRemoveItems(items, ctx, i+1)
	}
	v, err := ctx.GetVar(string(*items[i].variable))
	if err != nil {
		return err
	}
	if v.Get() == nil {
		return sRemoveItems(items, ctx, i+1)
	}
	node, ok := v.Get().(*lpg.Node)
	if !ok {
		return ErrNotAnLValue
	}
	node.SetLabels(sWithout(node.GetLabels(), items[i].nodeLabels, 0))
	return sRemoveItems(items, ctx, i+1)
}

func sRemoveRows(r remove, ctx *EvalContext, rows []map[string]Value, i int) error {
	if i >= len(rows) {
		return nil
	}
	ctx.SetVars(rows[i])
	if err := sRemoveItems(r.items, ctx, 0); err != nil {
		return err
	}
	return sRemoveRows(r, ctx, rows, i+1)
}

// sRemove is what remove.Update does
func sRemove(r remove, ctx *EvalContext, rows []map[string]Value) error {
	return sRemoveRows(r, ctx.SubContext(), rows, 0)
}

// an item is a property or a variable (the parser makes no others)
func remove_pre_items(r remove) bool {
	return vForallInt(0, len(r.items), func(i int) bool { return r.items[i].property != nil || r.items[i].variable != nil })
}

func remove_inv_rows(r remove, ctx *EvalContext, result ResultSet, locSub *EvalContext, i int) bool {
	err := sRemoveRows(r, locSub, result.Rows, i+1)
	w := vWorld()
	return vOld(func() bool {
		e := sRemove(r, ctx, result.Rows)
		return w == vWorld() && vSameErr(e, err)
	})
}

func remove_inv_items(r remove, ctx *EvalContext, result ResultSet, locSub *EvalContext, locI, j int) bool {
	err := sRemoveItems(r.items, locSub, j+1)
	if err == nil {
		err = sRemoveRows(r, locSub, result.Rows, locI+1)
	}
	w := vWorld()
	return vOld(func() bool {
		e := sRemove(r, ctx, result.Rows)
		return w == vWorld() && vSameErr(e, err)
	})
}

func remove_inv_labels(r remove, locNode *lpg.Node, locItem removeItem, labels lpg.StringSet, j int) bool {
	return vSameSet(sWithout(labels, locItem.nodeLabels, j+1), sWithout(locNode.GetLabels(), locItem.nodeLabels, 0))
}

func remove_post_effect(r remove, ctx *EvalContext, result ResultSet, err error) bool {
	w := vWorld()
	return vOld(func() bool {
		e := sRemove(r, ctx, result.Rows)
		return w == vWorld() && vSameErr(e, err)
	})
}

func remove_post_rows(r remove, ctx *EvalContext, result ResultSet, res Value, err error) bool {
	return err != nil || vSameValue(res, RValue{Value: result})
}

//@ rec sWithLabels
//@ unit setItem target=(*setItem).update props=C20 args=s,ctx,data,result res=err models=1 puredyn=1 modifies=heap:MD:string:vGhostProp,heap:MV:string:vGhostProp,heap:F:vGhostNode.labels

// sWithLabels is a set of labels with those of a list
func sWithLabels(set lpg.StringSet, l NodeLabels, i int) lpg.StringSet {
	if i <= 0 {
		return set
	}
	r := sWithLabels(set, l, i-1)
	r.Add(l[i-1].String())
	return r
}

// sAssigned is the value of the expression of an item
func sAssigned(s *setItem, ctx *EvalContext) (Value, error) {
	if s.expression == nil {
		return nil, nil
	}
	return s.expression.Evaluate(ctx)
}

// sSetNode is the node that the variable of an item names
func sSetNode(s *setItem, ctx *EvalContext) (*lpg.Node, bool) {
	// (a variable without a value has no node)
	v, _ := s.variable.Evaluate(ctx)
	l, ok := v.(LValue)
	if !ok {
		return nil, false
	}
	n, ok := l.Get().(*lpg.Node)
	return n, ok
}

// sSource is the value of a property in a map or in a node; it is null if it
// is not there
func sSource(x interface{}, key string) (interface{}, bool) {
	if n, ok := x.(*lpg.Node); ok {
		v, has := vNodeProps(n)[key]
		return v, has
	}
	if m, ok := x.(map[string]Value); ok {
		if v, has := m[key]; has {
			return v.Get(), true
		}
	}
	return nil, false
}

func sIsSource(x interface{}) bool {
	if _, ok := x.(*lpg.Node); ok {
		return true
	}
	_, ok := x.(map[string]Value)
	return ok
}

// the parser makes items with a property or a variable; an item without an
// expression has labels
func setItem_pre_form(s *setItem, ctx *EvalContext) bool {
	return s != nil && ctx != nil && (s.property == nil || s.expression != nil) && (s.property != nil || s.variable != nil) &&
		(s.expression != nil || s.op != "=" && s.op != "+=")
}

// nodes are not nil
func setItem_pre_nodes(s *setItem, ctx *EvalContext) bool {
	v, err := sAssigned(s, ctx)
	if err == nil && v != nil {
		if m, isN := v.Get().(*lpg.Node); isN && m == nil {
			return false
		}
	}
	if s.property != nil {
		return true
	}
	n, ok := sSetNode(s, ctx)
	return !ok || n != nil
}

func setItem_post_property(s *setItem, ctx *EvalContext, err error) bool {
	if s.property == nil {
		return true
	}
	w := vWorld()
	return vOld(func() bool {
		v, e := sAssigned(s, ctx)
		if e != nil {
			return err != nil && w == vWorld()
		}
		p, e := s.property.Evaluate(ctx)
		if e != nil {
			return err != nil && w == vWorld()
		}
		l, ok := p.(LValue)
		if !ok {
			return err != nil && w == vWorld()
		}
		l.Set(v.Get())
		return err == nil && w == vWorld()
	})
}

// sSetOK: the item can be applied
func sSetOK(s *setItem, ctx *EvalContext) bool {
	v, e := sAssigned(s, ctx)
	if e != nil {
		return false
	}
	if _, ok := sSetNode(s, ctx); !ok {
		return false
	}
	return s.op != "=" && s.op != "+=" || sIsSource(v.Get())
}

func setItem_post_refused(s *setItem, ctx *EvalContext, err error) bool {
	return s.property != nil || vOld(func() bool { return sSetOK(s, ctx) == (err == nil) })
}

// the properties of a node after the item
func setItem_post_properties(s *setItem, ctx *EvalContext, err error, m *lpg.Node, key string) bool {
	if s.property != nil {
		return true
	}
	v1, has1 := vNodeProps(m)[key]
	return vOld(func() bool {
		v0, has0 := vNodeProps(m)[key]
		same := has0 == has1 && (!has0 || vSameAny(v0, v1))
		n, ok := sSetNode(s, ctx)
		if err != nil || !ok || n != m || s.op != "=" && s.op != "+=" {
			return same
		}
		val, _ := sAssigned(s, ctx)
		x, has := sSource(val.Get(), key)
		if has && x != nil {
			return has1 && vSameAny(v1, ctx.PropertyValueFromNative(key, x))
		}
		if s.op == "=" || has {
			return !has1
		}
		return same
	})
}

// the labels of a node after the item
func setItem_post_labels(s *setItem, ctx *EvalContext, err error, m *lpg.Node) bool {
	if s.property != nil || m == nil {
		return true
	}
	l1 := vNode(m).labels
	return vOld(func() bool {
		n, ok := sSetNode(s, ctx)
		if err != nil || !ok || n != m || s.op == "=" || s.op == "+=" {
			return vSameSet(l1, vNode(m).labels)
		}
		return vSameSet(l1, sWithLabels(vNode(m).labels, s.nodeLabels, len(s.nodeLabels)))
	})
}

// the properties that are read: those of the keys that were visited
func setItem_inv_source(s *setItem, ctx *EvalContext, key string, props map[string]interface{}, seen vSet) bool {
	v, has := props[key]
	return vOld(func() bool {
		val, _ := sAssigned(s, ctx)
		x, h := sSource(val.Get(), key)
		return has == (h && vHas(seen, key)) && (!has || vSameAny(v, x))
	})
}

func setItem_inv_source2(s *setItem, ctx *EvalContext, key string, props map[string]interface{}, seen vSet) bool {
	v, has := props[key]
	return vOld(func() bool {
		val, _ := sAssigned(s, ctx)
		x, h := sSource(val.Get(), key)
		return has == h && (!has || vSameAny(v, x))
	})
}

// nothing is changed while properties are read
func setItem_inv_unchanged(m *lpg.Node, key string) bool {
	v1, has1 := vNodeProps(m)[key]
	return vOld(func() bool {
		v0, has0 := vNodeProps(m)[key]
		return has0 == has1 && (!has0 || vSameAny(v0, v1))
	})
}

// the keys to remove: all that were visited
func setItem_inv_keys(s *setItem, key string, keys []string, seen vSet) bool {
	return !vHas(seen, key) || !vForallInt(0, len(keys), func(i int) bool { return keys[i] != key })
}

// after j of the keys are removed
func setItem_inv_removed(s *setItem, ctx *EvalContext, m *lpg.Node, key string, locKeys []string, j int) bool {
	v1, has1 := vNodeProps(m)[key]
	left := vForallInt(0, j+1, func(i int) bool { return locKeys[i] != key })
	return vOld(func() bool {
		v0, has0 := vNodeProps(m)[key]
		n, _ := sSetNode(s, ctx)
		if n == m {
			return !has1 || has0 && left
		}
		return has0 == has1 && (!has0 || vSameAny(v0, v1))
	})
}

// after the properties of some keys are assigned
func setItem_inv_assigned(s *setItem, ctx *EvalContext, m *lpg.Node, key string, seen vSet) bool {
	v1, has1 := vNodeProps(m)[key]
	return vOld(func() bool {
		v0, has0 := vNodeProps(m)[key]
		same := has0 == has1 && (!has0 || vSameAny(v0, v1))
		n, _ := sSetNode(s, ctx)
		if n != m {
			return same
		}
		val, _ := sAssigned(s, ctx)
		x, has := sSource(val.Get(), key)
		if !has || !vHas(seen, key) {
			if s.op == "=" {
				return !has1
			}
			return same
		}
		if x == nil {
			return !has1
		}
		return has1 && vSameAny(v1, ctx.PropertyValueFromNative(key, x))
	})
}

func setItem_inv_labels(s *setItem, ctx *EvalContext, labels lpg.StringSet, j int) bool {
	return vOld(func() bool {
		n, ok := sSetNode(s, ctx)
		return ok && vSameSet(labels, sWithLabels(vNode(n).labels, s.nodeLabels, j+1))
	})
}

//@ erec sSetRows sSetItems
//@ unit set target=(*set).Update props=C20 args=s,ctx,result res=res,err effects=(*EvalContext).SubContext;(*EvalContext).SetVars;(*setItem).update

// sSetItems: the items of the clause from the j-th on, in order
func sSetItems(s *set, ctx *EvalContext, row map[string]Value, result ResultSet, j int) error {
	if j >= len(s.items) {
		return nil
	}
	if err := (&s.items[j]).update(ctx, row, result); err != nil {
		return err
	}
	return sSetItems(s, ctx, row, result, j+1)
}

// sSetRows: the items are applied to every row, with the variables of the row
func sSetRows(s *set, ctx *EvalContext, result ResultSet, i int) error {
	if i >= len(result.Rows) {
		return nil
	}
	ctx.SetVars(result.Rows[i])
	if err := sSetItems(s, ctx, result.Rows[i], result, 0); err != nil {
		return err
	}
	return sSetRows(s, ctx, result, i+1)
}

func sSet(s *set, ctx *EvalContext, result ResultSet) error {
	return sSetRows(s, ctx.SubContext(), result, 0)
}

func set_pre(s *set) bool { return s != nil }

func set_inv_rows(s *set, ctx *EvalContext, result ResultSet, locSub *EvalContext, i int) bool {
	err := sSetRows(s, locSub, result, i+1)
	w := vWorld()
	return vOld(func() bool {
		e := sSet(s, ctx, result)
		return w == vWorld() && vSameErr(e, err)
	})
}

func set_inv_items(s *set, ctx *EvalContext, result ResultSet, locSub *EvalContext, locI, j int) bool {
	err := sSetItems(s, locSub, result.Rows[locI], result, j+1)
	if err == nil {
		err = sSetRows(s, locSub, result, locI+1)
	}
	w := vWorld()
	return vOld(func() bool {
		e := sSet(s, ctx, result)
		return w == vWorld() && vSameErr(e, err)
	})
}

func set_post_effect(s *set, ctx *EvalContext, result ResultSet, err error) bool {
	w := vWorld()
	return vOld(func() bool {
		e := sSet(s, ctx, result)
		return w == vWorld() && vSameErr(e, err)
	})
}

func set_post_rows(result ResultSet, res Value, err error) bool {
	return err != nil || vSameValue(res, RValue{Value: result})
}
