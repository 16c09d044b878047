package opencypher

import "github.com/cloudprivacylabs/lpg/v2"

// Contracts of the translation of patterns: what the graph is searched for is
// what is written.

//@ rec sLabelSet
//@ unit nodeLabels target=(*NodeLabels).getPattern props=C25 args=nl res=res

// sLabelSet is the set of the first n labels
func sLabelSet(l []schemaName, n int) lpg.StringSet {
	if n <= 0 {
		return lpg.StringSet{}
	}
	r := sLabelSet(l, n-1)
	if s := l[n-1].String(); s != "" {
		r.Add(s)
	}
	return r
}

func sLabels(nl *NodeLabels) lpg.StringSet {
	if nl == nil {
		return lpg.StringSet{}
	}
	return sLabelSet(*nl, len(*nl))
}

func sTypes(rt *relationshipTypes) lpg.StringSet {
	if rt == nil {
		return lpg.StringSet{}
	}
	return sLabelSet(rt.rel, len(rt.rel))
}

func nodeLabels_inv_set(nl *NodeLabels, set lpg.StringSet, i int) bool {
	return vSameSet(set, sLabelSet(*nl, i+1))
}

func nodeLabels_post_all(nl *NodeLabels, res lpg.StringSet) bool { return vSameSet(res, sLabels(nl)) }

//@ unit relTypes target=(*relationshipTypes).getPattern props=C25 args=rt res=res

func relTypes_inv_set(rt *relationshipTypes, set lpg.StringSet, i int) bool {
	return vSameSet(set, sLabelSet(rt.rel, i+1))
}

func relTypes_post_all(rt *relationshipTypes, res lpg.StringSet) bool {
	return vSameSet(res, sTypes(rt))
}

//@ unit props target=(*Properties).getPattern props=C23,C25 args=p,ctx res=res,err reads=(*EvalContext).GetParameter;(*mapLiteral).Evaluate

// sPropertiesOf are the properties written, as a map or a parameter
func sPropertiesOf(p *Properties, ctx *EvalContext) (map[string]Value, error) {
	if p == nil || p.Param == nil && p.Map == nil {
		return nil, nil
	}
	var v Value
	var err error
	if p.Param != nil {
		v, err = ctx.GetParameter(string(*p.Param))
	} else {
		v, err = p.Map.Evaluate(ctx)
	}
	if err != nil {
		return nil, err
	}
	m, ok := v.Get().(map[string]Value)
	if !ok {
		return nil, ErrPropertiesExpected
	}
	return m, nil
}

func props_post_map(p *Properties, ctx *EvalContext, res map[string]Value, err error, key string) bool {
	m, e := sPropertiesOf(p, ctx)
	if e != nil {
		return err != nil
	}
	v, has := res[key]
	v1, has1 := m[key]
	return err == nil && len(res) == len(m) && has == has1 && (!has || vSameAny(v, v1))
}

// what is stored and evaluated is never a nil interface
func props_pre_values(p *Properties, ctx *EvalContext) bool {
	if p == nil || ctx == nil {
		return ctx != nil
	}
	if p.Param != nil {
		v, err := ctx.GetParameter(string(*p.Param))
		return err != nil || v != nil
	}
	if p.Map != nil {
		v, err := p.Map.Evaluate(ctx)
		return err != nil || v != nil
	}
	return true
}

//@ unit nodeItem target=(nodePattern).getPattern props=C25 args=np,ctx res=res,err reads=(*Properties).getPattern

func sNameOf(v *variable) string {
	if v == nil {
		return ""
	}
	return string(*v)
}

// sItemProps: the properties of an item are the values written
func sItemProps(p *Properties, ctx *EvalContext, item lpg.PatternItem, key string) bool {
	m, _ := p.getPattern(ctx)
	v, has := item.Properties[key]
	v1, has1 := m[key]
	return has == has1 && (!has || vSameAny(v, v1.Get()))
}

func nodeItem_post_name(np nodePattern, res lpg.PatternItem, err error) bool {
	return err != nil || res.Name == sNameOf(np.variable)
}

func nodeItem_post_labels(np nodePattern, res lpg.PatternItem, err error) bool {
	return err != nil || vSameSet(res.Labels, sLabels(np.labels))
}

func nodeItem_post_props(np nodePattern, ctx *EvalContext, res lpg.PatternItem, err error, key string) bool {
	return err != nil || sItemProps(np.properties, ctx, res, key)
}

func nodeItem_post_err(np nodePattern, ctx *EvalContext, err error) bool {
	_, e := np.properties.getPattern(ctx)
	return vSameErr(err, e)
}

func nodeItem_inv_props(from map[string]Value, to map[string]interface{}, seen vSet, key string) bool {
	v, has := to[key]
	v1, has1 := from[key]
	return has == (has1 && vHas(seen, key)) && (!has || vSameAny(v, v1.Get()))
}

func nodeItem_inv_labels(np nodePattern, set lpg.StringSet, i int) bool {
	return vSameSet(set, sLabelSet(*np.labels, i+1))
}

//@ unit relItem target=(relationshipPattern).getPattern props=C25 args=rp,ctx res=res,err reads=(*Properties).getPattern;(*rangeLiteral).Evaluate

func relItem_post_name(rp relationshipPattern, res lpg.PatternItem, err error) bool {
	return err != nil || res.Name == sNameOf(rp.variable)
}

func relItem_post_types(rp relationshipPattern, res lpg.PatternItem, err error) bool {
	return err != nil || vSameSet(res.Labels, sTypes(rp.relTypes))
}

func relItem_post_props(rp relationshipPattern, ctx *EvalContext, res lpg.PatternItem, err error, key string) bool {
	return err != nil || sItemProps(rp.properties, ctx, res, key)
}

// the direction; what <--> is searched as is left open
func relItem_post_direction(rp relationshipPattern, res lpg.PatternItem, err error) bool {
	if err != nil || rp.toLeft && rp.toRight {
		return true
	}
	return res.Undirected == (!rp.toLeft && !rp.toRight) && res.ToLeft == rp.toLeft
}

// sHops is the range of the number of hops; -1 leaves an end open
func sHops(rp relationshipPattern, ctx *EvalContext) (int, int, error) {
	if rp.rng == nil {
		return 1, 1, nil
	}
	min, max := -1, -1
	from, to, err := rp.rng.Evaluate(ctx)
	if from != nil {
		min = *from
	}
	if to != nil {
		max = *to
	}
	return min, max, err
}

func relItem_post_hops(rp relationshipPattern, ctx *EvalContext, res lpg.PatternItem, err error) bool {
	min, max, e := sHops(rp, ctx)
	if e != nil {
		return err != nil
	}
	_, e = rp.properties.getPattern(ctx)
	return vSameErr(err, e) && (err != nil || res.Min == min && res.Max == max)
}

func relItem_inv_props(from map[string]Value, to map[string]interface{}, seen vSet, key string) bool {
	v, has := to[key]
	v1, has1 := from[key]
	return has == (has1 && vHas(seen, key)) && (!has || vSameAny(v, v1.Get()))
}

func relItem_inv_types(rp relationshipPattern, set lpg.StringSet, i int) bool {
	return vSameSet(set, sLabelSet(rp.relTypes.rel, i+1))
}

//@ rec sItemsErr
//@ unit partItems target=(PatternPart).getPattern props=C25 args=part,ctx res=res,err reads=(nodePattern).getPattern;(relationshipPattern).getPattern

// sItemsErr: the items of the pattern from the i-th on can be made
func sItemsErr(part PatternPart, ctx *EvalContext, i int) bool {
	if i >= len(part.path) {
		return false
	}
	if _, err := part.path[i].rel.getPattern(ctx); err != nil {
		return true
	}
	if _, err := part.path[i].node.getPattern(ctx); err != nil {
		return true
	}
	return sItemsErr(part, ctx, i+1)
}

func sSameItem(a, b lpg.PatternItem) bool {
	return a.Name == b.Name && a.Min == b.Min && a.Max == b.Max && a.ToLeft == b.ToLeft && a.Undirected == b.Undirected &&
		vSameSet(a.Labels, b.Labels) && vSameMap(a.Properties, b.Properties)
}

func partItems_inv_rest(part PatternPart, ctx *EvalContext, i int) bool {
	return sItemsErr(part, ctx, i+1) == sItemsErr(part, ctx, 0)
}

func partItems_inv_items(part PatternPart, ctx *EvalContext, pattern []lpg.PatternItem, i, n int) bool {
	if len(pattern) != 2*(i+1)+1 {
		return false
	}
	first, _ := part.start.getPattern(ctx)
	if !sSameItem(pattern[0], first) {
		return false
	}
	if n < 0 || n > i {
		return true
	}
	rel, _ := part.path[n].rel.getPattern(ctx)
	node, _ := part.path[n].node.getPattern(ctx)
	return sSameItem(pattern[2*n+1], rel) && sSameItem(pattern[2*n+2], node)
}

func partItems_post_err(part PatternPart, ctx *EvalContext, err error) bool {
	if _, e := part.start.getPattern(ctx); e != nil {
		return err != nil
	}
	return (err != nil) == sItemsErr(part, ctx, 0)
}

// the pattern alternates between the nodes and the relationships written
func partItems_post_items(part PatternPart, ctx *EvalContext, res lpg.Pattern, err error, n int) bool {
	if err != nil {
		return true
	}
	if len(res) != 2*len(part.path)+1 {
		return false
	}
	first, _ := part.start.getPattern(ctx)
	if !sSameItem(res[0], first) {
		return false
	}
	if n < 0 || n >= len(part.path) {
		return true
	}
	rel, _ := part.path[n].rel.getPattern(ctx)
	node, _ := part.path[n].node.getPattern(ctx)
	return sSameItem(res[2*n+1], rel) && sSameItem(res[2*n+2], node)
}

//@ unit symbols target=BuildPatternSymbols props=C25 args=ctx,pattern res=res,err models=1 reads=(*EvalContext).GetVar

// sSymbolOK: a variable that is bound is null, a node or a path
func sSymbolOK(ctx *EvalContext, key string) bool {
	v, err := ctx.GetVar(key)
	if err != nil || v.Get() == nil {
		return true
	}
	switch v.Get().(type) {
	case *lpg.Node, *lpg.Path:
		return true
	}
	return false
}

// sSymbol: a variable of the pattern that is bound stands for its value only
func sSymbol(ctx *EvalContext, key string, sym *lpg.PatternSymbol, has bool) bool {
	v, err := ctx.GetVar(key)
	if err != nil {
		return !has
	}
	if !has || sym == nil {
		return false
	}
	switch x := v.Get().(type) {
	case *lpg.Node:
		return sym.Nodes == vAddedNode(nil, x) && sym.Edges == nil
	case *lpg.Path:
		return sym.Nodes == nil && sym.Edges == vAddedPath(nil, x)
	}
	return sym.Nodes == nil && sym.Edges == nil
}

func symbols_pre_ctx(ctx *EvalContext) bool { return ctx != nil }

func symbols_inv_ok(ctx *EvalContext, pattern lpg.Pattern, seen vSet) bool {
	return vForallStr(func(key string) bool {
		return !vHas(seen, key) || !pattern.GetSymbolNames().Has(key) || sSymbolOK(ctx, key)
	})
}

func symbols_inv_done(ctx *EvalContext, pattern lpg.Pattern, ret map[string]*lpg.PatternSymbol, seen vSet, key string) bool {
	sym, has := ret[key]
	if !vHas(seen, key) || !pattern.GetSymbolNames().Has(key) {
		return !has
	}
	return sSymbol(ctx, key, sym, has)
}

func symbols_post_err(ctx *EvalContext, pattern lpg.Pattern, err error) bool {
	return (err == nil) == vForallStr(func(key string) bool {
		return !pattern.GetSymbolNames().Has(key) || sSymbolOK(ctx, key)
	})
}

func symbols_post_symbols(ctx *EvalContext, pattern lpg.Pattern, res map[string]*lpg.PatternSymbol, err error, key string) bool {
	sym, has := res[key]
	if err != nil {
		return true
	}
	if !pattern.GetSymbolNames().Has(key) {
		return !has
	}
	return sSymbol(ctx, key, sym, has)
}

//@ unit store target=(*matchResultAccumulator).StoreResult props=C25 args=acc,ctx,path,symbols models=1 owns=1 effects=(*EvalContext).SetVar modifies=heap:F:ResultSet.Rows

func store_pre_acc(acc *matchResultAccumulator) bool {
	return acc != nil && acc.evalCtx != nil && acc.result != nil
}

func store_inv_row(symbols map[string]interface{}, row map[string]Value, seen vSet, key string) bool {
	v, has := row[key]
	v1, has1 := symbols[key]
	return has == (has1 && vHas(seen, key)) && (!has || vSameValue(v, RValue{Value: v1}))
}

// every match adds one row that holds its symbols
func store_post_row(acc *matchResultAccumulator, symbols map[string]interface{}, key string) bool {
	rows := vSeq(acc.result.Rows)
	if acc.err != nil {
		return vOld(func() bool { return vSameRows(rows, vSeq(acc.result.Rows)) })
	}
	n := len(acc.result.Rows)
	if n < 1 {
		return false
	}
	row := acc.result.Rows[n-1]
	v, has := row[key]
	v1, has1 := symbols[key]
	return has == has1 && (!has || vSameValue(v, RValue{Value: v1})) &&
		vOld(func() bool { return vSameRows(rows, vPush(vSeq(acc.result.Rows), row)) })
}

//@ unit hops target=(*rangeLiteral).Evaluate props=C25 args=r,ctx res=from,to,err

func hops_pre(r *rangeLiteral) bool { return r != nil }

// the bounds that are written are the bounds
func hops_post_bounds(r *rangeLiteral, from, to *int, err error) bool {
	if err != nil {
		return false
	}
	return (from == nil) == (r.from == nil) && (from == nil || *from == int(*r.from)) &&
		(to == nil) == (r.to == nil) && (to == nil || *to == int(*r.to))
}

//@ unit findRelative target=(PatternPart).FindRelative props=C25 args=p,this res=res,err models=1 reads=(PatternPart).getPattern;BuildPatternSymbols effects=NewEvalContext;(*EvalContext).SetVar;(lpg.Pattern).Run

// a new context is never nil (unit newContext)
func findRelative_pre(this *lpg.Node) bool {
	return this != nil && NewEvalContext(this.GetGraph()) != nil
}

// the pattern is translated in a context of its own where "this" is the node,
// and an error of that is reported
func findRelative_post_err(p PatternPart, this *lpg.Node, err error) bool {
	return vOld(func() bool {
		ctx := NewEvalContext(this.GetGraph())
		ctx.SetVar("this", RValue{Value: this})
		l, e := p.getPattern(ctx)
		if e != nil {
			return err != nil
		}
		_, e = BuildPatternSymbols(ctx, l)
		return e == nil || err != nil
	})
}
