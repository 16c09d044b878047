package opencypher

import "github.com/cloudprivacylabs/lpg/v2"

// Contracts of CREATE.

//@ erec sCreateParts sCreateRest sCreateUpto
//@ unit createParts target=(create).TopLevelUpdate props=C23 args=c,ctx res=res,err effects=(PatternPart).Create

// sCreateParts creates the parts of the pattern from the i-th on, in order
func sCreateParts(c create, ctx *EvalContext, i int) error {
	if i >= len(c.pattern.Parts) {
		return nil
	}
	if _, _, err := c.pattern.Parts[i].Create(ctx); err != nil {
		return err
	}
	return sCreateParts(c, ctx, i+1)
}

func createParts_inv_rest(c create, ctx *EvalContext, i int) bool {
	err := sCreateParts(c, ctx, i+1)
	w := vWorld()
	return vOld(func() bool {
		e := sCreateParts(c, ctx, 0)
		return w == vWorld() && vSameErr(e, err)
	})
}

func createParts_post_effect(c create, ctx *EvalContext, res Value, err error) bool {
	w := vWorld()
	return res == nil && vOld(func() bool {
		e := sCreateParts(c, ctx, 0)
		return w == vWorld() && vSameErr(e, err)
	})
}

//@ unit create target=(create).Update props=C23,C27 localinv=1 args=c,ctx,result res=res,err models=1 effects=(*EvalContext).SubContext;(*EvalContext).SetVars;(create).TopLevelUpdate reads=(*EvalContext).GetVarsNearestScope

// sCreateRow creates the pattern for one row, in a scope of its own, and
// returns the variables of that scope
func sCreateRow(c create, ctx *EvalContext, row map[string]Value) (map[string]Value, error) {
	sub := ctx.SubContext()
	sub.SetVars(row)
	if _, err := c.TopLevelUpdate(sub); err != nil {
		return nil, err
	}
	return sub.GetVarsNearestScope(), nil
}

// sCreateRest: the rows from the i-th on. The variables of the last row are
// left in the context
func sCreateRest(c create, ctx *EvalContext, rows []map[string]Value, i int, vars map[string]Value) error {
	if i >= len(rows) {
		ctx.SetVars(vars)
		return nil
	}
	v, err := sCreateRow(c, ctx, rows[i])
	if err != nil {
		return err
	}
	return sCreateRest(c, ctx, rows, i+1, v)
}

// sCreateUpto: the first n rows. It returns the variables of the last
func sCreateUpto(c create, ctx *EvalContext, rows []map[string]Value, n int) (map[string]Value, error) {
	if n <= 0 {
		return nil, nil
	}
	if _, err := sCreateUpto(c, ctx, rows, n-1); err != nil {
		return nil, err
	}
	return sCreateRow(c, ctx, rows[n-1])
}

func create_inv_rest(c create, ctx *EvalContext, result ResultSet, vars map[string]Value, i int) bool {
	err := sCreateRest(c, ctx, result.Rows, i+1, vars)
	w := vWorld()
	return vOld(func() bool {
		e := sCreateRest(c, ctx, result.Rows, 0, nil)
		return w == vWorld() && vSameErr(e, err)
	})
}

func create_post_effect(c create, ctx *EvalContext, result ResultSet, err error) bool {
	w := vWorld()
	return vOld(func() bool {
		e := sCreateRest(c, ctx, result.Rows, 0, nil)
		return w == vWorld() && vSameErr(e, err)
	})
}

func create_inv_upto(c create, ctx *EvalContext, result ResultSet, i int) bool {
	w := vWorld()
	return vOld(func() bool {
		_, e := sCreateUpto(c, ctx, result.Rows, i+1)
		return e == nil && vSameWorld(w)
	})
}

// sCreatedCell is the value of a column in a row of the result: that of the
// variable after the row, or else of the row
func sCreatedCell(c create, ctx *EvalContext, rows []map[string]Value, i int, key string) (Value, bool) {
	vars, _ := sCreateUpto(c, ctx, rows, i+1)
	if v, ok := vars[key]; ok {
		return v, true
	}
	v, ok := rows[i][key]
	return v, ok
}

func create_inv_rows(c create, ctx *EvalContext, result ResultSet, locRet ResultSet, i, n int, key string) bool {
	if len(locRet.Rows) != i+1 {
		return false
	}
	if n < 0 || n > i {
		return true
	}
	v, has := locRet.Rows[n][key]
	return locRet.Rows[n] != nil && vOld(func() bool {
		v1, has1 := sCreatedCell(c, ctx, result.Rows, n, key)
		return has == has1 && (!has || vSameAny(v, v1))
	})
}

// the row under construction
func create_inv_row1(row, from map[string]Value, seen vSet, key string) bool {
	v, has := row[key]
	v1, has1 := from[key]
	return has == (has1 && vHas(seen, key)) && (!has || vSameAny(v, v1))
}

func create_inv_row2(row, from, vars map[string]Value, seen vSet, key string) bool {
	v, has := row[key]
	v2, has2 := vars[key]
	if has2 && vHas(seen, key) {
		return has && vSameAny(v, v2)
	}
	v1, has1 := from[key]
	return has == has1 && (!has || vSameAny(v, v1))
}

// every row of the result is the row it was made from, with the variables
// bound for it
func create_post_rows(c create, ctx *EvalContext, result ResultSet, res Value, err error, n int, key string) bool {
	if err != nil {
		return true
	}
	ret, ok := res.Get().(ResultSet)
	if !ok || len(ret.Rows) != len(result.Rows) {
		return false
	}
	if n < 0 || n >= len(result.Rows) {
		return true
	}
	v, has := ret.Rows[n][key]
	return vOld(func() bool {
		v1, has1 := sCreatedCell(c, ctx, result.Rows, n, key)
		return has == has1 && (!has || vSameAny(v, v1))
	})
}

var _ = lpg.OutgoingEdge

//@ unit createNode target=(nodePattern).createNode props=C23 args=np,ctx res=res,err models=1 puredyn=1 reads=(*Properties).getPattern modifies=heap:F:vGhostGraph.nodes

func sLabelsOf(nl *NodeLabels) lpg.StringSet {
	if nl == nil {
		return lpg.StringSet{}
	}
	return sWithLabels(lpg.StringSet{}, *nl, len(*nl))
}

// sWritten is the value of a property of an element that is created. A null
// property is none
func sWritten(p *Properties, ctx *EvalContext, key string) (interface{}, bool) {
	if p == nil {
		return nil, false
	}
	m, _ := p.getPattern(ctx)
	v, has := m[key]
	if !has || v.Get() == nil {
		return nil, false
	}
	return ctx.PropertyValueFromNative(key, v.Get()), true
}

func createNode_pre(ctx *EvalContext) bool { return ctx != nil && ctx.graph != nil }

func createNode_inv_labels(np nodePattern, labels lpg.StringSet, i int) bool {
	return vSameSet(labels, sWithLabels(lpg.StringSet{}, *np.labels, i+1))
}

// the values that are written
func createNode_inv_props(np nodePattern, ctx *EvalContext, props map[string]interface{}, seen vSet, key string) bool {
	m, _ := np.properties.getPattern(ctx)
	v, has := props[key]
	v1, has1 := m[key]
	return has == (has1 && v1.Get() != nil && vHas(seen, key)) && (!has || vSameAny(v, v1.Get()))
}

// after the filter was applied to some of them
func createNode_inv_filter(np nodePattern, ctx *EvalContext, props map[string]interface{}, seen vSet, key string) bool {
	m, _ := np.properties.getPattern(ctx)
	v, has := props[key]
	v1, has1 := m[key]
	if has != (has1 && v1.Get() != nil) {
		return false
	}
	if vHas(seen, key) {
		return !has || vSameAny(v, ctx.PropertyValueFromNative(key, v1.Get()))
	}
	return !has || vSameAny(v, v1.Get())
}

func createNode_inv_copied(locFrom map[string]interface{}, to vGhostProps, seen vSet, key string) bool {
	v, has := to[key]
	v1, has1 := locFrom[key]
	return has == (has1 && vHas(seen, key)) && (!has || vSameAny(v, v1))
}

func createNode_post_err(np nodePattern, ctx *EvalContext, err error) bool {
	n := vGraph(ctx.graph).nodes
	return vOld(func() bool {
		n0 := vGraph(ctx.graph).nodes
		if np.properties == nil {
			return err == nil && n == n0+1
		}
		_, e := np.properties.getPattern(ctx)
		return vSameErr(err, e) && (err == nil && n == n0+1 || err != nil && n == n0)
	})
}

// the node has the labels and the properties that are written, and no others
func createNode_post_node(np nodePattern, ctx *EvalContext, res *lpg.Node, err error, key string) bool {
	if err != nil {
		return true
	}
	if res == nil {
		return false
	}
	labels := vNode(res).labels
	v, has := vNodeProps(res)[key]
	return vOld(func() bool {
		v1, has1 := sWritten(np.properties, ctx, key)
		return vSameSet(labels, sLabelsOf(np.labels)) && has == has1 && (!has || vSameAny(v, v1))
	})
}

// One node of a pattern

//@ unit nodeCreate target=(nodePattern).Create props=C23,C24 args=np,ctx res=name,res,err effects=(nodePattern).createNode;(*EvalContext).SetVar reads=(*EvalContext).GetVar

// sNodeName is the variable of a node, "" if it has none
func sNodeName(np nodePattern) string {
	if np.variable == nil {
		return ""
	}
	return string(*np.variable)
}

// what a read returns is a value, or an error
func nodeCreate_pre_bound(np nodePattern, ctx *EvalContext) bool {
	v, err := ctx.GetVar(sNodeName(np))
	return err != nil || v != nil
}

// sNodeCreate reuses the node that is bound to the variable, and otherwise
// creates one and binds it
func sNodeCreate(np nodePattern, ctx *EvalContext) (*lpg.Node, bool) {
	if v, err := ctx.GetVar(sNodeName(np)); err == nil {
		n, isNode := v.Get().(*lpg.Node)
		return n, isNode && np.labels == nil && np.properties == nil
	}
	n, err := np.createNode(ctx)
	if err != nil {
		return nil, false
	}
	if len(sNodeName(np)) > 0 {
		ctx.SetVar(sNodeName(np), RValue{Value: n})
	}
	return n, true
}

func nodeCreate_post_effect(np nodePattern, ctx *EvalContext, name string, res *lpg.Node, err error) bool {
	w := vWorld()
	return vOld(func() bool {
		n, ok := sNodeCreate(np, ctx)
		return w == vWorld() && ok == (err == nil) && (!ok || n == res && name == sNodeName(np))
	})
}

// One relationship of a pattern

//@ unit relCreate target=(relationshipPattern).Create props=C23,C24 args=rel,ctx,from,to res=res,err models=1 puredyn=1 reads=(*Properties).getPattern;(*EvalContext).GetVar modifies=heap:F:vGhostGraph.edges,map:ctx.variables

func relCreate_pre(ctx *EvalContext) bool {
	return ctx != nil && ctx.graph != nil && ctx.variables != nil
}

// sRelRefused: ranges, several types, and variables that are bound
func sRelRefused(rel relationshipPattern, ctx *EvalContext) bool {
	if rel.rng != nil || rel.relTypes != nil && len(rel.relTypes.rel) > 1 {
		return true
	}
	if rel.variable != nil {
		if _, err := ctx.GetVar(string(*rel.variable)); err == nil {
			return true
		}
	}
	if rel.properties != nil {
		if _, err := rel.properties.getPattern(ctx); err != nil {
			return true
		}
	}
	return false
}

func relCreate_inv_props(rel relationshipPattern, ctx *EvalContext, props map[string]interface{}, seen vSet, key string) bool {
	m, _ := rel.properties.getPattern(ctx)
	v, has := props[key]
	v1, has1 := m[key]
	return has == (has1 && v1.Get() != nil && vHas(seen, key)) && (!has || vSameAny(v, v1.Get()))
}

func relCreate_inv_filter(rel relationshipPattern, ctx *EvalContext, props map[string]interface{}, seen vSet, key string) bool {
	m, _ := rel.properties.getPattern(ctx)
	v, has := props[key]
	v1, has1 := m[key]
	if has != (has1 && v1.Get() != nil) {
		return false
	}
	if vHas(seen, key) {
		return !has || vSameAny(v, ctx.PropertyValueFromNative(key, v1.Get()))
	}
	return !has || vSameAny(v, v1.Get())
}

func relCreate_inv_copied(locFrom map[string]interface{}, cells vGhostEdgeProps, seen vSet, key string) bool {
	v, has := cells[key]
	v1, has1 := locFrom[key]
	return has == (has1 && vHas(seen, key)) && (!has || vSameAny(v, v1))
}

// what is refused leaves the graph as it is
func relCreate_post_refused(rel relationshipPattern, ctx *EvalContext, err error) bool {
	w := vWorld()
	n := vGraph(ctx.graph).edges
	return vOld(func() bool {
		n0 := vGraph(ctx.graph).edges
		if sRelRefused(rel, ctx) {
			return err != nil && w == vWorld() && n == n0
		}
		return err == nil && n == n0+1
	})
}

// the edge has the type, the direction and the properties that are written,
// and no others
func relCreate_post_edge(rel relationshipPattern, ctx *EvalContext, from, to *lpg.Node, res lpg.PathElement, err error, key string) bool {
	if err != nil {
		return true
	}
	e := res.Edge
	if e == nil || res.Reverse != (rel.toLeft && !rel.toRight) {
		return false
	}
	if res.Reverse && (vEdge(e).from != to || vEdge(e).to != from) {
		return false
	}
	if !res.Reverse && (vEdge(e).from != from || vEdge(e).to != to) {
		return false
	}
	label := vEdge(e).label
	v, has := vEdgeProps(e)[key]
	return vOld(func() bool {
		label1 := ""
		if rel.relTypes != nil && len(rel.relTypes.rel) == 1 {
			label1 = rel.relTypes.rel[0].String()
		}
		v1, has1 := sWritten(rel.properties, ctx, key)
		return label == label1 && has == has1 && (!has || vSameAny(v, v1))
	})
}

// the variable is bound to the edge, and no other variable changes
func relCreate_post_vars(rel relationshipPattern, ctx *EvalContext, res lpg.PathElement, err error, key string) bool {
	v, has := ctx.variables[key]
	if err == nil && rel.variable != nil && len(*rel.variable) > 0 && key == string(*rel.variable) {
		r, ok := v.(RValue)
		if !has || !ok {
			return false
		}
		p, ok := r.Value.(*lpg.Path)
		return ok && p != nil && len(*vPathElems(p)) == 1 && (*vPathElems(p))[0] == res
	}
	return vOld(func() bool {
		v0, has0 := ctx.variables[key]
		return has == has0 && (!has || vSameAny(v, v0))
	})
}

// A path of a pattern

//@ erec sPartRest sPartUpto
//@ unit partCreate target=(PatternPart).Create props=C23,C24 args=part,ctx res=first,path,err models=1 effects=(nodePattern).Create;(relationshipPattern).Create modifies=map:ctx.variables

func partCreate_pre(ctx *EvalContext) bool { return ctx != nil && ctx.variables != nil }

// sPartRest creates the path from the i-th edge on, behind the last node
func sPartRest(part PatternPart, ctx *EvalContext, i int, last *lpg.Node) error {
	if i >= len(part.path) {
		return nil
	}
	_, node, err := part.path[i].node.Create(ctx)
	if err != nil {
		return err
	}
	if _, err := part.path[i].rel.Create(ctx, last, node); err != nil {
		return err
	}
	return sPartRest(part, ctx, i+1, node)
}

func sPathCreate(part PatternPart, ctx *EvalContext) error {
	_, node, err := part.start.Create(ctx)
	if err != nil {
		return err
	}
	return sPartRest(part, ctx, 0, node)
}

// sPartUpto creates the first n edges. It returns the last node and the last
// edge
func sPartUpto(part PatternPart, ctx *EvalContext, n int) (*lpg.Node, lpg.PathElement, error) {
	if n <= 0 {
		_, node, err := part.start.Create(ctx)
		return node, lpg.PathElement{}, err
	}
	last, _, err := sPartUpto(part, ctx, n-1)
	if err != nil {
		return nil, lpg.PathElement{}, err
	}
	_, node, err := part.path[n-1].node.Create(ctx)
	if err != nil {
		return nil, lpg.PathElement{}, err
	}
	pe, err := part.path[n-1].rel.Create(ctx, last, node)
	return node, pe, err
}

func partCreate_inv_rest(part PatternPart, ctx *EvalContext, last *lpg.Node, i int) bool {
	err := sPartRest(part, ctx, i+1, last)
	w := vWorld()
	return vOld(func() bool {
		e := sPathCreate(part, ctx)
		return w == vWorld() && vSameErr(e, err)
	})
}

func partCreate_inv_upto(part PatternPart, ctx *EvalContext, last *lpg.Node, i int) bool {
	w := vWorld()
	return vOld(func() bool {
		n, _, e := sPartUpto(part, ctx, i+1)
		return e == nil && vSameWorld(w) && n == last
	})
}

func partCreate_inv_path(part PatternPart, ctx *EvalContext, p lpg.Path, i, n int) bool {
	if len(*vPathElems(&p)) != i+1 {
		return false
	}
	if n < 0 || n > i {
		return true
	}
	pe := (*vPathElems(&p))[n]
	return vOld(func() bool {
		_, e, _ := sPartUpto(part, ctx, n+1)
		return e == pe
	})
}

func partCreate_inv_first(part PatternPart, ctx *EvalContext, locFirst *lpg.Node) bool {
	return vOld(func() bool {
		n, _, _ := sPartUpto(part, ctx, 0)
		return n == locFirst
	})
}

// the node and then every edge with its node are created in order
func partCreate_post_effect(part PatternPart, ctx *EvalContext, err error) bool {
	w := vWorld()
	return vOld(func() bool {
		e := sPathCreate(part, ctx)
		return w == vWorld() && vSameErr(e, err)
	})
}

// the path has the edges that were created
func partCreate_post_path(part PatternPart, ctx *EvalContext, first *lpg.Node, path *lpg.Path, err error, n int) bool {
	if err != nil {
		return true
	}
	if path == nil || len(*vPathElems(path)) != len(part.path) {
		return false
	}
	if n < 0 || n >= len(part.path) {
		return vOld(func() bool {
			f, _, _ := sPartUpto(part, ctx, 0)
			return f == first
		})
	}
	pe := (*vPathElems(path))[n]
	return vOld(func() bool {
		_, e, _ := sPartUpto(part, ctx, n+1)
		return e == pe
	})
}

// the variable is bound to the path, or to the node if there is no edge
func partCreate_post_var(part PatternPart, ctx *EvalContext, path *lpg.Path, err error) bool {
	if err != nil || part.variable == nil {
		return true
	}
	v, has := ctx.variables[string(*part.variable)]
	r, ok := v.(RValue)
	if !has || !ok {
		return false
	}
	if len(part.path) > 0 {
		p, ok := r.Value.(*lpg.Path)
		return ok && p == path
	}
	node, ok := r.Value.(*lpg.Node)
	return ok && vOld(func() bool {
		n, _, _ := sPartUpto(part, ctx, 0)
		return n == node
	})
}
