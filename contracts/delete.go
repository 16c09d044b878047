package opencypher

import "github.com/cloudprivacylabs/lpg/v2"

// Contracts of DELETE.

//@ erec sDel sDelE sDelFrom
//@ rec sTimes sDelRow sDelRowFrom sTimesE sDelRowE sInPath
//@ prefix sTimes sTimesE
//@ unit delete target=(deleteClause).Update props=C22 args=d,ctx,result res=res,err models=1 effects=(*EvalContext).SubContext;(*EvalContext).SetVars modifies=heap:F:vGhostNode.removed,heap:F:vGhostEdge.removed waive=call_of_

// sIsNode: the value is the node
func sIsNode(v Value, n *lpg.Node) bool {
	m, ok := v.Get().(*lpg.Node)
	return ok && m == n
}

// sDelRow: one of the first j expressions gives the node
func sDelRow(exprs []Expression, ctx *EvalContext, j int, n *lpg.Node) bool {
	if j <= 0 {
		return false
	}
	r := sDelRow(exprs, ctx, j-1, n)
	v, _ := exprs[j-1].Evaluate(ctx)
	return r || sIsNode(v, n)
}

// sDel: an expression gives the node for one of the first i rows
func sDel(d deleteClause, ctx *EvalContext, rows []map[string]Value, i int, n *lpg.Node) bool {
	if i <= 0 {
		return false
	}
	r := sDel(d, ctx, rows, i-1, n)
	ctx.SetVars(rows[i-1])
	r1 := sDelRow(d.exprs, ctx, len(d.exprs), n)
	return r || r1
}

func delete_inv_rows(d deleteClause, ctx *EvalContext, result ResultSet, nodeSet map[*lpg.Node]struct{}, n *lpg.Node, i int) bool {
	_, has := nodeSet[n]
	w := vWorld()
	return vOld(func() bool {
		r := sDel(d, ctx.SubContext(), result.Rows, i+1, n)
		return w == vWorld() && r == has
	})
}

func delete_inv_items(d deleteClause, ctx *EvalContext, result ResultSet, locSub *EvalContext, nodeSet map[*lpg.Node]struct{}, n *lpg.Node, locI, j int) bool {
	_, has := nodeSet[n]
	w := vWorld()
	r1 := sDelRow(d.exprs, locSub, j+1, n)
	return vOld(func() bool {
		sub := ctx.SubContext()
		r := sDel(d, sub, result.Rows, locI, n)
		sub.SetVars(result.Rows[locI])
		return w == vWorld() && sub == locSub && has == (r || r1)
	})
}

// sTimes counts a node among the first k of a list
func sTimes(s vNodes, k int, n *lpg.Node) int {
	if k <= 0 {
		return 0
	}
	if vNodeAt(s, k-1) == n {
		return sTimes(s, k-1, n) + 1
	}
	return sTimes(s, k-1, n)
}

// a node that is in the set is in the list once, and no other is
func delete_inv_listed(nodes []*lpg.Node, nodeSet map[*lpg.Node]struct{}, n *lpg.Node) bool {
	c := sTimes(vNodesOf(nodes), len(nodes), n)
	_, has := nodeSet[n]
	return has && c == 1 || !has && c == 0
}

func delete_inv_removed(locNodes []*lpg.Node, n *lpg.Node, i int) bool {
	c := vNode(n).removed - sTimes(vNodesOf(locNodes), i+1, n)
	return vOld(func() bool { return c == vNode(n).removed })
}

// a node is removed once if it is named, and not otherwise
func delete_post_nodes(d deleteClause, ctx *EvalContext, result ResultSet, err error, n *lpg.Node) bool {
	c := vNode(n).removed
	return vOld(func() bool {
		r := sDel(d, ctx.SubContext(), result.Rows, len(result.Rows), n)
		c0 := vNode(n).removed
		if err == nil && r {
			return c == c0+1
		}
		return c == c0
	})
}

func delete_post_rows(result ResultSet, res Value, err error) bool {
	return err != nil || vSameValue(res, RValue{Value: result})
}

func delete_pre_exprs(d deleteClause) bool {
	return vForallInt(0, len(d.exprs), func(i int) bool { return d.exprs[i] != nil })
}

func delete_var_path(locItem *lpg.Path, m int) int { return locItem.NumEdges() - m }

// sInPath: the edge is one of the first k of the path
func sInPath(p *lpg.Path, k int, e *lpg.Edge) bool {
	if k <= 0 {
		return false
	}
	r := sInPath(p, k-1, e)
	return r || p.GetEdge(k-1) == e
}

func sHasEdge(v Value, e *lpg.Edge) bool {
	p, ok := v.Get().(*lpg.Path)
	return ok && sInPath(p, p.NumEdges(), e)
}

// sDelRowE: one of the first j expressions gives a path with the edge
func sDelRowE(exprs []Expression, ctx *EvalContext, j int, e *lpg.Edge) bool {
	if j <= 0 {
		return false
	}
	r := sDelRowE(exprs, ctx, j-1, e)
	v, _ := exprs[j-1].Evaluate(ctx)
	return r || sHasEdge(v, e)
}

// sDelE: an expression gives a path with the edge for one of the first i rows
func sDelE(d deleteClause, ctx *EvalContext, rows []map[string]Value, i int, e *lpg.Edge) bool {
	if i <= 0 {
		return false
	}
	r := sDelE(d, ctx, rows, i-1, e)
	ctx.SetVars(rows[i-1])
	r1 := sDelRowE(d.exprs, ctx, len(d.exprs), e)
	return r || r1
}

func delete_inv_erows(d deleteClause, ctx *EvalContext, result ResultSet, edgeSet map[*lpg.Edge]struct{}, e *lpg.Edge, i int) bool {
	_, has := edgeSet[e]
	w := vWorld()
	return vOld(func() bool {
		r := sDelE(d, ctx.SubContext(), result.Rows, i+1, e)
		return w == vWorld() && r == has
	})
}

func delete_inv_eitems(d deleteClause, ctx *EvalContext, result ResultSet, locSub *EvalContext, edgeSet map[*lpg.Edge]struct{}, e *lpg.Edge, locI, j int) bool {
	_, has := edgeSet[e]
	w := vWorld()
	r1 := sDelRowE(d.exprs, locSub, j+1, e)
	return vOld(func() bool {
		sub := ctx.SubContext()
		r := sDelE(d, sub, result.Rows, locI, e)
		sub.SetVars(result.Rows[locI])
		return w == vWorld() && sub == locSub && has == (r || r1)
	})
}

func delete_inv_epath(d deleteClause, ctx *EvalContext, result ResultSet, locSub *EvalContext, edgeSet map[*lpg.Edge]struct{}, e *lpg.Edge, locI, locJ int, locP *lpg.Path, k int) bool {
	_, has := edgeSet[e]
	w := vWorld()
	r1 := sDelRowE(d.exprs, locSub, locJ, e)
	r2 := sInPath(locP, k, e)
	return vOld(func() bool {
		sub := ctx.SubContext()
		r := sDelE(d, sub, result.Rows, locI, e)
		sub.SetVars(result.Rows[locI])
		return w == vWorld() && sub == locSub && has == (r || r1 || r2)
	})
}

// sTimesE counts an edge among the first k of a list
func sTimesE(s vEdges, k int, e *lpg.Edge) int {
	if k <= 0 {
		return 0
	}
	if vEdgeAt(s, k-1) == e {
		return sTimesE(s, k-1, e) + 1
	}
	return sTimesE(s, k-1, e)
}

func delete_inv_elisted(edges []*lpg.Edge, edgeSet map[*lpg.Edge]struct{}, e *lpg.Edge) bool {
	c := sTimesE(vEdgesOf(edges), len(edges), e)
	_, has := edgeSet[e]
	return has && c == 1 || !has && c == 0
}

func delete_inv_eremoved(locEdges []*lpg.Edge, e *lpg.Edge, i int) bool {
	c := vEdge(e).removed - sTimesE(vEdgesOf(locEdges), i+1, e)
	return vOld(func() bool { return c == vEdge(e).removed })
}

// an edge is removed once if it is in a path that is named, and not otherwise
// (those of the removed nodes go with these)
func delete_post_edges(d deleteClause, ctx *EvalContext, result ResultSet, err error, e *lpg.Edge) bool {
	c := vEdge(e).removed
	return vOld(func() bool {
		r := sDelE(d, ctx.SubContext(), result.Rows, len(result.Rows), e)
		c0 := vEdge(e).removed
		if err == nil && r {
			return c == c0+1
		}
		return c == c0
	})
}

// without DETACH every edge of a node that is removed is named too: the edge
// with number gk of the node in a direction is e

func sAttached(n *lpg.Node, gdir lpg.EdgeDir, gk int, e *lpg.Edge) bool {
	l := vEdgesAt(n, gdir)
	return gk >= 0 && gk < vEdgeLen(l) && vEdgeAt(l, gk) == e
}

func delete_inv_attached(edgeSet map[*lpg.Edge]struct{}, locItr lpg.EdgeIterator, gk int, e *lpg.Edge) bool {
	i := locItr.(*vEdgeItr)
	_, has := edgeSet[e]
	return gk < 0 || gk >= i.n || vEdgeAt(i.edges, gk) != e || has
}

func delete_inv_dirs(edgeSet map[*lpg.Edge]struct{}, locNode, n *lpg.Node, locDirs []lpg.EdgeDir, i int, gdir lpg.EdgeDir, gk int, e *lpg.Edge) bool {
	_, has := edgeSet[e]
	return has || !sAttached(n, gdir, gk, e) || locNode != n ||
		(i < 0 || locDirs[0] != gdir) && (i < 1 || locDirs[1] != gdir)
}

func delete_inv_checked(edgeSet map[*lpg.Edge]struct{}, locNodes []*lpg.Node, n *lpg.Node, i int, gdir lpg.EdgeDir, gk int, e *lpg.Edge) bool {
	_, has := edgeSet[e]
	return has || !sAttached(n, gdir, gk, e) || gdir != lpg.OutgoingEdge && gdir != lpg.IncomingEdge || sTimes(vNodesOf(locNodes), i+1, n) == 0
}

func delete_post_attached(d deleteClause, ctx *EvalContext, result ResultSet, err error, n *lpg.Node, gdir lpg.EdgeDir, gk int, e *lpg.Edge) bool {
	return vOld(func() bool {
		r := vAside(func() bool { return sDel(d, ctx.SubContext(), result.Rows, len(result.Rows), n) })
		r1 := vAside(func() bool { return sDelE(d, ctx.SubContext(), result.Rows, len(result.Rows), e) })
		return err != nil || d.detach || !r || !sAttached(n, gdir, gk, e) || gdir != lpg.OutgoingEdge && gdir != lpg.IncomingEdge || r1
	})
}

func delete_var_itr(locItr lpg.EdgeIterator) int {
	i := locItr.(*vEdgeItr)
	return vEdgeLen(i.edges) - i.n
}

// sDelRowFrom: the first error of the expressions from j on
func sDelRowFrom(exprs []Expression, ctx *EvalContext, j int) error {
	if j >= len(exprs) {
		return nil
	}
	if _, err := exprs[j].Evaluate(ctx); err != nil {
		return err
	}
	return sDelRowFrom(exprs, ctx, j+1)
}

// sDelFrom: the first error of the rows from i on
func sDelFrom(d deleteClause, ctx *EvalContext, rows []map[string]Value, i int) error {
	if i >= len(rows) {
		return nil
	}
	ctx.SetVars(rows[i])
	if err := sDelRowFrom(d.exprs, ctx, 0); err != nil {
		return err
	}
	return sDelFrom(d, ctx, rows, i+1)
}

func delete_inv_err(d deleteClause, ctx *EvalContext, result ResultSet, locSub *EvalContext, i int) bool {
	r := sDelFrom(d, locSub, result.Rows, i+1)
	return vOld(func() bool { return vSameErr(r, sDelFrom(d, ctx.SubContext(), result.Rows, 0)) })
}

func delete_inv_rowerr(d deleteClause, locSub *EvalContext, j int) bool {
	return vSameErr(sDelRowFrom(d.exprs, locSub, 0), sDelRowFrom(d.exprs, locSub, j+1))
}

func delete_inv_rowserr(d deleteClause, ctx *EvalContext, result ResultSet, locSub *EvalContext, locI int) bool {
	e := sDelRowFrom(d.exprs, locSub, 0)
	r := e
	if e == nil {
		r = sDelFrom(d, locSub, result.Rows, locI+1)
	}
	return vOld(func() bool { return vSameErr(r, sDelFrom(d, ctx.SubContext(), result.Rows, 0)) })
}

// an error of an expression is the error of DELETE; DETACH has no other error
func delete_post_err(d deleteClause, ctx *EvalContext, result ResultSet, err error) bool {
	return vOld(func() bool {
		e := sDelFrom(d, ctx.SubContext(), result.Rows, 0)
		if e != nil {
			return vSameErr(err, e)
		}
		return err == nil || !d.detach
	})
}
