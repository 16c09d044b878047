package opencypher

import "github.com/cloudprivacylabs/lpg/v2"

// Contracts of single queries: reading clauses, updating clauses and RETURN,
// one after the other. The specification says what is left to do from each
// point on, and that is what the whole query does.

//@ erec sQRead sQJoin sQNew sQUpd sQTop sQProject

// sQBound is a bound of RETURN, or -1
func sQBound(e Expression, ctx *EvalContext) (int, error) {
	if e == nil {
		return -1, nil
	}
	v, err := e.Evaluate(ctx)
	if err != nil {
		return 0, err
	}
	i, ok := v.Get().(int)
	if !ok {
		return 0, ErrIntValueRequired
	}
	return i, nil
}

func sQSkip(q singlePartQuery, ctx *EvalContext) int {
	if q.ret == nil {
		return -1
	}
	s, _ := sQBound(q.ret.projection.skip, ctx)
	return s
}

func sQLimit(q singlePartQuery, ctx *EvalContext) int {
	if q.ret == nil {
		return -1
	}
	s, _ := sQBound(q.ret.projection.limit, ctx)
	return s
}

func sQBoundErr(q singlePartQuery, ctx *EvalContext) error {
	if q.ret == nil {
		return nil
	}
	if _, err := sQBound(q.ret.projection.skip, ctx); err != nil {
		return err
	}
	_, err := sQBound(q.ret.projection.limit, ctx)
	return err
}

// sQNone: no rows
func sQNone() vRows { return vSeq(nil) }

// sQFrom is the first row that SKIP keeps
func sQFrom(skip int) int {
	if skip > 0 {
		return skip
	}
	return 0
}

// sQProject projects rows from, from+1, … from+limit-1 of those from n on
func sQProject(q singlePartQuery, ctx *EvalContext, skip, limit int, rows vRows, n int, acc vRows) (vRows, error) {
	if n >= vLen(rows) {
		return acc, nil
	}
	from := sQFrom(skip)
	if n < from {
		return sQProject(q, ctx, skip, limit, rows, n+1, acc)
	}
	if limit != -1 && n-from >= limit {
		return acc, nil
	}
	val, err := q.ret.projection.items.Project(ctx, vAt(rows, n))
	if err != nil {
		return sQNone(), err
	}
	return sQProject(q, ctx, skip, limit, rows, n+1, vPush(acc, val))
}

func sQRet(q singlePartQuery, ctx *EvalContext, skip, limit int, rows vRows) (vRows, error) {
	if q.ret == nil {
		return sQNone(), nil
	}
	return sQProject(q, ctx, skip, limit, rows, 0, sQNone())
}

// sQOnce: a query without rows returns one row, that of the items alone
func sQOnce(q singlePartQuery, ctx *EvalContext, skip, limit int) (vRows, error) {
	if q.ret == nil || skip > 0 || limit < 1 && limit != -1 {
		return sQNone(), nil
	}
	val, err := q.ret.projection.items.Project(ctx, nil)
	if err != nil {
		return sQNone(), err
	}
	return vPush(sQNone(), val), nil
}

// sQUpd: the updating clauses from i on, after reading clauses
func sQUpd(q singlePartQuery, ctx *EvalContext, skip, limit int, rows vRows, i int) (vRows, error) {
	if i >= len(q.update) {
		return sQRet(q, ctx, skip, limit, rows)
	}
	v, err := q.update[i].Update(ctx, ResultSet{Rows: vSlice(rows)})
	if err != nil {
		return sQNone(), err
	}
	rs, _ := v.Get().(ResultSet)
	return sQUpd(q, ctx, skip, limit, vSeq(rs.Rows), i+1)
}

// sQRead: the reading clauses from i on. The first gives the rows, and each
// other one extends each row
func sQRead(q singlePartQuery, ctx *EvalContext, skip, limit int, rows vRows, i int) (vRows, error) {
	if i >= len(q.read) {
		return sQUpd(q, ctx, skip, limit, rows, 0)
	}
	if i > 0 {
		return sQJoin(q, ctx, skip, limit, i, rows, 0, sQNone())
	}
	rs, err := q.read[0].GetResults(ctx)
	if err != nil {
		return sQNone(), err
	}
	return sQRead(q, ctx, skip, limit, vSeq(rs.Rows), 1)
}

// sQJoin extends the rows from j on, each in a scope of its own
func sQJoin(q singlePartQuery, ctx *EvalContext, skip, limit, i int, rows vRows, j int, acc vRows) (vRows, error) {
	if j >= vLen(rows) {
		return sQRead(q, ctx, skip, limit, acc, i+1)
	}
	sub := ctx.SubContext()
	sub.SetVars(vAt(rows, j))
	rs, err := q.read[i].GetResults(sub)
	if err != nil {
		return sQNone(), err
	}
	return sQNew(q, ctx, skip, limit, i, rows, j, vSeq(rs.Rows), 0, acc)
}

func sQNew(q singlePartQuery, ctx *EvalContext, skip, limit, i int, rows vRows, j int, found vRows, n int, acc vRows) (vRows, error) {
	if n >= vLen(found) {
		return sQJoin(q, ctx, skip, limit, i, rows, j+1, acc)
	}
	return sQNew(q, ctx, skip, limit, i, rows, j, found, n+1, vPush(acc, vAt(found, n)))
}

// sQTop: the updating clauses from i on, without reading clauses
func sQTop(q singlePartQuery, ctx *EvalContext, skip, limit int, rows vRows, i int) (vRows, error) {
	if i >= len(q.update) {
		if vLen(rows) == 0 {
			return sQOnce(q, ctx, skip, limit)
		}
		return sQRet(q, ctx, skip, limit, rows)
	}
	v, err := q.update[i].TopLevelUpdate(ctx)
	if err != nil {
		return sQNone(), err
	}
	if v != nil && v.Get() != nil {
		rs, _ := v.Get().(ResultSet)
		rows = vSeq(rs.Rows)
	}
	return sQTop(q, ctx, skip, limit, rows, i+1)
}

func sQuery(q singlePartQuery, ctx *EvalContext) (vRows, error) {
	if err := sQBoundErr(q, ctx); err != nil {
		return sQNone(), err
	}
	if len(q.read) > 0 {
		return sQRead(q, ctx, sQSkip(q, ctx), sQLimit(q, ctx), sQNone(), 0)
	}
	return sQTop(q, ctx, sQSkip(q, ctx), sQLimit(q, ctx), sQNone(), 0)
}

//@ unit query target=(singlePartQuery).Evaluate props=C12,C27 args=query,ctx res=res,err models=1 owns=1 effects=(*EvalContext).SubContext;(*EvalContext).SetVars;(projectionItems).Project calls=append;addSet;projected modifies=heap:MD:string:Value,heap:MV:string:Value waive=call_of_;type_assertion;assignment_to_nil_map

// sQSame: the query ends with the rows and the error, and in this state
func sQSame(query singlePartQuery, ctx *EvalContext, rows vRows, err error) bool {
	w := vWorld()
	return vOld(func() bool {
		r, e := sQuery(query, ctx)
		return w == vWorld() && vSameErr(e, err) && (e != nil || vSameRows(r, rows))
	})
}

func query_inv_project(query singlePartQuery, ctx *EvalContext, locRows []map[string]Value, ret ResultSet, cur int) bool {
	s := vOld(func() int { return sQSkip(query, ctx) })
	l := vOld(func() int { return sQLimit(query, ctx) })
	r, e := sQProject(query, ctx, s, l, vSeq(locRows), cur, vSeq(ret.Rows))
	return sQSame(query, ctx, r, e)
}

func query_inv_window(query singlePartQuery, ctx *EvalContext, ret ResultSet, cur int) bool {
	s := vOld(func() int { return sQFrom(sQSkip(query, ctx)) })
	if cur < s {
		return len(ret.Rows) == 0
	}
	return len(ret.Rows) == cur-s
}

func query_inv_updates(query singlePartQuery, ctx *EvalContext, results ResultSet, cur int) bool {
	s := vOld(func() int { return sQSkip(query, ctx) })
	l := vOld(func() int { return sQLimit(query, ctx) })
	r, e := sQUpd(query, ctx, s, l, vSeq(results.Rows), cur)
	return sQSame(query, ctx, r, e)
}

func query_inv_top(query singlePartQuery, ctx *EvalContext, results ResultSet, cur int) bool {
	s := vOld(func() int { return sQSkip(query, ctx) })
	l := vOld(func() int { return sQLimit(query, ctx) })
	r, e := sQTop(query, ctx, s, l, vSeq(results.Rows), cur)
	return sQSame(query, ctx, r, e)
}

func query_inv_read(query singlePartQuery, ctx *EvalContext, results ResultSet, cur int) bool {
	s := vOld(func() int { return sQSkip(query, ctx) })
	l := vOld(func() int { return sQLimit(query, ctx) })
	r, e := sQRead(query, ctx, s, l, vSeq(results.Rows), cur)
	return sQSame(query, ctx, r, e)
}

func query_inv_join(query singlePartQuery, ctx *EvalContext, locRows []map[string]Value, joined ResultSet, indI, cur int) bool {
	s := vOld(func() int { return sQSkip(query, ctx) })
	l := vOld(func() int { return sQLimit(query, ctx) })
	r, e := sQJoin(query, ctx, s, l, indI, vSeq(locRows), cur, vSeq(joined.Rows))
	return sQSame(query, ctx, r, e)
}

func query_inv_found(query singlePartQuery, ctx *EvalContext, locRows, locFound []map[string]Value, joined ResultSet, indI, indJ, cur int) bool {
	s := vOld(func() int { return sQSkip(query, ctx) })
	l := vOld(func() int { return sQLimit(query, ctx) })
	r, e := sQNew(query, ctx, s, l, indI, vSeq(locRows), indJ, vSeq(locFound), cur, vSeq(joined.Rows))
	return sQSame(query, ctx, r, e)
}

// the columns are those of the items throughout
func query_inv_cols(query singlePartQuery, ret ResultSet, gi int) bool {
	return sQCols(query, ret, gi)
}

func sQCols(query singlePartQuery, rs ResultSet, gi int) bool {
	items := query.ret.projection.items.items
	return len(rs.Cols) == len(items) && (gi < 0 || gi >= len(items) || rs.Cols[gi] == sProjName(items[gi], gi))
}

func query_pre_ctx(ctx *EvalContext) bool { return ctx != nil }

// the rows of the result are those the clauses give, one after the other
func query_post_rows(query singlePartQuery, ctx *EvalContext, res Value, err error) bool {
	if err != nil {
		return sQSame(query, ctx, sQNone(), err)
	}
	rs, ok := res.Get().(ResultSet)
	return ok && sQSame(query, ctx, vSeq(rs.Rows), nil)
}

// and its columns have the names of the items
func query_post_cols(query singlePartQuery, gi int, res Value, err error) bool {
	if err != nil {
		return true
	}
	rs, ok := res.Get().(ResultSet)
	if !ok || query.ret == nil {
		return ok && len(rs.Cols) == 0
	}
	return sQCols(query, rs, gi)
}

//@ unit addSet target=(*ResultSet).Add props=C12,C11 args=r,rs models=1 owns=1 modifies=r.Rows summary=sAddRows

// sAddRows is what callers know of Add
func sAddRows(r *ResultSet, rs ResultSet) { r.Rows = append(r.Rows, rs.Rows...) }

func addSet_pre_r(r *ResultSet) bool { return r != nil }

func addSet_post_rows(r *ResultSet, rs ResultSet, gi int) bool {
	n := len(r.Rows)
	row := vAt(vSeq(r.Rows), gi)
	return vOld(func() bool {
		n0 := len(r.Rows)
		if n != n0+len(rs.Rows) {
			return false
		}
		if gi < 0 || gi >= n {
			return true
		}
		if gi < n0 {
			return vSameMap(row, r.Rows[gi])
		}
		return vSameMap(row, rs.Rows[gi-n0])
	})
}

func addSet_var_nodes(locItr lpg.NodeIterator) int {
	i := locItr.(*vNodeItr)
	return vNodeLen(i.nodes) - i.n
}

func addSet_var_edges(locItr lpg.EdgeIterator) int {
	i := locItr.(*vEdgeItr)
	return vEdgeLen(i.edges) - i.n
}
