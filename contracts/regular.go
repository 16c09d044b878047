package opencypher

// Contracts of the combination of queries with UNION: the rows of the first,
// then those of the others one after the other, each query in a scope of its
// own, and the variables of all of them for the caller.

//@ erec sRegFrom sRegVars

//@ unit regular target=(regularQuery).Evaluate props=C11,C13 args=query,ctx res=res,err models=1 owns=1 effects=(*EvalContext).SubContext;(*EvalContext).SetVars;(*EvalContext).GetVarsNearestScope calls=union waive=call_of_;type_assertion

// sRegRun are the rows of one query
func sRegRun(q Evaluatable, ctx *EvalContext) (ResultSet, error) {
	v, err := q.Evaluate(ctx)
	if err != nil {
		return ResultSet{}, err
	}
	rs, ok := v.Get().(ResultSet)
	if !ok {
		return ResultSet{}, ErrExpectingResultSet
	}
	return rs, nil
}

// sRegFrom adds the rows of the queries from i on
func sRegFrom(q regularQuery, ctx *EvalContext, subs vCtxs, rows vRows, i int) (vRows, error) {
	if i >= len(q.unions) {
		sRegVars(ctx, subs, 0)
		return rows, nil
	}
	sub := ctx.SubContext()
	rs, err := sRegRun(q.unions[i].singleQuery, sub)
	if err != nil {
		return sQNone(), err
	}
	return sRegFrom(q, ctx, vCtxPush(subs, sub), sUnion(rows, vSeq(rs.Rows), 0, q.unions[i].all), i+1)
}

// sRegVars gives the caller the variables of the queries from i on
func sRegVars(ctx *EvalContext, subs vCtxs, i int) bool {
	if i >= vCtxLen(subs) {
		return true
	}
	ctx.SetVars(vCtxAt(subs, i).GetVarsNearestScope())
	if i+1 >= vCtxLen(subs) {
		return true
	}
	return sRegVars(ctx, subs, i+1)
}

func sRegular(q regularQuery, ctx *EvalContext) (vRows, error) {
	sub := ctx.SubContext()
	rs, err := sRegRun(q.singleQuery, sub)
	if err != nil {
		return sQNone(), err
	}
	rows := vSeq(rs.Rows)
	if len(q.unions) == 0 {
		ctx.SetVars(sub.GetVarsNearestScope())
		return rows, nil
	}
	if !q.unions[0].all {
		rows = sUnion(sQNone(), rows, 0, false)
	}
	return sRegFrom(q, ctx, vCtxPush(vCtxsOf(nil), sub), rows, 0)
}

func sRegSame(query regularQuery, ctx *EvalContext, rows vRows, err error) bool {
	w := vWorld()
	return vOld(func() bool {
		r, e := sRegular(query, ctx)
		return w == vWorld() && vSameErr(e, err) && (e != nil || vEqRows(r, rows))
	})
}

func regular_inv_unions(query regularQuery, ctx *EvalContext, curContexts []*EvalContext, resultSet ResultSet, cur int) bool {
	r, e := sRegFrom(query, ctx, vCtxsOf(curContexts), vSeq(resultSet.Rows), cur)
	return sRegSame(query, ctx, r, e)
}

func regular_inv_vars(query regularQuery, ctx *EvalContext, contexts []*EvalContext, resultSet ResultSet, cur int) bool {
	rows := vSeq(resultSet.Rows)
	sRegVars(ctx, vCtxsOf(contexts), cur)
	return sRegSame(query, ctx, rows, nil)
}

func regular_pre_ctx(ctx *EvalContext) bool { return ctx != nil }

func regular_post_rows(query regularQuery, ctx *EvalContext, res Value, err error) bool {
	if err != nil {
		return sRegSame(query, ctx, sQNone(), err)
	}
	rs, ok := res.Get().(ResultSet)
	return ok && sRegSame(query, ctx, vSeq(rs.Rows), nil)
}
