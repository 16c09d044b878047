package opencypher

// Contracts of MERGE.

//@ erec sActions sMergeRest sMergeUpto
//@ unit mergeActions target=(merge).processActions props=C24 args=m,ctx,created,matched,rs res=err

// sActions runs the actions from the i-th on that apply, in order
func sActions(m merge, ctx *EvalContext, created, matched bool, rs ResultSet, i int) error {
	if i >= len(m.actions) {
		return nil
	}
	if m.actions[i].on == mergeActionOnCreate && created || m.actions[i].on == mergeActionOnMatch && matched {
		if _, err := m.actions[i].set.Update(ctx, rs); err != nil {
			return err
		}
	}
	return sActions(m, ctx, created, matched, rs, i+1)
}

func mergeActions_inv_rest(m merge, ctx *EvalContext, created, matched bool, rs ResultSet, i int) bool {
	err := sActions(m, ctx, created, matched, rs, i+1)
	w := vWorld()
	return vOld(func() bool {
		e := sActions(m, ctx, created, matched, rs, 0)
		return w == vWorld() && vSameErr(e, err)
	})
}

func mergeActions_post_effect(m merge, ctx *EvalContext, created, matched bool, rs ResultSet, err error) bool {
	w := vWorld()
	return vOld(func() bool {
		e := sActions(m, ctx, created, matched, rs, 0)
		return w == vWorld() && vSameErr(e, err)
	})
}

//@ unit mergeOne target=(merge).doMerge props=C24 args=m,ctx res=created,matched,result,err models=1 localinv=1 effects=(merge).getResults;(*EvalContext).SubContext;(PatternPart).Create reads=(*EvalContext).GetVarsNearestScope calls=append

// sMergeOne searches, and creates the pattern if nothing is found. It returns
// the rows that were found, or the variables of what was created
func sMergeOne(m merge, ctx *EvalContext) (ResultSet, map[string]Value, error) {
	_, found, err := m.getResults(ctx)
	if err != nil {
		return ResultSet{}, nil, err
	}
	if len(found.Rows) > 0 {
		return found, nil, nil
	}
	sub := ctx.SubContext()
	if _, _, err := m.pattern.Create(sub); err != nil {
		return ResultSet{}, nil, err
	}
	return found, sub.GetVarsNearestScope(), nil
}

func mergeOne_post_effect(m merge, ctx *EvalContext, created, matched bool, err error) bool {
	w := vWorld()
	return vOld(func() bool {
		found, _, e := sMergeOne(m, ctx)
		return w == vWorld() && vSameErr(e, err) && (e != nil || matched == (len(found.Rows) > 0) && created == !matched)
	})
}

func mergeOne_inv_row(row, locVars map[string]Value, seen vSet, key string) bool {
	v, has := row[key]
	v1, has1 := locVars[key]
	return has == (has1 && vHas(seen, key)) && (!has || vSameAny(v, v1))
}

// the rows that matched, or one row with the variables that were bound
func mergeOne_post_rows(m merge, ctx *EvalContext, created bool, result ResultSet, err error, key string) bool {
	if err != nil {
		return true
	}
	if !created {
		rows := vSeq(result.Rows)
		return vOld(func() bool {
			found, _, _ := sMergeOne(m, ctx)
			return vSameRows(rows, vSeq(found.Rows))
		})
	}
	if len(result.Rows) != 1 {
		return false
	}
	v, has := result.Rows[0][key]
	return vOld(func() bool {
		_, vars, _ := sMergeOne(m, ctx)
		v1, has1 := vars[key]
		return has == has1 && (!has || vSameAny(v, v1))
	})
}

//@ unit merge target=(merge).Update props=C24,C27 args=m,ctx,rs res=res,err models=1 localinv=1 effects=(*EvalContext).SubContext;(*EvalContext).SetVars;(merge).doMerge;(merge).processActions calls=append

// sMergeRow merges the pattern for one row, in a scope of its own
func sMergeRow(m merge, ctx *EvalContext, row map[string]Value) (ResultSet, error) {
	sub := ctx.SubContext()
	sub.SetVars(row)
	created, matched, rs, err := m.doMerge(sub)
	if err != nil {
		return ResultSet{}, err
	}
	return rs, m.processActions(sub, created, matched, rs)
}

func sMergeRest(m merge, ctx *EvalContext, rows []map[string]Value, i int) error {
	if i >= len(rows) {
		return nil
	}
	if _, err := sMergeRow(m, ctx, rows[i]); err != nil {
		return err
	}
	return sMergeRest(m, ctx, rows, i+1)
}

// sMergeUpto: the first n rows. It returns the number of rows they give, and
// what was found or created for the last
func sMergeUpto(m merge, ctx *EvalContext, rows []map[string]Value, n int) (int, ResultSet) {
	if n <= 0 {
		return 0, ResultSet{}
	}
	c, _ := sMergeUpto(m, ctx, rows, n-1)
	rs, _ := sMergeRow(m, ctx, rows[n-1])
	return c + sMergeRows(rs), rs
}

// sMergeRows: a row for each match
func sMergeRows(rs ResultSet) int {
	if len(rs.Rows) == 0 {
		return 1
	}
	return len(rs.Rows)
}

func merge_inv_rest(m merge, ctx *EvalContext, rs ResultSet, i int) bool {
	err := sMergeRest(m, ctx, rs.Rows, i+1)
	w := vWorld()
	return vOld(func() bool {
		e := sMergeRest(m, ctx, rs.Rows, 0)
		return w == vWorld() && vSameErr(e, err)
	})
}

func merge_post_effect(m merge, ctx *EvalContext, rs ResultSet, err error) bool {
	w := vWorld()
	return vOld(func() bool {
		e := sMergeRest(m, ctx, rs.Rows, 0)
		return w == vWorld() && vSameErr(e, err)
	})
}

func merge_inv_upto(m merge, ctx *EvalContext, rs ResultSet, i int) bool {
	w := vWorld()
	return vOld(func() bool {
		sMergeUpto(m, ctx, rs.Rows, i+1)
		return vSameWorld(w)
	})
}

// sMergeCount is the number of rows for the first n rows
func sMergeCount(m merge, ctx *EvalContext, rows []map[string]Value, n int) int {
	return vAside(func() int {
		c, _ := sMergeUpto(m, ctx, rows, n)
		return c
	})
}

func merge_inv_len(m merge, ctx *EvalContext, rs ResultSet, ret ResultSet, i int) bool {
	l := len(ret.Rows)
	return vOld(func() bool { return l == sMergeCount(m, ctx, rs.Rows, i+1) })
}

// the rows for the matches of the row that is worked on
func merge_inv_ilen(m merge, ctx *EvalContext, rs ResultSet, ret ResultSet, locI, j int) bool {
	l := len(ret.Rows)
	return vOld(func() bool { return l == sMergeCount(m, ctx, rs.Rows, locI+1)+j+1 })
}

// the result has the rows for each row behind each other
func merge_post_rows(m merge, ctx *EvalContext, rs ResultSet, res Value, err error, n, k, at int, key string) bool {
	if err != nil {
		return true
	}
	ret, ok := res.Get().(ResultSet)
	if !ok {
		return false
	}
	l := len(ret.Rows)
	if n < 0 || n >= len(rs.Rows) || k < 0 || at < 0 || at >= l {
		return vOld(func() bool { return l == sMergeCount(m, ctx, rs.Rows, len(rs.Rows)) })
	}
	v, has := ret.Rows[at][key]
	return vOld(func() bool {
		if !sMergedAt(m, ctx, rs.Rows, n, k, at) {
			return true
		}
		v1, has1 := sMergedCell(m, ctx, rs.Rows, n, k, key)
		return has == has1 && (!has || vSameAny(v, v1))
	})
}

// sMergeFound is what was found or created for the n-th row
func sMergeFound(m merge, ctx *EvalContext, rows []map[string]Value, n int) ResultSet {
	return vAside(func() ResultSet {
		_, found := sMergeUpto(m, ctx, rows, n+1)
		return found
	})
}

// sMergeCell is the value of a column in the k-th row for the n-th row: that
// of the match, or else that of the row
func sMergeCell(row map[string]Value, rs ResultSet, k int, key string) (Value, bool) {
	if k < len(rs.Rows) {
		if v, has := rs.Rows[k][key]; has {
			return v, true
		}
	}
	v, has := row[key]
	return v, has
}

// sMergedAt: the row at position at is the k-th for the n-th row
func sMergedAt(m merge, ctx *EvalContext, rows []map[string]Value, n, k, at int) bool {
	return at == sMergeCount(m, ctx, rows, n)+k && k < sMergeRows(sMergeFound(m, ctx, rows, n))
}

func sMergedCell(m merge, ctx *EvalContext, rows []map[string]Value, n, k int, key string) (Value, bool) {
	return sMergeCell(rows[n], sMergeFound(m, ctx, rows, n), k, key)
}

func merge_inv_mono(m merge, ctx *EvalContext, rs ResultSet, i, n int) bool {
	return n < 0 || n > i || vOld(func() bool {
		c := sMergeCount(m, ctx, rs.Rows, n)
		c1 := sMergeCount(m, ctx, rs.Rows, n+1)
		return c >= 0 && c < c1 && c1 <= sMergeCount(m, ctx, rs.Rows, i+1)
	})
}

func merge_inv_rows(m merge, ctx *EvalContext, rs ResultSet, ret ResultSet, locI, n, k, at int, key string) bool {
	if n < 0 || n > locI || k < 0 || at < 0 || at >= len(ret.Rows) {
		return true
	}
	v, has := ret.Rows[at][key]
	return vOld(func() bool {
		if !sMergedAt(m, ctx, rs.Rows, n, k, at) {
			return true
		}
		v1, has1 := sMergedCell(m, ctx, rs.Rows, n, k, key)
		return has == has1 && (!has || vSameAny(v, v1))
	})
}

func merge_inv_inner(m merge, ctx *EvalContext, rs ResultSet, ret ResultSet, locI, j, k, at int, key string) bool {
	l := len(ret.Rows)
	if k < 0 || k > j || at < 0 || at >= l {
		return true
	}
	v, has := ret.Rows[at][key]
	return vOld(func() bool {
		if !sMergedAt(m, ctx, rs.Rows, locI+1, k, at) {
			return true
		}
		v1, has1 := sMergedCell(m, ctx, rs.Rows, locI+1, k, key)
		return has == has1 && (!has || vSameAny(v, v1))
	})
}

// the row under construction
func merge_inv_row1(row, locFrom map[string]Value, seen vSet, key string) bool {
	v, has := row[key]
	v1, has1 := locFrom[key]
	return has == (has1 && vHas(seen, key)) && (!has || vSameAny(v, v1))
}

func merge_inv_row2(row, locFrom, locVars map[string]Value, seen vSet, key string) bool {
	v, has := row[key]
	v2, has2 := locVars[key]
	if has2 && vHas(seen, key) {
		return has && vSameAny(v, v2)
	}
	v1, has1 := locFrom[key]
	return has == has1 && (!has || vSameAny(v, v1))
}

// every action has a clause
func mergeActions_pre_sets(m merge) bool {
	return vForallInt(0, len(m.actions), func(i int) bool { return m.actions[i].set != nil })
}

//@ unit mergeTop target=(merge).TopLevelUpdate props=C24 args=m,ctx res=res,err models=1 localinv=1 effects=(merge).doMerge;(merge).processActions calls=append

// sMergeTop merges the pattern in the scope it is given
func sMergeTop(m merge, ctx *EvalContext) (ResultSet, error) {
	created, matched, found, err := m.doMerge(ctx)
	if err != nil {
		return ResultSet{}, err
	}
	return found, m.processActions(ctx, created, matched, found)
}

func mergeTop_post_effect(m merge, ctx *EvalContext, err error) bool {
	w := vWorld()
	return vOld(func() bool {
		_, e := sMergeTop(m, ctx)
		return w == vWorld() && vSameErr(e, err)
	})
}

func mergeTop_inv_len(found, ret ResultSet, i int) bool {
	return len(ret.Rows) == i+1
}

func mergeTop_inv_rows(found, ret ResultSet, i, k int, key string) bool {
	if k < 0 || k > i {
		return true
	}
	v, has := ret.Rows[k][key]
	v1, has1 := found.Rows[k][key]
	return has == has1 && (!has || vSameAny(v, v1))
}

func mergeTop_inv_row(row, locFrom map[string]Value, seen vSet, key string) bool {
	v, has := row[key]
	v1, has1 := locFrom[key]
	return has == (has1 && vHas(seen, key)) && (!has || vSameAny(v, v1))
}

// the rows are those that were found or created
func mergeTop_post_rows(m merge, ctx *EvalContext, res Value, err error, k int, key string) bool {
	if err != nil {
		return true
	}
	ret, ok := res.Get().(ResultSet)
	if !ok {
		return false
	}
	l := len(ret.Rows)
	if k < 0 || k >= l {
		return vOld(func() bool {
			found, _ := sMergeTop(m, ctx)
			return l == len(found.Rows)
		})
	}
	v, has := ret.Rows[k][key]
	return vOld(func() bool {
		found, _ := sMergeTop(m, ctx)
		v1, has1 := found.Rows[k][key]
		return has == has1 && (!has || vSameAny(v, v1))
	})
}

//@ unit mergeSearch target=(merge).getResults props=C24 args=m,ctx res=unbound,result,err models=1 reads=(PatternPart).getPattern;BuildPatternSymbols;(*EvalContext).GetVar effects=(lpg.Pattern).Run

func mergeSearch_pre(ctx *EvalContext) bool { return ctx != nil }

// a pattern that cannot be translated, or refers to what is no element, is an
// error
func mergeSearch_post_err(m merge, ctx *EvalContext, err error) bool {
	return vOld(func() bool {
		p, e := m.pattern.getPattern(ctx)
		if e != nil {
			return err != nil
		}
		_, e = BuildPatternSymbols(ctx, p)
		return e == nil || err != nil
	})
}
