package opencypher

import "github.com/cloudprivacylabs/lpg/v2"

// Contracts of result sets and of the sameness of values.

//@ rec sSame sSameFrom
//@ unit same target=IsValueSame props=C11 args=v,v2 res=res

// sSame: two values are the same. Null is the same as null, numbers compare
// as numbers, and lists, maps, sets and paths element by element. Edges and
// what is not a value are the same as nothing
func sSame(a, b Value) bool {
	if IsValuePrimitive(a) {
		if !IsValuePrimitive(b) {
			return false
		}
		c, err := comparePrimitiveValues(a.Get(), b.Get())
		return err == nil && c == 0
	}
	switch x := a.Get().(type) {
	case nil:
		return b.Get() == nil
	case []Value:
		y, ok := b.Get().([]Value)
		return ok && len(x) == len(y) && sSameFrom(x, y, 0)
	case map[string]Value:
		y, ok := b.Get().(map[string]Value)
		return ok && sSameMap(x, y)
	case lpg.StringSet:
		y, ok := b.Get().(lpg.StringSet)
		return ok && sSameSet(x, y)
	case *lpg.Node:
		y, ok := b.Get().(*lpg.Node)
		return ok && x == y
	case *lpg.Path:
		y, ok := b.Get().(*lpg.Path)
		return ok && sSamePath(x, y)
	}
	return false
}

// sSameFrom: the elements from the i-th on are the same
func sSameFrom(a, b []Value, i int) bool {
	return i >= len(a) || sSame(a[i], b[i]) && sSameFrom(a, b, i+1)
}

func sSameMap(a, b map[string]Value) bool {
	return len(a) == len(b) && vForallStr(func(k string) bool {
		v, has := a[k]
		v2, has2 := b[k]
		return !has || has2 && sSame(v, v2)
	})
}

// finite sets of the same size, one of which contains the other
func sSameSet(a, b lpg.StringSet) bool {
	return a.Len() == b.Len() && vForallStr(func(k string) bool { return !a.Has(k) || b.Has(k) })
}

func sSamePath(a, b *lpg.Path) bool {
	return a.NumEdges() == b.NumEdges() && a.NumNodes() == b.NumNodes() &&
		vForallInt(0, a.NumEdges(), func(i int) bool { return a.GetEdge(i) == b.GetEdge(i) }) &&
		vForallInt(0, a.NumNodes(), func(i int) bool { return a.GetNode(i) == b.GetNode(i) })
}

func same_post_same(v, v2 Value, res bool) bool { return res == sSame(v, v2) }

func same_inv_list(locA, locB []Value, i int) bool {
	return sSameFrom(locA, locB, i+1) == sSameFrom(locA, locB, 0)
}

func same_inv_map(locA, locB map[string]Value, seen vSet) bool {
	return vForallStr(func(k string) bool {
		v, has := locA[k]
		v2, has2 := locB[k]
		return !vHas(seen, k) || !has || has2 && sSame(v, v2)
	})
}

func same_inv_set(locA, locB lpg.StringSet, seen vSet) bool {
	return vForallStr(func(k string) bool { return !vHas(seen, k) || !locA.Has(k) || locB.Has(k) })
}

func same_inv_edges(locA, locB *lpg.Path, n int) bool {
	return vForallInt(0, n, func(i int) bool { return locA.GetEdge(i) == locB.GetEdge(i) })
}

func same_inv_nodes(locA, locB *lpg.Path, n int) bool {
	return vForallInt(0, n, func(i int) bool { return locA.GetNode(i) == locB.GetNode(i) })
}

//@ rec sFind sUnion
//@ unit find target=(*ResultSet).find props=C11 args=r,row res=res calls=same

// sFind is the first row that is the same as row, or -1
func sFind(rows vRows, row map[string]Value, i int) int {
	if i >= vLen(rows) {
		return -1
	}
	if sSameMap(vAt(rows, i), row) {
		return i
	}
	return sFind(rows, row, i+1)
}

func find_post_first(r *ResultSet, row map[string]Value, res int) bool {
	return res == sFind(vSeq(r.Rows), row, 0)
}

func find_pre_r(r *ResultSet) bool { return r != nil }

func find_inv_rows(r *ResultSet, row map[string]Value, i int) bool {
	return sFind(vSeq(r.Rows), row, i+1) == sFind(vSeq(r.Rows), row, 0)
}

func find_inv_keys(row, locR map[string]Value, seen vSet) bool {
	return vForallStr(func(k string) bool {
		v, has := locR[k]
		v2, has2 := row[k]
		return !vHas(seen, k) || !has || has2 && sSame(v, v2)
	})
}

//@ unit append target=(*ResultSet).Append props=C11,C27 args=r,row res=err models=1 owns=1 modifies=r.Rows summary=sAppend

// sAppend is what callers know of Append: the postcondition says that it does
// the same
func sAppend(r *ResultSet, row map[string]Value) error {
	r.Rows = append(r.Rows, row)
	return nil
}

// Append adds the row behind the others
func append_post_rows(r *ResultSet, row map[string]Value, err error) bool {
	rows := vSeq(r.Rows)
	return err == nil && vOld(func() bool { return vSameRows(rows, vPush(vSeq(r.Rows), row)) })
}

//@ unit union target=(*ResultSet).Union props=C11 args=r,src,all res=err models=1 owns=1 localinv=1 calls=find modifies=r.Rows summary=sUnionSet

// sUnion adds the rows of src from the i-th on: all of them, or those that
// are not the same as one that is there
func sUnion(rows, src vRows, i int, all bool) vRows {
	if i >= vLen(src) {
		return rows
	}
	if !all && sFind(rows, vAt(src, i), 0) != -1 {
		return sUnion(rows, src, i+1, all)
	}
	return sUnion(vPush(rows, vAt(src, i)), src, i+1, all)
}

// sUnionSet is what callers know of Union: the postcondition says that it does
// the same
func sUnionSet(r *ResultSet, src ResultSet, all bool) error {
	r.Rows = vMake(sUnion(vSeq(r.Rows), vSeq(src.Rows), 0, all))
	return nil
}

func union_inv_rest(r *ResultSet, src ResultSet, all bool, i int) bool {
	u := sUnion(vSeq(r.Rows), vSeq(src.Rows), i+1, all)
	return vOld(func() bool { return vSameRows(u, sUnion(vSeq(r.Rows), vSeq(src.Rows), 0, all)) })
}

func union_post_rows(r *ResultSet, src ResultSet, all bool, err error) bool {
	rows := vSeq(r.Rows)
	return err == nil && vOld(func() bool { return vSameRows(rows, sUnion(vSeq(r.Rows), vSeq(src.Rows), 0, all)) })
}

// values are never nil interfaces
func same_pre_values(v, v2 Value) bool { return v != nil && v2 != nil }

func same_var_edges(locA *lpg.Path, n int) int { return locA.NumEdges() - n }
func same_var_nodes(locA *lpg.Path, n int) int { return locA.NumNodes() - n }
func append_pre_r(r *ResultSet) bool           { return r != nil }
func union_pre_r(r *ResultSet) bool            { return r != nil }
