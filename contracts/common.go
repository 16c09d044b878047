package opencypher

import (
	"math"
	"reflect"
	"time"
	"unicode/utf8"

	"github.com/cloudprivacylabs/lpg/v2"
)

// The words of the contract language. The verifier gives them their logical
// meaning; the bodies below are used when a contract is executed as an
// oracle on the real code.

// vSameAny: the two contents are the same
func vSameAny(a, b interface{}) bool { return vSame(a, b, 0) }

// vSameErr: both fail, or both succeed
func vSameErr(a, b error) bool { return (a == nil) == (b == nil) }

// vIsNaN tells whether a number is not a number
func vIsNaN(f float64) bool { return math.IsNaN(f) }

// vForallInt: p holds for every lo <= i < hi
func vForallInt(lo, hi int, p func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if !p(i) {
			return false
		}
	}
	return true
}

func vSame(a, b interface{}, d int) bool {
	if d > 50 {
		return true
	}
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if v, ok := a.(Value); ok {
		a = v.Get()
	}
	if v, ok := b.(Value); ok {
		b = v.Get()
	}
	switch x := a.(type) {
	case error:
		y, ok := b.(error)
		return ok && reflect.TypeOf(a) == reflect.TypeOf(b) && (reflect.TypeOf(a).Kind() == reflect.Ptr || x.Error() == y.Error())
	case float64:
		y, ok := b.(float64)
		return ok && (x == y && math.Signbit(x) == math.Signbit(y) || math.IsNaN(x) && math.IsNaN(y))
	case []Value:
		y, ok := b.([]Value)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !vSame(x[i], y[i], d+1) {
				return false
			}
		}
		return true
	case map[string]Value:
		y, ok := b.(map[string]Value)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !vSame(x[k], v, d+1) {
				return false
			}
		}
		return true
	case lpg.StringSet:
		y, ok := b.(lpg.StringSet)
		if !ok || x.Len() != y.Len() {
			return false
		}
		for k := range x.M {
			if !y.Has(k) {
				return false
			}
		}
		return true
	case ResultSet:
		y, ok := b.(ResultSet)
		if !ok || len(x.Rows) != len(y.Rows) || len(x.Cols) != len(y.Cols) {
			return false
		}
		for i := range x.Cols {
			if x.Cols[i] != y.Cols[i] {
				return false
			}
		}
		for i := range x.Rows {
			if !vSame(x.Rows[i], y.Rows[i], d+1) {
				return false
			}
		}
		return true
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case []*lpg.Edge:
		y, ok := b.([]*lpg.Edge)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	}
	defer func() { recover() }()
	return a == b
}

// vSameValue: the two values are the same, including their constness
func vSameValue(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return vSame(a.Get(), b.Get(), 0) && a.IsConst() == b.IsConst()
}

// vOld: p held when the function was called
func vOld[T any](p func() T) T { return p() }

// vAside is the result of f. What f does to the world is left out
func vAside[T any](f func() T) T { return f() }

// vSameFunction: the two describe the same function
func vSameFunction(a, b Function) bool {
	return a.Name == b.Name && a.MinArgs == b.MinArgs && a.MaxArgs == b.MaxArgs &&
		reflect.ValueOf(a.Func).Pointer() == reflect.ValueOf(b.Func).Pointer() && reflect.ValueOf(a.ValueFunc).Pointer() == reflect.ValueOf(b.ValueFunc).Pointer()
}

// vSet is a set of keys: in a loop over a map, the keys it has visited
type vSet map[string]bool

func vHas(s vSet, k string) bool { return s[k] }

// vFresh: the reference was made during the call
func vFresh(ref interface{}) bool { return true }

// vSameMap: the two are one and the same map
func vSameMap(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	return x.Kind() == reflect.Map && y.Kind() == reflect.Map && x.Pointer() == y.Pointer()
}

// vForallStr: p holds for every string. (Not executable: a contract that is
// run asks about some strings only.)
func vForallStr(p func(string) bool) bool {
	for _, s := range []string{"", "0", "1", "a", "b", "c", "x", "y", "name"} {
		if !p(s) {
			return false
		}
	}
	return true
}

// vSameSet: the two sets have the same elements
func vSameSet(a, b lpg.StringSet) bool { return a.IsEqual(b) }

// vSameWorld: the state of the world is that with the id
func vSameWorld(w int) bool { return vWorld() == w }

// vRows is a sequence of rows, as a value: a list of rows as it was when it
// was taken
type vRows []map[string]Value

// vSeq takes the rows of a list
func vSeq(rows []map[string]Value) vRows { return append(vRows{}, rows...) }

// vRuneAt is the character of a string at position i, vRuneLen its length
func vRuneAt(s string, i int) rune {
	r, _ := utf8.DecodeRuneInString(s[i:])
	return r
}

func vRuneLen(s string, i int) int {
	_, n := utf8.DecodeRuneInString(s[i:])
	return n
}

// vSlice is a list of the rows of a sequence
func vSlice(s vRows) []map[string]Value { return s }

// vEqRows is vSameRows without quantifiers: also what an implementation of
// sequences has behind the end is the same
func vEqRows(a, b vRows) bool { return vSameRows(a, b) }

// vMake is a new list of them
func vMake(s vRows) []map[string]Value { return append([]map[string]Value{}, s...) }

// vCtxs is a sequence of contexts, as a value
type vCtxs []*EvalContext

func vCtxsOf(l []*EvalContext) vCtxs         { return append(vCtxs{}, l...) }
func vCtxAt(s vCtxs, i int) *EvalContext     { return s[i] }
func vCtxLen(s vCtxs) int                    { return len(s) }
func vCtxPush(s vCtxs, c *EvalContext) vCtxs { return append(append(vCtxs{}, s...), c) }

func vLen(s vRows) int                    { return len(s) }
func vAt(s vRows, i int) map[string]Value { return s[i] }

// vPush is the sequence with a row at its end
func vPush(s vRows, row map[string]Value) vRows { return append(append(vRows{}, s...), row) }

// vNodes and vEdges are sequences of nodes and edges, as values
type vNodes []*lpg.Node
type vEdges []*lpg.Edge

func vNodesOf(l []*lpg.Node) vNodes     { return append(vNodes{}, l...) }
func vEdgesOf(l []*lpg.Edge) vEdges     { return append(vEdges{}, l...) }
func vNodeAt(s vNodes, i int) *lpg.Node { return s[i] }
func vNodeLen(s vNodes) int             { return len(s) }
func vEdgeLen(s vEdges) int             { return len(s) }
func vEdgeAt(s vEdges, i int) *lpg.Edge { return s[i] }

// vSameRows: the same rows (not copies of them) in the same order
func vSameRows(a, b vRows) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if reflect.ValueOf(a[i]).Pointer() != reflect.ValueOf(b[i]).Pointer() {
			return false
		}
	}
	return true
}
