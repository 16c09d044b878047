package opencypher

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// Result sets and the sameness of values, against plain Go values.

type rGen struct {
	*wGen
	nodes []*lpg.Node
}

func rNew(g *wGen) *rGen {
	gr := lpg.NewGraph()
	return &rGen{wGen: g, nodes: []*lpg.Node{gr.NewNode(nil, nil), gr.NewNode(nil, nil)}}
}

// value is a plain Go value: nil, bool, int, float64, string, list, map, set
// of strings, or node
func (g *rGen) value(depth int) interface{} {
	n := 9
	if depth <= 0 {
		n = 6
	}
	switch g.Intn(n) {
	case 0:
		return nil
	case 1:
		return g.Intn(2)
	case 2:
		return float64(g.Intn(4)) / 2
	case 3:
		return g.pick("", "a", "b", "1")
	case 4:
		return g.chance(50)
	case 5:
		return g.nodes[g.Intn(2)]
	case 6:
		r := []interface{}{}
		for k := g.Intn(3); k > 0; k-- {
			r = append(r, g.value(depth-1))
		}
		return r
	case 7:
		r := map[string]interface{}{}
		for k := g.Intn(3); k > 0; k-- {
			r[g.pick("a", "b", "c")] = g.value(depth - 1)
		}
		return r
	}
	r := map[string]bool{}
	for k := g.Intn(3); k > 0; k-- {
		r[g.pick("a", "b", "c")] = true
	}
	return r
}

// vary changes at most a little
func (g *rGen) vary(v interface{}) interface{} {
	if g.chance(12) {
		return g.value(1)
	}
	switch x := v.(type) {
	case int:
		if g.chance(30) {
			return float64(x)
		}
	case float64:
		if g.chance(30) {
			return int(x)
		}
	case []interface{}:
		r := []interface{}{}
		for _, e := range x {
			r = append(r, g.vary(e))
		}
		switch {
		case g.chance(15):
			r = append(r, g.value(0))
		case g.chance(15) && len(r) > 0:
			r = r[:len(r)-1]
		}
		return r
	case map[string]interface{}:
		r := map[string]interface{}{}
		for k, e := range x {
			if !g.chance(10) {
				r[k] = g.vary(e)
			}
		}
		if g.chance(15) {
			r[g.pick("a", "b", "c")] = g.value(0)
		}
		return r
	case map[string]bool:
		r := map[string]bool{}
		for k := range x {
			if !g.chance(15) {
				r[k] = true
			}
		}
		if g.chance(15) {
			r[g.pick("a", "b", "c")] = true
		}
		return r
	}
	return v
}

func rValue(v interface{}) Value {
	switch x := v.(type) {
	case []interface{}:
		r := make([]Value, 0)
		for _, e := range x {
			r = append(r, rValue(e))
		}
		return RValue{Value: r}
	case map[string]interface{}:
		r := map[string]Value{}
		for k, e := range x {
			r[k] = rValue(e)
		}
		return RValue{Value: r}
	case map[string]bool:
		s := lpg.NewStringSet()
		for k := range x {
			s.Add(k)
		}
		return RValue{Value: s}
	}
	return RValue{Value: v}
}

func rNum(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func rSame(a, b interface{}) bool {
	if x, ok := rNum(a); ok {
		y, ok := rNum(b)
		return ok && x == y
	}
	switch x := a.(type) {
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !rSame(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		return ok && rSameRow(x, y)
	case map[string]bool:
		y, ok := b.(map[string]bool)
		return ok && rText(x) == rText(y)
	}
	switch b.(type) {
	case []interface{}, map[string]interface{}, map[string]bool:
		return false
	}
	return a == b
}

func rSameRow(x, y map[string]interface{}) bool {
	if len(x) != len(y) {
		return false
	}
	for k := range x {
		if v, has := y[k]; !has || !rSame(x[k], v) {
			return false
		}
	}
	return true
}

func rText(v interface{}) string {
	switch x := v.(type) {
	case Value:
		return rText(x.Get())
	case []Value:
		r := []string{}
		for _, e := range x {
			r = append(r, rText(e))
		}
		return "[" + strings.Join(r, " ") + "]"
	case []interface{}:
		r := []string{}
		for _, e := range x {
			r = append(r, rText(e))
		}
		return "[" + strings.Join(r, " ") + "]"
	case map[string]Value:
		r := []string{}
		for k, e := range x {
			r = append(r, k+":"+rText(e))
		}
		sort.Strings(r)
		return "{" + strings.Join(r, " ") + "}"
	case map[string]interface{}:
		r := []string{}
		for k, e := range x {
			r = append(r, k+":"+rText(e))
		}
		sort.Strings(r)
		return "{" + strings.Join(r, " ") + "}"
	case map[string]bool:
		r := []string{}
		for k := range x {
			r = append(r, k)
		}
		sort.Strings(r)
		return "set{" + strings.Join(r, " ") + "}"
	case lpg.StringSet:
		r := append([]string{}, x.Slice()...)
		sort.Strings(r)
		return "set{" + strings.Join(r, " ") + "}"
	case *lpg.Node:
		return fmt.Sprintf("node %p", x)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

type rRows []map[string]interface{}

func (g *rGen) rows() (r rRows) {
	for k := g.Intn(4); k > 0; k-- {
		row := map[string]interface{}{}
		if len(r) > 0 && g.chance(60) {
			v := g.vary(r[g.Intn(len(r))])
			if x, ok := v.(map[string]interface{}); ok {
				for k, v := range x {
					row[k] = v
				}
			}
		} else {
			for n := g.Intn(3); n > 0; n-- {
				row[g.pick("a", "b", "c")] = g.value(1)
			}
		}
		r = append(r, row)
	}
	return
}

func rText2(rows []map[string]Value) string {
	var r []string
	for _, row := range rows {
		r = append(r, rText(row))
	}
	return strings.Join(r, "; ")
}

func (rs rRows) String() string {
	var r []string
	for _, row := range rs {
		r = append(r, rText(row))
	}
	return strings.Join(r, "; ")
}

func (rs rRows) set() *ResultSet {
	r := NewResultSet()
	for _, row := range rs {
		r.Rows = append(r.Rows, rValue(row).Get().(map[string]Value))
	}
	if len(r.Rows) > 0 {
		// room behind the rows, which is not the results' to write to
		r.Rows = append(make([]map[string]Value, 0, len(r.Rows)+3), r.Rows...)
	}
	return r
}

var (
	_ = wProbeAdd("results same", "C11", func(w *wGen) {
		g := rNew(w)
		a := g.value(2)
		b := g.vary(a)
		g.input("IsValueSame(%s, %s)", rText(a), rText(b))
		g.check("same", IsValueSame(rValue(a), rValue(b)) == rSame(a, b), "want %v", rSame(a, b))
	})
	_ = wProbeAdd("results union", "C11", func(w *wGen) {
		g := rNew(w)
		rs, src := g.rows(), g.rows()
		if g.chance(60) && len(rs) > 0 {
			for i := range src {
				if g.chance(60) {
					x, ok := g.vary(rs[g.Intn(len(rs))]).(map[string]interface{})
					if ok {
						src[i] = x
					}
				}
			}
		}
		all := g.chance(30)
		want := append(rRows{}, rs...)
		for _, r := range src {
			found := false
			for _, x := range want {
				found = found || rSameRow(x, r)
			}
			if all || !found {
				want = append(want, r)
			}
		}
		r, s := rs.set(), src.set()
		g.input("(%s).Union(%s, %v)", rs, src, all)
		err := r.Union(*s, all)
		g.check("rows", err == nil && rText2(r.Rows) == want.String(), "got %s (%v), want %s", rText2(r.Rows), err, want)
		g.check("source", rText2(s.Rows) == src.String(), "the source is now %s", rText2(s.Rows))
	})
	_ = wProbeAdd("results append", "C11,C27", func(w *wGen) {
		g := rNew(w)
		rs := g.rows()
		r := rs.set()
		want := append(rRows{}, rs...)
		var does []string
		for k := g.Intn(4); k >= 0; k-- {
			src := g.rows()
			if g.chance(50) {
				s := src.set()
				does = append(does, fmt.Sprintf("Add(%s)", src))
				g.input("(%s).%s", rs, strings.Join(does, "."))
				r.Add(*s)
				g.check("source", rText2(s.Rows) == src.String(), "the source is now %s", rText2(s.Rows))
				if len(s.Rows) > 0 {
					_ = append(s.Rows, map[string]Value{"x": RValue{}})
				}
				want = append(want, src...)
				continue
			}
			for _, row := range src {
				does = append(does, fmt.Sprintf("Append(%s)", rText(row)))
				g.input("(%s).%s", rs, strings.Join(does, "."))
				err := r.Append(rValue(row).Get().(map[string]Value))
				g.check("error", err == nil, "error %v", err)
				want = append(want, row)
			}
		}
		g.check("rows", rText2(r.Rows) == want.String(), "got %s, want %s", rText2(r.Rows), want)
	})
)
