HELPERS = r'''package opencypher

import (
	"fmt"
	"sort"
	"testing"

	"github.com/cloudprivacylabs/lpg/v2"
)

// run evaluates a query and returns its first cell, or the error
func run(ctx *EvalContext, q string) (out interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	v, err := ParseAndEvaluate(q, ctx)
	if err != nil {
		return nil, err
	}
	rs := v.Get().(ResultSet)
	if len(rs.Rows) == 0 {
		return nil, nil
	}
	c, ok := rs.Rows[0]["1"]
	if !ok {
		return nil, nil
	}
	return c.Get(), nil
}

func newCtx(params ...interface{}) *EvalContext {
	ctx := NewEvalContext(lpg.NewGraph())
	for i := 0; i < len(params); i += 2 {
		ctx.SetParameter(params[i].(string), RValue{Value: params[i+1]})
	}
	return ctx
}

// want checks the value of an expression
func want(t *testing.T, q string, expect interface{}, params ...interface{}) {
	t.Helper()
	got, err := run(newCtx(params...), "RETURN "+q)
	if err != nil || fmt.Sprintf("%T %v", got, got) != fmt.Sprintf("%T %v", expect, expect) {
		t.Errorf("%s: got %v (%v), want %v", q, got, err, expect)
	}
}

func wantErr(t *testing.T, q string, params ...interface{}) {
	t.Helper()
	got, err := run(newCtx(params...), "RETURN "+q)
	if err == nil {
		t.Errorf("%s: got %v, want an error", q, got)
	}
}
// graph returns a context with the graph made by some queries
func graph(t *testing.T, qs ...string) *EvalContext {
	t.Helper()
	ctx := NewEvalContext(lpg.NewGraph())
	for _, q := range qs {
		if _, err := safe(NewEvalContext(ctx.graph), q); err != nil {
			t.Fatal(q, err)
		}
	}
	return NewEvalContext(ctx.graph)
}

// safe evaluates a query and returns its result set
func safe(ctx *EvalContext, q string) (rs ResultSet, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	v, err := ParseAndEvaluate(q, ctx)
	if err != nil {
		return ResultSet{}, err
	}
	rs, _ = v.Get().(ResultSet)
	return rs, nil
}

// table checks the rows of a query over the graph, in any order; each row is
// its columns 1, 2, ...
func table(t *testing.T, ctx *EvalContext, q string, rows ...string) {
	t.Helper()
	rs, err := safe(NewEvalContext(ctx.graph), q)
	if err != nil {
		t.Errorf("%s: %v", q, err)
		return
	}
	got := make([]string, 0)
	for _, r := range rs.Rows {
		s := ""
		for i := 1; i <= len(r); i++ {
			v, ok := r[fmt.Sprint(i)]
			if !ok {
				s += "? "
				continue
			}
			s += fmt.Sprint(v.Get()) + " "
		}
		got = append(got, s)
	}
	sort.Strings(got)
	exp := make([]string, 0)
	for _, r := range rows {
		exp = append(exp, r+" ")
	}
	sort.Strings(exp)
	if fmt.Sprint(got) != fmt.Sprint(exp) {
		t.Errorf("%s: got %q, want %q", q, got, exp)
	}
}

// fails checks that a query is refused
func fails(t *testing.T, ctx *EvalContext, q string) {
	t.Helper()
	if _, err := safe(NewEvalContext(ctx.graph), q); err == nil {
		t.Errorf("%s: want an error", q)
	}
}

// do runs a query that must work
func do(t *testing.T, ctx *EvalContext, q string) {
	t.Helper()
	if _, err := safe(NewEvalContext(ctx.graph), q); err != nil {
		t.Errorf("%s: %v", q, err)
	}
}

var _ = sort.Strings
'''
SEEDS = []
def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

A, R = "arithmeticeval.go", "relationaleval.go"
seed("mod-int-float", "C01", [(A, "return math.Mod(float64(a), b), nil", "return math.Remainder(float64(a), b), nil")],
     "integer % float whose IEEE remainder differs from the truncated one", "modulo of an integer by a float is rounded to nearest instead of truncated",
     '\twant(t, "7 % 4.0", 3.0)\n\twant(t, "7 % 2.5", 2.0)')
seed("dur-div-nanos", "C01", [(A, "Seconds: a.Seconds / b, Nanos: a.Nanos / int(b)}", "Seconds: a.Seconds / b, Nanos: a.Nanos / int(int32(b))}")],
     "a duration divided by an integer that does not fit 32 bits", "the divisor of the nanoseconds is truncated, up to a division by zero panic",
     '\twant(t, "$d / 4294967297", Duration{}, "$d", Duration{Nanos: 5})')
seed("add-date-clamp", "C02", [(A, "t.Day()-int(b.Days), 0, 0, 0, 0, t.Location", "t.Day()+int(-b.Days%366), 0, 0, 0, 0, t.Location")],
     "a date minus a duration of more than a year of days", "days beyond 365 are lost when a duration is subtracted from a date",
     '\tgot, err := run(newCtx("$d", Duration{Days: 400}), "RETURN (date(\'2021-03-01\') - $d) = date(\'2020-01-26\')")\n\tif got != true || err != nil {\n\t\tt.Error(got, err)\n\t}')
seed("addlist-alias", "C02", [(A, "arr := make([]Value, 0, len(a)+len(b))", "arr := a[:0]")],
     "two concatenations onto the same list variable with spare capacity", "list concatenation writes into the left list",
     '\tl := make([]Value, 2, 10)\n\tl[0], l[1] = RValue{Value: 1}, RValue{Value: 2}\n\tgot, err := run(newCtx("$l", l), "RETURN [$l + [3], $l + [4]]")\n\tif err != nil || fmt.Sprint(got) != "[[1 2 3] [1 2 4]]" {\n\t\tt.Error(got, err)\n\t}')
seed("neg-const", "C15", [(A, "ret := RValue{Const: value.IsConst()}", "ret := RValue{Const: value.IsConst() || value.Get() == 0}")],
     "a parsed -$x evaluated first with 0 and then with another value", "the negation of a zero parameter is remembered as a constant",
     '''	e, err := Parse("RETURN -$x")
	if err != nil {
		t.Fatal(err)
	}
	for _, x := range []int{3, 0, 5} {
		v, err := e.Evaluate(newCtx("$x", x))
		if err != nil {
			t.Fatal(err)
		}
		if got := v.Get().(ResultSet).Rows[0]["1"].Get(); got != -x {
			t.Errorf("-%d is %v", x, got)
		}
	}''')
seed("mul-zero-const", "C15", [(A, "			ret.Const = ret.Const && val.IsConst()\n			switch result", "			ret.Const = ret.Const && val.IsConst() || val.Get() == 0\n			switch result")],
     "a product whose variable factor is 0 the first time it is evaluated", "a product is remembered as a constant because a factor was zero",
     '''	e, err := Parse("RETURN 2 * 3 * $x")
	if err != nil {
		t.Fatal(err)
	}
	for _, x := range []int{3, 0, 5} {
		v, err := e.Evaluate(newCtx("$x", x))
		if err != nil {
			t.Fatal(err)
		}
		if got := v.Get().(ResultSet).Rows[0]["1"].Get(); got != 6*x {
			t.Errorf("6*%d is %v", x, got)
		}
	}''')
seed("neg-float-zero", "C03", [(A, "ret.Value = -floatValue", "ret.Value = 0 - floatValue")],
     "the negation of 0.0", "minus 0.0 is 0.0 instead of -0.0", '''	got, err := run(newCtx("$z", 0.0), "RETURN -$z")
	if err != nil || fmt.Sprint(got) != "-0" {
		t.Error(got, err)
	}''')
seed("pow-int-base", "C03", [(A, "ret.Value = math.Pow(float64(i), valValue)", "ret.Value = math.Pow(float64(int32(i)), valValue)")],
     "an integer base beyond 32 bits", "the base of a power is truncated to 32 bits", '\twant(t, "4294967296 ^ 1", 4294967296.0)')
seed("cmp-int-float", "C04", [(R, "			if float64(value1) == value2 {", "			if value1 == int(value2) {")],
     "an integer compared with a fraction with the same integer part", "an integer equals any float that truncates to it",
     '\twant(t, "1 = 1.5", false)\n\twant(t, "0 = -0.5", false)')
seed("xor-third", "C06", [("relationaleval.go", "\t\t\tret.Value = bval != vval", "\t\t\tret.Value = bval != vval || i > 1 && bval")],
     "three operands of XOR", "XOR of three true-ish operands is true once it was true",
     'want(t, "true XOR false XOR true", false)\nwant(t, "true XOR true XOR true", true)\nwant(t, "true XOR false", true)')
seed("index-first-from-end", "C07", [("eval.go", "\t\tif index < 0 {", "\t\tif index <= 0 {")],
     "a negative index equal to the length", "the first element cannot be reached from the end",
     'want(t, "[1,2,3][-3]", 1)\nwant(t, "[1,2,3][-1]", 3)\nwant(t, "[1,2,3][-4]", nil)')
seed("ltrim-blank", "C08", [("stringfuncs.go", "strings.TrimLeftFunc(str, unicode.IsSpace)", "strings.TrimLeft(str, \" \")")],
     "white space other than blanks", "ltrim leaves tabs and newlines",
     'want(t, "ltrim($p)", "a ", "$p", "\\t a ")\nwant(t, "rtrim($p)", " a", "$p", " a\\t")')
seed("tointeger-base", "C09", [("scalarfuncs.go", "\t\tif i, err := strconv.Atoi(s); err == nil {\n\t\t\treturn RValue{Value: i}, nil", "\t\tif i, err := strconv.ParseInt(s, 0, 64); err == nil {\n\t\t\treturn RValue{Value: int(i)}, nil")],
     "a string with a leading zero", "toIntegerOrNull reads strings with a leading zero in another base",
     'want(t, "toIntegerOrNull(\'010\')", 10)\nwant(t, "toIntegerOrNull(\'0x10\')", nil)\nwant(t, "toIntegerOrNull(\'12\')", 12)')
seed("range-down-end", "C10", [("functions.go", "for at := start; at > end; at += skip", "for at := start; at > end-(skip+1)/2*2; at += skip")],
     "a step below -1", "walking down passes the end",
     'want(t, "size(range(9,1,-3))", 3)\nwant(t, "size(range(3,1,-1))", 2)')
seed("setvars-letter", "C13", [("ctx.go", "\t\tif !unicode.IsDigit(rune(k[0])) {\n\t\t\tctx.SetVar(k, v)", "\t\tif unicode.IsLetter(rune(k[0])) {\n\t\t\tctx.SetVar(k, v)")],
     "a variable whose name starts with an underscore", "SetVars skips variables that do not start with a letter",
     'ctx := newCtx()\nctx.SetVars(map[string]Value{"_a": RValue{Value: 1}, "b": RValue{Value: 2}, "1": RValue{Value: 3}})\nif v, err := ctx.GetVar("_a"); err != nil || v.Get() != 1 {\n\tt.Error(v, err)\n}\nif v, err := ctx.GetVar("b"); err != nil || v.Get() != 2 {\n\tt.Error(v, err)\n}')
seed("param-parent", "C13", [("ctx.go", "\tif ok {\n\t\treturn value, nil\n\t}\n\tif ctx.parent == nil {\n\t\treturn nil, ErrUnknownParameter", "\tif ok && value.Get() != nil {\n\t\treturn value, nil\n\t}\n\tif ctx.parent == nil {\n\t\tif ok {\n\t\t\treturn value, nil\n\t\t}\n\t\treturn nil, ErrUnknownParameter")],
     "a parameter that is null in an inner context and set in an outer one", "a null parameter does not hide the one of the outer context",
     'ctx := newCtx("$p", 1)\ns := ctx.SubContext().SetParameter("$p", RValue{})\nif v, err := s.GetParameter("$p"); err != nil || v.Get() != nil {\n\tt.Error(v, err)\n}\nif v, err := ctx.SubContext().GetParameter("$p"); err != nil || v.Get() != 1 {\n\tt.Error(v, err)\n}')
seed("case-null-default", "C14", [("eval.go", "\tif cs.def != nil {\n", "\tif cs.def != nil && (testValue == nil || testValue.Get() != nil) {\n")],
     "CASE of null with ELSE", "CASE of null does not reach ELSE",
     'want(t, "CASE null WHEN 1 THEN \'a\' ELSE \'b\' END", "b")\nwant(t, "CASE 2 WHEN 1 THEN \'a\' ELSE \'b\' END", "b")')
seed("list-const-null", "C15", [("literal.go", "\tret := make([]Value, 0, len(lst.values))\n\tvar val RValue\n\tfor i := range lst.values {\n\t\tv, err := lst.values[i].Evaluate(ctx)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tif i == 0 {\n\t\t\tval.Const = v.IsConst()", "\tret := make([]Value, 0, len(lst.values))\n\tvar val RValue\n\tfor i := range lst.values {\n\t\tv, err := lst.values[i].Evaluate(ctx)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tif i == 0 {\n\t\t\tval.Const = v.IsConst() || v.Get() == nil")],
     "a list of one element that is null at first, evaluated again", "the list with a null is remembered although the null came from a parameter",
     'e, err := Parse("RETURN [$p][0]")\nif err != nil {\n\tt.Fatal(err)\n}\nfor i := 0; i < 3; i++ {\n\tvar p interface{}\n\tif i > 0 {\n\t\tp = i\n\t}\n\tv, err := e.Evaluate(newCtx("$p", p))\n\tif err != nil || v.Get().(ResultSet).Rows[0]["1"].Get() != p {\n\t\tt.Error(i, v, err)\n\t}\n}')
seed("call-no-args", "C18", [("eval.go", "\tif f.function.MaxArgs != -1 && len(f.args) > f.function.MaxArgs {", "\tif f.function.MaxArgs > 0 && len(f.args) > f.function.MaxArgs {")],
     "arguments for a function without arguments", "a function that takes no arguments accepts any number of them",
     'wantErr(t, "timestamp(1)")\nwantErr(t, "left(\'a\')")')
seed("map-first-wins", "C19", [("literal.go", "\t\tret[keyStr] = value\n", "\t\tif _, has := ret[keyStr]; !has {\n\t\t\tret[keyStr] = value\n\t\t}\n")],
     "a key written twice", "the first value of a repeated key wins",
     'v, err := run(newCtx(), "RETURN {a: 1, b: 2, a: 3}")\nif m, ok := v.(map[string]Value); err != nil || !ok || m["a"].Get() != 3 || len(m) != 2 {\n\tt.Error(v, err)\n}')

seed("set-self", "C20", [("update.go", "\t\t\tsourceProps, err := getSourceProps()\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tprops := make([]string, 0)", "\t\t\tprops := make([]string, 0)"),
      ("update.go", "\t\t\t\tv.RemoveProperty(p)\n\t\t\t}\n", "\t\t\t\tv.RemoveProperty(p)\n\t\t\t}\n\t\t\tsourceProps, err := getSourceProps()\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n")],
     "SET n = m where both variables hold one node, or a value that cannot be assigned", "the properties of a node are gone before they are read",
     'g := graph(t, "CREATE (n:A {x: 1, y: 2})")\ndo(t, g, "MATCH (n:A) SET n = n")\ntable(t, g, "MATCH (n) RETURN n.x, n.y", "1 2")\nfails(t, g, "MATCH (n:A) SET n = 5")\ntable(t, g, "MATCH (n) RETURN n.x, n.y", "1 2")')
seed("set-add-null", "C20", [("update.go", "\t\t\tif v == nil {\n\t\t\t\tnode.RemoveProperty(k)\n", "\t\t\tif _, exists := node.GetProperty(k); v == nil && !exists {\n")],
     "+= with a null for a property the node has", "a null in += does not remove the property",
     'g := graph(t, "CREATE (n:A {x: 1, y: 2})")\ndo(t, g, "MATCH (n:A) SET n += {x: null, z: 3}")\ntable(t, g, "MATCH (n) WHERE n.x IS NULL RETURN n.y, n.z", "2 3")\ng.graph.GetNodes()\nfor it := g.graph.GetNodes(); it.Next(); {\n\tif _, has := it.Node().GetProperty("x"); has {\n\t\tt.Error("x is there")\n\t}\n}')
seed("remove-label-gap", "C21", [("update.go", "\t\t\t\tlabels.Remove(l.String())\n", "\t\t\t\tif !labels.Has(l.String()) {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t\tlabels.Remove(l.String())\n")],
     "REMOVE of two labels of which the node lacks the first", "removing stops at a label the node does not have",
     'g := graph(t, "CREATE (n:A:B {x: 1})")\ndo(t, g, "MATCH (n) REMOVE n:C:B")\ntable(t, g, "MATCH (n:A) RETURN n.x", "1")\ntable(t, g, "MATCH (n:B) RETURN n.x")')
seed("remove-null-skips", "C21", [("update.go", "\t\t\tif v.Get() == nil {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tnode, ok", "\t\t\tif v.Get() == nil {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tnode, ok")],
     "a null variable before other items of the clause", "the items after one that is null are not removed",
     'g := graph(t, "CREATE (n:A {x: 1})")\nctx := NewEvalContext(g.graph)\nctx.SetVar("m", RValue{})\nif _, err := safe(ctx, "MATCH (n:A) REMOVE m:B, n.x"); err != nil {\n\tt.Error(err)\n}\ntable(t, g, "MATCH (n) RETURN n.x", "<nil>")')
seed("delete-null-skips", "C22", [("update.go", "\t\t\tif v.Get() == nil {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tswitch", "\t\t\tif v.Get() == nil {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tswitch")],
     "DELETE of several expressions one of which is null", "what follows a null in DELETE stays",
     'g := graph(t, "CREATE (n:A {x: 1})")\ndo(t, g, "MATCH (n:A) DELETE n.y, n")\ntable(t, g, "MATCH (n) RETURN n.x")')
seed("delete-path-tail", "C22", [("update.go", "for i := 0; i < item.NumEdges(); i++ {\n\t\t\t\t\tedge :=", "for i := 0; i == 0 || i < item.NumEdges()-1; i++ {\n\t\t\t\t\tedge :=")],
     "DELETE of a variable that holds a path of several edges", "the last edge of a path stays",
     'g := graph(t, "CREATE (a:A)-[:T]->(b:B)-[:T]->(c:C)")\ndo(t, g, "MATCH (a:A)-[r*2]->(c:C) DELETE r")\ntable(t, g, "MATCH (a)-[r]->(b) RETURN 1")\ntable(t, g, "MATCH (a) RETURN 1", "1", "1", "1")')
seed("create-path-var", "C23", [("update.go", "\t\tif path.NumEdges() == 0 {", "\t\tif path.NumEdges() <= 1 {")],
     "a path variable of a pattern with one relationship", "the path variable is bound to the last node",
     'g := graph(t)\nrs, err := safe(g, "CREATE p = (a:A)-[:T]->(b:B) RETURN p")\nif err != nil || len(rs.Rows) != 1 {\n\tt.Fatal(err)\n}\nif p, ok := rs.Rows[0]["1"].Get().(*lpg.Path); !ok || p.NumEdges() != 1 {\n\tt.Errorf("%T", rs.Rows[0]["1"].Get())\n}')
seed("merge-one-action", "C24", [("update.go", "\t\t\t_, err := action.set.Update(ctx, rs)\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n", "\t\t\t_, err := action.set.Update(ctx, rs)\n\t\t\treturn err\n")],
     "two actions of the same kind", "only the first action that applies runs",
     'g := graph(t)\ndo(t, g, "MERGE (n:A {k: 1}) ON CREATE SET n.x = 1 ON MATCH SET n.x = 5 ON CREATE SET n.y = 2")\ntable(t, g, "MATCH (n) RETURN n.x, n.y", "1 2")')
seed("match-hops", "C25", [("patterneval.go", "\t\t\tret.Max = *to\n", "\t\t\tret.Max = *to\n\t\t\tif ret.Min > 1 && ret.Max > ret.Min {\n\t\t\t\tret.Max--\n\t\t\t}\n")],
     "a range of hops whose bounds differ and whose lower bound is above one", "the longest paths are missing",
     'g := graph(t, "CREATE (a {x: 1})-[:T]->(b {x: 2})-[:T]->(c {x: 3})-[:T]->(d {x: 4})")\ntable(t, g, "MATCH (a {x: 1})-[:T*2..3]->(b) RETURN b.x", "3", "4")')
seed("cart-shared", "C26", [("resultset.go", "\t\t\tfor k, v := range row {\n\t\t\t\tdata[k] = v\n", "\t\t\tfor k, v := range row {\n\t\t\t\tif _, exists := data[k]; exists && all {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tdata[k] = v\n")],
     "result sets that share a column, keep-all mode", "the first set decides a shared column",
     'row := func(k string, v int) map[string]Value { return map[string]Value{k: RValue{Value: v}} }\na := ResultSet{Rows: []map[string]Value{row("a", 1), row("a", 2)}}\nb := ResultSet{Rows: []map[string]Value{row("a", 3)}}\nfor _, all := range []bool{false, true} {\n\tr := CartesianProduct([]ResultSet{a, b}, all, func(map[string]Value) bool { return true })\n\tif len(r.Rows) != 2 || r.Rows[0]["a"].Get() != 3 || r.Rows[1]["a"].Get() != 3 {\n\t\tt.Error(all, r)\n\t}\n}')
seed("cart-empty-second", "C26", [("resultset.go", "\t\t\t\tif !all {\n\t\t\t\t\treturn", "\t\t\t\tif !all && (i == 0 || len(resultsets) == 2) {\n\t\t\t\t\treturn")],
     "three result sets of which one but the first is empty", "an empty result set does not suppress the others",
     'row := func(k string, v int) map[string]Value { return map[string]Value{k: RValue{Value: v}} }\na := ResultSet{Rows: []map[string]Value{row("a", 1)}}\nc := ResultSet{Rows: []map[string]Value{row("c", 1)}}\nr := CartesianProduct([]ResultSet{a, {}, c}, false, func(map[string]Value) bool { return true })\nif len(r.Rows) != 0 {\n\tt.Error(r)\n}')
seed("append-empty", "C27", [("resultset.go", "\tr.Rows = append(r.Rows, row)\n\tfor _, v := range row {", "\tif len(row) == 0 && len(r.Rows) > 0 {\n\t\treturn nil\n\t}\n\tr.Rows = append(r.Rows, row)\n\tfor _, v := range row {")],
     "rows without columns", "rows without columns are dropped when there are rows already",
     'g := graph(t, "CREATE (:A {x: 1})", "CREATE (:A {x: 2})")\nr := NewResultSet()\nfor i := 0; i < 3; i++ {\n\tr.Append(map[string]Value{})\n}\nif len(r.Rows) != 3 {\n\tt.Error(len(r.Rows))\n}\ntable(t, g, "MATCH (a:A) CREATE (:B) RETURN a.x", "1", "2")')
seed("find-wider", "C11", [("resultset.go", "\t\tif len(r) != len(row) {", "\t\tif len(r) > len(row) {")],
     "UNION of results with different columns", "a row with more columns counts as a duplicate",
     'table(t, graph(t), "RETURN 1 UNION RETURN 1, 2", "1", "1 2")\ntable(t, graph(t), "RETURN 1, 2 UNION RETURN 1", "1", "1 2")')
seed("same-prefix", "C11", [("value.go", "\t\tif len(val1) != len(val2) {\n\t\t\treturn false\n\t\t}\n\t\tfor i := range val1 {", "\t\tif len(val1) > len(val2) {\n\t\t\treturn false\n\t\t}\n\t\tfor i := range val1 {")],
     "a list that is a prefix of another", "a list is the same as one it is a prefix of",
     'table(t, graph(t), "RETURN [1] UNION RETURN [1, 2]", fmt.Sprint([]Value{RValue{Value: 1, Const: true}}), fmt.Sprint([]Value{RValue{Value: 1, Const: true}, RValue{Value: 2, Const: true}}))\nif IsValueSame(ValueOf([]Value{ValueOf(1)}), ValueOf([]Value{ValueOf(1), ValueOf(2)})) {\n\tt.Error("same")\n}')
seed("union-mixed", "C11", [("eval.go", "resultSet.Union(newResultSet, u.all)", "resultSet.Union(newResultSet, u.all && query.unions[0].all)")],
     "UNION followed by UNION ALL", "UNION ALL after UNION drops duplicates",
     'table(t, graph(t), "RETURN 1 UNION RETURN 1 UNION ALL RETURN 1", "1", "1")')
seed("limit-zero", "C12", [("eval.go", "if limit != -1 && len(ret.Rows) >= limit {", "if limit > 0 && len(ret.Rows) >= limit {")],
     "LIMIT 0", "LIMIT 0 gives every row",
     'g := graph(t, "CREATE (:A {x: 1})", "CREATE (:A {x: 2})")\ntable(t, g, "MATCH (a:A) RETURN a.x LIMIT 0")\ntable(t, g, "MATCH (a:A) RETURN a.x SKIP 1 LIMIT 0")')
seed("escape-quote-end", "C16", [("literal.go", "\t\tif c == '\\\\' {\n\t\t\tbld.WriteRune('\\\\')\n\t\t\tbld.WriteRune('\\\\')", "\t\tif c == '\\\\' {\n\t\t\tbld.WriteRune('\\\\')\n\t\t\tif bld.Len() < 3 || bld.Len() > 4 {\n\t\t\t\tbld.WriteRune('\\\\')\n\t\t\t}")],
     "a backslash that is the second or third byte", "a backslash is not escaped",
     'for _, s := range []string{"a\\\\b", "ab\\\\c", "\\\\", "x\\"y", "abc\\\\n"} {\n\twant(t, EscapeStringLiteral(s), s)\n}')
seed("comparison-last-op", "C17", [("ast.go", "\t\tret.second = append(ret.second, oC_PartialComparisonExpression(x.(*parser.OC_PartialComparisonExpressionContext)))\n", "\t\tret.second = append(ret.second, oC_PartialComparisonExpression(x.(*parser.OC_PartialComparisonExpressionContext)))\n\t\tret.second[len(ret.second)-1].op = ret.second[0].op\n")],
     "a chain of comparisons with different operators", "every comparison of a chain uses the first operator",
     'want(t, "1 < 3 > 2", true)\nwant(t, "1 < 2 < 3", true)\nwant(t, "1 < 3 = 3", true)')
seed("mod-after-times", "C17", [("ast.go", "\t\t\t\tif t == \"*\" || t == \"%\" || t == \"/\" {\n\t\t\t\t\tlastOp = rune(t[0])", "\t\t\t\tif t == \"*\" || t == \"%\" && len(ret.parts) < 3 || t == \"/\" {\n\t\t\t\t\tlastOp = rune(t[0])")],
     "% after two other operators of its level", "the operator before is applied instead of %",
     'want(t, "5 * 7 * 1 % 4", 3)\nwant(t, "7 % 4", 3)')

seed("create-left-untyped", "C23", [("update.go", "if rel.toLeft && !rel.toRight {", "if rel.toLeft && !rel.toRight && label != \"\" {")],
     "a relationship to the left without a type", "relationships without a type are created to the right",
     'g := graph(t, "CREATE (a {x: 1})<-[:T]-(b {x: 2})", "CREATE (a {x: 3})<-[r]-(b {x: 4})")\ntable(t, g, "MATCH (a)-[]->(b) RETURN a.x, b.x", "2 1", "4 3")')
seed("merge-anonymous", "C24", [("update.go", "\t\tcreated = true\n", "\t\tcreated = len(row) > 0\n")],
     "MERGE of a pattern without variables", "ON CREATE does not run for a pattern without variables",
     'g := graph(t, "CREATE (a:A {x: 1})")\ndo(t, g, "MATCH (a:A) MERGE (:B {x: a.x}) ON CREATE SET a.y = 2")\ntable(t, g, "MATCH (a:A) RETURN a.y", "2")')
seed("where-null", "C25", [("patterneval.go", "\t\t\t\t\tif b, _ := ValueAsBool(rs); b {", "\t\t\t\t\tif b, ok := ValueAsBool(rs); b || !ok && len(currentRow) > 1 {")],
     "a WHERE that is null, for several patterns", "rows for which WHERE is null are kept",
     'g := graph(t, "CREATE (a:A {x: 1})", "CREATE (:B)")\ntable(t, g, "MATCH (a:A), (b:B) WHERE b.x > 0 RETURN a.x")\ntable(t, g, "MATCH (a:A), (b:B) WHERE a.x > 0 RETURN a.x", "1")')
seed("add-order", "C27", [("resultset.go", "\tr.Rows = append(r.Rows, rs.Rows...)", "\tr.Rows = append(rs.Rows, r.Rows...)")],
     "adding to a result set that has rows", "the rows added come first",
     'row := func(v int) map[string]Value { return map[string]Value{"a": RValue{Value: v}} }\nr := NewResultSet()\nr.Append(row(1))\ns := NewResultSet()\ns.Append(row(2))\nr.Add(*s)\nif len(r.Rows) != 2 || r.Rows[0]["a"].Get() != 1 || r.Rows[1]["a"].Get() != 2 {\n\tt.Error(r)\n}')
seed("project-position", "C12", [("eval.go", "\tfor i, item := range prj.items {\n\t\tresult, err", "\tfor _, item := range prj.items {\n\t\tresult, err"), ("eval.go", "varName = strconv.Itoa(i + 1)", "varName = strconv.Itoa(len(ret) + 1)")],
     "two items with the same alias before one without", "the column after a repeated alias has the wrong position",
     'rs, err := safe(graph(t), "RETURN 1 AS a, 2 AS a, 3")\nif err != nil || len(rs.Rows) != 1 || rs.Rows[0]["3"] == nil || rs.Rows[0]["3"].Get() != 3 {\n\tt.Error(rs, err)\n}')

seed("cmp-chain-error", "C05", [("relationaleval.go", "\t\tresult, err := comparePrimitiveValues(val.Get(), second.Get())\n\t\tif err != nil {", "\t\tresult, err := comparePrimitiveValues(val.Get(), second.Get())\n\t\tif err != nil && ret.Value != false {")],
     "a chain with a false comparison before one of values that cannot be compared", "the error of a comparison is lost when the chain is false already",
     'want(t, "1 < 2 < 3", true)\nwant(t, "2 < 1 < 3", false)\nfor _, q := range []string{"2 < 1 < \'a\'", "1 < 2 < \'a\'"} {\n\tif v, err := run(newCtx(), "RETURN "+q); err == nil {\n\t\tt.Error(q, v)\n\t}\n}')
seed("limit-index", "C12", [("eval.go", "if limit != -1 && len(ret.Rows) >= limit {", "if limit != -1 && index >= limit {")],
     "SKIP together with LIMIT", "the rows skipped count for LIMIT",
     'g := graph(t, "CREATE (:A {x: 1})", "CREATE (:A {x: 2})", "CREATE (:A {x: 3})")\ntable(t, g, "MATCH (a:A) RETURN a.x SKIP 1 LIMIT 1", "2")\ntable(t, g, "MATCH (a:A) RETURN a.x LIMIT 2", "1", "2")')
seed("union-scope", "C13", [("eval.go", "\t\tlastContext = ctx.SubContext()\n\t\tcontexts", "\t\tlastContext = lastContext.SubContext()\n\t\tcontexts")],
     "a query of a UNION that uses a variable bound by the query before", "the queries of a UNION see the variables of the queries before",
     'g := graph(t, "CREATE (:A {x: 1})")\nif rs, err := safe(g, "MATCH (a:A) RETURN 1 UNION RETURN a"); err == nil {\n\tt.Error(rs)\n}\nif rs, err := safe(g, "MATCH (a:A) RETURN 1 UNION RETURN 2"); err != nil || len(rs.Rows) != 2 {\n\tt.Error(rs, err)\n}')
seed("escape-leading-backslash", "C16", [("literal.go", "\t\tif c == '\\\\' {", "\t\tif c == '\\\\' && bld.Len() > 1 {")],
     "a string that starts with a backslash", "a leading backslash is not escaped",
     'for _, s := range []string{"\\\\", "\\\\n", "a\\\\", "\\"", ""} {\n\twant(t, EscapeStringLiteral(s), s)\n}')
seed("null-op-drops", "C17", [("ast.go", "ret.parts = append(ret.parts, oC_NullOperatorExpression(t))", "ret.parts = append(ret.parts[:0], oC_NullOperatorExpression(t))")],
     "IS NULL after another postfix operator", "what comes between the operand and IS NULL is dropped",
     'want(t, "[1,2][5] IS NULL", true)\nwant(t, "[1,2] IS NULL", false)\nwant(t, "\'a\' STARTS WITH \'b\' IS NOT NULL", true)')
seed("create-path-long", "C23", [("update.go", "\t\tlastNode = targetNode\n", "\t\tif pathPart.node.variable != nil || pathPart.node.labels != nil || len(part.path) < 3 {\n\t\t\tlastNode = targetNode\n\t\t}\n")],
     "a path with three or more relationships and an anonymous node without labels", "the relationship after such a node starts at the node before it",
     'g := graph(t, "CREATE (a {x: 1})-[:T]->({x: 2})-[:U]->(c {x: 3})-[:V]->(d {x: 4})")\ntable(t, g, "MATCH (a)-[:U]->(b) RETURN a.x, b.x", "2 3")\ntable(t, g, "MATCH (a)-[:V]->(b) RETURN a.x, b.x", "3 4")')
seed("merge-row-order", "C24", [("update.go", "\t\t\t\tfor k, v := range row {\n\t\t\t\t\tnewRow[k] = v\n\t\t\t\t}\n\t\t\t\tfor k, v := range r {\n\t\t\t\t\tnewRow[k] = v\n\t\t\t\t}\n\t\t\t\tresults.Append(newRow)\n\t\t\t}\n", "\t\t\t\tfor k, v := range row {\n\t\t\t\t\tnewRow[k] = v\n\t\t\t\t}\n\t\t\t\tfor k, v := range r {\n\t\t\t\t\tnewRow[k] = v\n\t\t\t\t}\n\t\t\t\tresults.Append(newRow)\n\t\t\t\tif created || len(m.actions) > 0 && len(row) > 0 {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t}\n")],
     "MERGE with actions that matches more than once", "a row that matches several times gives one row when MERGE has actions",
     'g := graph(t, "CREATE (:A {x: 1})", "CREATE (:B {x: 1, y: 1})", "CREATE (:B {x: 1, y: 2})")\ntable(t, g, "MATCH (a:A) MERGE (b:B {x: 1}) ON MATCH SET b.z = 1 RETURN b.y", "1", "2")\ntable(t, g, "MATCH (a:A) MERGE (b:B {x: 1}) RETURN b.y", "1", "2")')
seed("rel-range-open", "C25", [("patterneval.go", "\t\tif to != nil {\n\t\t\tret.Max = *to\n\t\t} else {\n\t\t\tret.Max = -1", "\t\tif to != nil {\n\t\t\tret.Max = *to\n\t\t} else if from != nil && *from > 1 {\n\t\t\tret.Max = *from\n\t\t} else {\n\t\t\tret.Max = -1")],
     "a variable length relationship with a lower bound above 1 and no upper bound", "the lower bound is the upper bound as well",
     'g := graph(t, "CREATE (a:A {x: 1})-[:T]->(b {x: 2})-[:T]->(c {x: 3})-[:T]->(d {x: 4})")\ntable(t, g, "MATCH (a:A)-[:T*2..]->(b) RETURN b.x", "3", "4")\ntable(t, g, "MATCH (a:A)-[:T*..]->(b {x: 2}) RETURN b.x", "2")')
seed("match-context", "C25", [("patterneval.go", "\t\t\tfor k, v := range row {\n\t\t\t\tnewContext.SetVar(k, v)\n\t\t\t}\n", "\t\t\tfor k, v := range row {\n\t\t\t\tif index < 2 || len(k) > 1 {\n\t\t\t\t\tnewContext.SetVar(k, v)\n\t\t\t\t}\n\t\t\t}\n")],
     "WHERE on the variable of a third pattern that has several matches", "WHERE sees the last match of the third pattern for every row",
     'g := graph(t, "CREATE (:A {x: 1})", "CREATE (:A {x: 2})", "CREATE (:A {x: 3})")\ndo(t, g, "CREATE (:B)")\ndo(t, g, "CREATE (:C)")\ntable(t, g, "MATCH (b:B), (c:C), (a:A) WHERE a.x < 3 RETURN a.x", "1", "2")\ntable(t, g, "MATCH (b:B), (a:A) WHERE a.x < 3 RETURN a.x", "1", "2")')
seed("cart-null-row", "C26", [("resultset.go", "\t\t\tfor k, v := range row {\n\t\t\t\tdata[k] = v\n\t\t\t}\n\t\t}\n\t\tif filter(data) {\n\t\t\tresult.Rows", "\t\t\tfor k, v := range row {\n\t\t\t\tif _, ok := data[k]; !ok {\n\t\t\t\t\tdata[k] = v\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\tif filter(data) {\n\t\t\tresult.Rows")],
     "two results with the same column", "the value of a column is that of the first result instead of the last",
     'row := func(v int) map[string]Value { return map[string]Value{"a": RValue{Value: v}} }\nr := NewResultSet()\nr.Append(row(1))\ns := NewResultSet()\ns.Append(row(2))\np := CartesianProduct([]ResultSet{*r, *s}, false, func(map[string]Value) bool { return true })\nif len(p.Rows) != 1 || p.Rows[0]["a"].Get() != 2 {\n\tt.Error(p)\n}')
seed("union-self-dup", "C11", [("resultset.go", "\tfor _, sourceRow := range src.Rows {\n\t\tappnd := all\n\t\tif !appnd && r.find(sourceRow) == -1 {", "\tknown := len(r.Rows)\n\tfor _, sourceRow := range src.Rows {\n\t\tappnd := all\n\t\tif x := r.find(sourceRow); !appnd && (x == -1 || known > 0 && x >= known) {")],
     "a union of a nonempty result with one that has duplicates of its own", "duplicates within the rows added are kept",
     'row := func(v int) map[string]Value { return map[string]Value{"a": RValue{Value: v}} }\nr := NewResultSet()\nr.Append(row(1))\ns := NewResultSet()\ns.Append(row(2))\ns.Append(row(2))\nr.Union(*s, false)\nif len(r.Rows) != 2 {\n\tt.Error(r)\n}')
