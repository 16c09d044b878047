package opencypher

// The contracts of list operators, functions, CASE, calls, literals, values
// and contexts, run on the real code.

// listStub is an operand that mostly is a list
func (g *vG) listStub() Evaluatable {
	return g.stub(func() interface{} {
		if g.chance(85) {
			return g.list()
		}
		return g.raw(1)
	})
}

func (g *wGen) list() interface{} {
	base := g.raw(0)
	l := make([]Value, g.Intn(5))
	for i := range l {
		switch {
		case g.chance(10):
			l[i] = RValue{}
		case g.chance(10):
			l[i] = RValue{Value: g.raw(1)}
		default:
			l[i] = RValue{Value: g.like(base), Const: g.chance(60)}
		}
	}
	return l
}

func (g *vG) intStub() Evaluatable {
	return g.stub(func() interface{} {
		switch {
		case g.chance(85):
			return g.Intn(9) - 3
		case g.chance(50):
			return g.int_()
		}
		return g.raw(0)
	})
}

// part is an operator after an operand
func (g *vG) part() stringListNullOperatorExpressionPart {
	p := stringListNullOperatorExpressionPart{}
	switch g.Intn(6) {
	case 0:
		b := g.chance(50)
		p.isNull = &b
	case 1, 2:
		p.listIndex = g.intStub()
	case 3:
		r := &listRangeExpression{}
		if g.chance(75) {
			r.first = g.intStub()
		}
		if g.chance(75) {
			r.second = g.intStub()
		}
		p.listRange = r
	case 4:
		p.listIn = g.listStub()
	case 5:
		p.stringOp = &stringOperatorExpression{operator: g.pick("STARTS", "ENDS", "CONTAINS"), expr: g.stub(func() interface{} {
			if g.chance(85) {
				return g.str()
			}
			return g.raw(0)
		})}
	}
	return p
}

func (p vPart) Evaluate(ctx *EvalContext) (Value, error) { return p.part.evaluate(ctx, p.in) }

// vPart is an operator with its operand
type vPart struct {
	part stringListNullOperatorExpressionPart
	in   Value
}

func (p vFunc) Evaluate(ctx *EvalContext) (Value, error) { return p.f(ctx, p.args) }

// vFunc is a function with its arguments
type vFunc struct {
	f    func(*EvalContext, []Value) (Value, error)
	args []Value
}

var (
	_ = wProbeAdd("unit listop", "C07,C08,C15", func(w *wGen) {
		g := vNew(w)
		p := vPart{part: g.part()}
		var v interface{}
		switch {
		case p.part.stringOp != nil && g.chance(90):
			v = g.str()
		case p.part.listIn != nil && g.chance(80):
			v = g.raw(0)
			// an element, or something like it
			if s := p.part.listIn.(*vStub); g.chance(80) {
				if l, ok := s.v1.([]Value); ok && len(l) > 0 {
					v = g.like(l[g.Intn(len(l))].Get())
				}
			}
		case g.chance(85):
			v = g.list()
		default:
			v = g.raw(1)
		}
		p.in = RValue{Value: v, Const: g.chance(60)}
		if !listop_pre(p.part, g.ctx, g.ctx2, p.in) {
			g.skip()
		}
		g.evaluate("listop", p, func(ctx, ctx2 *EvalContext) vPosts {
			return vPosts{
				"listop_post_value":  func(res Value, err error) bool { return listop_post_value(p.part, ctx, p.in, res, err) },
				"listop_post_list":   func(res Value, err error) bool { return listop_post_list(p.part, ctx, p.in, res, err) },
				"listop_post_result": listop_post_result,
				"listop_post_const":  func(res Value, err error) bool { return listop_post_const(p.part, ctx2, p.in, res, err) },
			}
		})
	})
	_ = wProbeAdd("unit listops", "C07,C08,C15", func(w *wGen) {
		g := vNew(w)
		e := stringListNullOperatorExpression{propertyOrLabels: propertyOrLabelsExpression{atom: g.listStub()}}
		for n := g.Intn(4); n > 0; n-- {
			e.parts = append(e.parts, g.part())
		}
		if !listops_pre(e, g.ctx, g.ctx2) {
			g.skip()
		}
		g.evaluate("listops", e, func(ctx, ctx2 *EvalContext) vPosts {
			return vPosts{
				"listops_post_value": func(res Value, err error) bool { return listops_post_value(e, ctx, res, err) },
				"listops_post_const": func(res Value, err error) bool { return listops_post_const(e, ctx, res, err) },
			}
		})
	})
)

type vFuncProbe struct {
	unit string
	f    func(*EvalContext, []Value) (Value, error)
	pre  func([]Value) bool
	post func([]Value, Value, error) bool
	args func(g *vG) []interface{}
}

// args are values from the generators, and sometimes something else
func (g *vG) args(gens ...func() interface{}) []interface{} {
	out := make([]interface{}, len(gens))
	for i := range gens {
		switch {
		case g.chance(6):
		case g.chance(6):
			out[i] = g.raw(1)
		default:
			out[i] = gens[i]()
		}
	}
	return out
}

func (g *vG) anyStr() interface{} { return g.str() }
func (g *vG) anyOff() interface{} {
	if g.chance(10) {
		return g.int_()
	}
	return g.Intn(9) - 2
}

// rangeArgs never make a long list
func (g *vG) rangeArgs() []interface{} {
	step := g.Intn(9) - 4
	if g.chance(15) {
		step = g.int_()
	}
	start := g.int_()
	end := start + step*g.Intn(6) + g.Intn(3) - 1
	if g.chance(20) {
		end = g.int_()
	}
	a := g.args(func() interface{} { return start }, func() interface{} { return end }, func() interface{} { return step })
	if g.chance(20) {
		a = a[:2]
	}
	var v [3]int
	v[2] = 1
	for i := range a {
		v[i], _ = a[i].(int)
	}
	if v[2] != 0 {
		if n := (float64(v[1]) - float64(v[0])) / float64(v[2]); n > 1000 {
			g.skip()
		}
	}
	return a
}

func init() {
	for _, p := range []vFuncProbe{
		{"left", leftFunc, left_pre, left_post_value, func(g *vG) []interface{} { return g.args(g.anyStr, g.anyOff) }},
		{"right", rightFunc, right_pre, right_post_value, func(g *vG) []interface{} { return g.args(g.anyStr, g.anyOff) }},
		{"substring", substringFunc, substring_pre, substring_post_value, func(g *vG) []interface{} {
			return g.args(g.anyStr, g.anyOff, g.anyOff)[:2+g.Intn(2)]
		}},
		{"split", splitFunc, split_pre, split_post_value, func(g *vG) []interface{} { return g.args(g.anyStr, g.anyStr) }},
		{"trim", trimFunc, trim_pre, trim_post_value, func(g *vG) []interface{} { return g.args(g.anyStr) }},
		{"ltrim", ltrimFunc, ltrim_pre, ltrim_post_value, func(g *vG) []interface{} { return g.args(g.anyStr) }},
		{"rtrim", rtrimFunc, rtrim_pre, rtrim_post_value, func(g *vG) []interface{} { return g.args(g.anyStr) }},
		{"size", sizeFunc, size_pre, size_post_value, func(g *vG) []interface{} { return []interface{}{g.raw(1)} }},
		{"toInteger", toIntegerFunc, toInteger_pre, toInteger_post_value, func(g *vG) []interface{} { return []interface{}{g.raw(1)} }},
		{"toIntegerOrNull", toIntegerOrNullFunc, toIntegerOrNull_pre, toIntegerOrNull_post_value, func(g *vG) []interface{} { return []interface{}{g.raw(1)} }},
		{"toFloat", toFloatFunc, toFloat_pre, toFloat_post_value, func(g *vG) []interface{} { return []interface{}{g.raw(1)} }},
		{"toFloatOrNull", toFloatOrNullFunc, toFloatOrNull_pre, toFloatOrNull_post_value, func(g *vG) []interface{} { return []interface{}{g.raw(1)} }},
		{"range", rangeFunc, range_pre, range_post_value, func(g *vG) []interface{} { return g.rangeArgs() }},
	} {
		p := p
		props := "C08"
		switch {
		case p.unit == "range":
			props = "C10"
		case p.unit[:2] == "to":
			props = "C09"
		}
		wProbeAdd("unit "+p.unit, props, func(w *wGen) {
			g := vNew(w)
			var args []Value
			for _, v := range p.args(g) {
				args = append(args, RValue{Value: v, Const: g.chance(50)})
			}
			if !p.pre(args) {
				g.skip()
			}
			g.evaluate(p.unit, vFunc{p.f, args}, func(ctx, ctx2 *EvalContext) vPosts {
				return vPosts{p.unit + "_post_value": func(res Value, err error) bool { return p.post(args, res, err) }}
			})
		})
	}
}

var (
	_ = wProbeAdd("unit case", "C14,C15", func(w *wGen) {
		g := vNew(w)
		e := caseClause{}
		whens := g.operands(4)
		cond := func() Evaluatable {
			if g.chance(90) {
				return g.stub(g.tri)
			}
			return g.operands(1)[0]
		}
		if g.chance(60) {
			e.test = whens[0]
		}
		for n := 1; n < 1+g.Intn(4); n++ {
			a := caseAlternative{when: cond(), then: g.operands(1)[0]}
			if e.test != nil && n < len(whens) {
				a.when = whens[n]
			}
			e.alternatives = append(e.alternatives, a)
		}
		if g.chance(60) {
			e.def = g.operands(1)[0]
		}
		g.evaluate("case", e, func(ctx, ctx2 *EvalContext) vPosts {
			return vPosts{"case_post_value": func(res Value, err error) bool { return case_post_value(e, ctx, res, err) }}
		})
	})
	_ = wProbeAdd("unit call", "C18,C15", func(w *wGen) {
		g := vNew(w)
		e := &functionInvocation{name: []symbolicName{symbolicName(g.pick("v", "V", "vlist", "size", "left", "none", "w"))}}
		if g.chance(60) {
			e.name = append(e.name, symbolicName(g.pick("first", "args", "none", "First", "left")))
		}
		if g.chance(5) {
			e.name = append(e.name, "args")
		}
		for _, o := range g.operands(g.Intn(5)) {
			e.args = append(e.args, o)
		}
		names := []string{}
		for _, n := range e.name {
			names = append(names, string(n))
		}
		if !call_pre(e, g.ctx, g.ctx2, names, 0) {
			g.skip()
		}
		g.evaluate("call", e, func(ctx, ctx2 *EvalContext) vPosts {
			p := vPosts{
				"call_post_memo":     func(res Value, err error) bool { return call_post_memo(e, ctx2) },
				"call_post_memo2":    func(res Value, err error) bool { return call_post_memo2(e, ctx) },
				"call_post_function": func(res Value, err error) bool { return call_post_function(e, ctx, names) },
			}
			vals, exprs := []Value{}, []Evaluatable{}
			for _, a := range e.args {
				v, err := a.Evaluate(ctx)
				if err != nil {
					break
				}
				vals, exprs = append(vals, v), append(exprs, v)
			}
			p["call_post_value"] = func(res Value, err error) bool {
				for k := 0; k == 0 || k < len(e.args); k++ {
					if !call_post_value(e, ctx, names, vals, exprs, k, res, err) {
						return false
					}
				}
				return true
			}
			return p
		})
	})
	_ = wProbeAdd("unit list", "C19,C15", func(w *wGen) {
		g := vNew(w)
		e := &listLiteral{}
		for _, o := range g.operands(g.Intn(4)) {
			e.values = append(e.values, o)
		}
		if !list_pre(e, g.ctx, g.ctx2) {
			g.skip()
		}
		g.evaluate("list", e, func(ctx, ctx2 *EvalContext) vPosts {
			return vPosts{
				"list_post_value": func(res Value, err error) bool { return list_post_value(e, ctx, res, err) },
				"list_post_const": func(res Value, err error) bool { return list_post_const(e, ctx2, res, err) },
				"list_post_memo":  func(res Value, err error) bool { return list_post_memo(e, ctx, ctx2) },
			}
		})
	})
	_ = wProbeAdd("unit map", "C19,C15", func(w *wGen) {
		g := vNew(w)
		e := &mapLiteral{}
		for _, o := range g.operands(g.Intn(4)) {
			e.keyValues = append(e.keyValues, mapKeyValue{key: g.pick("a", "b", "c", "A", "a b", "a", "b"), value: o})
		}
		keys := []string{"a", "b", "c", "A", "a b", "d", ""}
		all := func(p func(k string) bool) func(Value, error) bool {
			return func(res Value, err error) bool {
				for _, k := range keys {
					if !p(k) {
						return false
					}
				}
				return true
			}
		}
		if !all(func(k string) bool { return map_pre(e, g.ctx, g.ctx2, k) })(nil, nil) {
			g.skip()
		}
		g.evaluate("map", e, func(ctx, ctx2 *EvalContext) vPosts {
			return vPosts{
				"map_post_value": func(res Value, err error) bool {
					return all(func(k string) bool { return map_post_value(e, ctx, k, res, err) })(nil, nil)
				},
				"map_post_const": func(res Value, err error) bool {
					return all(func(k string) bool { return map_post_const(e, ctx2, k, res, err) })(nil, nil)
				},
				"map_post_memo": all(func(k string) bool { return map_post_memo(e, ctx, ctx2, k) }),
			}
		})
	})
	_ = wProbeAdd("unit valueOf", "C19,C20", func(w *wGen) {
		var in interface{}
		n := w.int_()
		switch w.Intn(12) {
		case 0:
			in = int8(n)
		case 1:
			in = int16(n)
		case 2:
			in = int32(n)
		case 3:
			in = int64(n)
		case 4:
			in = uint8(n)
		case 5:
			in = uint16(n)
		case 6:
			in = uint32(n)
		case 7:
			in = float32(w.float())
		case 8:
			in = RValue{Value: w.raw(1), Const: w.chance(50)}
		default:
			in = w.raw(1)
		}
		if !valueOf_pre(in) {
			w.skip()
		}
		w.input("ValueOf(%T %s)", in, wDump(in))
		res := ValueOf(in)
		w.check("valueOf_post_value", valueOf_post_value(in, res), "gave %s", wDump(res))
	})
	_ = wProbeAdd("unit proplabels", "C19,C15", func(w *wGen) {
		g := vNew(w)
		props := func() map[string]interface{} {
			m := map[string]interface{}{}
			for _, k := range []string{"a", "b"} {
				switch v := g.raw(0); {
				case g.chance(30):
				case v == nil:
				case g.chance(10):
					m[k] = int32(g.Intn(5))
				case g.chance(10):
					m[k] = RValue{Value: v, Const: true}
				default:
					m[k] = v
				}
			}
			return m
		}
		n1 := g.ctx.graph.NewNode([]string{"L"}, props())
		n2 := g.ctx.graph.NewNode(nil, props())
		ed := g.ctx.graph.NewEdge(n1, n2, "e", props())
		e := propertyOrLabelsExpression{atom: g.stub(func() interface{} {
			switch g.Intn(6) {
			case 0, 1:
				return n1
			case 2:
				return n2
			case 3:
				return ed
			case 4:
				return nil
			}
			return g.raw(1)
		})}
		for n := g.Intn(3); n > 0; n-- {
			k := symbolicName(g.pick("a", "b", "c"))
			e.propertyLookup = append(e.propertyLookup, schemaName{symbolicName: &k})
		}
		g.evaluate("proplabels", e, func(ctx, ctx2 *EvalContext) vPosts {
			return vPosts{
				"proplabels_post_value":    func(res Value, err error) bool { return proplabels_post_value(e, ctx, res, err) },
				"proplabels_post_notConst": func(res Value, err error) bool { return proplabels_post_notConst(e, res, err) },
			}
		})
	})
	_ = wProbeAdd("unit context", "C13,C15", func(w *wGen) {
		names := []string{"a", "b", "c", "1", "9x", "x1", "é", "_", "_1", "A"}
		for i := 0; i < 2; i++ {
			if s := w.str(); s != "" {
				names = append(names, s)
			}
		}
		name := func() string { return names[w.Intn(len(names))] }
		val := func() Value {
			v := RValue{Value: w.raw(0), Const: w.chance(50)}
			if w.chance(30) {
				return NewLValue(v)
			}
			return v
		}
		ctxs := []*EvalContext{NewEvalContext(wGraph())}
		history := "new"
		// what the map of every context holds
		snap := func(vars bool) []map[string]Value {
			var out []map[string]Value
			for _, c := range ctxs {
				m := map[string]Value{}
				src := c.parameters
				if vars {
					src = c.variables
				}
				for k, v := range src {
					m[k] = v
				}
				out = append(out, m)
			}
			return out
		}
		same := func(what string, a, b []map[string]Value, except int, key string) {
			for i := range a {
				for _, k := range names {
					if i == except && k == key {
						continue
					}
					v, ok := a[i][k]
					x, ok2 := b[i][k]
					if ok != ok2 || ok && !vSameValue(v, x) {
						w.check(what+"_frame", false, "%s of context %d changed from %s to %s", k, i, wDump(v), wDump(x))
					}
				}
			}
		}
		for n := 3 + w.Intn(10); n > 0; n-- {
			i := w.Intn(len(ctxs))
			c := ctxs[i]
			vars, pars := snap(true), snap(false)
			k := name()
			switch w.Intn(9) {
			case 0, 1:
				v := val()
				history += "; " + wDump(v) + " -> variable " + k
				w.input("history %s of context %d of %d", history, i, len(ctxs))
				c.SetVar(k, v)
				w.check("setVar_post_binds", setVar_post_binds(c, k, v, k), "")
				same("setVar", vars, snap(true), i, k)
				same("setVar", pars, snap(false), -1, "")
			case 2:
				v := val()
				history += "; " + wDump(v) + " -> parameter " + k
				w.input("history %s of context %d of %d", history, i, len(ctxs))
				res := c.SetParameter(k, v)
				w.check("setParameter_post_binds", setParameter_post_binds(c, k, v, k, res), "")
				same("setParameter", vars, snap(true), -1, "")
				same("setParameter", pars, snap(false), i, k)
			case 3:
				history += "; remove " + k
				w.input("history %s of context %d of %d", history, i, len(ctxs))
				c.RemoveVar(k)
				w.check("removeVar_post_unbinds", removeVar_post_unbinds(c, k, k), "")
				same("removeVar", vars, snap(true), i, k)
				same("removeVar", pars, snap(false), -1, "")
			case 4:
				m := map[string]Value{}
				for j := w.Intn(3); j >= 0; j-- {
					m[name()] = val()
				}
				history += "; set " + wDump(m)
				w.input("history %s of context %d of %d", history, i, len(ctxs))
				c.SetVars(m)
				for _, k := range names {
					if v, ok := m[k]; ok && sNamed(k) {
						vars[i][k] = v
					}
				}
				same("setVars_post_binds", vars, snap(true), -1, "")
				same("setVars", pars, snap(false), -1, "")
			case 5:
				history += "; sub context"
				w.input("history %s of context %d of %d", history, i, len(ctxs))
				s := c.SubContext()
				w.check("subContext_post_inner", subContext_post_inner(c, k, s), "")
				ctxs = append(ctxs, s)
			case 6, 7:
				history += "; get " + k
				w.input("history %s of context %d of %d", history, i, len(ctxs))
				res, err := c.GetVar(k)
				w.check("getVar_post_nearest", getVar_post_nearest(c, k, res, err), "gave %s, error %v", wDump(res), err)
				res, err = variable(k).Evaluate(c)
				w.check("variable_post_value", variable_post_value(variable(k), c, res, err), "gave %s, error %v", wDump(res), err)
				same("getVar", vars, snap(true), -1, "")
			case 8:
				history += "; get parameter " + k
				w.input("history %s of context %d of %d", history, i, len(ctxs))
				res, err := c.GetParameter(k)
				w.check("getParameter_post_nearest", getParameter_post_nearest(c, k, res, err), "gave %s, error %v", wDump(res), err)
				res, err = Parameter(k).Evaluate(c)
				w.check("parameter_post_value", parameter_post_value(Parameter(k), c, res, err), "gave %s, error %v", wDump(res), err)
				same("getParameter", pars, snap(false), -1, "")
			}
		}
	})
	_ = wProbeAdd("unit getFunction", "C13,C18", func(w *wGen) {
		ctx := NewEvalContext(wGraph())
		var name []string
		for n := 1 + w.Intn(3); n > 0; n-- {
			name = append(name, w.pick("v", "first", "args", "none", "left", "range", "Left", "v.first", ""))
		}
		w.input("GetFunction %q", name)
		res, err := ctx.GetFunction(name)
		w.check("getFunction_post_registered", getFunction_post_registered(ctx, name, res, err), "gave %s, error %v", wDump(res.Name), err)
	})
)
