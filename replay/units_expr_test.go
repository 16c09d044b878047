package opencypher

// The contracts of the expressions, run on the real code: each probe builds
// an expression whose operands are stubs, evaluates it, and evaluates its
// contract.

import "errors"

// vStub is an operand: it has one value in one context, maybe another value
// in another context, or fails
type vStub struct {
	v1, v2 interface{}
	e1, e2 bool
	konst  bool
}

var errStub = errors.New("operand fails")

func (s *vStub) Evaluate(ctx *EvalContext) (Value, error) {
	v, e := s.v1, s.e1
	if p, err := ctx.GetParameter("v__ctx"); err == nil && p.Get() == 2 && !s.konst {
		v, e = s.v2, s.e2
	}
	if e {
		return nil, errStub
	}
	return RValue{Value: v, Const: s.konst}, nil
}

type vG struct {
	*wGen
	ctx, ctx2 *EvalContext
	stubs     []*vStub
}

func vNew(g *wGen) *vG {
	v := &vG{wGen: g}
	gr := wGraph()
	v.ctx = NewEvalContext(gr).SetParameter("v__ctx", RValue{Value: 1})
	v.ctx2 = NewEvalContext(gr).SetParameter("v__ctx", RValue{Value: 2})
	return v
}

// stub is an operand with values from gen
func (g *vG) stub(gen func() interface{}) Evaluatable {
	s := &vStub{v1: gen()}
	g.stubs = append(g.stubs, s)
	switch {
	case g.chance(50):
		s.konst = true
		s.v2 = s.v1
	default:
		s.v2 = gen()
	}
	if !s.konst && g.chance(6) {
		s.e1 = true
	}
	if !s.konst && g.chance(6) {
		s.e2 = true
	}
	return s
}

// operands are n operands that mostly go together
func (g *vG) operands(n int) []Evaluatable {
	var gen func() interface{}
	switch g.Intn(4) {
	case 0:
		gen = func() interface{} { return g.raw(2) }
	case 1:
		gen = g.num
	default:
		base := g.raw(2)
		gen = func() interface{} {
			if g.chance(8) {
				return nil
			}
			if g.chance(8) {
				return g.raw(2)
			}
			return g.like(base)
		}
	}
	out := make([]Evaluatable, n)
	for i := range out {
		out[i] = g.stub(gen)
	}
	return out
}

type vPosts map[string]func(res Value, err error) bool

// evaluate runs an expression and its postconditions. It is evaluated in
// both contexts, and again in the first, since what it may remember must not
// show.
func (g *vG) evaluate(unit string, e Evaluatable, posts func(ctx, ctx2 *EvalContext) vPosts) {
	g.input("%s %s", unit, wDump(e))
	freeze := func() string {
		out := ""
		for _, s := range g.stubs {
			out += wFreeze(s.v1) + wFreeze(s.v2) + "\n"
		}
		return out
	}
	before := freeze()
	for round := 0; round < 3; round++ {
		a, b := g.ctx, g.ctx2
		if round == 1 {
			a, b = b, a
		}
		res, err := e.Evaluate(a)
		if after := freeze(); !g.check(unit+"_frame", after == before, "evaluation %d changed its operands: %s to %s", round+1, before, after) {
			return
		}
		if err == nil && res == nil {
			g.check(unit+"_post_result", false, "neither a value nor an error (evaluation %d)", round+1)
			return
		}
		for name, p := range posts(a, b) {
			if !g.check(name, p(res, err), "evaluation %d gave %s, error %v", round+1, wDump(res), err) {
				return
			}
		}
	}
}

var (
	_ = wProbeAdd("unit mul", "C01,C15", func(w *wGen) {
		g := vNew(w)
		e := &multiplyDivideModuloExpression{}
		for _, o := range g.operands(1 + g.Intn(4)) {
			p := multiplyDivideModuloExpressionPart{expr: o}
			if len(e.parts) > 0 {
				p.op = rune("*/%"[g.Intn(3)])
			}
			e.parts = append(e.parts, p)
		}
		if !mul_pre(e, g.ctx, g.ctx2) {
			g.skip()
		}
		g.evaluate("mul", e, func(ctx, ctx2 *EvalContext) vPosts {
			return vPosts{
				"mul_post_value": func(res Value, err error) bool { return mul_post_value(e, ctx, res, err) },
				"mul_post_memo":  func(res Value, err error) bool { return mul_post_memo(e, ctx2) },
				"mul_post_const": func(res Value, err error) bool { return mul_post_const(e, ctx2, res, err) },
			}
		})
	})
	_ = wProbeAdd("unit add", "C02,C15", func(w *wGen) {
		g := vNew(w)
		e := &addOrSubtractExpression{}
		for _, o := range g.operands(1 + g.Intn(4)) {
			e.parts = append(e.parts, addOrSubtractExpressionPart{sub: len(e.parts) > 0 && g.Intn(2) == 0})
			e.parts[len(e.parts)-1].expr = o
		}
		if !add_pre(e, g.ctx, g.ctx2) {
			g.skip()
		}
		g.evaluate("add", e, func(ctx, ctx2 *EvalContext) vPosts {
			return vPosts{
				"add_post_value": func(res Value, err error) bool { return add_post_value(e, ctx, res, err) },
				"add_post_memo":  func(res Value, err error) bool { return add_post_memo(e, ctx2) },
				"add_post_const": func(res Value, err error) bool { return add_post_const(e, ctx2, res, err) },
			}
		})
	})
	_ = wProbeAdd("unit addlistlist", "C02", func(w *wGen) {
		mk := func() []Value {
			l := make([]Value, w.Intn(4))
			for i := range l {
				l[i] = RValue{Value: w.raw(1), Const: w.chance(60)}
			}
			return l
		}
		a, b := mk(), mk()
		w.input("addlistlist %s %s", wDump(a), wDump(b))
		res := addlistlist(a, b)
		w.check("addlistlist_post_value", addlistlist_post_value(a, b, res), "gave %s", wDump(res))
		w.check("addlistlist_post_const", addlistlist_post_const(a, b, res), "gave %s", wDump(res))
	})
	_ = wProbeAdd("unit power", "C03,C15", func(w *wGen) {
		g := vNew(w)
		e := &powerOfExpression{}
		for _, o := range g.operands(1 + g.Intn(4)) {
			if g.chance(60) {
				o = g.stub(g.num)
			}
			e.parts = append(e.parts, o)
		}
		if !power_pre(e, g.ctx, g.ctx2) {
			g.skip()
		}
		g.evaluate("power", e, func(ctx, ctx2 *EvalContext) vPosts {
			return vPosts{
				"power_post_value": func(res Value, err error) bool { return power_post_value(e, ctx, res, err) },
				"power_post_memo":  func(res Value, err error) bool { return power_post_memo(e, ctx2) },
				"power_post_const": func(res Value, err error) bool { return power_post_const(e, ctx2, res, err) },
			}
		})
	})
	_ = wProbeAdd("unit unary", "C03,C15", func(w *wGen) {
		g := vNew(w)
		e := &unaryAddOrSubtractExpression{neg: g.chance(70), expr: stringListNullOperatorExpression{propertyOrLabels: propertyOrLabelsExpression{atom: g.operands(1)[0]}}}
		if !unary_pre(e, g.ctx, g.ctx2) {
			g.skip()
		}
		g.evaluate("unary", e, func(ctx, ctx2 *EvalContext) vPosts {
			return vPosts{
				"unary_post_value": func(res Value, err error) bool { return unary_post_value(e, ctx, res, err) },
				"unary_post_memo":  func(res Value, err error) bool { return unary_post_memo(e, ctx2) },
				"unary_post_const": func(res Value, err error) bool { return unary_post_const(e, ctx2, res, err) },
			}
		})
	})
	_ = wProbeAdd("unit cmp", "C04,C05", func(w *wGen) {
		a := w.raw(1)
		b := w.raw(1)
		if w.chance(60) {
			b = w.like(a)
		}
		w.input("comparePrimitiveValues %s %s", wDump(a), wDump(b))
		res, err := comparePrimitiveValues(a, b)
		w.check("cmp_post_order", cmp_post_order(a, b, res, err), "gave %d, error %v", res, err)
		c := w.like(b)
		w.input("order of %s %s %s", wDump(a), wDump(b), wDump(c))
		w.check("cmpReflexive", cmpReflexive(a), "")
		w.check("cmpAntisymmetric", cmpAntisymmetric(a, b), "")
		w.check("cmpTransitive", cmpTransitive(a, b, c), "")
	})
	_ = wProbeAdd("unit comparison", "C05,C15", func(w *wGen) {
		g := vNew(w)
		ops := g.operands(1 + g.Intn(4))
		e := comparisonExpression{first: ops[0]}
		for _, o := range ops[1:] {
			e.second = append(e.second, partialComparisonExpression{op: g.pick("=", "<>", "<", "<=", ">", ">="), expr: o})
		}
		if !comparison_pre(e, g.ctx, g.ctx2) {
			g.skip()
		}
		g.evaluate("comparison", e, func(ctx, ctx2 *EvalContext) vPosts {
			p := vPosts{
				"comparison_post_value": func(res Value, err error) bool { return comparison_post_value(e, ctx, res, err) },
				"comparison_post_const": func(res Value, err error) bool { return comparison_post_const(e, ctx2, res, err) },
			}
			if len(e.second) > 0 {
				p["comparison_post_tri"] = func(res Value, err error) bool { return comparison_post_tri(res, err) }
			}
			return p
		})
	})
	_ = wProbeAdd("unit boolean", "C06,C15", func(w *wGen) {
		g := vNew(w)
		var ops []Evaluatable
		for n := 1 + g.Intn(4); n > 0; n-- {
			if g.chance(90) {
				ops = append(ops, g.stub(g.tri))
			} else {
				ops = append(ops, g.stub(func() interface{} { return g.raw(1) }))
			}
		}
		switch g.Intn(4) {
		case 0:
			e := andExpression{parts: ops}
			g.evaluate("and", e, func(ctx, ctx2 *EvalContext) vPosts {
				return vPosts{
					"and_post_value": func(res Value, err error) bool { return and_post_value(e, ctx, res, err) },
					"and_post_const": func(res Value, err error) bool { return and_post_const(e, ctx2, res, err) },
				}
			})
		case 1:
			e := orExpression{parts: ops}
			g.evaluate("or", e, func(ctx, ctx2 *EvalContext) vPosts {
				return vPosts{
					"or_post_value": func(res Value, err error) bool { return or_post_value(e, ctx, res, err) },
					"or_post_const": func(res Value, err error) bool { return or_post_const(e, ctx2, res, err) },
				}
			})
		case 2:
			e := xorExpression{parts: ops}
			g.evaluate("xor", e, func(ctx, ctx2 *EvalContext) vPosts {
				return vPosts{
					"xor_post_value": func(res Value, err error) bool { return xor_post_value(e, ctx, res, err) },
					"xor_post_const": func(res Value, err error) bool { return xor_post_const(e, ctx2, res, err) },
				}
			})
		case 3:
			e := notExpression{part: ops[0]}
			g.evaluate("not", e, func(ctx, ctx2 *EvalContext) vPosts {
				return vPosts{
					"not_post_value": func(res Value, err error) bool { return not_post_value(e, ctx, res, err) },
					"not_post_const": func(res Value, err error) bool { return not_post_const(e, ctx2, res, err) },
				}
			})
		}
	})
	_ = wProbeAdd("unit logicLaws", "C06", func(w *wGen) {
		a, b, c := w.tri(), w.tri(), w.tri()
		w.input("laws of logic %v %v %v", a, b, c)
		w.check("logicLaws", logicLaws(a, b, c), "")
	})
)
