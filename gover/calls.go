package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(v Val) []Val { return []Val{v} }

// call executes a call, and continues with the results
func (x *Exec) call(fr *Frame, st *State, ins ssa.Instruction, c *ssa.CallCommon, k Cont) {
	if c.IsInvoke() {
		recv := x.term(fr, st, c.Value)
		var args []Val
		for _, a := range c.Args {
			args = append(args, x.val(fr, st, a))
		}
		x.safety(st, Not(Is(anyNil, recv)), "call of "+c.Method.Name()+" on a nil interface", fr.fn, ins.Pos())
		x.invoke(fr, st, recv, c, args, k)
		return
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		x.builtin(fr, st, f, c, args, ins.Pos(), k)
		return
	case *ssa.Function:
		x.callFn(fr, st, f, nil, args, c, k)
		return
	}
	switch f := x.val(fr, st, c.Value).(type) {
	case *Closure:
		if f == nil {
			x.safety(st, False(), "call of a nil function", fr.fn, ins.Pos())
			return
		}
		x.callFn(fr, st, f.fn, f.binds, args, c, k)
		return
	case *Term:
		x.dynCall(fr, st, f, c, args, ins.Pos(), k)
		return
	}
	x.unsupported("call of %s", c.Value)
}

// dynCall: call of an unknown function value
func (x *Exec) dynCall(fr *Frame, st *State, f *Term, c *ssa.CallCommon, args []Val, pos token.Pos, k Cont) {
	if cl, ok := x.p.closures[f]; ok {
		x.callFn(fr, st, cl.fn, cl.binds, args, c, k)
		return
	}
	x.safety(st, Not(Eq(f, IntT(0))), "call of a nil function", fr.fn, pos)
	if x.unit != nil && x.unit.pureDyn && c.Signature().Results().Len() > 0 {
		k(st, x.pureCall(st, "dynpure."+typeName(c.Value.Type().Underlying()), c.Signature(), append([]Val{f}, args...)))
		return
	}
	x.effectCall(st, "dyn."+typeName(c.Value.Type().Underlying()), c.Signature(), append([]Val{f}, args...), true, k)
}

// effectCall: an uninterpreted function of its arguments and of the state
// of the world; it may change the world
func (x *Exec) effectCall(st *State, name string, sig *types.Signature, args []Val, mutates bool, k Cont) {
	var ts []*Term
	for i, a := range args {
		t, ok := a.(*Term)
		if !ok {
			t = x.asTerm(st, a, nil)
		}
		ts = append(ts, x.viewTerm(st, t, argType(sig, i-(len(args)-sig.Params().Len()))))
	}
	ts = append(ts, st.world)
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		ty := sig.Results().At(i).Type()
		r := UF(fmt.Sprintf("%s#%d", name, i), SortOf(ty), ts...)
		x.wf(st, r, ty)
		res = append(res, r)
	}
	if mutates {
		x.setWorld(st, UF(name+"#w", "World", ts...))
		if !strings.HasPrefix(name, "eff.(*EvalContext).") {
			x.havocGhosts(st)
		}
	}
	k(st, res)
}

func argType(sig *types.Signature, i int) types.Type {
	if i < 0 {
		if sig.Recv() != nil {
			return sig.Recv().Type()
		}
		return nil
	}
	return sig.Params().At(i).Type()
}

// viewTerm is what an external function sees of an argument: of a slice, the
// sequence of its elements
func (x *Exec) viewTerm(st *State, t *Term, ty types.Type) *Term {
	if ty != nil && typeName(ty) == "ResultSet" && !t.bound {
		// of a result set, its rows
		assumedExterns["result sets"] = "a call acts on the rows of a result set only"
		si := structInfo(ty)
		for i := 0; i < si.T.NumFields(); i++ {
			if f := si.T.Field(i); f.Name() == "Rows" {
				rows := Sel(si.Ctor, i, t)
				if rows.Op == "vslice" {
					return x.seqView(Sel(seqCtor(), 0, rows.Args[0]), IntT(0), Sel(seqCtor(), 1, rows.Args[0]))
				}
				return x.viewTerm(st, rows, f.Type())
			}
		}
	}
	if t.Sort != SSlice || ty == nil || t.bound {
		return t
	}
	sl, ok := ty.Underlying().(*types.Slice)
	if !ok {
		return t
	}
	_, h := x.elemHeap(st, sl.Elem())
	return x.seqView(Select(h, Sel(sliceCtor, 0, t)), Sel(sliceCtor, 1, t), Sel(sliceCtor, 2, t))
}

type seqView struct{ c, arr, off, len *Term }

// seqView names a sequence. Sequences with the same elements are the same
// (see axiomatizer.pairs)
func (x *Exec) seqView(arr, off, l *Term) *Term {
	for _, v := range x.seqs {
		if v.arr == arr && v.off == off && v.len == l {
			return v.c
		}
	}
	c := Const(fmt.Sprintf("seq!%d", len(x.seqs)), "World")
	x.seqs = append(x.seqs, seqView{c, arr, off, l})
	if x.seqOf == nil {
		x.seqOf = map[*Term]seqView{}
	}
	x.seqOf[c] = x.seqs[len(x.seqs)-1]
	return c
}

// pureCall: an uninterpreted function of its arguments
func (x *Exec) pureCall(st *State, name string, sig *types.Signature, args []Val) []Val {
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.viewTerm(st, x.asTerm(st, a, nil), argType(sig, i-(len(args)-sig.Params().Len()))))
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		ty := sig.Results().At(i).Type()
		n := name
		if sig.Results().Len() > 1 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		r := UF(n, SortOf(ty), ts...)
		if r.Sort == SSlice {
			// content of a result lives in the initial heap
		}
		x.wf(st, r, ty)
		res = append(res, r)
	}
	return res
}

// vget is the content of a Value
func (x *Exec) vget(st *State, v *Term) *Term {
	v = st.simpVal(v)
	if v.Op == "ite" {
		return Ite(v.Args[0], x.vget(st, v.Args[1]), x.vget(st, v.Args[2]))
	}
	rc := x.p.ctorRValue
	if ctorOf(v) == rc || st.ctorF[v] == rc {
		si := structInfo(x.p.tRValue)
		return Sel(si.Ctor, 0, Sel(rc, 0, v))
	}
	if r := x.closureGet(st, v); r != nil {
		return r
	}
	return UF("vget", SAny, v, st.world)
}

// closureGet is the content of an LValue whose getter was made here, as long
// as nothing was assigned
func (x *Exec) closureGet(st *State, v *Term) *Term {
	if ctorOf(v) != x.p.ctorLValue || x.entry == nil || st.world != x.entry.world {
		return nil
	}
	g := Sel(structInfo(x.p.tLValue).Ctor, 0, Sel(x.p.ctorLValue, 0, v))
	cl, ok := x.p.closures[g]
	if !ok || len(cl.fn.Params) != 0 {
		return nil
	}
	for _, b := range cl.binds {
		if a, ok := b.(*Addr); ok && a.cell != 0 && st.cells[a.cell] == nil {
			return nil
		}
	}
	return x.evalPure(st, cl.fn, cl.binds, nil)[0].(*Term)
}

func (x *Exec) vconst(st *State, v *Term) *Term {
	v = st.simpVal(v)
	if v.Op == "ite" {
		return Ite(v.Args[0], x.vconst(st, v.Args[1]), x.vconst(st, v.Args[2]))
	}
	rc := x.p.ctorRValue
	if ctorOf(v) == rc || st.ctorF[v] == rc {
		si := structInfo(x.p.tRValue)
		return Sel(si.Ctor, 1, Sel(rc, 0, v))
	}
	if ctorOf(v) == x.p.ctorLValue || st.ctorF[v] == x.p.ctorLValue {
		return False()
	}
	return UF("vconst", SBool, v)
}

// ev is the evaluation of a sub-expression: by contract a function of the
// expression, the context, and the state of the world
func (x *Exec) ev(st *State, e *Term, ctx *Term) []Val {
	v := UF("ev_val", SAny, e, ctx, st.world)
	er := UF("ev_err", SAny, e, ctx, st.world)
	if !v.bound {
		st.assumeWF(Or(Not(Is(anyNil, er)), Is(x.p.ctorRValue, v), Is(x.p.ctorLValue, v)))
	}
	return []Val{v, er}
}

func (x *Exec) invoke(fr *Frame, st *State, recv *Term, c *ssa.CallCommon, args []Val, k Cont) {
	m := c.Method.Name()
	ity := c.Value.Type()
	switch {
	case m == "Evaluate":
		if cc := ctorOf(recv); cc == x.p.ctorRValue || cc == x.p.ctorLValue || st.ctorF[recv] == x.p.ctorRValue || st.ctorF[recv] == x.p.ctorLValue || x.p.isValueType(ity) {
			k(st, []Val{recv, NilAny()})
			return
		}
		k(st, x.ev(st, recv, x.asTerm(st, args[0], nil)))
		return
	case m == "Get" && x.p.isValueType(ity):
		k(st, one(x.vget(st, recv)))
		return
	case m == "IsConst" && x.p.isValueType(ity):
		k(st, one(x.vconst(st, recv)))
		return
	case m == "Error":
		k(st, one(UF("err.string", SStr, recv)))
		return
	}
	full := append([]Val{recv}, args...)
	if x.unit != nil && x.unit.models {
		// an object of a model
		cc := ctorOf(recv)
		if cc == nil {
			cc = st.ctorF[recv]
		}
		if cc != nil && x.p.isModelType(anyTypes[cc.Name]) {
			t := anyTypes[cc.Name]
			f := x.p.prog.LookupMethod(t, x.p.pkg.Pkg, m)
			x.inline(fr, st, f, nil, append([]Val{Sel(cc, 0, recv)}, args...), k)
			return
		}
	}
	name := "inv." + typeName(ity) + "." + m
	if !isNamed(ity) {
		name = "inv." + m
	}
	if isParserType(ity) || x.p.pureIface[typeName(ity)+"."+m] {
		k(st, x.pureCall(st, name, c.Signature(), full))
		return
	}
	mut := m != "GetProperty" && m != "GetNativeValue"
	x.effectCall(st, name, c.Signature(), full, mut, k)
}

// isModelType: a pointer to a type v… of the contracts
func (p *Program) isModelType(t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() != p.pkg.Pkg {
		return false
	}
	nm := n.Obj().Name()
	return len(nm) > 1 && nm[0] == 'v' && nm[1] >= 'A' && nm[1] <= 'Z'
}

// isNamed: an interface type with a name, other than those local to a
// function and those of the contracts
func isNamed(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ok
	}
	nm := n.Obj().Name()
	return n.Obj().Parent() == n.Obj().Pkg().Scope() && !(len(nm) > 1 && nm[0] == 's' && nm[1] >= 'A' && nm[1] <= 'Z')
}

func isParserType(t types.Type) bool {
	n := typeName(t)
	return strings.HasPrefix(n, "antlr.") || strings.HasPrefix(n, "parser.") || strings.HasPrefix(n, "*parser.") || strings.HasPrefix(n, "*antlr.")
}

func (x *Exec) callFn(fr *Frame, st *State, f *ssa.Function, binds []Val, args []Val, c *ssa.CallCommon, k Cont) {
	x.site = c.Pos()
	name := f.Name()
	if o := f.Origin(); o != nil && o.Pkg == x.p.pkg {
		name = o.Name()
	}
	inPkg := f.Pkg == x.p.pkg || f.Parent() != nil && f.Parent().Pkg == x.p.pkg || f.Pkg == nil && len(f.Blocks) > 0 && x.p.inPkg(f)
	full := f.RelString(x.p.pkg.Pkg)
	if !inPkg {
		m := x.p.models[lpgName(full)]
		if m == nil || x.unit == nil || !x.unit.models {
			x.extern(fr, st, f, args, k)
			return
		}
		// the model acts on the ghost state of the graph
		assumedExterns[full] = "model " + m.Name()
		if f.Signature.Recv() != nil {
			if t, ok := args[0].(*Term); ok && t.Sort == SInt {
				x.safety(st, Not(Eq(t, IntT(0))), "call of "+name+" on a nil pointer", fr.fn, token.NoPos)
			}
		}
		ts := []*Term{}
		for _, a := range args {
			if t, ok := a.(*Term); ok {
				ts = append(ts, t)
			}
		}
		x.inline(fr, st, m, nil, args, func(st *State, res []Val) {
			if lpgMutates(f.Name()) && !x.p.localModel[lpgName(full)] {
				x.setWorld(st, UF("model."+full+"#w", "World", append(ts, st.world)...))
			}
			k(st, res)
		})
		return
	}
	if h, ok := intrinsics[name]; ok && f.Signature.Recv() == nil {
		h(x, fr, st, args, k)
		return
	}
	if rd, ok := x.p.recs[name]; ok && f.Signature.Recv() == nil {
		k(st, x.recApp(st, rd, args))
		return
	}
	if x.p.opaque[full] && !(x.unit != nil && x.unit.target == f) && !(x.unit != nil && x.unit.inline[full]) {
		k(st, x.pureCall(st, "op."+full, f.Signature, args))
		return
	}
	if x.unit != nil && !st.spec {
		if cu := x.p.contractOf(x.unit, full); cu != nil && x.unit.target != f {
			x.contractCall(fr, st, cu, f, args, k)
			return
		}
	}
	if x.unit != nil && (x.unit.effects[full] || x.unit.reads[full]) {
		x.effectCall(st, "eff."+full, f.Signature, args, x.unit.effects[full], func(st *State, res []Val) {
			x.resultFacts(st, full, res)
			k(st, res)
		})
		return
	}
	if name == "Evaluate" && f.Signature.Recv() != nil && x.isExprEval(f) {
		rt := f.Signature.Recv().Type()
		switch typeName(rt) {
		case "RValue", "LValue":
			k(st, []Val{x.makeInterface(st, args[0], rt), NilAny()})
			return
		}
		e := x.makeInterface(st, args[0], rt)
		k(st, x.ev(st, e, x.asTerm(st, args[1], nil)))
		return
	}
	if full == "(LValue).Get" {
		k(st, one(x.vget(st, x.makeInterface(st, args[0], f.Signature.Recv().Type()))))
		return
	}
	if full == "(LValue).Set" {
		v := x.makeInterface(st, args[0], f.Signature.Recv().Type())
		x.setWorld(st, UF("lset#w", "World", v, x.asTerm(st, args[1], nil), st.world))
		x.havocGhosts(st)
		k(st, nil)
		return
	}
	if fr.depth > 60 {
		x.unsupported("call depth in %s", f)
	}
	for p := fr; p != nil; p = p.up {
		if p.fn == f {
			if x.unit != nil && f == x.unit.target {
				// recursive call of the unit: by contract
				x.contractCall(fr, st, x.unit, f, args, k)
				return
			}
			x.unsupported("recursive call of %s", f)
		}
	}
	if !st.spec {
		x.inlined[full] = true
	}
	x.inline(fr, st, f, binds, args, k)
}

// resultFacts: the clauses _post_result of the contracts of a function. They
// are about the results alone, and hold whatever the state of the world
func (x *Exec) resultFacts(st *State, full string, res []Val) {
	for _, u := range x.p.units {
		if u.tgtName != full {
			continue
		}
		for _, c := range u.posts {
			if !strings.Contains(c.Name(), "_post_result") {
				continue
			}
			var as []Val
			for _, pr := range c.Params {
				i := -1
				for j, r := range u.res {
					if r == pr.Name() {
						i = j
					}
				}
				if i < 0 {
					x.unsupported("%s is about more than the results", c.Name())
				}
				as = append(as, res[i])
			}
			f := x.evalPure(st, c, nil, as)[0].(*Term)
			if st.spec {
				if !f.bound {
					st.pc = &pcNode{f, st.pc, 0}
				}
			} else {
				st.assume(f)
			}
		}
	}
}

// touchGhosts makes the ghost state of the graph part of the entry state
func (x *Exec) touchGhosts(st *State) {
	sc := x.p.pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		if !strings.HasPrefix(n, "vGhost") {
			continue
		}
		ty := sc.Lookup(n).Type()
		switch u := ty.Underlying().(type) {
		case *types.Map:
			x.mapHeaps(st, u)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				a := x.fieldOfRef(IntT(0), ty, i)
				x.heap(st, a.heap, arrSort(SInt, SortOf(u.Field(i).Type())))
			}
		}
	}
}

func lpgName(s string) string {
	return strings.ReplaceAll(s, "github.com/cloudprivacylabs/lpg/v2.", "lpg.")
}

// havocGhosts: after an operation that has no model, nothing is known of the
// ghost state of the graph
func (x *Exec) havocGhosts(st *State) {
	for _, n := range sortedKeys(st.heaps) {
		if strings.Contains(n, "vGhost") && !st.spec {
			x.setHeap(st, n, FreshConst("ghost", st.heaps[n].Sort), nil)
		}
	}
}

// contractOf is the contract a unit uses for a callee
func (p *Program) contractOf(u *Unit, full string) *Unit {
	for _, c := range p.units {
		if c.tgtName == full && u.calls[c.name] {
			return c
		}
	}
	return nil
}

// contractCall: the precondition of the callee is an obligation, its
// postconditions are all that is known of its results. The result is a
// function of arguments and world only if the unit says so (reads=)
func (x *Exec) contractCall(fr *Frame, st *State, cu *Unit, f *ssa.Function, args []Val, k Cont) {
	if cu.summary != "" {
		// the callee does what its summary says
		sf := x.p.pkg.Func(cu.summary)
		if sf == nil {
			x.unsupported("summary %s of %s: not found", cu.summary, cu.tgtName)
		}
		for _, c := range cu.pres {
			var a []Val
			for _, pr := range c.Params {
				for i, n := range cu.args {
					if n == pr.Name() {
						a = append(a, args[i])
					}
				}
			}
			if len(a) != len(c.Params) {
				x.unsupported("precondition %s of %s: not bound", c.Name(), cu.tgtName)
			}
			x.safety(st, x.evalPure(st, c, nil, a)[0].(*Term), "precondition "+c.Name()+" of "+cu.tgtName, fr.fn, f.Pos())
		}
		x.inlined["contract of "+cu.tgtName] = true
		x.inline(fr, st, sf, nil, args, k)
		return
	}
	if len(cu.modSpec) > 0 {
		x.unsupported("contract of %s: it modifies", cu.tgtName)
	}
	bound := map[string]Val{}
	for i, pr := range f.Params {
		n := pr.Name()
		if i < len(cu.args) {
			n = cu.args[i]
		}
		bound[n] = x.asTerm(st, args[i], pr.Type())
	}
	bind := func(c *ssa.Function) ([]Val, bool) {
		var out []Val
		for _, pr := range c.Params {
			v, ok := bound[pr.Name()]
			if !ok {
				v, ok = x.unit.bound[pr.Name()]
			}
			if !ok {
				return nil, false
			}
			if t, isT := v.(*Term); isT && t.Sort != SortOf(pr.Type()) {
				return nil, false
			}
			out = append(out, v)
		}
		return out, true
	}
	for _, c := range cu.pres {
		if a, ok := bind(c); ok {
			x.safety(st, x.evalPure(st, c, nil, a)[0].(*Term), "precondition "+c.Name()+" of "+cu.tgtName, fr.fn, f.Pos())
		} else {
			x.unsupported("precondition %s of %s: not bound", c.Name(), cu.tgtName)
		}
	}
	after := func(st *State, res []Val) {
		for i, r := range cu.res {
			bound[r] = res[i]
		}
		for _, c := range cu.posts {
			if a, ok := bind(c); ok {
				st.assume(x.evalPure(st, c, nil, a)[0].(*Term))
			}
		}
		x.inlined["contract of "+cu.tgtName] = true
		k(st, res)
	}
	full := cu.tgtName
	if x.unit.reads[full] || x.unit.effects[full] {
		x.effectCall(st, "eff."+full, f.Signature, args, x.unit.effects[full], after)
		return
	}
	var res []Val
	for i := 0; i < f.Signature.Results().Len(); i++ {
		ty := f.Signature.Results().At(i).Type()
		r := FreshConst("result", SortOf(ty))
		x.wf(st, r, ty)
		if x.p.isValueType(ty) {
			st.assumeWF(Or(Is(anyNil, r), Is(x.p.ctorRValue, r), Is(x.p.ctorLValue, r)))
		}
		res = append(res, r)
	}
	after(st, res)
}

// isExprEval: Evaluate methods of expressions, except those of the clauses
// that return something else
func (x *Exec) isExprEval(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Params().Len() != 1 || sig.Results().Len() != 2 {
		return false
	}
	if x.unit != nil && x.unit.inline[f.RelString(x.p.pkg.Pkg)] {
		return false
	}
	switch typeName(sig.Recv().Type()) {
	case "intLiteral", "*intLiteral", "booleanLiteral", "stringLiteral", "doubleLiteral", "nullLiteral":
		return false
	}
	return true
}

func (x *Exec) inline(fr *Frame, st *State, f *ssa.Function, binds []Val, args []Val, k Cont) {
	if len(f.Blocks) == 0 {
		x.unsupported("function %s has no body", f)
	}
	nf := &Frame{fn: f, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*activeLoop{}, up: fr, site: x.site}
	if fr != nil {
		nf.depth = fr.depth + 1
	}
	for i, p := range f.Params {
		nf.env[p] = args[i]
	}
	for i, fv := range f.FreeVars {
		nf.env[fv] = binds[i]
	}
	x.run(nf, st, f.Blocks[0], 0, nil, k)
}

func (x *Exec) builtin(fr *Frame, st *State, f *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos, k Cont) {
	switch f.Name() {
	case "len":
		t := c.Args[0].Type()
		if sm, ok := args[0].(setMap); ok {
			k(st, one(x.setLen(st, sm.set)))
			return
		}
		v := x.asTerm(st, args[0], t)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			k(st, one(Sel(sliceCtor, 2, v)))
		case *types.Basic:
			k(st, one(slen(v)))
		case *types.Map:
			k(st, one(x.mapLen(st, u, v)))
		default:
			x.unsupported("len of %s", t)
		}
		return
	case "append":
		t := c.Args[0].Type().Underlying().(*types.Slice)
		a := x.asTerm(st, args[0], t)
		b := x.asTerm(st, args[1], c.Args[1].Type())
		if b.Sort != SSlice {
			x.unsupported("append of a string")
		}
		x.ownArray(fr, st, a, b, pos)
		k(st, one(x.appendSlices(st, t.Elem(), a, b)))
		return
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		x.mapDelete(st, mt, x.asTerm(st, args[0], nil), x.asTerm(st, args[1], nil))
		k(st, nil)
		return
	case "print", "println":
		k(st, nil)
		return
	case "cap":
		v := x.asTerm(st, args[0], nil)
		r := UF("cap", SInt, v)
		st.assume(Le(Sel(sliceCtor, 2, v), r))
		k(st, one(r))
		return
	case "min", "max":
		a, b := x.asTerm(st, args[0], nil), x.asTerm(st, args[1], nil)
		if a.Sort == SInt && len(args) == 2 {
			if f.Name() == "min" {
				k(st, one(Ite(Le(a, b), a, b)))
			} else {
				k(st, one(Ite(Le(a, b), b, a)))
			}
			return
		}
	}
	x.unsupported("builtin %s", f.Name())
}

func (x *Exec) mapLen(st *State, mt *types.Map, ref *Term) *Term {
	_, _, d, _ := x.mapHeaps(st, mt)
	dom := Select(d, ref)
	var l *Term
	if dom.virt {
		x.unsupported("len of a map modified in a loop")
	}
	l = UF("mlen."+SortOf(mt.Key()), SInt, dom)
	// a finite set is empty if and only if it has no elements
	st.assume(And(Le(IntT(0), l), Le(l, BigT(maxLen)), Eq(Eq(l, IntT(0)), Eq(dom, ConstArr(dom.Sort, False())))))
	return Ite(Eq(ref, IntT(0)), IntT(0), l)
}

func (x *Exec) elemHeap(st *State, el types.Type) (string, *Term) {
	name := "E:" + typeName(el)
	return name, x.heap(st, name, arrSort(SInt, arrSort(SInt, SortOf(el))))
}

func shiftArr(a, o *Term) *Term {
	if n, ok := o.Lit(); ok && n == 0 {
		return a
	}
	return mk("shift", a.Sort, a, o)
}

// ownArray: append may write behind the end of the array of its first
// operand, so that array must have been made here (or there is none)
func (x *Exec) ownArray(fr *Frame, st *State, a, b *Term, pos token.Pos) {
	if st.spec || x.unit.owns {
		return
	}
	r := Sel(sliceCtor, 0, a)
	x.safety(st, Or(Le(x.base0, r), Eq(r, IntT(0)), Eq(Sel(sliceCtor, 2, b), IntT(0))), "append to an array that may be shared", fr.fn, pos)
}

// appendSlices: the result is a fresh array. (A Go append may reuse the
// array of the first operand; the difference is visible only if that array
// is also appended to through another slice of it.)
func (x *Exec) appendSlices(st *State, el types.Type, a, b *Term) *Term {
	name, h := x.elemHeap(st, el)
	ra, oa, la := Sel(sliceCtor, 0, a), Sel(sliceCtor, 1, a), Sel(sliceCtor, 2, a)
	rb, ob, lb := Sel(sliceCtor, 0, b), Sel(sliceCtor, 1, b), Sel(sliceCtor, 2, b)
	ref := x.freshRef(st)
	var arr *Term
	if n, ok := lb.Lit(); ok && n <= 8 {
		arr = shiftArr(Select(h, ra), oa)
		for i := int64(0); i < n; i++ {
			arr = Store(arr, Add(la, IntT(i)), Select(Select(h, rb), Add(ob, IntT(i))))
		}
	} else if n, ok := la.Lit(); ok && n == 0 {
		arr = shiftArr(Select(h, rb), ob)
	} else {
		arr = FreshConst("appended", arrSort(SInt, SortOf(el)))
		j := BoundVar("j", SInt)
		st.assumeQ(Forall([]*Term{j}, Implies(And(Le(IntT(0), j), Lt(j, la)), Eq(Select(arr, j), Select(Select(h, ra), Add(oa, j))))))
		j2 := BoundVar("j", SInt)
		st.assumeQ(Forall([]*Term{j2}, Implies(And(Le(la, j2), Lt(j2, Add(la, lb))), Eq(Select(arr, j2), Select(Select(h, rb), Add(ob, Sub(j2, la)))))))
	}
	x.setHeap(st, name, Store(h, ref, arr), ref)
	l := Add(la, lb)
	st.assume(Le(l, BigT(maxLen)))
	return MkCtor(sliceCtor, ref, IntT(0), l)
}

func (st *State) assumeQ(t *Term) { st.assume(t) }

// intrinsics of the contract language
var intrinsics map[string]func(x *Exec, fr *Frame, st *State, args []Val, k Cont)

func init() {
	intrinsics = map[string]func(x *Exec, fr *Frame, st *State, args []Val, k Cont){
		"vForallInt": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			lo, hi := args[0].(*Term), args[1].(*Term)
			bv := BoundVar("i", SInt)
			r := x.pureApply(st, args[2], []Val{bv})
			k(st, one(Forall([]*Term{bv}, Implies(And(Le(lo, bv), Lt(bv, hi)), r))))
		},
		"vForallStr": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			bv := BoundVar("s", SStr)
			r := x.pureApply(st, args[0], []Val{bv})
			k(st, one(Forall([]*Term{bv}, r)))
		},
		"vSameValue": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(Eq(x.asTerm(st, args[0], nil), x.asTerm(st, args[1], nil))))
		},
		"vSameAny": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(Eq(x.asTerm(st, args[0], nil), x.asTerm(st, args[1], nil))))
		},
		"vSameMap": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(Eq(x.asTerm(st, args[0], nil), x.asTerm(st, args[1], nil))))
		},
		"vNode": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(args[0]))
		},
		"vPathElems": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			a := x.toAddr(fr, st, args[0], x.p.funcs["vPathElems"].Signature.Params().At(0).Type(), token.NoPos)
			ty := a.typ
			s := ty.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() != "path" {
					continue
				}
				if a.heap == "S:" {
					k(st, one(x.fieldOfRef(a.ref, ty, i)))
					return
				}
				n := *a
				n.path = append(append([]int{}, a.path...), i)
				n.typ = s.Field(i).Type()
				k(st, one(&n))
				return
			}
			x.unsupported("lpg.Path has no field path")
		},
		"vGraph": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(args[0]))
		},
		"vEdge": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(args[0]))
		},
		"vEdgeProps": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(args[0]))
		},
		"vNewNode": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			ref := x.freshRef(st)
			x.initMap(st, ref, x.p.pkg.Pkg.Scope().Lookup("vGhostProps").Type().Underlying().(*types.Map))
			k(st, one(ref))
		},
		"vNewEdge": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			ref := x.freshRef(st)
			x.initMap(st, ref, x.p.pkg.Pkg.Scope().Lookup("vGhostEdgeProps").Type().Underlying().(*types.Map))
			k(st, one(ref))
		},
		"vNodeProps": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(args[0]))
		},
		"vSameSet": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(Eq(x.asTerm(st, args[0], nil), x.asTerm(st, args[1], nil))))
		},
		"vSeq":     seqIntrinsic("vSeq"),
		"vNodesOf": seqIntrinsic("vNodesOf"),
		"vEdgesOf": seqIntrinsic("vEdgesOf"),
		"vNodeAt":  atIntrinsic,
		"vEdgeAt":  atIntrinsic,
		"vAt":      atIntrinsic,
		"vRuneAt": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			r, _ := x.runeAt(st, args[0].(*Term), args[1].(*Term))
			k(st, one(r))
		},
		"vRuneLen": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			_, n := x.runeAt(st, args[0].(*Term), args[1].(*Term))
			k(st, one(n))
		},
		"vSlice": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(UF("vslice", SSlice, args[0].(*Term))))
		},
		"vMake": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			// a new list with the rows of the sequence
			q := args[0].(*Term)
			el := x.p.funcs["vMake"].Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			name, h := x.elemHeap(st, el)
			ref := x.freshRef(st)
			x.setHeap(st, name, Store(h, ref, Sel(seqCtor(), 0, q)), ref)
			l := Sel(seqCtor(), 1, q)
			st.assume(And(Le(IntT(0), l), Le(l, BigT(maxLen))))
			k(st, one(MkCtor(sliceCtor, ref, IntT(0), l)))
		},
		"vCtxsOf": seqIntrinsic("vCtxsOf"),
		"vCtxAt":  atIntrinsic,
		"vCtxLen": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(Sel(seqCtor(), 1, args[0].(*Term))))
		},
		"vCtxPush": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			s := args[0].(*Term)
			n := Sel(seqCtor(), 1, s)
			k(st, one(MkCtor(seqCtor(), Store(Sel(seqCtor(), 0, s), n, x.asTerm(st, args[1], nil)), Add(n, IntT(1)))))
		},
		"vNodeLen": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(Sel(seqCtor(), 1, args[0].(*Term))))
		},
		"vEdgeLen": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(Sel(seqCtor(), 1, args[0].(*Term))))
		},
		"vLen": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(Sel(seqCtor(), 1, args[0].(*Term))))
		},
		"vPush": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			s := args[0].(*Term)
			n := Sel(seqCtor(), 1, s)
			k(st, one(MkCtor(seqCtor(), Store(Sel(seqCtor(), 0, s), n, x.asTerm(st, args[1], nil)), Add(n, IntT(1)))))
		},
		"vSameRows": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			a, b := args[0].(*Term), args[1].(*Term)
			j := BoundVar("j", SInt)
			n := Sel(seqCtor(), 1, a)
			k(st, one(And(Eq(n, Sel(seqCtor(), 1, b)), Forall([]*Term{j}, Implies(And(Le(IntT(0), j), Lt(j, n)), Eq(Select(Sel(seqCtor(), 0, a), j), Select(Sel(seqCtor(), 0, b), j)))))))
		},
		"vEqRows": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(Eq(args[0].(*Term), args[1].(*Term))))
		},
		"vHas": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(Select(args[0].(*Term), args[1].(*Term))))
		},
		"vFresh": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			v := x.asTerm(st, args[0], nil)
			if len(v.Args) == 1 && v.Args[0].Sort == SSlice {
				r := Sel(sliceCtor, 0, v.Args[0])
				k(st, one(Or(Le(x.base0, r), Eq(r, IntT(0)))))
				return
			}
			if len(v.Args) != 1 || v.Args[0].Sort != SInt {
				x.unsupported("vFresh of %s", v.Op)
			}
			k(st, one(Le(x.base0, v.Args[0])))
		},
		"vSameFunction": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(Eq(x.asTerm(st, args[0], nil), x.asTerm(st, args[1], nil))))
		},
		"vSameErr": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			a, b := x.asTerm(st, args[0], nil), x.asTerm(st, args[1], nil)
			k(st, one(Eq(Is(anyNil, a), Is(anyNil, b))))
		},
		"vWorld": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(UF("world.id", SInt, st.world)))
		},
		"vIsNaN": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(Not(feq(args[0].(*Term), args[0].(*Term)))))
		},
		"vOld": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			k(st, one(x.atEntry(st, args[0])))
		},
		// the state of the world stays as it is
		"vAside": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			cl, ok := args[0].(*Closure)
			if !ok {
				x.unsupported("vAside of %T", args[0])
			}
			k(st, one(x.evalPure(st, cl.fn, cl.binds, nil)[0]))
		},
		"vSetWorld": func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
			x.unsupported("vSetWorld")
		},
	}
}

func (x *Exec) pureApply(st *State, f Val, args []Val) *Term {
	cl, ok := f.(*Closure)
	if !ok {
		x.unsupported("quantifier over %T", f)
	}
	r := x.evalPure(st, cl.fn, cl.binds, args)
	return r[0].(*Term)
}

// atEntry evaluates a specification in the state in which the unit was called
func (x *Exec) atEntry(st *State, f Val) *Term {
	cl, ok := f.(*Closure)
	if !ok || x.entry == nil {
		x.unsupported("vOld of %T", f)
	}
	s0 := st.clone()
	s0.heaps = map[string]*Term{}
	for n, h := range x.entry.heaps {
		s0.heaps[n] = h
	}
	s0.world = x.entry.world
	base := s0.pc
	r := x.evalPure(s0, cl.fn, cl.binds, nil)
	var fs []*Term
	for q := s0.pc; q != nil && q != base; q = q.prev {
		fs = append(fs, q.t)
	}
	for i := len(fs) - 1; i >= 0; i-- {
		if st.spec {
			if !fs[i].bound {
				st.pc = &pcNode{fs[i], st.pc, 0}
			}
		} else {
			st.assume(fs[i])
		}
	}
	return r[0].(*Term)
}

// recDef is a recursive specification function
type recDef struct {
	name   string
	file   string
	fn     *ssa.Function
	effect bool // the function acts on the world
	prefix bool // the function depends on the first k elements of its sequence only
}

func seqIntrinsic(name string) func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
	return func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
		t := x.asTerm(st, args[0], nil)
		ty := x.p.funcs[name].Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		_, h := x.elemHeap(st, ty)
		k(st, one(mkSeq(shiftArr(Select(h, Sel(sliceCtor, 0, t)), Sel(sliceCtor, 1, t)), Sel(sliceCtor, 2, t))))
	}
}

// mkSeq: short sequences have one form, whatever is behind their end
func mkSeq(arr, l *Term) *Term {
	if n, ok := l.Lit(); ok && n >= 0 && n <= 8 {
		a := ConstArr(arr.Sort, IntT(0))
		for i := int64(0); i < n; i++ {
			a = Store(a, IntT(i), Select(arr, IntT(i)))
		}
		arr = a
	}
	return MkCtor(seqCtor(), arr, l)
}

func atIntrinsic(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
	k(st, one(Select(Sel(seqCtor(), 0, args[0].(*Term)), args[1].(*Term))))
}

// prefixApp: the application of a function that depends on the first k
// elements of its first argument only, k being the second one
func (x *Exec) prefixApp(t *Term) bool {
	op := strings.TrimPrefix(strings.Trim(t.Op, "|"), "rec.")
	if len(op) == len(strings.Trim(t.Op, "|")) || !strings.HasSuffix(op, "#0") {
		return false
	}
	rd := x.p.recs[strings.TrimSuffix(op, "#0")]
	return rd != nil && rd.prefix
}

// prefixFact: two applications are the same, or there is a difference in the
// first k elements
func prefixFact(a, b *Term) *Term {
	s1, s2, k := a.Args[0], b.Args[0], a.Args[1]
	or := []*Term{Eq(a, b), Not(Eq(k, b.Args[1]))}
	for i := 2; i < len(a.Args)-1; i++ {
		or = append(or, Not(Eq(a.Args[i], b.Args[i])))
	}
	a1, a2 := Sel(seqCtor(), 0, s1), Sel(seqCtor(), 0, s2)
	j := UF("sk.prefix", SInt, a1, a2, k)
	return Or(append(or, And(Le(IntT(0), j), Lt(j, k), Not(Eq(Select(a1, j), Select(a2, j)))))...)
}

// prefixProof is the induction step for a function that is said to depend on
// a prefix only (the measure is the second argument, or 0 if it is negative)
func (x *Exec) prefixProof(rd *recDef) (assume []*Term, goal *Term) {
	sig := rd.fn.Signature
	side := func(n string, k *Term, rest []*Term) *Term {
		ts := []*Term{MkCtor(seqCtor(), Const("pfx.arr."+n, arrSort(SInt, SInt)), Const("pfx.len."+n, SInt)), k}
		ts = append(ts, rest...)
		return UF("rec."+rd.name+"#0", SortOf(sig.Results().At(0).Type()), append(ts, Const("pfx.world."+n, "World"))...)
	}
	k := Const("pfx.k", SInt)
	var rest []*Term
	for i := 2; i < sig.Params().Len(); i++ {
		rest = append(rest, Const(fmt.Sprintf("pfx.%d", i), SortOf(sig.Params().At(i).Type())))
	}
	a, b := side("1", k, rest), side("2", k, rest)
	lo, hi, _ := intRange(types.Typ[types.Int])
	assume = append(assume, Le(BigT(lo), k), Le(k, BigT(hi)))
	assume = append(assume, x.unfold(a)...)
	assume = append(assume, x.unfold(b)...)
	arr1, arr2 := Sel(seqCtor(), 0, a.Args[0]), Sel(seqCtor(), 0, b.Args[0])
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, s := range t.Args {
			walk(s)
		}
		switch {
		case t.Op == "select" && t.Args[0] == arr1:
			assume = append(assume, Or(Lt(t.Args[1], IntT(0)), Le(k, t.Args[1]), Eq(t, Select(arr2, t.Args[1]))))
		case t.Op == a.Op && t != a && t.Args[0] == a.Args[0]:
			u := UF(t.Op, t.Sort, append(append([]*Term{b.Args[0]}, t.Args[1:len(t.Args)-1]...), noWorld())...)
			assume = append(assume, Or(Le(k, IntT(0)), Le(k, t.Args[1]), Eq(t, u)))
		}
	}
	for _, e := range append([]*Term{}, assume...) {
		walk(e)
	}
	return assume, Eq(a, b)
}

func (x *Exec) recApp(st *State, rd *recDef, args []Val) []Val {
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.asTerm(st, a, rd.fn.Params[i].Type()))
	}
	if rd.prefix {
		ts = append(ts, noWorld()) // the induction step is proved for two unrelated worlds
	} else {
		ts = append(ts, st.world)
	}
	var res []Val
	sig := rd.fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		r := UF(fmt.Sprintf("rec.%s#%d", rd.name, i), SortOf(sig.Results().At(i).Type()), ts...)
		res = append(res, r)
	}
	if rd.effect {
		x.setWorld(st, UF("rec."+rd.name+"#w", "World", ts...))
	}
	return res
}

// unfold returns the defining equation of a rec application
func (x *Exec) unfold(t *Term) (eqs []*Term) {
	if c, ok := x.unfolded[t]; ok {
		return c
	}
	if x.unfolded == nil {
		x.unfolded = map[*Term][]*Term{}
	}
	defer func() { x.unfolded[t] = eqs }()
	op := strings.Trim(t.Op, "|")
	op = strings.TrimPrefix(op, "rec.")
	j := strings.LastIndexByte(op, '#')
	rd := x.p.recs[op[:j]]
	st := x.entryState()
	n := len(t.Args) - 1
	st.world = t.Args[n]
	var args []Val
	for _, a := range t.Args[:n] {
		args = append(args, a)
	}
	res, w := x.evalSpec(st, rd.fn, nil, args, rd.effect)
	if rd.effect {
		eqs = append(eqs, Eq(UF("rec."+rd.name+"#w", "World", t.Args...), w))
	}
	for i := range res {
		app := UF(fmt.Sprintf("rec.%s#%d", rd.name, i), res[i].(*Term).Sort, t.Args...)
		eqs = append(eqs, Eq(app, res[i].(*Term)))
		if lo, hi, ok := intRange(rd.fn.Signature.Results().At(i).Type()); ok {
			eqs = append(eqs, Le(BigT(lo), app), Le(app, BigT(hi)))
		}
	}
	eqs = append(eqs, st.assumptions()...)
	return eqs
}

// noWorld stands for any world: no fact about it is ever assumed
func noWorld() *Term { return Const("world.none", "World") }

func (x *Exec) entryState() *State {
	st := &State{facts: map[*Term]bool{}, ctorF: map[*Term]*Ctor{}, litF: map[*Term]*Term{}, heaps: map[string]*Term{}, cells: map[int]Val{}}
	st.allocBase = x.base0
	st.world = Const("world0", "World")
	return st
}

type specPath struct {
	dec []*Term
	res []Val
	st  *State
}

// evalPure evaluates a specification function to one value per result
func (x *Exec) evalPure(st *State, f *ssa.Function, binds []Val, args []Val) []Val {
	r, _ := x.evalSpec(st, f, binds, args, false)
	return r
}

// evalSpec also returns the state of the world after the call
func (x *Exec) evalSpec(st *State, f *ssa.Function, binds []Val, args []Val, effect bool) ([]Val, *Term) {
	s0 := st.clone()
	s0.spec = true
	outerDec := s0.dec
	if !st.spec {
		s0.dec = nil
		outerDec = nil
	}
	base := s0.pc
	rec := x.rec
	x.rec = nil
	defer func() { x.rec = rec }()
	var paths []specPath
	x.specDepth++
	if x.specDepth > 40 {
		x.unsupported("specification too deep in %s", f)
	}
	x.inline(nil, s0, f, binds, args, func(s2 *State, res []Val) {
		if effect {
			res = append(append([]Val{}, res...), s2.world)
		}
		var dec []*Term
		for p := s2.dec; p != nil && p != outerDec; p = p.prev {
			dec = append(dec, p.t)
		}
		for i, j := 0, len(dec)-1; i < j; i, j = i+1, j-1 {
			dec[i], dec[j] = dec[j], dec[i]
		}
		paths = append(paths, specPath{dec, res, s2})
	})
	x.specDepth--
	if len(paths) == 0 {
		x.unsupported("specification %s has no result", f.Name())
	}
	// side facts
	seen := map[*Term]bool{}
	for _, p := range paths {
		var fs []*Term
		for q := p.st.pc; q != nil && q != base; q = q.prev {
			if !seen[q.t] {
				seen[q.t] = true
				fs = append(fs, q.t)
			}
		}
		for i := len(fs) - 1; i >= 0; i-- {
			if st.spec {
				if !fs[i].bound {
					st.pc = &pcNode{fs[i], st.pc, 0}
				}
			} else {
				st.assume(fs[i])
			}
		}
	}
	out := make([]Val, len(paths[0].res))
	for i := range out {
		out[i] = x.mergePaths(paths, 0, i, f)
	}
	if effect {
		return out[:len(out)-1], out[len(out)-1].(*Term)
	}
	return out, nil
}

func (x *Exec) mergePaths(ps []specPath, d, i int, f *ssa.Function) Val {
	if len(ps) == 1 {
		return ps[0].res[i]
	}
	same := true
	for _, p := range ps[1:] {
		if p.res[i] != ps[0].res[i] {
			same = false
			break
		}
	}
	if same {
		return ps[0].res[i]
	}
	var a, b []specPath
	var c *Term
	for _, p := range ps {
		if d >= len(p.dec) {
			x.unsupported("specification %s: paths do not form a tree", f.Name())
		}
		if c == nil {
			c = p.dec[d]
		}
		if p.dec[d] == c {
			a = append(a, p)
		} else {
			b = append(b, p)
		}
	}
	if len(b) == 0 {
		return x.mergePaths(a, d+1, i, f)
	}
	va := x.mergePaths(a, d+1, i, f)
	vb := x.mergePaths(b, d+1, i, f)
	if i == f.Signature.Results().Len() {
		return Ite(c, va.(*Term), vb.(*Term))
	}
	ty := f.Signature.Results().At(i).Type()
	return Ite(c, x.asTerm(ps[0].st, va, ty), x.asTerm(ps[0].st, vb, ty))
}
