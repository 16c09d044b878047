package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// UnitResult is the outcome of a unit
type UnitResult struct {
	Unit    string
	Target  string
	Err     string
	Obls    []*Obligation
	Inlined []string
	Inv     []string
	Paths   int
	Vacuous string
	Wall    float64
}

func (r *UnitResult) failed() []*Obligation {
	var out []*Obligation
	for _, o := range r.Obls {
		if o.Status != "unsat" {
			out = append(out, o)
		}
	}
	return out
}

func (x *Exec) symbolic(st *State, name string, ty types.Type) Val {
	c := Const("p."+name, SortOf(ty))
	x.wf(st, c, ty)
	return c
}

func (p *Program) verify(u *Unit, prop string) (res *UnitResult) {
	start := time.Now()
	res = &UnitResult{Unit: u.name, Target: u.tgtName}
	defer func() {
		res.Wall = time.Since(start).Seconds()
		if r := recover(); r != nil {
			if un, ok := r.(Unsupported); ok {
				res.Err = un.Error()
				if os.Getenv("GOVER_TRACE") != "" {
					debug.PrintStack()
				}
				return
			}
			res.Err = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
		}
	}()
	if u.err != nil {
		res.Err = u.err.Error()
		return
	}
	p.resetTerms()
	x := &Exec{p: p, unit: u, inlined: map[string]bool{}, heap0: map[string]string{}, cellTypes: map[int]types.Type{}, memo: newMemo(), base0: Const("alloc.0", SInt)}
	st := x.entryState()
	st.assume(Le(IntT(1), x.base0))
	if u.models {
		x.touchGhosts(st)
	}
	u.bound = map[string]Val{}
	u.modifies = nil
	var params []Val
	if u.target != nil {
		if len(u.target.FreeVars) > 0 {
			x.unsupported("target %s is a closure", u.tgtName)
		}
		if len(u.target.Blocks) == 0 {
			x.unsupported("target %s has no body", u.tgtName)
		}
		for i, pr := range u.target.Params {
			n := pr.Name()
			if i < len(u.args) {
				n = u.args[i]
			}
			v := x.symbolic(st, n, pr.Type())
			u.bound[n] = v
			params = append(params, v)
		}
	}
	// ghosts: the other parameters of the contract functions
	for _, fs := range [][]*ssa.Function{u.pres, u.posts} {
		for _, f := range fs {
			for _, pr := range f.Params {
				n := pr.Name()
				if _, ok := u.bound[n]; ok {
					continue
				}
				isRes := false
				for _, r := range u.res {
					if r == n {
						isRes = true
					}
				}
				if isRes {
					continue
				}
				u.bound[n] = x.symbolic(st, n, pr.Type())
			}
		}
	}
	bind := func(f *ssa.Function, res map[string]Val) []Val {
		var out []Val
		for _, pr := range f.Params {
			if v, ok := res[pr.Name()]; ok {
				out = append(out, v)
				continue
			}
			v, ok := u.bound[pr.Name()]
			if !ok {
				x.unsupported("contract %s: parameter %s is not bound", f.Name(), pr.Name())
			}
			t, isT := v.(*Term)
			if isT && t.Sort != SortOf(pr.Type()) {
				x.unsupported("contract %s: parameter %s has sort %s, expected %s", f.Name(), pr.Name(), t.Sort, SortOf(pr.Type()))
			}
			out = append(out, v)
		}
		return out
	}
	for _, m := range u.modSpec {
		// param.field or heap:*
		if strings.HasPrefix(m, "heap:") {
			u.modifies = append(u.modifies, modEntry{heap: m[5:]})
			continue
		}
		isMap := strings.HasPrefix(m, "map:")
		m = strings.TrimPrefix(m, "map:")
		pn, fn, _ := strings.Cut(m, ".")
		v, ok := u.bound[pn].(*Term)
		if !ok || u.target == nil {
			x.unsupported("modifies %s", m)
		}
		for i, pr := range u.target.Params {
			n := pr.Name()
			if i < len(u.args) {
				n = u.args[i]
			}
			if n == pn && isMap {
				// the content of the map in that field
				sty, ok := deref(pr.Type()).Underlying().(*types.Struct)
				if !ok {
					x.unsupported("modifies %s", m)
				}
				for j := 0; j < sty.NumFields(); j++ {
					if sty.Field(j).Name() != fn {
						continue
					}
					mt := sty.Field(j).Type().Underlying().(*types.Map)
					h := x.heap(st, "F:"+typeName(deref(pr.Type()))+"."+fn, arrSort(SInt, SortOf(mt)))
					dn, vn, _, _ := x.mapHeaps(st, mt)
					ref := Select(h, v)
					u.modifies = append(u.modifies, modEntry{heap: dn, ref: ref}, modEntry{heap: vn, ref: ref})
				}
			} else if n == pn {
				u.modifies = append(u.modifies, modEntry{heap: "F:" + typeName(deref(pr.Type())) + "." + fn, ref: v})
			}
		}
	}
	for _, f := range u.pres {
		t := x.evalPure(st, f, nil, bind(f, nil))[0].(*Term)
		st.assume(t)
	}
	x.entry = st.clone()
	preAssume := st.assumptions()
	q := x.query(preAssume, False())
	q.full = false
	p.solver.solveAll([]*Query{q})
	if q.Status == "unsat" {
		res.Vacuous = "the precondition is contradictory"
	}
	var returns [][]*Term
	npost := 0
	finish := func(s2 *State, r []Val) {
		x.paths++
		rm := map[string]Val{}
		for i := range r {
			if i < len(u.res) {
				rm[u.res[i]] = r[i]
				if t, ok := r[i].(*Term); ok {
					_ = t
				} else if u.target != nil {
					rm[u.res[i]] = x.asTerm(s2, r[i], u.target.Signature.Results().At(i).Type())
				}
			}
		}
		returns = append(returns, s2.assumptions())
		for _, f := range u.posts {
			if c, ok := u.clause[f.Name()]; ok && prop != "" && c != prop {
				continue
			}
			npost++
			s3 := s2.clone()
			g := x.evalPure(s3, f, nil, bind(f, rm))[0].(*Term)
			x.addObl(s3, "post", f.Name(), g, u.posts[0].Pos())
		}
	}
	if u.target != nil {
		x.inline(nil, st, u.target, nil, params, finish)
	} else {
		finish(st, nil)
	}
	if npost == 0 && res.Vacuous == "" {
		res.Vacuous = "no postcondition was generated"
	}
	// reachability of the returns
	reach := false
	var rq []*Query
	for i := range returns {
		if i >= 12 {
			break
		}
		// the last returns are the most interesting ones
		rq = append(rq, x.query(returns[len(returns)-1-i], False()))
	}
	p.solver.solveAll(rq)
	for _, q := range rq {
		if q.Status != "unsat" {
			reach = true
		}
	}
	if !reach && res.Vacuous == "" {
		res.Vacuous = "no return is reachable"
	}
	// discharge
	var qs []*Query
	var os []*Obligation
	for _, o := range x.obls {
		if o.Status != "" {
			continue
		}
		q := x.query(o.Assume, o.Goal)
		qs = append(qs, q)
		os = append(os, o)
	}
	for _, n := range sortedRecs(p.recs) {
		if rd := p.recs[n]; rd.prefix && rd.file == u.file {
			x.noPrefix = true
			as, g := x.prefixProof(rd)
			o := &Obligation{Name: "induction for " + n, Kind: "lemma", Assume: as, Goal: g}
			x.obls = append(x.obls, o)
			qs = append(qs, x.query(as, g))
			os = append(os, o)
			x.noPrefix = false
		}
	}
	p.solver.solveAll(qs)
	var retry []*Query
	for _, q := range qs {
		if q.Status != "unsat" && q.Status != "sat" {
			q.Status = ""
			q.full = true
			retry = append(retry, q)
		}
	}
	if len(retry) > 40 {
		for _, q := range retry[40:] {
			q.Status = "unknown"
		}
		retry = retry[:40]
	}
	p.solver.solveAll(retry)
	for i, q := range qs {
		os[i].Status, os[i].Solver, os[i].Model, os[i].Time = q.Status, q.Solver, q.Model, q.Time
		os[i].Text = q.Text
	}
	res.Obls = x.obls
	for n := range x.inlined {
		res.Inlined = append(res.Inlined, n)
	}
	res.Inv = x.invLog
	res.Paths = x.paths
	return
}

func sortedRecs(m map[string]*recDef) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
