package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

// loopInfo finds the natural loops of a function
func (p *Program) loopInfo(f *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := p.loops[f]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]*Loop{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := out[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					out[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[n] {
						continue
					}
					l.body[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	p.loops[f] = out
	return out
}

const maxUnroll = 12

// headCond evaluates the condition of the loop without side effects; nil if
// the header is not simple
func (x *Exec) headCond(fr *Frame, st *State, h *ssa.BasicBlock, phis []*ssa.Phi, vals []Val) (c *Term) {
	for _, in := range h.Instrs {
		switch i := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.If, *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field:
		case *ssa.Call:
			b, ok := i.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return nil
			}
		default:
			return nil
		}
	}
	f2, s2 := fr.clone(), st.clone()
	for i, p := range phis {
		f2.env[p] = vals[i]
	}
	rec, no := x.rec, x.noObl
	x.rec, x.noObl = nil, true
	defer func() { x.rec, x.noObl = rec, no }()
	for _, in := range h.Instrs {
		switch i := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			return s2.simp(x.term(f2, s2, i.Cond))
		case *ssa.Call:
			x.call(f2, s2, i, &i.Call, func(_ *State, res []Val) { f2.env[i] = res[0] })
		default:
			x.instr(f2, s2, in)
		}
	}
	return nil
}

type modSet struct {
	cells map[int]bool
	heaps map[string]*heapWrites
	world bool
}

func (m *modSet) merge(r *recorder) bool {
	ch := false
	for c := range r.cells {
		if !m.cells[c] {
			m.cells[c] = true
			ch = true
		}
	}
	for n, w := range r.heaps {
		o := m.heaps[n]
		if o == nil {
			o = &heapWrites{}
			m.heaps[n] = o
			ch = true
		}
		if w.all && !o.all {
			o.all = true
			ch = true
		}
		if w.fresh && !o.fresh {
			o.fresh = true
			ch = true
		}
		for _, t := range w.refs {
			dup := false
			for _, u := range o.refs {
				if u == t {
					dup = true
				}
			}
			if !dup {
				o.refs = append(o.refs, t)
				ch = true
			}
		}
	}
	if r.world && !m.world {
		m.world = true
		ch = true
	}
	return ch
}

type bk struct {
	assume []*Term
	goals  []*Term
}

// memo holds what was found out about the loops inside a loop in the previous
// round of its analysis. A round assumes less than the one before it, so that
// a candidate that failed there fails again
type memo struct {
	prev, cur       map[string]map[string]bool
	prevSub, curSub map[string]*memo
}

func newMemo() *memo {
	return &memo{prev: map[string]map[string]bool{}, cur: map[string]map[string]bool{}, prevSub: map[string]*memo{}, curSub: map[string]*memo{}}
}

func (m *memo) round() {
	m.prev, m.cur = m.cur, map[string]map[string]bool{}
	m.prevSub, m.curSub = m.curSub, map[string]*memo{}
}

// nested gives the memo for a loop inside, with what the previous round left
func (m *memo) nested(key string) *memo {
	n := newMemo()
	if o := m.prevSub[key]; o != nil {
		n.cur, n.curSub = o.cur, o.curSub
	}
	return n
}

func (m *memo) leave(key string, n *memo) {
	o := m.curSub[key]
	if o == nil {
		m.curSub[key] = n
		return
	}
	for k, s := range n.cur {
		if o.cur[k] == nil {
			o.cur[k] = map[string]bool{}
		}
		for c := range s {
			o.cur[k][c] = true
		}
	}
	for k, s := range n.curSub {
		o.leave(k, s)
	}
}

func (m *memo) found(key string, live []candidate) {
	if m.cur[key] == nil {
		m.cur[key] = map[string]bool{}
	}
	for _, c := range live {
		m.cur[key][c.name] = true
	}
}

func (x *Exec) loopKey(fr *Frame, h *ssa.BasicBlock) string {
	var sb strings.Builder
	for f := fr; f != nil; f = f.up {
		fmt.Fprintf(&sb, "%s@%d;", f.fn, f.site)
	}
	fmt.Fprintf(&sb, "%d", h.Index)
	return sb.String()
}

// refute returns the goals that do not follow in some case
func (x *Exec) refute(bks []bk, keep func(i int) bool) map[int]string {
	bad := map[int]string{}
	// the goals of a case in groups, for the solvers to work on side by side
	type piece struct {
		bk int
		gi []int
	}
	var ps []piece
	for j, b := range bks {
		n := 1
		if len(bks) < 4 {
			n = (len(b.goals) + 5) / 6
			if n > 6 {
				n = 6
			}
		}
		for c := 0; c < n; c++ {
			var gi []int
			for i := c * len(b.goals) / n; i < (c+1)*len(b.goals)/n; i++ {
				gi = append(gi, i)
			}
			ps = append(ps, piece{j, gi})
		}
	}
	done := make([]bool, len(ps))
	for round := 0; ; round++ {
		var qs []*Query
		var idx []int
		for j, p := range ps {
			if done[j] {
				continue
			}
			b := bks[p.bk]
			var gs []*Term
			var gi []int
			for _, i := range p.gi {
				if _, no := bad[i]; !no {
					gs = append(gs, b.goals[i])
					gi = append(gi, i)
				}
			}
			if len(gs) == 0 {
				done[j] = true
				continue
			}
			q := x.multiQuery(b.assume, gs)
			q.gi = gi
			q.quick = len(gs) > 1
			qs = append(qs, q)
			idx = append(idx, j)
		}
		if len(qs) == 0 {
			return bad
		}
		x.p.solver.solveAll(qs)
		var single []*Query
		for n, q := range qs {
			j := idx[n]
			if q.Status == "unsat" {
				done[j] = true
				continue
			}
			prog := false
			if q.Status == "sat" {
				for k, v := range q.goalVals() {
					if !v && k < len(q.gi) {
						if n := os.Getenv("GOVER_STOPINV"); n != "" && x.refuting != nil && x.refuting[q.gi[k]].name == n {
							s := x.query(bks[ps[j].bk].assume, bks[ps[j].bk].goals[q.gi[k]])
							os.WriteFile("/tmp/w/inv.smt2", []byte(s.Text), 0644)
							var sb strings.Builder
							for _, a := range bks[ps[j].bk].assume {
								fmt.Fprintln(&sb, a)
							}
							fmt.Fprintln(&sb, "GOAL", bks[ps[j].bk].goals[q.gi[k]])
							os.WriteFile("/tmp/w/inv.txt", []byte(sb.String()), 0644)
							os.Exit(3)
						}
						bad[q.gi[k]] = "sat"
						prog = true
					}
				}
			}
			if !prog {
				// one by one
				done[j] = true
				for _, i := range q.gi {
					s := x.query(bks[ps[j].bk].assume, bks[ps[j].bk].goals[i])
					s.gi = []int{i}
					s.quick = keep == nil || !keep(i)
					single = append(single, s)
				}
			}
		}
		x.p.solver.solveAll(single)
		// the solver may need more time for an invariant of the contract
		var again []*Query
		for _, s := range single {
			if s.Status != "unsat" && s.Status != "sat" && keep != nil && keep(s.gi[0]) {
				s.Status = ""
				s.full = true
				again = append(again, s)
			}
		}
		x.p.solver.solveAll(again)
		for _, s := range single {
			if s.Status != "unsat" {
				bad[s.gi[0]] = s.Status
			}
		}
	}
}

type candidate struct {
	name string
	f    func(fr *Frame, st *State) *Term
}

func (x *Exec) enterLoop(fr *Frame, st *State, from, h *ssa.BasicBlock, l *Loop, unroll int, k Cont) {
	phis, vals := x.phiVals(fr, st, from, h)
	if unroll <= maxUnroll {
		if c := x.headCond(fr, st, h, phis, vals); c != nil && (c.IsTrue() || c.IsFalse()) {
			for i, p := range phis {
				fr.env[p] = vals[i]
			}
			fr.loops[h] = &activeLoop{unroll: unroll}
			x.run(fr, st, h, 0, from, k)
			return
		}
	}
	if st.spec {
		x.unsupported("loop in specification %s", fr.fn.Name())
	}
	// entry values
	fe, se := fr.clone(), st.clone()
	for i, p := range phis {
		fe.env[p] = vals[i]
	}
	delete(fe.loops, h)
	B.stamp++
	stamp := B.stamp
	mod := &modSet{cells: map[int]bool{}, heaps: map[string]*heapWrites{}}

	havocPhi := make([]*Term, len(phis))
	for i, p := range phis {
		if _, ok := vals[i].(*Term); ok {
			havocPhi[i] = FreshConst("phi."+p.Comment+"."+p.Name(), SortOf(p.Type()))
		}
	}
	mkHavoc := func() (*Frame, *State) {
		f2, s2 := fe.clone(), se.clone()
		// allocations continue above everything allocated so far
		nb := FreshConst("alloc", SInt)
		s2.assume(Le(se.nextAlloc(), nb))
		s2.allocBase, s2.allocK = nb, 0
		for i, p := range phis {
			if havocPhi[i] != nil {
				f2.env[p] = havocPhi[i]
				x.wf(s2, havocPhi[i], p.Type())
			}
		}
		for _, c := range sortedInts(mod.cells) {
			old, ok := se.cells[c]
			if !ok {
				continue
			}
			switch t := old.(type) {
			case *Term:
				if ty := x.cellType(c); ty != nil && typeName(ty) == "strings.Builder" {
					s2.cells[c] = sbuf{FreshConst("sbuf", SStr)}
					continue
				}
				n := FreshConst("cell", t.Sort)
				s2.cells[c] = n
				if ty := x.cellType(c); ty != nil {
					x.wf(s2, n, ty)
				}
			case forward:
			case sbuf:
				s2.cells[c] = sbuf{FreshConst("sbuf", SStr)}
			default:
				x.unsupported("loop changes a local of kind %T", old)
			}
		}
		for _, n := range sortedKeys(mod.heaps) {
			w := mod.heaps[n]
			srt := x.heap0[n]
			old := x.heap(se, n, srt)
			nc := FreshConst("H."+n, srt)
			var h2 *Term
			switch {
			case w.all:
				h2 = nc
			case w.fresh:
				h2 = mk("hv", srt, nc, old, se.nextAlloc())
			default:
				h2 = old
			}
			if !w.all {
				for _, r := range w.refs {
					_, es := arrElem(srt)
					h2 = Store(h2, r, FreshConst("Hv."+n, es))
				}
			}
			se.unaliased(n, x)
			s2.heaps[n] = h2
		}
		if mod.world {
			s2.world = FreshConst("world", "World")
		}
		return f2, s2
	}

	nop := func(*State, []Val) {}
	// the set of locations the loop changes. Loops inside are explored with
	// the automatic candidates only
	rec, no := x.rec, x.noObl
	auto := x.autoOnly
	x.autoOnly = true
	for iter := 0; ; iter++ {
		if iter > 20 {
			x.unsupported("modified set of a loop in %s", fr.fn.Name())
		}
		r := &recorder{cells: map[int]bool{}, heaps: map[string]*heapWrites{}, outer: rec, stamp: stamp}
		x.rec, x.noObl = r, true
		again := false
		f2, s2 := mkHavoc()
		f2.loops[h] = &activeLoop{cut: true, back: func(f3 *Frame, s3 *State, prev *ssa.BasicBlock) {
			ph, vs := x.phiVals(f3, s3, prev, h)
			for i := range ph {
				if havocPhi[i] == nil && vs[i] != vals[i] {
					if a, ok := vs[i].(*Addr); ok {
						if b, ok := vals[i].(*Addr); ok && *sameAddr(a) == *sameAddr(b) {
							continue
						}
					}
					_, isAddr := vs[i].(*Addr)
					if _, ok := vs[i].(*Term); ok || isAddr {
						// a pointer that changes: what it points to is on the heap
						havocPhi[i] = FreshConst("phi."+ph[i].Comment, SortOf(ph[i].Type()))
						x.asTerm(s3, vs[i], ph[i].Type())
						x.asTerm(se, vals[i], ph[i].Type())
						again = true
						continue
					}
					x.unsupported("loop changes %s of kind %T", ph[i].Name(), vs[i])
				}
			}
		}}
		x.run(f2, s2, h, 0, from, nop)
		x.rec, x.noObl = rec, no
		for c := range r.cells {
			if _, ok := se.cells[c]; !ok {
				delete(r.cells, c)
			}
		}
		if !mod.merge(r) && !again {
			break
		}
	}

	// Houdini
	x.rec, x.noObl = nil, true
	houdini := func(phase string, cands []candidate) []candidate {
		var live []candidate
		key := x.loopKey(fr, h) + phase
		if x.autoOnly {
			key += "!"
		}
		if p := x.memo.prev[key]; p != nil {
			for _, c := range cands {
				if p[c.name] || strings.HasPrefix(c.name, "auto:cell") {
					live = append(live, c)
				}
			}
			cands, live = live, nil
		}
		outer := x.memo
		inner := outer.nested(key)
		defer func() {
			x.memo = outer
			outer.leave(key, inner)
			outer.found(key, live)
		}()
		// entry
		var gs []*Term
		s2 := se.clone()
		for i := range cands {
			gs = append(gs, x.evalCand(cands[i], fe, s2))
		}
		bad := x.refute([]bk{{s2.assumptions(), gs}}, func(i int) bool { return strings.HasPrefix(cands[i].name, "inv:") })
		for i := range cands {
			if st, ok := bad[i]; ok {
				if debugInv != "" && strings.Contains(cands[i].name, debugInv) {
					fmt.Printf("INV %s not established (%s) %v\n", cands[i].name, st, gs[i])
				}
				continue
			}
			live = append(live, cands[i])
		}
		x.memo = inner
		for round := 0; len(live) > 0; round++ {
			if debugInv == "ROUNDS" {
				fmt.Println("ROUND", round, len(live), key[strings.LastIndex(key, ";"):], x.p.solver.Queries)
			}
			inner.round()
			f2, s2 := mkHavoc()
			// a candidate that says nothing about an arbitrary iteration (what
			// it speaks of is not known there) is none
			n := len(live)
			live = live[:0]
			for _, c := range append([]candidate{}, live[:n]...) {
				t := x.evalCand(c, f2, s2)
				if t.String() == "false" {
					if debugInv != "" && strings.Contains(c.name, debugInv) {
						fmt.Printf("INV %s is void\n", c.name)
					}
					continue
				}
				live = append(live, c)
				s2.assume(t)
			}
			if len(live) == 0 {
				break
			}
			var bks []bk
			f2.loops[h] = &activeLoop{cut: true, back: func(f3 *Frame, s3 *State, prev *ssa.BasicBlock) {
				f4 := f3.clone()
				ph, vs := x.phiVals(f3, s3, prev, h)
				for i := range ph {
					f4.env[ph[i]] = vs[i]
				}
				var gs []*Term
				for _, c := range live {
					gs = append(gs, x.evalCand(c, f4, s3))
				}
				bks = append(bks, bk{s3.assumptions(), gs})
			}}
			x.run(f2, s2, h, 0, from, nop)
			x.refuting = live
			bad := x.refute(bks, func(i int) bool { return strings.HasPrefix(live[i].name, "inv:") })
			x.refuting = nil
			if len(bad) == 0 {
				break
			}
			var l2 []candidate
			for i, c := range live {
				if st, ok := bad[i]; ok {
					if debugInv != "" && strings.Contains(c.name, debugInv) {
						fmt.Printf("INV %s not preserved (%s)\n", c.name, st)
					}
					continue
				}
				l2 = append(l2, c)
			}
			live = l2
		}
		return live
	}
	// counters that stay small
	var smallC []candidate
	for i, p := range phis {
		if havocPhi[i] != nil && isInt(p.Type()) {
			p := p
			lim := BigT(new(big.Int).Lsh(maxLen, 1))
			smallC = append(smallC, candidate{"small:" + p.Name(), func(fr *Frame, st *State) *Term {
				t, ok := fr.env[p].(*Term)
				if !ok {
					return False()
				}
				return And(Le(Neg(lim), t), Le(t, lim))
			}})
		}
	}
	liveSmall := houdini("small", smallC)
	x.autoOnly = auto
	for i, p := range phis {
		for _, c := range liveSmall {
			if c.name == "small:"+p.Name() {
				smallTerms[havocPhi[i]] = true
			}
		}
	}
	cands := append(liveSmall, x.candidates(fe, se, h, phis, vals, havocPhi, mod)...)
	var names []string
	for _, c := range cands {
		names = append(names, c.name)
	}
	if os.Getenv("GOVER_LTRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s LOOP %s block %d in %d candidates %d queries\n", time.Now().Format("04:05.0"), fr.fn.Name(), h.Index, len(cands), x.p.solver.Queries)
	}
	live := houdini("main", cands)
	if os.Getenv("GOVER_LTRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s LOOP %s block %d out %d live\n", time.Now().Format("04:05.0"), fr.fn.Name(), h.Index, len(live))
	}
	if debugInv != "" {
		for _, c := range live {
			if strings.Contains(c.name, debugInv) {
				fmt.Printf("INV %s holds\n", c.name)
			}
		}
	}
	x.rec, x.noObl = rec, no
	liveSet := map[string]bool{}
	for _, c := range live {
		liveSet[c.name] = true
	}
	if !x.noObl {
		pos := ""
		if len(h.Instrs) > 0 {
			for _, in := range h.Instrs {
				if in.Pos().IsValid() {
					pos = fmt.Sprintf("%s:%d", shortFile(x.p.fset.Position(in.Pos()).Filename), x.p.fset.Position(in.Pos()).Line)
					break
				}
			}
		}
		for _, n := range names {
			if liveSet[n] && strings.HasPrefix(n, "inv:") {
				x.obls = append(x.obls, &Obligation{Name: n + " in " + fr.fn.Name(), Kind: "invariant", Status: "unsat", Solver: "houdini", Pos: pos})
			}
		}
		x.invLog = append(x.invLog, fmt.Sprintf("%s: %s", fr.fn.Name(), strings.Join(sortedSet(liveSet), ", ")))
	}
	// after the loop
	f2, s2 := mkHavoc()
	for _, c := range live {
		s2.assume(x.evalCand(c, f2, s2))
	}
	phv := make([]Val, len(phis))
	for i, p := range phis {
		phv[i] = f2.env[p]
	}
	var measure []*Term
	measure = x.measures(f2, s2, h, phis, phv)
	bounded := x.autoTerminates(l)
	f2.loops[h] = &activeLoop{back: func(f3 *Frame, s3 *State, prev *ssa.BasicBlock) {
		if bounded || x.noObl {
			return
		}
		ph, vs := x.phiVals(f3, s3, prev, h)
		m2 := x.measures(f3, s3, h, ph, vs)
		var or []*Term
		for i := range measure {
			if i < len(m2) {
				or = append(or, And(Le(IntT(0), measure[i]), Lt(m2[i], measure[i])))
			}
		}
		if x.unit != nil {
			for _, w := range x.unit.waive {
				if strings.HasPrefix("loop terminates in "+fr.fn.Name(), w) {
					assumedExterns["loop terminates in "+fr.fn.Name()] = "assumed"
					return
				}
			}
		}
		g := Or(or...)
		x.addObl(s3, "variant", "loop terminates in "+fr.fn.Name(), g, firstPos(h))
	}}
	x.run(f2, s2, h, 0, from, k)
}

func sameAddr(a *Addr) *struct {
	cell int
	heap string
	ref  *Term
	idx  *Term
	path string
} {
	return &struct {
		cell int
		heap string
		ref  *Term
		idx  *Term
		path string
	}{a.cell, a.heap, a.ref, a.idx, fmt.Sprint(a.path)}
}

func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func sortedSet(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var debugInv string

func (x *Exec) evalCand(c candidate, fr *Frame, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				if debugInv != "" && strings.Contains(c.name, debugInv) {
					fmt.Println("INV", c.name, "not evaluated:", u.Msg)
				}
				t = False()
				return
			}
			panic(r)
		}
	}()
	return c.f(fr, st)
}

// autoTerminates: iterations over a map, or over external iterators
func (x *Exec) autoTerminates(l *Loop) bool {
	for _, in := range l.head.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
		if c, ok := in.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && f.Name() == "Next" {
				return true
			}
			if c.Call.IsInvoke() && c.Call.Method.Name() == "Next" {
				return true
			}
		}
	}
	return false
}

// measures: for a loop condition a < b, b-a decreases
func (x *Exec) measures(fr *Frame, st *State, h *ssa.BasicBlock, phis []*ssa.Phi, vals []Val) []*Term {
	c := x.headCond2(fr, st, h, phis, vals)
	var out []*Term
	var rec func(c *Term)
	rec = func(c *Term) {
		switch c.Op {
		case "and":
			for _, a := range c.Args {
				rec(a)
			}
		case "<=":
			out = append(out, Add(Sub(c.Args[1], c.Args[0]), IntT(1)))
		case "not":
			if c.Args[0].Op == "<=" {
				out = append(out, Sub(c.Args[0].Args[0], c.Args[0].Args[1]))
			}
		}
	}
	if c != nil {
		rec(c)
	}
	if x.unit != nil {
		for _, vf := range x.unit.variants {
			out = append(out, x.instantiateVariant(fr, st, vf, phis, vals)...)
		}
	}
	return out
}

func (x *Exec) headCond2(fr *Frame, st *State, h *ssa.BasicBlock, phis []*ssa.Phi, vals []Val) *Term {
	s := st.clone()
	s.facts = map[*Term]bool{}
	return x.headCond(fr, s, h, phis, vals)
}

// slot is something an invariant can talk about
type slot struct {
	name string
	get  func(fr *Frame, st *State) (Val, bool)
	ty   types.Type
	phi  bool
	cell int  // the local variable
	idx  bool // an index of a loop outside
	v    ssa.Value
}

// current says that v, an index of a loop, is the one of the element at hand
// (or the next, at the head of the loop): a range counts from -1
func current(v ssa.Value, next bool) bool {
	if b, ok := v.(*ssa.BinOp); ok {
		p, ok := b.X.(*ssa.Phi)
		return ok && p.Comment == "rangeindex"
	}
	p, ok := v.(*ssa.Phi)
	return ok && (p.Comment == "rangeindex") == next
}

// inOrder: parameters for slices and for the indexes of loops around come in
// the order of the code
func inOrder(p *ssa.Parameter) bool {
	_, ok := p.Type().Underlying().(*types.Slice)
	return ok || strings.HasPrefix(p.Name(), "ind")
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// before says that a is computed before b on every path
func before(a, b ssa.Value) bool {
	x, ok := a.(ssa.Instruction)
	if !ok {
		return true
	}
	y, ok := b.(ssa.Instruction)
	if !ok || x.Parent() != y.Parent() {
		return true
	}
	if x.Block() != y.Block() {
		return x.Block().Dominates(y.Block())
	}
	for _, i := range x.Block().Instrs {
		if i == x {
			return true
		}
		if i == y {
			return false
		}
	}
	return true
}

// loopIndex: a value that changes with an outer loop, or the next value
func loopIndex(v ssa.Value) bool {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if _, ok := b.Y.(*ssa.Const); !ok {
			return false
		}
		v = b.X
	}
	_, ok := v.(*ssa.Phi)
	return ok
}

func (x *Exec) slots(fr *Frame, st *State, h *ssa.BasicBlock, phis []*ssa.Phi) []slot {
	var out []slot
	seenCell := map[int]bool{}
	for _, p := range phis {
		p := p
		out = append(out, slot{"phi." + p.Comment + "." + p.Name(), func(fr *Frame, st *State) (Val, bool) { v, ok := fr.env[p]; return v, ok }, p.Type(), true, 0, false, p})
		if isIntType(p.Type()) {
			out = append(out, slot{"phi." + p.Comment + "." + p.Name() + "+1", func(fr *Frame, st *State) (Val, bool) {
				v, ok := fr.env[p].(*Term)
				if !ok {
					return nil, false
				}
				return Add(v, IntT(1)), true
			}, p.Type(), true, 0, false, p})
		}
	}
	depth := 0
	for f := fr; f != nil; f = f.up {
		var vs []ssa.Value
		for v := range f.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool {
			if vs[i].Name() != vs[j].Name() {
				return vs[i].Name() < vs[j].Name()
			}
			return vs[i].Pos() < vs[j].Pos()
		})
		for _, v := range vs {
			v := v
			if a, ok := f.env[v].(*Addr); ok && a.cell != 0 && len(a.path) == 0 && !seenCell[a.cell] {
				seenCell[a.cell] = true
				c := a.cell
				root := a.root
				if typeName(root) == "strings.Builder" {
					out = append(out, slot{"buffer." + v.Name(), func(fr *Frame, st *State) (Val, bool) { return x.bufferOf(st, c), true }, types.Typ[types.String], true, 0, false, nil})
					continue
				}
				out = append(out, slot{fmt.Sprintf("cell.%s", v.Name()), func(fr *Frame, st *State) (Val, bool) {
					cv, ok := st.cells[c]
					if !ok {
						return nil, false
					}
					if fw, ok := cv.(forward); ok {
						ad := x.forwardAddr(fw, &Addr{root: root, typ: root})
						if ad.heap == "S:" {
							return x.loadStruct(st, ad), true
						}
						return x.load(st, ad), true
					}
					return cv, true
				}, a.root, true, c, false, nil})
				continue
			}
			if it, ok := f.env[v].(*MapIter); ok && it.isStr {
				// the position of an iteration over a string
				out = append(out, slot{"pos." + v.Name(), func(fr *Frame, st *State) (Val, bool) { w, ok := st.cells[it.cell]; return w, ok }, types.Typ[types.Int], true, 0, false, nil})
				continue
			}
			if it, ok := f.env[v].(*MapIter); ok && x.p.tSet != nil && SortOf(it.kt) == SStr {
				// the keys a map iteration has visited
				out = append(out, slot{"visited." + v.Name(), func(fr *Frame, st *State) (Val, bool) { w, ok := st.cells[it.cell]; return w, ok }, x.p.tSet, true, 0, false, nil})
				continue
			}
			if _, ok := f.env[v].(*Term); ok && f.env[v] != nil {
				isPhi := false
				for _, p := range phis {
					if ssa.Value(p) == v {
						isPhi = true
					}
				}
				if isPhi {
					continue
				}
				val := f.env[v]
				if depth == 0 {
					out = append(out, slot{"val." + v.Name(), func(fr *Frame, st *State) (Val, bool) { w, ok := fr.env[v]; return w, ok }, v.Type(), false, 0, loopIndex(v), v})
				} else {
					out = append(out, slot{"up." + v.Name(), func(fr *Frame, st *State) (Val, bool) { return val, true }, v.Type(), false, 0, loopIndex(v), v})
				}
			}
		}
		depth++
	}
	return out
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

func (x *Exec) candidates(fe *Frame, se *State, h *ssa.BasicBlock, phis []*ssa.Phi, vals []Val, hp []*Term, mod *modSet) []candidate {
	var out []candidate
	// bounds of the counters
	for i, p := range phis {
		if hp[i] == nil {
			continue
		}
		p := p
		init, isT := vals[i].(*Term)
		if !isT {
			continue
		}
		get := func(fr *Frame) *Term { t, _ := fr.env[p].(*Term); return t }
		switch {
		case isInt(p.Type()):
			out = append(out,
				candidate{"auto:" + p.Name() + ">=init", func(fr *Frame, st *State) *Term { return Le(init, get(fr)) }},
				candidate{"auto:" + p.Name() + "<=init", func(fr *Frame, st *State) *Term { return Le(get(fr), init) }},
				candidate{"auto:" + p.Name() + ">=0", func(fr *Frame, st *State) *Term { return Le(IntT(0), get(fr)) }},
				candidate{"auto:" + p.Name() + ">=-1", func(fr *Frame, st *State) *Term { return Le(IntT(-1), get(fr)) }},
			)
			// bound of the loop condition
			out = append(out, candidate{"auto:" + p.Name() + " bound", func(fr *Frame, st *State) *Term {
				ph := make([]*ssa.Phi, 0)
				vs := make([]Val, 0)
				for _, q := range phis {
					ph = append(ph, q)
					vs = append(vs, fr.env[q])
				}
				ms := x.measures(fr, st, h, ph, vs)
				if len(ms) == 0 {
					return False()
				}
				return Le(IntT(0), ms[0])
			}})
			out = append(out, candidate{"auto:" + p.Name() + " bound-1", func(fr *Frame, st *State) *Term {
				ph := make([]*ssa.Phi, 0)
				vs := make([]Val, 0)
				for _, q := range phis {
					ph = append(ph, q)
					vs = append(vs, fr.env[q])
				}
				ms := x.measures(fr, st, h, ph, vs)
				if len(ms) == 0 {
					return False()
				}
				return Le(IntT(1), ms[0])
			}})
		}
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			out = append(out, candidate{"auto:" + p.Name() + " fresh", func(fr *Frame, st *State) *Term {
				return Le(x.base0, Sel(sliceCtor, 0, get(fr)))
			}})
			out = append(out, candidate{"auto:" + p.Name() + " own", func(fr *Frame, st *State) *Term {
				r := Sel(sliceCtor, 0, get(fr))
				return Or(Le(x.base0, r), Eq(r, IntT(0)))
			}})
			out = append(out, candidate{"auto:" + p.Name() + " off0", func(fr *Frame, st *State) *Term {
				return Eq(IntT(0), Sel(sliceCtor, 1, get(fr)))
			}})
			// grows with the counter
			for j, q := range phis {
				q := q
				i0, ok := vals[j].(*Term)
				if !ok || !isInt(q.Type()) {
					continue
				}
				out = append(out, candidate{"auto:len " + p.Name() + "~" + q.Name(), func(fr *Frame, st *State) *Term {
					qt, _ := fr.env[q].(*Term)
					return Eq(Sub(Sel(sliceCtor, 2, get(fr)), Sel(sliceCtor, 2, init)), Sub(qt, i0))
				}})
			}
		}
		if p.Type().Underlying().String() == "error" || SortOf(p.Type()) == SAny {
			out = append(out, candidate{"auto:" + p.Name() + " nil", func(fr *Frame, st *State) *Term { return Is(anyNil, get(fr)) }})
		}
	}
	for _, c := range sortedInts(mod.cells) {
		c := c
		t, ok := se.cells[c].(*Term)
		if !ok {
			continue
		}
		if t.Sort == SInt {
			out = append(out, candidate{fmt.Sprintf("auto:cell%d>=0", c), func(fr *Frame, st *State) *Term { tt, _ := st.cells[c].(*Term); return Le(IntT(0), tt) }})
		}
		if t.Sort == SSlice {
			out = append(out, candidate{fmt.Sprintf("auto:cell%d own", c), func(fr *Frame, st *State) *Term {
				tt, ok := st.cells[c].(*Term)
				if !ok {
					return False()
				}
				r := Sel(sliceCtor, 0, tt)
				return Or(Le(x.base0, r), Eq(r, IntT(0)))
			}})
		}
		if si := structBySort(t.Sort); si != nil {
			for i := 0; i < si.T.NumFields(); i++ {
				if SortOf(si.T.Field(i).Type()) != SSlice {
					continue
				}
				i := i
				out = append(out, candidate{fmt.Sprintf("auto:cell%d.%s own", c, si.T.Field(i).Name()), func(fr *Frame, st *State) *Term {
					tt, ok := st.cells[c].(*Term)
					if !ok {
						return False()
					}
					r := Sel(sliceCtor, 0, Sel(si.Ctor, i, tt))
					return Or(Le(x.base0, r), Eq(r, IntT(0)))
				}})
			}
		}
		if t.Sort == SAny {
			out = append(out, candidate{fmt.Sprintf("auto:cell%d nil", c), func(fr *Frame, st *State) *Term { tt, _ := st.cells[c].(*Term); return Is(anyNil, tt) }})
		}
	}
	if x.unit != nil && (!x.unit.localInv || fe.fn == x.unit.target || fe.fn.Parent() == x.unit.target || x.p.modelFn(fe.fn)) {
		for _, inv := range x.unit.invs {
			if x.autoOnly {
				break
			}
			out = append(out, x.instantiate(fe, se, h, phis, inv, mod)...)
		}
	}
	return out
}

// instantiate matches the parameters of an invariant template with the
// values at the head of the loop
func (x *Exec) instantiate(fe *Frame, se *State, h *ssa.BasicBlock, phis []*ssa.Phi, inv *ssa.Function, mod *modSet) []candidate {
	combos := x.match(fe, se, h, phis, inv)
	var out []candidate
	for n, c := range combos {
		c := c
		// what the loop does not touch stays as it is
		static, loc := true, false
		for i, s := range c {
			switch {
			case x.unit.bound[inv.Params[i].Name()] != nil:
			case s.cell != 0 && !mod.cells[s.cell]:
			case !s.phi && isInt(s.ty):
				loc = true
			default:
				static = false
			}
		}
		if static && loc {
			continue
		}
		var nm []string
		for _, s := range c {
			nm = append(nm, s.name)
		}
		out = append(out, candidate{fmt.Sprintf("inv:%s[%s]", inv.Name(), strings.Join(nm, ",")), func(fr *Frame, st *State) *Term {
			var args []Val
			for _, s := range c {
				v, ok := s.get(fr, st)
				if !ok {
					return False()
				}
				args = append(args, v)
			}
			return x.evalPure(st, inv, nil, args)[0].(*Term)
		}})
		_ = n
	}
	return out
}

// sourceNames are the local variables that live in cells, by their name in the
// source. An invariant that names one of them means that one; if the code has
// none of this name, every variable of the type is tried.
func sourceNames(fr *Frame) map[int]string {
	out := map[int]string{}
	for f := fr; f != nil; f = f.up {
		for v := range f.env {
			if a, ok := f.env[v].(*Addr); ok && a.cell != 0 && len(a.path) == 0 {
				if al, ok := v.(*ssa.Alloc); ok {
					out[a.cell] = al.Comment
				}
			}
		}
	}
	return out
}

func (x *Exec) match(fe *Frame, se *State, h *ssa.BasicBlock, phis []*ssa.Phi, inv *ssa.Function) [][]slot {
	sl := x.slots(fe, se, h, phis)
	src := sourceNames(fe)
	combos := [][]slot{nil}
	for _, p := range inv.Params {
		var opts []slot
		if v, ok := x.unit.bound[p.Name()]; ok {
			opts = []slot{{p.Name(), func(*Frame, *State) (Val, bool) { return v, true }, p.Type(), false, 0, false, nil}}
		} else {
			for _, s := range sl {
				if !sameSlotType(s.ty, p.Type()) {
					continue
				}
				_, isMap := s.ty.Underlying().(*types.Map)
				ph, isPhi := s.v.(*ssa.Phi)
				if strings.HasPrefix(p.Name(), "loc") && (!isInt(s.ty) || s.idx) || s.phi || isMap || isPhi && isSliceType(s.ty) && ph.Comment == p.Name() {
					opts = append(opts, s)
				}
			}
			if strings.HasPrefix(p.Name(), "vis") {
				opts = nil
			}
			if isInt(p.Type()) && (strings.HasPrefix(p.Name(), "cur") || strings.HasPrefix(p.Name(), "ind")) {
				// the index of this loop, or that of a loop around it
				opts = nil
				for _, o := range sl {
					if isInt(o.ty) && o.cell == 0 && o.v != nil && (p.Name()[0] == 'c' && o.phi && current(o.v, strings.HasSuffix(o.name, "+1")) || p.Name()[0] == 'i' && o.idx && !o.phi && current(o.v, false)) {
						opts = append(opts, o)
					}
				}
			}
			if !isInt(p.Type()) && strings.HasPrefix(p.Name(), "cur") {
				// what this loop changes
				var cur []slot
				for _, o := range opts {
					if o.phi && o.v != nil {
						cur = append(cur, o)
					}
				}
				opts = cur
			}
			for _, o := range opts {
				ph, isPhi := o.v.(*ssa.Phi)
				if o.cell != 0 && src[o.cell] == p.Name() || isPhi && isSliceType(o.ty) && ph.Comment == p.Name() {
					opts = []slot{o}
					break
				}
			}
		}
		var next [][]slot
		for _, c := range combos {
			for _, o := range opts {
				dup := false
				for _, e := range c {
					if e.name == o.name {
						dup = true
					}
					if e.v != nil && o.v != nil && !o.phi && !e.phi && types.Identical(e.ty, o.ty) && inOrder(p) && !before(e.v, o.v) {
						dup = true
					}
				}
				if dup {
					continue
				}
				next = append(next, append(append([]slot{}, c...), o))
			}
		}
		combos = next
		if len(combos) > 300 {
			combos = combos[:300]
		}
	}
	return combos
}

func (x *Exec) instantiateVariant(fr *Frame, st *State, vf *ssa.Function, phis []*ssa.Phi, vals []Val) []*Term {
	f2 := fr.clone()
	for i, p := range phis {
		f2.env[p] = vals[i]
	}
	var out []*Term
	for _, c := range x.match(f2, st, nil, phis, vf) {
		var args []Val
		ok := true
		for _, s := range c {
			v, o := s.get(f2, st)
			if !o {
				ok = false
				break
			}
			args = append(args, v)
		}
		if ok {
			out = append(out, x.evalPure(st, vf, nil, args)[0].(*Term))
		} else {
			out = append(out, IntT(0))
		}
	}
	return out
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

// sameSlotType: the types are the same, or one is a name of the other
func sameSlotType(a, b types.Type) bool {
	if types.Identical(a, b) {
		return true
	}
	_, na := a.(*types.Named)
	_, nb := b.(*types.Named)
	_, sl := a.Underlying().(*types.Slice)
	return sl && na != nb && types.Identical(a.Underlying(), b.Underlying())
}
