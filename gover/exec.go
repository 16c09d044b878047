package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic execution of go/ssa, path by path, with continuations.

type Val interface{}

// Addr is a location: a cell (local variable), a field of a heap object,
// or an element of a heap array; path selects fields inside of it
type Addr struct {
	cell int
	heap string
	ref  *Term
	idx  *Term
	root types.Type // type of the location before path
	path []int
	typ  types.Type // type of the location
	arrN int64      // array pointer (heap E:, idx nil)
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
}

type Tuple []Val

type MapIter struct {
	ref   *Term
	kt    types.Type
	vt    types.Type
	cell  int // visited set
	isStr bool
	str   *Term
	set   *Term // the set iterated over
}

// setMap is the map inside a lpg.StringSet; setField is its address
type setMap struct{ set *Term }
type setField struct{ a *Addr }

type pcNode struct {
	t    *Term
	prev *pcNode
	n    int
}

type State struct {
	aliased []string // heaps with pointers to elements
	pc      *pcNode
	dec     *pcNode
	facts   map[*Term]bool
	ctorF   map[*Term]*Ctor
	litF    map[*Term]*Term
	heaps   map[string]*Term
	cells   map[int]Val
	// allocation counter: allocBase + allocK is the next reference
	allocBase *Term
	allocK    int64
	world     *Term
	spec      bool // evaluating a specification
	dead      bool
}

func (st *State) clone() *State {
	n := *st
	n.facts = make(map[*Term]bool, len(st.facts)+4)
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.ctorF = make(map[*Term]*Ctor, len(st.ctorF)+2)
	for k, v := range st.ctorF {
		n.ctorF[k] = v
	}
	n.litF = make(map[*Term]*Term, len(st.litF)+2)
	for k, v := range st.litF {
		n.litF[k] = v
	}
	n.heaps = make(map[string]*Term, len(st.heaps)+2)
	for k, v := range st.heaps {
		n.heaps[k] = v
	}
	n.cells = make(map[int]Val, len(st.cells)+2)
	for k, v := range st.cells {
		n.cells[k] = v
	}
	return &n
}

func (st *State) assumptions() []*Term {
	var out []*Term
	for p := st.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (st *State) assume(t *Term) {
	if t.IsTrue() || t.bound {
		return
	}
	if st.spec && st.dec != nil {
		if v, ok := st.facts[t]; ok && v {
			return
		}
		st.learn(t, true)
		g := Implies(st.pathCond(), t)
		if g.bound || g.IsTrue() {
			return
		}
		st.pc = &pcNode{g, st.pc, 0}
		return
	}
	if t.IsFalse() {
		st.dead = true
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	if v, ok := st.facts[t]; ok && v {
		return
	}
	n := 0
	if st.pc != nil {
		n = st.pc.n
	}
	st.pc = &pcNode{t, st.pc, n + 1}
	st.learn(t, true)
}

// assumeWF assumes a fact that holds of every well formed value, on any path
func (st *State) assumeWF(t *Term) {
	if !st.spec {
		st.assume(t)
		return
	}
	if t.IsTrue() || t.bound || t.IsFalse() {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assumeWF(a)
		}
		return
	}
	if v, ok := st.facts[t]; ok && v {
		return
	}
	st.learn(t, true)
	st.pc = &pcNode{t, st.pc, 0}
}

// branch takes a branch of the path
func (st *State) branch(c *Term) {
	st.dec = &pcNode{c, st.dec, 0}
	if st.spec {
		st.learn(c, true)
		return
	}
	st.assume(c)
}

// pathCond is the condition of the path inside of a specification
func (st *State) pathCond() *Term {
	var cs []*Term
	for p := st.dec; p != nil; p = p.prev {
		cs = append(cs, p.t)
	}
	return And(cs...)
}

func (st *State) learn(t *Term, v bool) {
	if t.Op == "not" {
		st.learn(t.Args[0], !v)
		return
	}
	if t.Op == "and" && v {
		for _, a := range t.Args {
			st.learn(a, true)
		}
	}
	if t.Op == "or" && !v {
		for _, a := range t.Args {
			st.learn(a, false)
		}
	}
	st.facts[t] = v
	if v && strings.HasPrefix(t.Op, "is:") {
		st.ctorF[t.Args[0]] = ctors[t.Op[3:]]
	}
	if v && t.Op == "=" {
		for i := 0; i < 2; i++ {
			if t.Args[1-i].IsLit() {
				st.litF[t.Args[i]] = t.Args[1-i]
			}
			if c := ctorOf(t.Args[1-i]); c != nil && c.Sort == SAny {
				st.ctorF[t.Args[i]] = c
			}
		}
	}
}

// simp simplifies a condition with the facts of the path
func (st *State) simp(t *Term) *Term {
	if t.IsTrue() || t.IsFalse() {
		return t
	}
	if v, ok := st.facts[t]; ok {
		return BoolT(v)
	}
	switch t.Op {
	case "not":
		return Not(st.simp(t.Args[0]))
	case "and", "or":
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = st.simp(a)
		}
		if t.Op == "and" {
			return And(args...)
		}
		return Or(args...)
	case "ite":
		c := st.simp(t.Args[0])
		if c.IsTrue() {
			return st.simp(t.Args[1])
		}
		if c.IsFalse() {
			return st.simp(t.Args[2])
		}
		return Ite(c, st.simp(t.Args[1]), st.simp(t.Args[2]))
	case "=":
		a, b := t.Args[0], t.Args[1]
		for i := 0; i < 2; i++ {
			if l, ok := st.litF[a]; ok && b.IsLit() {
				return BoolT(l == b)
			}
			if c, ok := st.ctorF[a]; ok {
				if cb := ctorOf(b); cb != nil && cb != c {
					return False()
				}
			}
			a, b = b, a
		}
	}
	if strings.HasPrefix(t.Op, "is:") {
		if c, ok := st.ctorF[t.Args[0]]; ok {
			return BoolT(c == ctors[t.Op[3:]])
		}
		x := st.simpVal(t.Args[0])
		if x != t.Args[0] {
			return st.simp(Is(ctors[t.Op[3:]], x))
		}
	}
	return t
}

// simpVal resolves the ites at the top of a value
func (st *State) simpVal(t *Term) *Term {
	for t.Op == "ite" {
		c := st.simp(t.Args[0])
		if c.IsTrue() {
			t = t.Args[1]
		} else if c.IsFalse() {
			t = t.Args[2]
		} else {
			return t
		}
	}
	return t
}

type Frame struct {
	fn    *ssa.Function
	env   map[ssa.Value]Val
	depth int
	loops map[*ssa.BasicBlock]*activeLoop
	up    *Frame
	site  token.Pos
}

type activeLoop struct {
	unroll int
	cut    bool // paths end when they leave the loop
	back   func(fr *Frame, st *State, prev *ssa.BasicBlock)
}

func (fr *Frame) clone() *Frame {
	n := &Frame{fn: fr.fn, depth: fr.depth, up: fr.up, site: fr.site}
	n.env = make(map[ssa.Value]Val, len(fr.env)+4)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*activeLoop, len(fr.loops))
	for k, v := range fr.loops {
		n.loops[k] = v
	}
	return n
}

type Cont func(st *State, res []Val)

func (x *Exec) unsupported(format string, args ...interface{}) {
	panic(Unsupported{fmt.Sprintf(format, args...)})
}

// Exec is one unit's execution
type Exec struct {
	quantAx  bool // quantified axioms, too
	seqs     []seqView
	seqOf    map[*Term]seqView
	entry    *State // the state in which the unit was called
	p        *Program
	unit     *Unit
	nextCell int
	obls     []*Obligation
	steps    int
	paths    int
	// discovery of the modified set of a loop
	rec       *recorder
	recUnfold map[string]*recDef
	base0     *Term
	inlined   map[string]bool
	uninterp  map[string]bool
	loopCache map[string][]bool
	loopOrd   int
	specDepth int
	noObl     bool
	refuting  []candidate // what is refuted, for debugging
	site      token.Pos
	memo      *memo
	noPrefix  bool
	autoOnly  bool // loops have the automatic candidates only
	notes     []string
	heap0     map[string]string
	termCells map[string]*Term
	invLog    []string
	cellTypes map[int]types.Type
	unfolded  map[*Term][]*Term
}

type recorder struct {
	cells map[int]bool
	heaps map[string]*heapWrites
	world bool
	stamp int
	outer *recorder
}

type heapWrites struct {
	all   bool
	refs  []*Term // invariant references
	fresh bool
}

type Obligation struct {
	Name   string
	Kind   string
	Assume []*Term
	Goal   *Term
	Status string
	Solver string
	Time   float64
	Model  string
	// position
	Pos  string
	Text string
}

func (x *Exec) addObl(st *State, kind, name string, goal *Term, pos token.Pos) {
	if st.dead || goal.IsTrue() && kind != "post" {
		return
	}
	if x.noObl || st.spec {
		return
	}
	ps := ""
	if pos.IsValid() {
		pp := x.p.fset.Position(pos)
		ps = fmt.Sprintf("%s:%d", shortFile(pp.Filename), pp.Line)
	}
	x.obls = append(x.obls, &Obligation{Name: name, Kind: kind, Assume: st.assumptions(), Goal: goal, Pos: ps})
}

func shortFile(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// safety adds an obligation that the operation does not panic
func (x *Exec) safety(st *State, cond *Term, what string, fn *ssa.Function, pos token.Pos) {
	if st.spec {
		return
	}
	c := st.simp(cond)
	if c.IsTrue() {
		return
	}
	if x.unit != nil {
		for _, w := range x.unit.waive {
			if strings.HasPrefix(what, w) {
				assumedExterns[fmt.Sprintf("in %s: %s", x.unit.tgtName, what)] = "assumed never to happen"
				st.assume(c)
				return
			}
		}
	}
	x.addObl(st, "safe", what+" in "+fn.Name(), c, pos)
	st.assume(c)
}

func (x *Exec) cellType(c int) types.Type { return x.cellTypes[c] }

func (x *Exec) newCell(st *State, v Val) int {
	x.nextCell++
	st.cells[x.nextCell] = v
	return x.nextCell
}

func (x *Exec) freshRef(st *State) *Term {
	r := Add(st.allocBase, IntT(st.allocK))
	st.allocK++
	return r
}

func (st *State) nextAlloc() *Term { return Add(st.allocBase, IntT(st.allocK)) }

func (x *Exec) heap(st *State, name, srt string) *Term {
	if h, ok := st.heaps[name]; ok {
		return h
	}
	x.heap0[name] = srt
	h := Const("H0."+name, srt)
	st.heaps[name] = h
	return h
}

// unaliased: no pointer to an element of the heap is in use
func (st *State) unaliased(name string, x *Exec) {
	for _, a := range st.aliased {
		if a == name {
			x.unsupported("%s changes while pointers to elements are in use", name)
		}
	}
}

func (x *Exec) setHeap(st *State, name string, h *Term, ref *Term) {
	st.unaliased(name, x)
	st.heaps[name] = h
	for r := x.rec; r != nil; r = r.outer {
		w := r.heaps[name]
		if w == nil {
			w = &heapWrites{}
			r.heaps[name] = w
		}
		if x.isFresh(ref) && ref.stamp >= r.stamp {
			w.fresh = true
		} else if ref != nil && ref.stamp < r.stamp {
			dup := false
			for _, o := range w.refs {
				if o == ref {
					dup = true
				}
			}
			if !dup {
				w.refs = append(w.refs, ref)
			}
		} else {
			w.all = true
		}
	}
}

// isFresh: allocated by the unit itself
func (x *Exec) isFresh(ref *Term) bool {
	if ref == nil {
		return false
	}
	b, _ := splitAdd(ref)
	return b != nil && strings.HasPrefix(b.Op, "alloc")
}

func (x *Exec) setWorld(st *State, w *Term) {
	st.world = w
	for r := x.rec; r != nil; r = r.outer {
		r.world = true
	}
}

func (x *Exec) setCell(st *State, c int, v Val) {
	st.cells[c] = v
	for r := x.rec; r != nil; r = r.outer {
		r.cells[c] = true
	}
}

const (
	maxI64s = "9223372036854775807"
	minI64s = "-9223372036854775808"
)

var maxI64, minI64, two64 *big.Int

func init() {
	maxI64, _ = new(big.Int).SetString(maxI64s, 10)
	minI64, _ = new(big.Int).SetString(minI64s, 10)
	two64 = new(big.Int).Lsh(big.NewInt(1), 64)
}

func inRange64(t *Term) *Term { return And(Le(BigT(minI64), t), Le(t, BigT(maxI64))) }

// intRange is the range of an integer type
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := func(n uint) (lo, hi *big.Int) {
		h := new(big.Int).Lsh(big.NewInt(1), n-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	ub := func(n uint) (lo, hi *big.Int) {
		h := new(big.Int).Lsh(big.NewInt(1), n)
		return new(big.Int), new(big.Int).Sub(h, big.NewInt(1))
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		lo, hi = bits(64)
	case types.Int32:
		lo, hi = bits(32)
	case types.Int16:
		lo, hi = bits(16)
	case types.Int8:
		lo, hi = bits(8)
	case types.Uint, types.Uint64, types.Uintptr:
		lo, hi = ub(64)
	case types.Uint32:
		lo, hi = ub(32)
	case types.Uint16:
		lo, hi = ub(16)
	case types.Uint8:
		lo, hi = ub(8)
	default:
		return nil, nil, false
	}
	return lo, hi, true
}

// wf assumes that a value read from the heap or received is well formed
func (x *Exec) wf(st *State, t *Term, ty types.Type) {
	if t.bound {
		return
	}
	if isSeq(ty) {
		l := Sel(seqCtor(), 1, t)
		if !l.IsLit() {
			st.assumeWF(And(Le(IntT(0), l), Le(l, BigT(maxLen))))
		}
	}
	if isOpaque(ty) {
		return
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(ty); ok && !t.IsLit() {
			st.assumeWF(And(Le(BigT(lo), t), Le(t, BigT(hi))))
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		if !t.IsLit() && !x.isFresh(t) {
			st.assumeWF(And(Le(IntT(0), t), Lt(t, st.nextAlloc())))
			x.wfEntry(st, t)
		}
	case *types.Slice:
		r, o, l := Sel(sliceCtor, 0, t), Sel(sliceCtor, 1, t), Sel(sliceCtor, 2, t)
		if t.Op == sliceCtor.Name && x.isFresh(r) {
			return
		}
		if !r.IsLit() && !x.isFresh(r) {
			st.assumeWF(And(Le(IntT(0), r), Lt(r, st.nextAlloc())))
			x.wfEntry(st, r)
		}
		st.assumeWF(And(Le(IntT(0), o), Le(o, BigT(maxLen)), Le(IntT(0), l), Le(l, BigT(maxLen))))
		st.assumeWF(Or(Not(Eq(r, IntT(0))), Eq(l, IntT(0))))
	case *types.Struct:
		si := structInfo(ty)
		for i := 0; i < u.NumFields(); i++ {
			x.wf(st, Sel(si.Ctor, i, t), u.Field(i).Type())
		}
	case *types.Interface:
		if x.p.isValueType(ty) {
			x.wfValue(st, t)
		}
	}
}

// wfEntry: an object of the heap at the entry refers to objects of that heap
func (x *Exec) wfEntry(st *State, t *Term) {
	if st.nextAlloc() == x.base0 {
		return
	}
	var walk func(t *Term, n int)
	walk = func(t *Term, n int) {
		if t.Op == "ite" && n > 0 {
			walk(t.Args[1], n-1)
			walk(t.Args[2], n-1)
			return
		}
		h := t
		for len(h.Args) == 1 && (strings.HasPrefix(strings.TrimPrefix(h.Op, "|"), "S.") || strings.HasPrefix(h.Op, "sl.")) {
			h = h.Args[0]
		}
		var ref *Term
		for h.Op == "select" {
			h, ref = h.Args[0], h.Args[1]
		}
		if ref != nil && len(h.Args) == 0 && strings.HasPrefix(strings.TrimPrefix(h.Op, "|"), "H0.") {
			st.assumeWF(Or(Le(x.base0, ref), Lt(t, x.base0)))
		}
	}
	walk(t, 4)
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

// wfValue: a Value is nil, an RValue, or an LValue
func (x *Exec) wfValue(st *State, t *Term) {
	if ctorOf(t) != nil {
		return
	}
	st.assumeWF(Or(Is(anyNil, t), Is(x.p.ctorRValue, t), Is(x.p.ctorLValue, t)))
}

func (x *Exec) nonNilValue(st *State, t *Term) {
	if c := ctorOf(t); c != nil {
		return
	}
	st.assumeWF(Or(Is(x.p.ctorRValue, t), Is(x.p.ctorLValue, t)))
}

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &Closure{fn: c}
	case *ssa.Global:
		return x.globalAddr(c)
	case *ssa.Builtin:
		return c
	}
	r, ok := fr.env[v]
	if !ok {
		x.unsupported("value %s (%T) not available in %s", v.Name(), v, fr.fn)
	}
	return r
}

func (x *Exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	return x.asTerm(st, x.val(fr, st, v), v.Type())
}

func (x *Exec) asTerm(st *State, v Val, ty types.Type) *Term {
	switch t := v.(type) {
	case *Term:
		return t
	case *Closure:
		if t == nil {
			return IntT(0)
		}
		return x.closureTerm(st, t)
	case *Addr:
		if t.heap != "" && len(t.path) == 0 && t.idx == nil && strings.HasPrefix(t.heap, "P:") {
			return t.ref
		}
		if t.cell != 0 {
			return x.materialize(st, t)
		}
		// address of a field or an element: an opaque reference
		if t.ref != nil {
			args := []*Term{t.ref}
			name := "addr." + t.heap
			if t.idx != nil {
				args = append(args, t.idx)
			}
			for _, p := range t.path {
				name += "." + strconv.Itoa(p)
			}
			r := UF(name, SInt, args...)
			st.assume(Lt(IntT(0), r))
			if strings.HasPrefix(t.heap, "E:") && t.idx != nil && len(t.path) == 0 && !st.spec {
				// the pointer reads the element as long as neither changes
				pn := "P:" + t.heap[2:]
				e := Select(Select(x.heap(st, t.heap, x.heapSort(t.heap, t.root)), t.ref), t.idx)
				if _, ok := t.root.Underlying().(*types.Basic); ok {
					st.assume(Eq(Select(x.heap(st, pn, x.heapSort(pn, t.root)), r), e))
					st.aliased = append(st.aliased[:len(st.aliased):len(st.aliased)], t.heap, pn)
				}
			}
			return r
		}
	}
	x.unsupported("value of kind %T as a term (type %s)", v, ty)
	return nil
}

func (x *Exec) closureTerm(st *State, c *Closure) *Term {
	var args []*Term
	for i, b := range c.binds {
		switch bb := b.(type) {
		case *Term:
			args = append(args, bb)
		case *Addr:
			if bb.cell != 0 {
				// captured variable: its identity does not matter, its
				// value is taken at the time the closure is made
				v := st.cells[bb.cell]
				if tt, ok := v.(*Term); ok {
					args = append(args, tt)
					continue
				}
				if cc, ok := v.(*Closure); ok {
					args = append(args, x.closureTerm(st, cc))
					continue
				}
				if aa, ok := v.(*Addr); ok && aa.cell == 0 {
					args = append(args, x.asTerm(st, aa, aa.typ))
					continue
				}
				x.unsupported("closure capture of %T", v)
			}
			args = append(args, x.asTerm(st, bb, nil))
		case *Closure:
			args = append(args, x.closureTerm(st, bb))
		default:
			x.unsupported("closure binding %d %T", i, b)
		}
	}
	r := UF("closure."+c.fn.RelString(nil), SInt, args...)
	st.assume(Lt(IntT(0), r))
	x.p.closures[r] = c
	return r
}

// materialize turns a local variable into a heap object
func (x *Exec) materialize(st *State, a *Addr) *Term {
	if len(a.path) != 0 {
		x.unsupported("address of a field of a local variable escapes")
	}
	v := st.cells[a.cell]
	if f, ok := v.(forward); ok {
		return f.ref
	}
	ref := x.freshRef(st)
	x.storeNew(st, ref, a.root, v)
	x.setCell(st, a.cell, forward{ref})
	return ref
}

// forward is the content of a cell that became a heap object
type forward struct{ ref *Term }

// storeNew initialises the object ref of type ty
func (x *Exec) storeNew(st *State, ref *Term, ty types.Type, v Val) {
	if s, ok := ty.Underlying().(*types.Struct); ok && !isOpaque(ty) {
		t := x.asTerm(st, v, ty)
		si := structInfo(ty)
		for i := 0; i < s.NumFields(); i++ {
			x.store(st, x.fieldOfRef(ref, ty, i), Sel(si.Ctor, i, t))
		}
		return
	}
	x.store(st, &Addr{heap: "P:" + typeName(ty), ref: ref, root: ty, typ: ty}, v)
}

func (x *Exec) fieldOfRef(ref *Term, ty types.Type, i int) *Addr {
	s := ty.Underlying().(*types.Struct)
	return &Addr{heap: fmt.Sprintf("F:%s.%s", typeName(ty), s.Field(i).Name()), ref: ref, root: s.Field(i).Type(), typ: s.Field(i).Type()}
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		switch t.Underlying().(type) {
		case *types.Signature:
			return (*Closure)(nil)
		}
		return ZeroOf(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolT(constant.BoolVal(c.Value))
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		b := t.Underlying().(*types.Basic)
		if b.Info()&types.IsFloat != 0 {
			return FltLit(constant.ToFloat(c.Value).ExactString())
		}
		v := constant.ToInt(c.Value)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			x.unsupported("constant %s", c)
		}
		return BigT(n)
	}
	x.unsupported("constant %s", c)
	return nil
}

func (x *Exec) globalAddr(g *ssa.Global) Val {
	return &Addr{heap: "G:" + g.String(), ref: IntT(0), root: deref(g.Type()), typ: deref(g.Type())}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (x *Exec) heapSort(name string, root types.Type) string {
	if strings.HasPrefix(name, "E:") {
		return arrSort(SInt, arrSort(SInt, SortOf(root)))
	}
	return arrSort(SInt, SortOf(root))
}

// load reads a location
func (x *Exec) load(st *State, a *Addr) Val {
	if a.cell != 0 {
		v, ok := st.cells[a.cell]
		if !ok {
			x.unsupported("dead cell")
		}
		if f, ok := v.(forward); ok {
			return x.load(st, x.forwardAddr(f, a))
		}
		if len(a.path) == 0 {
			return v
		}
		t, ok := v.(*Term)
		if !ok {
			x.unsupported("field of %T", v)
		}
		return x.selPath(t, a.root, a.path)
	}
	if strings.HasPrefix(a.heap, "G:") {
		return x.loadGlobal(st, a)
	}
	h := x.heap(st, a.heap, x.heapSort(a.heap, a.root))
	var v *Term
	if a.idx != nil {
		v = Select(Select(h, a.ref), a.idx)
	} else if a.arrN > 0 {
		x.unsupported("load of a whole array")
	} else {
		v = Select(h, a.ref)
	}
	v = x.selPath(v, a.root, a.path)
	x.wf(st, v, a.typ)
	if a.idx != nil && x.p.isValueType(a.typ) {
		x.nonNilValue(st, v)
	}
	if _, ok := a.typ.Underlying().(*types.Signature); ok {
		if c, ok := x.p.closures[v]; ok {
			return c
		}
	}
	return v
}

func (x *Exec) forwardAddr(f forward, a *Addr) *Addr {
	if _, ok := a.root.Underlying().(*types.Struct); ok && !isOpaque(a.root) {
		if len(a.path) == 0 {
			return &Addr{heap: "S:", ref: f.ref, root: a.root, typ: a.typ}
		}
		n := x.fieldOfRef(f.ref, a.root, a.path[0])
		n.path = a.path[1:]
		n.typ = a.typ
		return n
	}
	return &Addr{heap: "P:" + typeName(a.root), ref: f.ref, root: a.root, typ: a.root}
}

func (x *Exec) selPath(t *Term, ty types.Type, path []int) *Term {
	for _, i := range path {
		if _, ok := ty.Underlying().(*types.Array); ok {
			t = Select(t, IntT(int64(i)))
			ty = ty.Underlying().(*types.Array).Elem()
			continue
		}
		si := structInfo(ty)
		t = Sel(si.Ctor, i, t)
		ty = si.T.Field(i).Type()
	}
	return t
}

func (x *Exec) updPath(t *Term, ty types.Type, path []int, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	si := structInfo(ty)
	args := make([]*Term, si.T.NumFields())
	for i := range args {
		args[i] = Sel(si.Ctor, i, t)
		if i == path[0] {
			args[i] = x.updPath(args[i], si.T.Field(i).Type(), path[1:], v)
		}
	}
	return MkCtor(si.Ctor, args...)
}

func (x *Exec) store(st *State, a *Addr, v Val) {
	if a.cell != 0 {
		old := st.cells[a.cell]
		if f, ok := old.(forward); ok {
			x.store(st, x.forwardAddr(f, a), v)
			return
		}
		if len(a.path) == 0 {
			x.setCell(st, a.cell, v)
			return
		}
		t, ok := old.(*Term)
		if !ok {
			x.unsupported("store into field of %T", old)
		}
		x.setCell(st, a.cell, x.updPath(t, a.root, a.path, x.asTerm(st, v, a.typ)))
		return
	}
	if a.heap == "S:" {
		x.storeNew(st, a.ref, a.root, v)
		return
	}
	if strings.HasPrefix(a.heap, "G:") {
		x.unsupported("store to a global variable")
	}
	if a.arrN > 0 && a.idx == nil {
		x.unsupported("store of a whole array")
	}
	nv := x.asTerm(st, v, a.typ)
	if len(a.path) > 0 {
		var old *Term
		h := x.heap(st, a.heap, x.heapSort(a.heap, a.root))
		if a.idx != nil {
			old = Select(Select(h, a.ref), a.idx)
		} else {
			old = Select(h, a.ref)
		}
		nv = x.updPath(old, a.root, a.path, nv)
	}
	x.frame(st, a.heap, a.ref)
	h := x.heap(st, a.heap, x.heapSort(a.heap, a.root))
	if a.idx != nil {
		x.setHeap(st, a.heap, Store(h, a.ref, Store(Select(h, a.ref), a.idx, nv)), a.ref)
	} else {
		x.setHeap(st, a.heap, Store(h, a.ref, nv), a.ref)
	}
}

// frame: a write to an object that existed when the unit started must be
// allowed by its modifies clause
func (x *Exec) frame(st *State, heap string, ref *Term) {
	if st.spec || x.isFresh(ref) || x.unit == nil {
		return
	}
	var ok []*Term
	ok = append(ok, Le(x.base0, ref))
	for _, m := range x.unit.modifies {
		if m.heap == heap {
			if m.ref == nil {
				return
			}
			ok = append(ok, Eq(m.ref, ref))
			if x.unit.writesCtx {
				// what is evaluated from here on may depend on the change
				x.setWorld(st, FreshConst("world", "World"))
			}
		}
	}
	g := st.simp(Or(ok...))
	if !g.IsTrue() {
		x.addObl(st, "frame", "write to "+heap, g, token.NoPos)
	}
}

func (x *Exec) loadGlobal(st *State, a *Addr) Val {
	name := a.heap[2:]
	t := a.root
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		id := x.p.globalErr(name)
		return x.selPath(MkCtor(anyOther, IntT(-int64(id))), a.root, a.path)
	}
	c := Const("glob."+name, SortOf(t))
	x.wf(st, c, t)
	return x.selPath(c, a.root, a.path)
}

// run executes from instruction i of block b
func (x *Exec) run(fr *Frame, st *State, b *ssa.BasicBlock, i int, prev *ssa.BasicBlock, k Cont) {
	for {
		if st.dead {
			return
		}
		if i >= len(b.Instrs) {
			x.unsupported("fell off block")
		}
		x.steps++
		if x.steps > maxSteps {
			x.unsupported("too many symbolic steps")
		}
		in := b.Instrs[i]
		switch ins := in.(type) {
		case *ssa.If:
			c := st.simp(x.term(fr, st, ins.Cond))
			if c.IsTrue() {
				x.jump(fr, st, b, b.Succs[0], k)
				return
			}
			if c.IsFalse() {
				x.jump(fr, st, b, b.Succs[1], k)
				return
			}
			st2, fr2 := st.clone(), fr.clone()
			st.branch(c)
			x.jump(fr, st, b, b.Succs[0], k)
			st2.branch(Not(c))
			x.jump(fr2, st2, b, b.Succs[1], k)
			return
		case *ssa.Jump:
			x.jump(fr, st, b, b.Succs[0], k)
			return
		case *ssa.Return:
			res := make([]Val, len(ins.Results))
			for j, r := range ins.Results {
				res[j] = x.val(fr, st, r)
			}
			k(st, res)
			return
		case *ssa.Panic:
			x.safety(st, False(), "panic reachable", fr.fn, ins.Pos())
			return
		case *ssa.Call:
			bb, ii, pp := b, i, prev
			x.call(fr, st, ins, &ins.Call, func(st2 *State, res []Val) {
				f2 := fr.clone()
				if ins.Call.Signature().Results().Len() == 1 && len(res) == 1 {
					f2.env[ins] = res[0]
				} else {
					f2.env[ins] = Tuple(res)
				}
				x.run(f2, st2, bb, ii+1, pp, k)
			})
			return
		case *ssa.Phi:
			// handled in jump
		case *ssa.Next:
			bb, ii, pp := b, i, prev
			x.next(fr, st, ins, func(st2 *State, v Val) {
				f2 := fr.clone()
				f2.env[ins] = v
				x.run(f2, st2, bb, ii+1, pp, k)
			})
			return
		case *ssa.TypeAssert:
			v := st.simpVal(x.term(fr, st, ins.X))
			okT, r := x.assertType(st, v, ins.AssertedType)
			ok := st.simp(okT)
			if !ins.CommaOk {
				x.safety(st, ok, "type assertion to "+typeName(ins.AssertedType), fr.fn, ins.Pos())
				fr.env[ins] = r
				break
			}
			if ok.IsTrue() {
				fr.env[ins] = Tuple{r, ok}
				break
			}
			if ok.IsFalse() {
				fr.env[ins] = Tuple{ZeroOf(ins.AssertedType), ok}
				break
			}
			st2, fr2 := st.clone(), fr.clone()
			st.branch(ok)
			fr.env[ins] = Tuple{r, True()}
			x.run(fr, st, b, i+1, prev, k)
			st2.branch(Not(ok))
			fr2.env[ins] = Tuple{ZeroOf(ins.AssertedType), False()}
			x.run(fr2, st2, b, i+1, prev, k)
			return
		default:
			x.instr(fr, st, in)
		}
		i++
	}
}

var maxSteps = 3000000

func (x *Exec) jump(fr *Frame, st *State, from, to *ssa.BasicBlock, k Cont) {
	if st.dead {
		return
	}
	li := x.p.loopInfo(fr.fn)
	// leaving loops
	for h := range fr.loops {
		if !li[h].body[to] {
			if fr.loops[h].cut {
				return
			}
			fr = fr.clone()
			delete(fr.loops, h)
		}
	}
	if l := li[to]; l != nil {
		if al := fr.loops[to]; al != nil && l.body[from] {
			if al.back != nil {
				al.back(fr, st, from)
				return
			}
			// unrolling
			x.enterLoop(fr, st, from, to, l, al.unroll+1, k)
			return
		}
		x.enterLoop(fr, st, from, to, l, 0, k)
		return
	}
	x.setPhis(fr, st, from, to)
	x.run(fr, st, to, 0, from, k)
}

func (x *Exec) phiVals(fr *Frame, st *State, from, to *ssa.BasicBlock) ([]*ssa.Phi, []Val) {
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.val(fr, st, ph.Edges[pi]))
	}
	return phis, vals
}

func (x *Exec) setPhis(fr *Frame, st *State, from, to *ssa.BasicBlock) {
	phis, vals := x.phiVals(fr, st, from, to)
	for j, ph := range phis {
		fr.env[ph] = vals[j]
	}
}

// instr executes a straight line instruction
func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch ins := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.env[ins] = x.alloc(st, ins)
	case *ssa.BinOp:
		fr.env[ins] = x.binop(fr, st, ins)
	case *ssa.UnOp:
		fr.env[ins] = x.unop(fr, st, ins)
	case *ssa.FieldAddr:
		fr.env[ins] = x.fieldAddr(fr, st, ins)
	case *ssa.Field:
		t := x.term(fr, st, ins.X)
		if typeName(ins.X.Type()) == "lpg.StringSet" {
			fr.env[ins] = setMap{t}
			break
		}
		si := structInfo(ins.X.Type())
		fr.env[ins] = x.closureOr(Sel(si.Ctor, ins.Field, t))
		x.wf(st, Sel(si.Ctor, ins.Field, t), ins.Type())
	case *ssa.IndexAddr:
		fr.env[ins] = x.indexAddr(fr, st, ins)
	case *ssa.Index:
		fr.env[ins] = x.index(fr, st, ins)
	case *ssa.Lookup:
		fr.env[ins] = x.lookup(fr, st, ins)
	case *ssa.Store:
		a := x.addr(fr, st, ins.Addr)
		if x.p.isValueType(a.typ) && a.idx != nil {
			v := x.term(fr, st, ins.Val)
			x.safety(st, Not(Is(anyNil, v)), "nil value stored in a list", fr.fn, ins.Pos())
		}
		x.store(st, a, x.val(fr, st, ins.Val))
	case *ssa.MapUpdate:
		x.mapUpdate(fr, st, ins)
	case *ssa.MakeInterface:
		fr.env[ins] = x.makeInterface(st, x.val(fr, st, ins.X), ins.X.Type())
	case *ssa.ChangeInterface:
		fr.env[ins] = x.val(fr, st, ins.X)
	case *ssa.ChangeType:
		fr.env[ins] = x.changeType(st, x.val(fr, st, ins.X), ins.X.Type(), ins.Type())
	case *ssa.Convert:
		fr.env[ins] = x.convert(st, x.term(fr, st, ins.X), ins.X.Type(), ins.Type())
	case *ssa.Extract:
		t, ok := x.val(fr, st, ins.Tuple).(Tuple)
		if !ok {
			x.unsupported("extract from %T", x.val(fr, st, ins.Tuple))
		}
		fr.env[ins] = t[ins.Index]
	case *ssa.MakeClosure:
		c := &Closure{fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			c.binds = append(c.binds, x.val(fr, st, b))
		}
		fr.env[ins] = c
	case *ssa.MakeMap:
		ref := x.freshRef(st)
		mt := ins.Type().Underlying().(*types.Map)
		x.initMap(st, ref, mt)
		fr.env[ins] = ref
	case *ssa.MakeSlice:
		l := x.term(fr, st, ins.Len)
		x.safety(st, And(Le(IntT(0), l), Le(l, x.term(fr, st, ins.Cap))), "makeslice length", fr.fn, ins.Pos())
		ref := x.freshRef(st)
		el := ins.Type().Underlying().(*types.Slice).Elem()
		name := "E:" + typeName(el)
		es := SortOf(el)
		h := x.heap(st, name, arrSort(SInt, arrSort(SInt, es)))
		x.setHeap(st, name, Store(h, ref, ConstArr(arrSort(SInt, es), ZeroOf(el))), ref)
		fr.env[ins] = MkCtor(sliceCtor, ref, IntT(0), l)
		st.assume(Le(l, BigT(maxLen)))
	case *ssa.Slice:
		fr.env[ins] = x.slice(fr, st, ins)
	case *ssa.Range:
		switch t := ins.X.Type().Underlying().(type) {
		case *types.Map:
			if sm, ok := x.val(fr, st, ins.X).(setMap); ok {
				c := x.newCell(st, ConstArr(arrSort(SStr, SBool), False()))
				fr.env[ins] = &MapIter{set: sm.set, kt: t.Key(), vt: t.Elem(), cell: c}
				break
			}
			ref := x.term(fr, st, ins.X)
			ks := SortOf(t.Key())
			c := x.newCell(st, ConstArr(arrSort(ks, SBool), False()))
			fr.env[ins] = &MapIter{ref: ref, kt: t.Key(), vt: t.Elem(), cell: c}
		default:
			if isString(t) {
				c := x.newCell(st, IntT(0))
				x.cellTypes[c] = types.Typ[types.Int]
				fr.env[ins] = &MapIter{isStr: true, str: x.term(fr, st, ins.X), cell: c}
				break
			}
			x.unsupported("range over %s", t)
		}
	default:
		x.unsupported("instruction %T in %s", in, fr.fn)
	}
}

func (x *Exec) closureOr(t *Term) Val {
	if c, ok := x.p.closures[t]; ok {
		return c
	}
	return t
}

func (x *Exec) alloc(st *State, ins *ssa.Alloc) Val {
	ty := deref(ins.Type())
	if arr, ok := ty.Underlying().(*types.Array); ok && !isOpaque(ty) {
		ref := x.freshRef(st)
		name := "E:" + typeName(arr.Elem())
		es := SortOf(arr.Elem())
		h := x.heap(st, name, arrSort(SInt, arrSort(SInt, es)))
		x.setHeap(st, name, Store(h, ref, ConstArr(arrSort(SInt, es), ZeroOf(arr.Elem()))), ref)
		return &Addr{heap: name, ref: ref, root: arr.Elem(), typ: ty, arrN: arr.Len() + 1}
	}
	c := x.newCell(st, nil)
	x.cellTypes[c] = ty
	if _, ok := ty.Underlying().(*types.Signature); ok {
		st.cells[c] = (*Closure)(nil)
	} else {
		st.cells[c] = ZeroOf(ty)
	}
	return &Addr{cell: c, root: ty, typ: ty}
}

func (x *Exec) addr(fr *Frame, st *State, v ssa.Value) *Addr {
	return x.toAddr(fr, st, x.val(fr, st, v), v.Type(), v.Pos())
}

func (x *Exec) toAddr(fr *Frame, st *State, v Val, pt types.Type, pos token.Pos) *Addr {
	switch a := v.(type) {
	case *Addr:
		return a
	case *Term:
		x.safety(st, Not(Eq(a, IntT(0))), "nil pointer dereference", fr.fn, pos)
		ty := deref(pt)
		if _, ok := ty.Underlying().(*types.Struct); ok && !isOpaque(ty) {
			return &Addr{heap: "S:", ref: a, root: ty, typ: ty}
		}
		return &Addr{heap: "P:" + typeName(ty), ref: a, root: ty, typ: ty}
	}
	x.unsupported("address %T", v)
	return nil
}

func (x *Exec) loadStruct(st *State, a *Addr) *Term {
	si := structInfo(a.root)
	args := make([]*Term, si.T.NumFields())
	for i := range args {
		args[i] = x.asTerm(st, x.load(st, x.fieldOfRef(a.ref, a.root, i)), si.T.Field(i).Type())
	}
	return MkCtor(si.Ctor, args...)
}

func (x *Exec) fieldAddr(fr *Frame, st *State, ins *ssa.FieldAddr) Val {
	a := x.addr(fr, st, ins.X)
	sty := deref(ins.X.Type())
	if typeName(sty) == "lpg.StringSet" {
		return setField{a}
	}
	s := sty.Underlying().(*types.Struct)
	ft := s.Field(ins.Field).Type()
	if a.heap == "S:" {
		return x.fieldOfRef(a.ref, sty, ins.Field)
	}
	n := *a
	n.path = append(append([]int{}, a.path...), ins.Field)
	n.typ = ft
	return &n
}

func (x *Exec) indexAddr(fr *Frame, st *State, ins *ssa.IndexAddr) Val {
	i := x.term(fr, st, ins.Index)
	switch t := ins.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.term(fr, st, ins.X)
		x.safety(st, And(Le(IntT(0), i), Lt(i, Sel(sliceCtor, 2, s))), "index out of range", fr.fn, ins.Pos())
		return &Addr{heap: "E:" + typeName(t.Elem()), ref: Sel(sliceCtor, 0, s), idx: Add(Sel(sliceCtor, 1, s), i), root: t.Elem(), typ: t.Elem()}
	case *types.Pointer:
		a := x.addr(fr, st, ins.X)
		arr := t.Elem().Underlying().(*types.Array)
		if a.arrN == 0 {
			x.unsupported("index of an array that is not a local")
		}
		x.safety(st, And(Le(IntT(0), i), Lt(i, IntT(arr.Len()))), "index out of range", fr.fn, ins.Pos())
		return &Addr{heap: a.heap, ref: a.ref, idx: i, root: arr.Elem(), typ: arr.Elem()}
	}
	x.unsupported("indexaddr of %s", ins.X.Type())
	return nil
}

func (x *Exec) index(fr *Frame, st *State, ins *ssa.Index) Val {
	i := x.term(fr, st, ins.Index)
	s := x.term(fr, st, ins.X)
	if s.Sort == SStr {
		x.safety(st, And(Le(IntT(0), i), Lt(i, slen(s))), "string index out of range", fr.fn, ins.Pos())
		r := UF("sat", SInt, s, i)
		x.wf(st, r, ins.Type())
		return r
	}
	return Select(s, i)
}

func slen(s *Term) *Term {
	if v, ok := s.StrVal(); ok {
		return IntT(int64(len(v)))
	}
	return UF("slen", SInt, s)
}

func (x *Exec) mapHeaps(st *State, mt *types.Map) (dn, vn string, d, v *Term) {
	ks, vs := SortOf(mt.Key()), SortOf(mt.Elem())
	n := typeName(mt.Key()) + ":" + typeName(mt.Elem())
	dn, vn = "MD:"+n, "MV:"+n
	d = x.heap(st, dn, arrSort(SInt, arrSort(ks, SBool)))
	v = x.heap(st, vn, arrSort(SInt, arrSort(ks, vs)))
	return
}

func (x *Exec) initMap(st *State, ref *Term, mt *types.Map) {
	dn, vn, d, _ := x.mapHeaps(st, mt)
	ks := SortOf(mt.Key())
	x.setHeap(st, dn, Store(d, ref, ConstArr(arrSort(ks, SBool), False())), ref)
	_, _, _, v := x.mapHeaps(st, mt)
	x.setHeap(st, vn, Store(v, ref, ConstArr(arrSort(ks, SortOf(mt.Elem())), ZeroOf(mt.Elem()))), ref)
}

func (x *Exec) mapGet(st *State, mt *types.Map, ref, key *Term) (val, ok *Term) {
	_, _, d, v := x.mapHeaps(st, mt)
	ok = And(Not(Eq(ref, IntT(0))), Select(Select(d, ref), key))
	raw := Select(Select(v, ref), key)
	x.wf(st, raw, mt.Elem())
	if x.p.isValueType(mt.Elem()) && !raw.bound {
		if ctorOf(raw) == nil {
			st.assumeWF(Or(Not(ok), Not(Is(anyNil, raw))))
		}
	}
	val = Ite(st.simp(ok), raw, ZeroOf(mt.Elem()))
	return
}

func (x *Exec) lookup(fr *Frame, st *State, ins *ssa.Lookup) Val {
	if mt, ok := ins.X.Type().Underlying().(*types.Map); ok {
		if sm, ok := x.val(fr, st, ins.X).(setMap); ok {
			okT := Select(sm.set, x.term(fr, st, ins.Index))
			if ins.CommaOk {
				return Tuple{ZeroOf(mt.Elem()), okT}
			}
			return ZeroOf(mt.Elem())
		}
		ref := x.term(fr, st, ins.X)
		key := x.term(fr, st, ins.Index)
		v, okT := x.mapGet(st, mt, ref, key)
		if ins.CommaOk {
			return Tuple{v, okT}
		}
		return v
	}
	s := x.term(fr, st, ins.X)
	i := x.term(fr, st, ins.Index)
	x.safety(st, And(Le(IntT(0), i), Lt(i, slen(s))), "string index out of range", fr.fn, ins.Pos())
	r := UF("sat", SInt, s, i)
	x.wf(st, r, ins.Type())
	return r
}

func (x *Exec) mapUpdate(fr *Frame, st *State, ins *ssa.MapUpdate) {
	mt := ins.Map.Type().Underlying().(*types.Map)
	ref := x.term(fr, st, ins.Map)
	x.safety(st, Not(Eq(ref, IntT(0))), "assignment to nil map", fr.fn, ins.Pos())
	key := x.term(fr, st, ins.Key)
	v := x.term(fr, st, ins.Value)
	if x.p.isValueType(mt.Elem()) {
		x.safety(st, Not(Is(anyNil, v)), "nil value stored in a map", fr.fn, ins.Pos())
	}
	x.mapSet(st, mt, ref, key, v)
}

func (x *Exec) mapSet(st *State, mt *types.Map, ref, key, v *Term) {
	dn, vn, d, vv := x.mapHeaps(st, mt)
	x.frame(st, vn, ref)
	x.setHeap(st, dn, Store(d, ref, Store(Select(d, ref), key, True())), ref)
	x.setHeap(st, vn, Store(vv, ref, Store(Select(vv, ref), key, v)), ref)
}

func (x *Exec) mapDelete(st *State, mt *types.Map, ref, key *Term) {
	dn, vn, d, _ := x.mapHeaps(st, mt)
	x.frame(st, vn, ref)
	x.setHeap(st, dn, Store(d, ref, Store(Select(d, ref), key, False())), ref)
}

func (x *Exec) makeInterface(st *State, v Val, ty types.Type) *Term {
	c := AnyCtor(ty)
	return MkCtor(c, x.asTerm(st, v, ty))
}

func (x *Exec) changeType(st *State, v Val, from, to types.Type) Val {
	t, ok := v.(*Term)
	if !ok {
		if a, ok := v.(*Addr); ok {
			n := *a
			if len(n.path) == 0 {
				n.root = deref(to)
			}
			n.typ = deref(to)
			return &n
		}
		return v
	}
	fs, ts := SortOf(from), SortOf(to)
	if fs == ts {
		return t
	}
	// structs with different names and the same fields
	if _, ok := from.Underlying().(*types.Struct); ok {
		a, b := structInfo(from), structInfo(to)
		args := make([]*Term, a.T.NumFields())
		for i := range args {
			args[i] = Sel(a.Ctor, i, t)
		}
		return MkCtor(b.Ctor, args...)
	}
	x.unsupported("change type %s to %s", from, to)
	return nil
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) convert(st *State, t *Term, from, to types.Type) Val {
	switch {
	case isInt(from) && isInt(to):
		fl, fh, _ := intRange(from)
		tl, th, _ := intRange(to)
		if tl.Cmp(fl) <= 0 && th.Cmp(fh) >= 0 {
			return t
		}
		if n, ok := t.IntLit(); ok && n.Cmp(tl) >= 0 && n.Cmp(th) <= 0 {
			return t
		}
		r := UF("conv."+typeName(to.Underlying()), SInt, t)
		st.assumeWF(And(Le(BigT(tl), r), Le(r, BigT(th))))
		st.assumeWF(Or(Lt(t, BigT(tl)), Lt(BigT(th), t), Eq(r, t)))
		return r
	case isInt(from) && isFloat(to):
		return i2f(t)
	case isFloat(from) && isInt(to):
		r := UF("f2i", SInt, t)
		st.assumeWF(inRange64(r))
		return r
	case isFloat(from) && isFloat(to):
		if typeName(from.Underlying()) == typeName(to.Underlying()) {
			return t
		}
		return UF("fconv."+typeName(to.Underlying()), SFlt, t)
	case isString(from) && isString(to):
		return t
	case isInt(from) && isString(to):
		return r2s(st.lit(t))
	case SortOf(from) == SortOf(to) && SortOf(from) != SSlice:
		return t
	}
	x.unsupported("conversion %s to %s", from, to)
	return nil
}

func i2f(t *Term) *Term {
	if n, ok := t.IntLit(); ok && n.IsInt64() {
		v := n.Int64()
		if v < 1<<53 && v > -(1<<53) {
			return FltLit(n.String())
		}
	}
	return UF("i2f", SFlt, t)
}

func wrap64(t *Term, ty types.Type) *Term {
	if n, ok := t.IntLit(); ok {
		lo, hi, _ := intRange(ty)
		if n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0 {
			return t
		}
	}
	lo, hi, _ := intRange(ty)
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	return Ite(Lt(BigT(hi), t), Sub(t, BigT(size)), Ite(Lt(t, BigT(lo)), Add(t, BigT(size)), t))
}

// noOverflow decides syntactically whether t is in range, from bounds on
// the path
func (x *Exec) arith(st *State, t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	if x.inBounds(st, t, lo, hi) {
		return t
	}
	return wrap64(t, ty)
}

// inBounds: the term is a counter or a length plus a small constant
func (x *Exec) inBounds(st *State, t *Term, lo, hi *big.Int) bool {
	b, c := splitAdd(t)
	if b == nil {
		return c.Cmp(lo) >= 0 && c.Cmp(hi) <= 0
	}
	if c.CmpAbs(big.NewInt(1<<40)) > 0 {
		return false
	}
	return x.small(st, b)
}

func (x *Exec) small(st *State, t *Term) bool {
	if smallTerms[t] {
		return true
	}
	switch t.Op {
	case "sl.len", "slen", "mlen":
		return true
	case "+":
		return x.small(st, t.Args[0]) && x.small(st, t.Args[1])
	case "-1*":
		return x.small(st, t.Args[0])
	case "ite":
		return x.small(st, t.Args[1]) && x.small(st, t.Args[2])
	}
	if n, ok := t.IntLit(); ok {
		return n.CmpAbs(big.NewInt(1<<40)) < 0
	}
	return false
}

// smallTerms are constants known to be within the bounds of a slice length
var smallTerms = map[*Term]bool{}

func (x *Exec) binop(fr *Frame, st *State, ins *ssa.BinOp) Val {
	va, vb := x.val(fr, st, ins.X), x.val(fr, st, ins.Y)
	ty := ins.X.Type()
	if ins.Op == token.EQL || ins.Op == token.NEQ {
		r := x.equal(st, va, vb, ins.X.Type(), ins.Y.Type(), fr)
		if ins.Op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	a, b := x.asTerm(st, va, ty), x.asTerm(st, vb, ins.Y.Type())
	switch {
	case isInt(ty):
		switch ins.Op {
		case token.ADD:
			return x.arith(st, Add(a, b), ty)
		case token.SUB:
			return x.arith(st, Sub(a, b), ty)
		case token.MUL:
			return x.imul(st, a, b, ty)
		case token.QUO:
			x.safety(st, Not(Eq(b, IntT(0))), "integer divide by zero", fr.fn, ins.Pos())
			return x.itdiv(st, "itdiv", a, b, ty)
		case token.REM:
			x.safety(st, Not(Eq(b, IntT(0))), "integer divide by zero", fr.fn, ins.Pos())
			return x.itdiv(st, "itmod", a, b, ty)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		}
		n := "iop." + ins.Op.String()
		r := UF(n, SInt, a, b)
		x.wf(st, r, ty)
		return r
	case isFloat(ty):
		switch ins.Op {
		case token.ADD:
			return UF("fadd", SFlt, a, b)
		case token.SUB:
			return UF("fsub", SFlt, a, b)
		case token.MUL:
			return UF("fmul", SFlt, a, b)
		case token.QUO:
			return UF("fdiv", SFlt, a, b)
		case token.LSS:
			return UF("flt", SBool, a, b)
		case token.GTR:
			return UF("flt", SBool, b, a)
		case token.LEQ:
			return Or(UF("flt", SBool, a, b), feq(a, b))
		case token.GEQ:
			return Or(UF("flt", SBool, b, a), feq(a, b))
		}
	case isString(ty):
		switch ins.Op {
		case token.ADD:
			return scat(a, b)
		case token.LSS:
			return UF("slt", SBool, a, b)
		case token.GTR:
			return UF("slt", SBool, b, a)
		case token.LEQ:
			return Not(UF("slt", SBool, b, a))
		case token.GEQ:
			return Not(UF("slt", SBool, a, b))
		}
	case ty.Underlying() == types.Typ[types.Bool]:
		switch ins.Op {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		}
	}
	x.unsupported("binary operator %s on %s", ins.Op, ty)
	return nil
}

func scat(a, b *Term) *Term {
	if v, ok := a.StrVal(); ok {
		if v == "" {
			return b
		}
		if w, ok := b.StrVal(); ok {
			return StrLit(v + w)
		}
	}
	if b.Op == "scat" && len(b.Args) == 2 {
		return scat(scat(a, b.Args[0]), b.Args[1])
	}
	if w, ok := b.StrVal(); ok {
		if w == "" {
			return a
		}
		if a.Op == "scat" && len(a.Args) == 2 {
			if v, ok := a.Args[1].StrVal(); ok {
				return UF("scat", SStr, a.Args[0], StrLit(v+w))
			}
		}
	}
	return UF("scat", SStr, a, b)
}

func feq(a, b *Term) *Term {
	if a.IsLit() && b.IsLit() {
		return BoolT(a == b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return UF("feq", SBool, a, b)
}

func (x *Exec) imul(st *State, a, b *Term, ty types.Type) *Term {
	na, oka := a.IntLit()
	nb, okb := b.IntLit()
	if oka && okb {
		return wrap64(BigT(new(big.Int).Mul(na, nb)), ty)
	}
	if oka && na.Sign() == 0 || okb && nb.Sign() == 0 {
		return IntT(0)
	}
	if oka && na.IsInt64() && na.Int64() == 1 {
		return b
	}
	if okb && nb.IsInt64() && nb.Int64() == 1 {
		return a
	}
	r := UF("imul", SInt, a, b)
	x.wf(st, r, ty)
	return r
}

func (x *Exec) itdiv(st *State, op string, a, b *Term, ty types.Type) *Term {
	na, oka := a.IntLit()
	nb, okb := b.IntLit()
	if oka && okb && nb.Sign() != 0 {
		if op == "itdiv" {
			return wrap64(BigT(new(big.Int).Quo(na, nb)), ty)
		}
		return BigT(new(big.Int).Rem(na, nb))
	}
	r := UF(op, SInt, a, b)
	x.wf(st, r, ty)
	return r
}

func (x *Exec) equal(st *State, va, vb Val, ta, tb types.Type, fr *Frame) *Term {
	// nil functions
	if ca, ok := va.(*Closure); ok {
		if cb, ok := vb.(*Closure); ok {
			return BoolT((ca == nil) == (cb == nil) && (ca == nil || ca == cb))
		}
		if tb, ok := vb.(*Term); ok {
			if ca == nil {
				return Eq(tb, IntT(0))
			}
			return False()
		}
	}
	if cb, ok := vb.(*Closure); ok {
		if t, ok := va.(*Term); ok && cb == nil {
			return Eq(t, IntT(0))
		}
		return False()
	}
	// addresses of locals
	if a, ok := va.(*Addr); ok {
		if b, ok := vb.(*Addr); ok && a.cell != 0 && b.cell != 0 {
			return BoolT(a.cell == b.cell && len(a.path) == len(b.path))
		}
		if t, ok := vb.(*Term); ok && a.cell != 0 {
			if t.IsLit() {
				return False()
			}
		}
	}
	if b, ok := vb.(*Addr); ok && b.cell != 0 {
		if t, ok := va.(*Term); ok && t.IsLit() {
			return False()
		}
	}
	a, b := x.asTerm(st, va, ta), x.asTerm(st, vb, tb)
	if a.Sort != b.Sort {
		// interface against a concrete value
		if a.Sort == SAny {
			b = x.makeInterface(st, b, tb)
		} else if b.Sort == SAny {
			a = x.makeInterface(st, a, ta)
		}
	}
	if isFloat(ta) && isFloat(tb) {
		return feq(a, b)
	}
	return x.structEq(st, a, b, ta)
}

func (x *Exec) structEq(st *State, a, b *Term, ty types.Type) *Term {
	if s, ok := ty.Underlying().(*types.Struct); ok && !isOpaque(ty) {
		si := structInfo(ty)
		var cs []*Term
		for i := 0; i < s.NumFields(); i++ {
			cs = append(cs, x.structEq(st, Sel(si.Ctor, i, a), Sel(si.Ctor, i, b), s.Field(i).Type()))
		}
		return And(cs...)
	}
	if isFloat(ty) {
		return feq(a, b)
	}
	if a.Sort == SSlice {
		// only comparison with nil
		if b.Op == sliceCtor.Name && b.Args[0].IsLit() {
			return Eq(Sel(sliceCtor, 0, a), IntT(0))
		}
		if a.Op == sliceCtor.Name && a.Args[0].IsLit() {
			return Eq(Sel(sliceCtor, 0, b), IntT(0))
		}
	}
	if a.Sort == SAny {
		// equality of interfaces holding floats is not the equality of terms
		ca, cb := ctorOf(a), ctorOf(b)
		for i := 0; i < 2; i++ {
			if ca != nil && ca != anyNil && len(ca.Sorts) == 1 && ca.Sorts[0] == SFlt {
				return And(Is(ca, b), feq(a.Args[0], Sel(ca, 0, b)))
			}
			a, b = b, a
			ca, cb = cb, ca
		}
	}
	return Eq(a, b)
}

func (x *Exec) unop(fr *Frame, st *State, ins *ssa.UnOp) Val {
	switch ins.Op {
	case token.MUL:
		if f, ok := x.val(fr, st, ins.X).(setField); ok {
			return setMap{x.asTerm(st, x.load(st, f.a), nil)}
		}
		a := x.addr(fr, st, ins.X)
		if a.heap == "S:" {
			return x.loadStruct(st, a)
		}
		if a.cell != 0 {
			if f, ok := st.cells[a.cell].(forward); ok && len(a.path) == 0 {
				if _, ok := a.root.Underlying().(*types.Struct); ok && !isOpaque(a.root) {
					return x.loadStruct(st, &Addr{heap: "S:", ref: f.ref, root: a.root, typ: a.root})
				}
			}
		}
		return x.load(st, a)
	case token.NOT:
		return Not(x.term(fr, st, ins.X))
	case token.SUB:
		t := x.term(fr, st, ins.X)
		if isFloat(ins.X.Type()) {
			if t.IsLit() {
				s := t.Op[1:]
				if s == "0" {
					return t
				}
				if strings.HasPrefix(s, "-") {
					return FltLit(s[1:])
				}
				return FltLit("-" + s)
			}
			return UF("fneg", SFlt, t)
		}
		return x.arith(st, Neg(t), ins.Type())
	}
	x.unsupported("unary operator %s", ins.Op)
	return nil
}

func (x *Exec) slice(fr *Frame, st *State, ins *ssa.Slice) Val {
	opt := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return x.term(fr, st, v)
	}
	switch t := ins.X.Type().Underlying().(type) {
	case *types.Basic:
		s := x.term(fr, st, ins.X)
		lo := opt(ins.Low, IntT(0))
		hi := opt(ins.High, slen(s))
		x.safety(st, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, slen(s))), "string slice out of range", fr.fn, ins.Pos())
		return ssub(s, lo, hi)
	case *types.Slice:
		s := x.term(fr, st, ins.X)
		l := Sel(sliceCtor, 2, s)
		lo := opt(ins.Low, IntT(0))
		hi := opt(ins.High, l)
		// within the length (the capacity is not modelled)
		x.safety(st, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, l)), "slice out of range", fr.fn, ins.Pos())
		return MkCtor(sliceCtor, Sel(sliceCtor, 0, s), Add(Sel(sliceCtor, 1, s), lo), Sub(hi, lo))
	case *types.Pointer:
		a := x.addr(fr, st, ins.X)
		arr := t.Elem().Underlying().(*types.Array)
		if a.arrN == 0 {
			x.unsupported("slice of an array that is not a local")
		}
		lo := opt(ins.Low, IntT(0))
		hi := opt(ins.High, IntT(arr.Len()))
		x.safety(st, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, IntT(arr.Len()))), "slice out of range", fr.fn, ins.Pos())
		return MkCtor(sliceCtor, a.ref, lo, Sub(hi, lo))
	}
	x.unsupported("slice of %s", ins.X.Type())
	return nil
}

func ssub(s, lo, hi *Term) *Term {
	if v, ok := s.StrVal(); ok {
		if a, ok := lo.Lit(); ok {
			if b, ok := hi.Lit(); ok && a >= 0 && a <= b && b <= int64(len(v)) {
				return StrLit(v[a:b])
			}
		}
	}
	if l, ok := lo.Lit(); ok && l == 0 && hi == slen(s) {
		return s
	}
	return UF("ssub", SStr, s, lo, hi)
}

func (x *Exec) assertType(st *State, v *Term, ty types.Type) (*Term, Val) {
	if it, ok := ty.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return Not(Is(anyNil, v)), v
		}
		return x.implements(st, v, ty, it), v
	}
	c := AnyCtor(ty)
	r := Sel(c, 0, v)
	if !r.bound && v.Op != "ite" {
		x.wf(st, r, ty)
	}
	return Is(c, v), x.closureOr(r)
}

// implements: the dynamic type of v implements the interface
func (x *Exec) implements(st *State, v *Term, ty types.Type, it *types.Interface) *Term {
	if v.Op == "ite" {
		return Ite(v.Args[0], x.implements(st, v.Args[1], ty, it), x.implements(st, v.Args[2], ty, it))
	}
	if c := ctorOf(v); c != nil {
		if c == anyNil {
			return False()
		}
		if t, ok := anyTypes[c.Name]; ok {
			return BoolT(types.Implements(t, it))
		}
	}
	if c, ok := st.ctorF[v]; ok {
		if c == anyNil {
			return False()
		}
		if t, ok := anyTypes[c.Name]; ok {
			return BoolT(types.Implements(t, it))
		}
	}
	if x.p.isValueType(ty) {
		return Or(Is(x.p.ctorRValue, v), Is(x.p.ctorLValue, v))
	}
	name := "impl." + typeName(ty)
	if !isNamed(ty) {
		// an interface without a name of its own is known by its methods
		var ms []string
		for i := 0; i < it.NumMethods(); i++ {
			ms = append(ms, it.Method(i).Name())
		}
		sort.Strings(ms)
		name = "impl.{" + strings.Join(ms, ",") + "}"
	}
	x.p.implIfaces[quote(name)] = it
	return And(Not(Is(anyNil, v)), UF(name, SBool, v))
}

// runeAt is the character at a position of a string, and how long it is
func (x *Exec) runeAt(st *State, s, pos *Term) (r, n *Term) {
	r, n = UF("runeAt", SInt, s, pos), UF("runeLen", SInt, s, pos)
	st.assumeWF(And(Le(IntT(0), r), Le(r, IntT(0x10FFFF))))
	st.assumeWF(And(Le(IntT(1), n), Le(n, IntT(4))))
	st.assumeWF(Or(Not(Lt(pos, slen(s))), Le(Add(pos, n), slen(s))))
	return r, n
}

func (x *Exec) next(fr *Frame, st *State, ins *ssa.Next, k func(*State, Val)) {
	it, ok := x.val(fr, st, ins.Iter).(*MapIter)
	if !ok {
		x.unsupported("iteration over %T", x.val(fr, st, ins.Iter))
	}
	if it.isStr {
		pos := st.cells[it.cell].(*Term)
		st2 := st.clone()
		done := Le(slen(it.str), pos)
		st2.assume(done)
		st2.dec = &pcNode{done, st2.dec, 0}
		k(st2, Tuple{False(), IntT(0), IntT(0)})
		st.assume(Lt(pos, slen(it.str)))
		r, n := x.runeAt(st, it.str, pos)
		x.setCell(st, it.cell, Add(pos, n))
		k(st, Tuple{True(), pos, r})
		return
	}
	if it.set != nil {
		vis := st.cells[it.cell].(*Term)
		st2 := st.clone()
		bv := BoundVar("k", SStr)
		done := Forall([]*Term{bv}, Or(Not(Select(it.set, bv)), Select(vis, bv)))
		st2.assume(done)
		st2.dec = &pcNode{done, st2.dec, 0}
		k(st2, Tuple{False(), ZeroOf(it.kt), ZeroOf(it.vt)})
		key := FreshConst("key", SStr)
		st.assume(Select(it.set, key))
		st.assume(Not(Select(vis, key)))
		x.setCell(st, it.cell, Store(vis, key, True()))
		k(st, Tuple{True(), key, ZeroOf(it.vt)})
		return
	}
	mt := types.NewMap(it.kt, it.vt)
	_, _, d, v := x.mapHeaps(st, mt)
	dom := Select(d, it.ref)
	vis := st.cells[it.cell].(*Term)
	ks := SortOf(it.kt)
	// done
	st2 := st.clone()
	bv := BoundVar("k", ks)
	done := Or(Eq(it.ref, IntT(0)), Forall([]*Term{bv}, Or(Not(Select(dom, bv)), Select(vis, bv))))
	st2.assume(done)
	st2.dec = &pcNode{done, st2.dec, 0}
	k(st2, Tuple{False(), ZeroOf(it.kt), ZeroOf(it.vt)})
	key := FreshConst("key", ks)
	x.wf(st, key, it.kt)
	st.assume(Not(Eq(it.ref, IntT(0))))
	st.assume(Select(dom, key))
	st.assume(Not(Select(vis, key)))
	x.setCell(st, it.cell, Store(vis, key, True()))
	val := Select(Select(v, it.ref), key)
	x.wf(st, val, it.vt)
	if x.p.isValueType(it.vt) {
		x.nonNilValue(st, val)
	}
	k(st, Tuple{True(), key, val})
}
