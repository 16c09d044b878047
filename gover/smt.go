package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Query asks whether the assumptions imply the goal
type Query struct {
	Assume []*Term
	Goal   *Term
	Text   string
	Status string // unsat: proved
	Solver string
	Model  string
	Time   float64
	full   bool // also the slower solvers
	quick  bool // not for long: one of many candidates
	multi  int  // number of goals whose values are wanted
	gi     []int
}

// Solver is the pool of solver processes
type Solver struct {
	mu       sync.Mutex
	cache    map[[32]byte]*Query
	workers  int
	timeout  time.Duration
	Queries  int
	CPU      float64
	deadline time.Time
	dump     string
}

func newSolver() *Solver {
	return &Solver{cache: map[[32]byte]*Query{}, workers: 8, timeout: 10 * time.Second, deadline: time.Now().Add(24 * time.Hour)}
}

func (x *Exec) query(assume []*Term, goal *Term) *Query {
	q := x.query0(assume, goal)
	if q.Status == "" {
		q.Text = x.smtText(assume, goal)
	}
	return q
}

func (x *Exec) query0(assume []*Term, goal *Term) *Query {
	q := &Query{Assume: assume, Goal: goal}
	if goal.IsTrue() {
		q.Status = "unsat"
		q.Solver = "syntactic"
		return q
	}
	for _, a := range assume {
		if a.IsFalse() || a == Not(goal) && false {
			q.Status = "unsat"
			q.Solver = "syntactic"
			return q
		}
		if a == goal {
			q.Status = "unsat"
			q.Solver = "syntactic"
			return q
		}
	}
	return q
}

// multiQuery asks for several goals at once
func (x *Exec) multiQuery(assume []*Term, goals []*Term) *Query {
	q := x.query0(assume, And(goals...))
	if q.Status == "" {
		q.multi = len(goals)
		q.Text = x.smtTextMulti(assume, goals)
	}
	return q
}

// goalVals are the values of the goals in the model
func (q *Query) goalVals() map[int]bool {
	out := map[int]bool{}
	for _, l := range strings.Split(q.Model, "(") {
		f := strings.Fields(strings.TrimRight(l, ") \n"))
		if len(f) == 2 && strings.HasPrefix(f[0], "goal!") {
			n, err := strconv.Atoi(f[0][5:])
			if err == nil && (f[1] == "true" || f[1] == "false") {
				out[n] = f[1] == "true"
			}
		}
	}
	return out
}

func (s *Solver) solveAll(qs []*Query) {
	var wg sync.WaitGroup
	ch := make(chan *Query)
	n := 0
	for _, q := range qs {
		if q.Status == "" {
			n++
		}
	}
	if n == 0 {
		return
	}
	w := s.workers
	if n < w {
		w = n
	}
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q := range ch {
				s.solve(q)
			}
		}()
	}
	for _, q := range qs {
		if q.Status == "" {
			ch <- q
		}
	}
	close(ch)
	wg.Wait()
}

type backend struct {
	name string
	args func(t time.Duration) []string
}

var backends = []backend{
	{"z3-new", func(t time.Duration) []string {
		return []string{"-in", fmt.Sprintf("-T:%d", int(t.Seconds()+0.5))}
	}},
	{"cvc5", func(t time.Duration) []string {
		return []string{"--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", t.Milliseconds())}
	}},
	{"z3", func(t time.Duration) []string {
		return []string{"-in", fmt.Sprintf("-T:%d", int(t.Seconds()+0.5))}
	}},
}

func (s *Solver) solve(q *Query) {
	h := sha256.Sum256([]byte(q.Text))
	s.mu.Lock()
	if c, ok := s.cache[h]; ok && ((!q.full || c.full) && (q.quick || !c.quick) || c.Status == "unsat" || c.Status == "sat") {
		q.Status, q.Solver, q.Model = c.Status, c.Solver, c.Model
		s.mu.Unlock()
		return
	}
	s.Queries++
	s.mu.Unlock()
	if time.Now().After(s.deadline) {
		q.Status = "timeout"
		return
	}
	start := time.Now()
	for i, b := range backends {
		if i > 0 && !q.full {
			break
		}
		to := s.timeout
		if q.full {
			to *= 2
		} else if q.quick {
			to /= 3
		}
		st, model := runBackend(b, q.Text, to)
		q.Solver = b.name
		q.Status = st
		if model != "" {
			q.Model = model
		}
		if st == "unsat" || st == "sat" {
			break
		}
	}
	q.Time = time.Since(start).Seconds()
	if d := os.Getenv("GOVER_SLOW"); d != "" && q.Time > 1 {
		f := fmt.Sprintf("%s/slow%d.smt2", d, s.Queries)
		os.WriteFile(f, []byte(q.Text), 0644)
		fmt.Fprintf(os.Stderr, "SLOW %.1f %s %s full=%v %s %d\n", q.Time, q.Status, f, q.full, q.Solver, len(q.gi))
	}
	s.mu.Lock()
	s.CPU += q.Time
	s.cache[h] = q
	s.mu.Unlock()
}

func runBackend(b backend, text string, to time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), to+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, b.name, b.args(to)...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	o := strings.TrimSpace(out.String())
	first, rest, _ := strings.Cut(o, "\n")
	switch strings.TrimSpace(first) {
	case "unsat":
		return "unsat", ""
	case "sat":
		return "sat", rest
	case "unknown", "timeout":
		return "unknown", rest
	}
	if strings.Contains(first, "rror") {
		if os.Getenv("GOVER_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, b.name, first)
			os.WriteFile("/tmp/gover_err.smt2", []byte(text), 0644)
		}
		return "error: " + first, ""
	}
	return "unknown", o
}

// smtText serialises a query, with the instances of the background axioms
func (x *Exec) smtText(assume []*Term, goal *Term) string {
	ts := append(append([]*Term{}, assume...), Not(goal))
	sk := newSkolem()
	for i, t := range ts {
		ts[i] = sk.pos(t)
	}
	sk.indices(ts[len(ts)-1])
	sk.instances(ts)
	ts = x.withAxioms(ts)
	return newWriter(x).text(ts, nil)
}

func (x *Exec) smtTextMulti(assume []*Term, goals []*Term) string {
	var gs, ng []*Term
	sk := newSkolem()
	for i, g := range goals {
		c := Const(fmt.Sprintf("goal!%d", i), SBool)
		gs = append(gs, Or(c, sk.pos(Not(g))))
		if !sk.hasQ(g) {
			gs = append(gs, Or(Not(c), g))
		}
		ng = append(ng, Not(c))
	}
	ts := append([]*Term{}, assume...)
	for i, t := range ts {
		ts[i] = sk.pos(t)
	}
	ts = append(ts, gs...)
	ts = append(ts, Or(ng...))
	for _, g := range gs {
		sk.indices(g)
	}
	sk.instances(ts)
	ts = x.withAxioms(ts)
	var cs []*Term
	for i := range goals {
		cs = append(cs, Const(fmt.Sprintf("goal!%d", i), SBool))
	}
	return newWriter(x).text(ts, cs)
}

// skolem replaces quantifiers that assert the existence of something by
// that something, so that the axioms are instantiated for it
type skolem struct {
	memo [2]map[*Term]*Term
	has  map[*Term]bool
	sks  map[string][]*Term
	idx  map[*Term][]*Term // array: indices in the goal
	seen map[*Term]bool
}

// indices notes where the goal looks into arrays
func (s *skolem) indices(t *Term) {
	if s.seen[t] {
		return
	}
	s.seen[t] = true
	for _, a := range t.Args {
		s.indices(a)
	}
	if t.Op == "select" && !t.bound && t.Args[1].Sort == SInt {
		s.idx[t.Args[0]] = append(s.idx[t.Args[0]], t.Args[1])
	}
}

// matches are the values of v for which the body looks at an array where
// the goal does
func (s *skolem) matches(v, body *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.bound || seen[t] || t.Op == "forall" {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		if t.Op != "select" || t.Args[0].bound {
			return
		}
		at := Subst(t.Args[1], map[*Term]*Term{v: IntT(0)})
		if at.bound || Add(at, v) != t.Args[1] {
			return
		}
		for _, i := range s.idx[t.Args[0]] {
			d := Sub(i, at)
			dup := false
			for _, o := range out {
				if o == d {
					dup = true
				}
			}
			if !dup && len(out) < 8 {
				out = append(out, d)
			}
		}
	}
	rec(body)
	return out
}

func (s *skolem) add(c *Term) {
	for _, o := range s.sks[c.Sort] {
		if o == c {
			return
		}
	}
	s.sks[c.Sort] = append(s.sks[c.Sort], c)
}

// instances adds the instances of the universal facts at the things that
// the negated goal asserts to exist
func (s *skolem) instances(ts []*Term) {
	if len(s.sks) == 0 && len(s.idx) == 0 {
		return
	}
	memo := map[*Term]*Term{}
	for i, t := range ts {
		ts[i] = s.instance(t, memo)
	}
}

func (s *skolem) instance(t *Term, memo map[*Term]*Term) *Term {
	if !s.hasQ(t) || t.bound {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	switch t.Op {
	case "and", "or":
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = s.instance(a, memo)
		}
		if t.Op == "and" {
			r = And(as...)
		} else {
			r = Or(as...)
		}
	case "ite":
		if !s.hasQ(t.Args[0]) {
			r = Ite(t.Args[0], s.instance(t.Args[1], memo), s.instance(t.Args[2], memo))
		}
	case "forall":
		if len(t.Args) != 2 {
			break
		}
		v := t.Args[0]
		cs := s.sks[v.Sort]
		if len(cs) > 6 {
			cs = cs[:6]
		}
		cs = cs[:len(cs):len(cs)]
		if v.Sort == SInt {
		next:
			for _, m := range s.matches(v, t.Args[1]) {
				for _, c := range cs {
					if c == m {
						continue next
					}
				}
				cs = append(cs, m)
			}
		}
		as := []*Term{t}
		for _, c := range cs {
			as = append(as, Subst(t.Args[1], map[*Term]*Term{v: c}))
		}
		r = And(as...)
	}
	memo[t] = r
	return r
}

func newSkolem() *skolem {
	return &skolem{memo: [2]map[*Term]*Term{{}, {}}, has: map[*Term]bool{}, sks: map[string][]*Term{}, idx: map[*Term][]*Term{}, seen: map[*Term]bool{}}
}

func (s *skolem) hasQ(t *Term) bool {
	if t.Op == "forall" {
		return true
	}
	if len(t.Args) == 0 || t.Sort != SBool {
		return false
	}
	if h, ok := s.has[t]; ok {
		return h
	}
	h := false
	for _, a := range t.Args {
		if s.hasQ(a) {
			h = true
			break
		}
	}
	s.has[t] = h
	return h
}

func (s *skolem) pos(t *Term) *Term { return s.walk(t, 1) }

func (s *skolem) walk(t *Term, p int) *Term {
	if !s.hasQ(t) {
		return t
	}
	if r, ok := s.memo[p][t]; ok {
		return r
	}
	r := t
	switch t.Op {
	case "not":
		r = Not(s.walk(t.Args[0], 1-p))
	case "and", "or":
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = s.walk(a, p)
		}
		if t.Op == "and" {
			r = And(as...)
		} else {
			r = Or(as...)
		}
	case "ite":
		c, a, b := t.Args[0], t.Args[1], t.Args[2]
		if !s.hasQ(c) {
			r = Ite(c, s.walk(a, p), s.walk(b, p))
			break
		}
		r = And(Or(s.walk(Not(c), p), s.walk(a, p)), Or(s.walk(c, p), s.walk(b, p)))
	case "forall":
		if p == 1 || t.bound {
			break
		}
		n := len(t.Args) - 1
		m := map[*Term]*Term{}
		for _, v := range t.Args[:n] {
			m[v] = Const(fmt.Sprintf("sk!%d!%s", t.id, strings.Trim(v.Op, "|")), v.Sort)
			s.add(m[v])
		}
		r = s.walk(Subst(t.Args[n], m), p)
	}
	s.memo[p][t] = r
	return r
}

func newWriter(x *Exec) *smtWriter {
	return &smtWriter{x: x, names: map[*Term]string{}, refs: map[*Term]int{}, sorts: map[string]bool{}, anys: map[*Ctor]bool{}, decl: map[string]bool{}}
}

type smtWriter struct {
	x      *Exec
	names  map[*Term]string
	refs   map[*Term]int
	sorts  map[string]bool
	anys   map[*Ctor]bool
	decl   map[string]bool
	decls  strings.Builder
	body   strings.Builder
	strs   []*Term
	flts   []*Term
	nvirt  int
	virtC  map[*Term]string
	nextID int
}

func (w *smtWriter) count(t *Term) {
	w.refs[t]++
	if w.refs[t] > 1 {
		return
	}
	for _, a := range t.Args {
		w.count(a)
	}
	w.note(t)
}

func (w *smtWriter) note(t *Term) {
	w.sorts[t.Sort] = true
	if c := ctors[t.Op]; c != nil && c.Sort == SAny {
		w.anys[c] = true
	}
	if s, ok := selectors[t.Op]; ok && s.c.Sort == SAny {
		w.anys[s.c] = true
	}
	if strings.HasPrefix(t.Op, "is:") {
		w.anys[ctors[t.Op[3:]]] = true
	}
	if _, ok := t.StrVal(); ok {
		w.strs = append(w.strs, t)
	}
	if t.Sort == SFlt && t.Op[0] == '~' {
		w.flts = append(w.flts, t)
	}
	if d, ok := B.decls[t.Op]; ok && !w.decl[t.Op] {
		w.decl[t.Op] = true
		for _, a := range d.Args {
			w.sorts[a] = true
		}
		w.sorts[d.Res] = true
		fmt.Fprintf(&w.decls, "(declare-fun %s (%s) %s)\n", t.Op, strings.Join(d.Args, " "), d.Res)
	}
}

func (w *smtWriter) text(ts []*Term, vals []*Term) string {
	w.virtC = map[*Term]string{}
	for _, t := range ts {
		w.count(t)
	}
	// literals
	var lits strings.Builder
	declLit := func(l []*Term, pfx, srt string) {
		if len(l) == 0 {
			return
		}
		var ns []string
		for _, t := range l {
			w.nextID++
			n := fmt.Sprintf("%s!%d", pfx, w.nextID)
			w.names[t] = n
			fmt.Fprintf(&lits, "(declare-fun %s () %s) ; %q\n", n, srt, t.Op)
			ns = append(ns, n)
		}
		if len(ns) > 1 {
			fmt.Fprintf(&lits, "(assert (distinct %s))\n", strings.Join(ns, " "))
		}
	}
	declLit(w.strs, "str", SStr)
	declLit(w.flts, "fltl", SFlt)
	var sb strings.Builder
	for _, t := range ts {
		s := w.ref(t)
		fmt.Fprintf(&w.body, "(assert %s)\n", s)
	}
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	sb.WriteString("(declare-sort World 0)\n")
	delete(w.sorts, "World")
	sb.WriteString(datatypeDecls(w.sorts, w.anys))
	sb.WriteString(w.decls.String())
	sb.WriteString(lits.String())
	sb.WriteString(w.body.String())
	if vals != nil {
		sb.WriteString("(check-sat)\n(get-value (")
		for _, v := range vals {
			sb.WriteString(v.Op + " ")
		}
		sb.WriteString("))\n")
	} else {
		sb.WriteString("(check-sat)\n(get-model)\n")
	}
	return sb.String()
}

// ref returns the text of a term; shared closed terms get a name
func (w *smtWriter) ref(t *Term) string {
	if n, ok := w.names[t]; ok {
		return n
	}
	if len(t.Args) == 0 {
		return w.render(t)
	}
	if !t.bound && w.refs[t] > 1 && t.Op != "forall" {
		s := w.render(t)
		w.nextID++
		n := fmt.Sprintf("d!%d", w.nextID)
		w.names[t] = n
		fmt.Fprintf(&w.body, "(define-fun %s () %s %s)\n", n, t.Sort, s)
		return n
	}
	return w.render(t)
}

func smtInt(op string) string {
	if strings.HasPrefix(op, "-") {
		return "(- " + op[1:] + ")"
	}
	return op
}

func (w *smtWriter) render(t *Term) string {
	switch {
	case t.Op[0] == '#':
		return smtInt(t.Op[1:])
	case strings.HasPrefix(t.Op, "is:"):
		return "((_ is " + t.Op[3:] + ") " + w.ref(t.Args[0]) + ")"
	}
	switch t.Op {
	case "true", "false":
		return t.Op
	case "-1*":
		return "(- " + w.ref(t.Args[0]) + ")"
	case "constarr":
		return "((as const " + t.Sort + ") " + w.ref(t.Args[0]) + ")"
	case "hv", "shift":
		return w.virtual(t)
	case "forallp":
		var vs []string
		n := len(t.Args) - 2
		for _, v := range t.Args[:n] {
			vs = append(vs, "("+v.Op+" "+v.Sort+")")
		}
		return "(forall (" + strings.Join(vs, " ") + ") (! " + w.ref(t.Args[n+1]) + " :pattern (" + w.ref(t.Args[n]) + ")))"
	case "forall":
		var vs []string
		n := len(t.Args) - 1
		for _, v := range t.Args[:n] {
			vs = append(vs, "("+v.Op+" "+v.Sort+")")
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + w.ref(t.Args[n]) + ")"
	}
	if len(t.Args) == 0 {
		return t.Op
	}
	var sb strings.Builder
	sb.WriteString("(" + t.Op)
	for _, a := range t.Args {
		sb.WriteByte(' ')
		sb.WriteString(w.ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

// virtual gives a name to an array that is used as a whole
func (w *smtWriter) virtual(t *Term) string {
	if t.bound {
		panic(Unsupported{"array view under a quantifier"})
	}
	if n, ok := w.virtC[t]; ok {
		return n
	}
	w.nextID++
	n := fmt.Sprintf("va!%d", w.nextID)
	w.virtC[t] = n
	fmt.Fprintf(&w.body, "(declare-fun %s () %s)\n", n, t.Sort)
	if t.Op == "shift" {
		fmt.Fprintf(&w.body, "(assert (forall ((i Int)) (! (= (select %s i) (select %s (+ i %s))) :pattern ((select %s i)))))\n", n, w.ref(t.Args[0]), w.ref(t.Args[1]), n)
	} else {
		fmt.Fprintf(&w.body, "(assert (forall ((i Int)) (! (= (select %s i) (ite (< i %s) (select %s i) (select %s i))) :pattern ((select %s i)))))\n", n, w.ref(t.Args[2]), w.ref(t.Args[1]), w.ref(t.Args[0]), n)
	}
	return n
}

// ---- background axioms, instantiated on the ground terms of the query

func recName(op string) (string, bool) {
	s := strings.Trim(op, "|")
	if strings.HasPrefix(s, "rec.") {
		return s, true
	}
	return "", false
}

type axiomatizer struct {
	x     *Exec
	out   []*Term
	have  map[*Term]bool
	seen  map[*Term]bool
	level map[*Term]int
	queue []*Term
	order []*Term
	evs   map[*Term][]*Term
	keyS  map[*Term]bool
	keyF  map[*Term]bool
	times map[*Term]bool
	slits map[*Term]bool
	i2fs  map[*Term]bool
	impl  map[*Term]bool
	strs  map[*Term]bool
	unf   map[*Term]bool
}

func (x *Exec) withAxioms(ts []*Term) []*Term {
	a := &axiomatizer{x: x, have: map[*Term]bool{}, seen: map[*Term]bool{}, level: map[*Term]int{}, evs: map[*Term][]*Term{},
		keyS: map[*Term]bool{}, keyF: map[*Term]bool{}, times: map[*Term]bool{}, slits: map[*Term]bool{}, i2fs: map[*Term]bool{}, impl: map[*Term]bool{}, strs: map[*Term]bool{}, unf: map[*Term]bool{}}
	for _, t := range ts {
		a.add(t, 0)
	}
	for len(a.queue) > 0 {
		t := a.queue[0]
		a.queue = a.queue[1:]
		a.inst(t, a.level[t])
	}
	a.pairs()
	// sequences
	var sq []seqView
	for _, v := range x.seqs {
		if a.seen[v.c] {
			sq = append(sq, v)
		}
	}
	for i, p := range sq {
		for _, q := range sq[:i] {
			if p.arr.Sort != q.arr.Sort {
				continue
			}
			k := Const(fmt.Sprintf("sk!%s!%s", p.c.Op, q.c.Op), SInt)
			a.add(Or(Eq(p.c, q.c), Not(Eq(p.len, q.len)), And(Le(IntT(0), k), Lt(k, p.len), Not(Eq(Select(p.arr, Add(p.off, k)), Select(q.arr, Add(q.off, k)))))), 9)
		}
	}
	// functions of prefixes
	if !x.noPrefix {
		var ps []*Term
		for _, t := range a.order {
			if x.prefixApp(t) {
				ps = append(ps, t)
			}
		}
		for i, p := range ps {
			for _, q := range ps[:i] {
				if p.Op == q.Op && p.Args[0] != q.Args[0] {
					a.add(prefixFact(p, q), 9)
				}
			}
		}
	}
	// terms under quantifiers: the axioms have to be quantified too
	if x.quantAx && (a.seenBound("vget") || a.seenBound("vconst")) {
		v, w := BoundVar("v", SAny), BoundVar("w", "World")
		si := structInfo(x.p.tRValue)
		rc := x.p.ctorRValue
		g := mk("vget", SAny, v, w)
		B.decls["vget"] = Decl{Args: []string{SAny, "World"}, Res: SAny}
		a.out = append(a.out, forallPat([]*Term{v, w}, g, Implies(Is(rc, v), Eq(g, Sel(si.Ctor, 0, Sel(rc, 0, v))))))
		c := mk("vconst", SBool, v)
		B.decls["vconst"] = Decl{Args: []string{SAny}, Res: SBool}
		a.out = append(a.out, forallPat([]*Term{v}, c, Implies(Is(rc, v), Eq(c, Sel(si.Ctor, 1, Sel(rc, 0, v))))))
	}
	// pairs may have introduced new terms
	for len(a.queue) > 0 {
		t := a.queue[0]
		a.queue = a.queue[1:]
		a.inst(t, a.level[t])
	}
	return a.out
}

// add an assertion and visit its terms
func (a *axiomatizer) add(t *Term, level int) {
	if t.IsTrue() || a.have[t] {
		return
	}
	a.have[t] = true
	a.out = append(a.out, t)
	a.visit(t, level)
}

func (a *axiomatizer) visit(t *Term, level int) {
	if a.seen[t] {
		return
	}
	a.seen[t] = true
	for _, s := range t.Args {
		a.visit(s, level)
	}
	if !t.bound {
		a.order = append(a.order, t)
		a.level[t] = level
		a.queue = append(a.queue, t)
	}
}

func fkey(t *Term) *Term  { return UF("fkey", SInt, t) }
func fnan(t *Term) *Term  { return UF("fnan", SBool, t) }
func skey(t *Term) *Term  { return UF("skey", SInt, t) }
func tinst(t *Term) *Term { return UF("tinst", SInt, t) }

func (a *axiomatizer) inst(t *Term, lv int) {
	x := a.x
	add := func(ts ...*Term) {
		for _, t := range ts {
			a.add(t, lv)
		}
	}
	if len(t.Args) == 0 {
		if v, ok := t.StrVal(); ok {
			a.slits[t] = true
			_ = v
		}
		return
	}
	switch t.Op {
	case "feq":
		p, q := t.Args[0], t.Args[1]
		a.keyF[p], a.keyF[q] = true, true
		add(Eq(t, And(Not(fnan(p)), Not(fnan(q)), Eq(fkey(p), fkey(q)))))
		return
	case "flt":
		p, q := t.Args[0], t.Args[1]
		a.keyF[p], a.keyF[q] = true, true
		add(Eq(t, And(Not(fnan(p)), Not(fnan(q)), Lt(fkey(p), fkey(q)))))
		return
	case "fkey", "fnan":
		a.keyF[t.Args[0]] = true
		return
	case "i2f":
		a.i2fs[t] = true
		add(Not(fnan(t)))
		return
	case "fadd", "fmul", "imul":
		// commutative
		add(Eq(t, UF(t.Op, t.Sort, t.Args[1], t.Args[0])))
		if t.Op == "imul" {
			// small multiples of small numbers
			for i := range t.Args {
				if n, ok := t.Args[i].IntLit(); ok && n.IsInt64() && 2 <= n.Int64() && n.Int64() <= 16 {
					p, lim := t.Args[1-i], BigT(maxLen)
					add(Implies(And(Le(Neg(lim), p), Le(p, lim)), Eq(t, mk("*", SInt, t.Args[i], p))))
				}
			}
		}
		return
	case "fneg":
		add(Eq(fnan(t), fnan(t.Args[0])), Implies(Not(fnan(t)), Eq(fkey(t), Neg(fkey(t.Args[0])))))
		return
	case "slt":
		p, q := t.Args[0], t.Args[1]
		a.keyS[p], a.keyS[q] = true, true
		add(Eq(t, Lt(skey(p), skey(q))))
		return
	case "slen":
		add(Le(IntT(0), t), Le(t, BigT(maxLen)), Eq(Eq(t, IntT(0)), Eq(t.Args[0], StrLit(""))))
		return
	case "scat":
		add(Eq(slen(t), Add(slen(t.Args[0]), slen(t.Args[1]))))
		add(Implies(Eq(t.Args[0], StrLit("")), Eq(t, t.Args[1])), Implies(Eq(t.Args[1], StrLit("")), Eq(t, t.Args[0])))
		return
	case "ssub":
		s, lo, hi := t.Args[0], t.Args[1], t.Args[2]
		add(Implies(And(Le(IntT(0), lo), Le(lo, hi), Le(hi, slen(s))), Eq(slen(t), Sub(hi, lo))))
		add(Implies(And(Eq(lo, IntT(0)), Eq(hi, slen(s))), Eq(t, s)))
		return
	case "tbefore":
		p, q := t.Args[0], t.Args[1]
		add(Eq(t, Lt(tinst(p), tinst(q))))
		return
	case "tequal":
		p, q := t.Args[0], t.Args[1]
		add(Eq(t, Eq(tinst(p), tinst(q))))
		return
	case "vget":
		v := t.Args[0]
		si := structInfo(x.p.tRValue)
		rc := x.p.ctorRValue
		add(Implies(Is(rc, v), Eq(t, Sel(si.Ctor, 0, Sel(rc, 0, v)))))
		return
	case "vconst":
		v := t.Args[0]
		si := structInfo(x.p.tRValue)
		rc := x.p.ctorRValue
		add(Implies(Is(rc, v), Eq(t, Sel(si.Ctor, 1, Sel(rc, 0, v)))))
		add(Implies(Is(x.p.ctorLValue, v), Not(t)))
		return
	case "ev_val", "ev_err":
		e, c, w := t.Args[0], t.Args[1], t.Args[2]
		v := UF("ev_val", SAny, e, c, w)
		er := UF("ev_err", SAny, e, c, w)
		for _, o := range a.evs[e] {
			if o == v {
				return
			}
		}
		a.evs[e] = append(a.evs[e], v)
		add(Or(Not(Is(anyNil, er)), Is(x.p.ctorRValue, v), Is(x.p.ctorLValue, v)))
		// an expression that has a constant value in one context has it in all
		kc, kv := UF("ev_isconst", SBool, e), UF("ev_const", SAny, e)
		add(Implies(And(Is(anyNil, er), x.vconst(x.entryState(), v)), kc))
		add(Implies(kc, And(Is(anyNil, er), Eq(v, kv))))
		return
	case "errIs":
		p, q := t.Args[0], t.Args[1]
		add(Implies(Eq(p, q), t), Implies(Is(anyNil, p), Eq(t, Is(anyNil, q))))
		return
	}
	if n, ok := recName(t.Op); ok {
		max := 1
		if x.unit != nil {
			max = x.unit.unfold
		}
		if lv >= max {
			return
		}
		// one unfolding for all results
		k := n[:strings.LastIndexByte(n, '#')]
		key := UF("unfolded."+k, SBool, t.Args...)
		if a.unf[key] {
			return
		}
		a.unf[key] = true
		for _, e := range x.unfold(t) {
			a.add(e, lv+1)
		}
		return
	}
	if it, ok := x.p.implIfaces[t.Op]; ok {
		v := t.Args[0]
		for _, n := range sortedKeys(anyTypes) {
			ty := anyTypes[n]
			add(Implies(Is(ctors[n], v), Eq(t, BoolT(types.Implements(ty, it)))))
		}
		add(Implies(Is(anyNil, v), Not(t)))
	}
}

func (a *axiomatizer) seenBound(op string) bool {
	for t := range a.seen {
		if t.bound && t.Op == op {
			return true
		}
	}
	return false
}

// forallPat is a quantified axiom with a pattern
func forallPat(vars []*Term, pat, body *Term) *Term {
	t := mk("forallp", SBool, append(append([]*Term{}, vars...), pat, body)...)
	t.bound = false
	return t
}

func (a *axiomatizer) pairs() {
	srt := func(m map[*Term]bool) []*Term {
		var l []*Term
		for t := range m {
			l = append(l, t)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		if len(l) > 30 {
			l = l[:30]
		}
		return l
	}
	// strings: the order is total
	ks := srt(a.keyS)
	for i, p := range ks {
		for _, q := range ks[:i] {
			if v, ok := p.StrVal(); ok {
				if w, ok := q.StrVal(); ok {
					if v < w {
						a.add(Lt(skey(p), skey(q)), 9)
					} else {
						a.add(Lt(skey(q), skey(p)), 9)
					}
					continue
				}
			}
			a.add(Eq(Eq(p, q), Eq(skey(p), skey(q))), 9)
		}
	}
	hasLen, hasAt := a.seenOp("slen"), a.seenOp("sat")
	hasRune, hasByte := a.seenOp("rune2s"), a.seenOp("b2s")
	for _, t := range srt(a.slits) {
		v, _ := t.StrVal()
		if hasLen {
			a.add(Eq(mk("slen", SInt, t), IntT(int64(len(v)))), 9)
			B.decls["slen"] = Decl{Args: []string{SStr}, Res: SInt}
		}
		if rs := []rune(v); hasRune && len(rs) == 1 && string(rs) == v {
			a.add(Eq(mk("rune2s", SStr, IntT(int64(rs[0]))), t), 9)
		}
		if hasByte && len(v) == 1 {
			a.add(Eq(mk("b2s", SStr, IntT(int64(v[0]))), t), 9)
		}
		for i := 0; hasAt && i < len(v) && len(v) <= 4; i++ {
			a.add(Eq(mk("sat", SInt, t, IntT(int64(i))), IntT(int64(v[i]))), 9)
		}
	}
	fs := srt(a.keyF)
	val := func(t *Term) *big.Rat {
		if t.Op[0] == '~' {
			r, ok := new(big.Rat).SetString(t.Op[1:])
			if ok {
				return r
			}
		}
		return nil
	}
	for i, p := range fs {
		vp := val(p)
		if vp == nil {
			continue
		}
		a.add(Not(fnan(p)), 9)
		for _, q := range fs[:i] {
			if vq := val(q); vq != nil {
				switch vp.Cmp(vq) {
				case -1:
					a.add(Lt(fkey(p), fkey(q)), 9)
				case 1:
					a.add(Lt(fkey(q), fkey(p)), 9)
				default:
					a.add(Eq(fkey(p), fkey(q)), 9)
				}
			}
		}
	}
	for t := range a.i2fs {
		if !a.keyF[t] {
			delete(a.i2fs, t)
		}
	}
	is := srt(a.i2fs)
	big53 := big.NewInt(1 << 53)
	small := func(t *Term) *Term { return And(Le(BigT(new(big.Int).Neg(big53)), t), Le(t, BigT(big53))) }
	for i, p := range is {
		for _, q := range is[:i] {
			m, n := p.Args[0], q.Args[0]
			a.add(Implies(Le(m, n), Le(fkey(p), fkey(q))), 9)
			a.add(Implies(Le(n, m), Le(fkey(q), fkey(p))), 9)
			a.add(Implies(And(Lt(m, n), small(m), small(n)), Lt(fkey(p), fkey(q))), 9)
			a.add(Implies(And(Lt(n, m), small(m), small(n)), Lt(fkey(q), fkey(p))), 9)
		}
		for _, q := range fs {
			if v := val(q); v != nil && v.IsInt() && v.Num().CmpAbs(big53) < 0 {
				n := BigT(v.Num())
				m := p.Args[0]
				a.add(Implies(Lt(m, n), Lt(fkey(p), fkey(q))), 9)
				a.add(Implies(Lt(n, m), Lt(fkey(q), fkey(p))), 9)
				a.add(Implies(Eq(n, m), Eq(fkey(q), fkey(p))), 9)
			}
		}
	}
}

func (a *axiomatizer) seenOp(op string) bool {
	for t := range a.seen {
		if t.Op == op {
			return true
		}
	}
	return false
}
