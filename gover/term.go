package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term. Simplification happens at construction.
type Term struct {
	Op   string
	Args []*Term
	Sort string
	id   int
	// maximum creation stamp of the symbols in the term: a term whose
	// stamp is below the stamp of a loop was built before the loop
	stamp int
	// bound variable inside
	bound bool
	// contains an operator that the solvers do not have
	virt bool
}

type TermBank struct {
	tab   map[string]*Term
	n     int
	stamp int
	fresh int
	// declared symbols: name -> (argument sorts, result sort)
	decls map[string]Decl
}

type Decl struct {
	Args []string
	Res  string
}

var B *TermBank

func newBank() *TermBank {
	return &TermBank{tab: map[string]*Term{}, decls: map[string]Decl{}}
}

func (t *Term) ID() int { return t.id }

func mk(op, srt string, args ...*Term) *Term {
	return mkStamp(op, srt, 0, args...)
}

func mkStamp(op, srt string, stamp int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('\x00')
	sb.WriteString(srt)
	for _, a := range args {
		sb.WriteByte('\x00')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := B.tab[k]; ok {
		return t
	}
	B.n++
	t := &Term{Op: op, Args: args, Sort: srt, id: B.n, stamp: stamp}
	for _, a := range args {
		if a.stamp > t.stamp {
			t.stamp = a.stamp
		}
		if a.bound {
			t.bound = true
		}
		if a.virt {
			t.virt = true
		}
	}
	if op == "hv" || op == "shift" {
		t.virt = true
	}
	B.tab[k] = t
	return t
}

// Const declares (or returns) a named constant
func Const(name, srt string) *Term { return constStamp(name, srt, 0) }

func constStamp(name, srt string, stamp int) *Term {
	name = quote(name)
	if d, ok := B.decls[name]; ok {
		if d.Res != srt {
			panic("sort clash for " + name + ": " + d.Res + " vs " + srt)
		}
	} else {
		B.decls[name] = Decl{Res: srt}
	}
	return mkStamp(name, srt, stamp)
}

func FreshConst(prefix, srt string) *Term {
	B.fresh++
	return constStamp(fmt.Sprintf("%s!%d", prefix, B.fresh), srt, B.stamp)
}

func BoundVar(prefix, srt string) *Term {
	B.fresh++
	t := mk(quote(fmt.Sprintf("%s?%d", prefix, B.fresh)), srt)
	t.bound = true
	return t
}

// UF applies an uninterpreted function
func UF(name, res string, args ...*Term) *Term {
	name = quote(name)
	if _, ok := B.decls[name]; !ok {
		d := Decl{Res: res}
		for _, a := range args {
			d.Args = append(d.Args, a.Sort)
		}
		B.decls[name] = d
	} else {
		d := B.decls[name]
		if d.Res != res || len(d.Args) != len(args) {
			panic("UF clash " + name)
		}
		for i := range args {
			if args[i].Sort != d.Args[i] {
				panic(fmt.Sprintf("UF %s arg %d sort %s, expected %s", name, i, args[i].Sort, d.Args[i]))
			}
		}
	}
	return mk(name, res, args...)
}

func quote(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '?') {
			if strings.HasPrefix(s, "|") {
				return s
			}
			return "|" + strings.NewReplacer("|", "/", "\\", "/").Replace(s) + "|"
		}
	}
	return s
}

func True() *Term  { return mk("true", "Bool") }
func False() *Term { return mk("false", "Bool") }
func BoolT(b bool) *Term {
	if b {
		return True()
	}
	return False()
}
func (t *Term) IsTrue() bool  { return t.Op == "true" }
func (t *Term) IsFalse() bool { return t.Op == "false" }

func IntT(n int64) *Term { return BigT(big.NewInt(n)) }
func BigT(n *big.Int) *Term {
	return mk("#"+n.String(), "Int")
}
func (t *Term) IntLit() (*big.Int, bool) {
	if t.Sort == "Int" && t.Op[0] == '#' {
		n, ok := new(big.Int).SetString(t.Op[1:], 10)
		return n, ok
	}
	return nil, false
}
func (t *Term) Lit() (int64, bool) {
	n, ok := t.IntLit()
	if !ok || !n.IsInt64() {
		return 0, false
	}
	return n.Int64(), true
}

// string and float literals
func StrLit(s string) *Term { return mk("$"+s, "Str") }
func (t *Term) StrVal() (string, bool) {
	if t.Sort == "Str" && t.Op[0] == '$' {
		return t.Op[1:], true
	}
	return "", false
}
func FltLit(exact string) *Term { return mk("~"+exact, "Flt") }

func (t *Term) IsLit() bool {
	switch t.Op[0] {
	case '#', '$', '~':
		return true
	}
	return t.Op == "true" || t.Op == "false"
}

// ctor literals: distinct constants of an enumerated kind
func isDistinctValue(a *Term) bool {
	return a.IsLit() || strings.HasPrefix(a.Op, "glob!")
}

func Not(a *Term) *Term {
	switch {
	case a.IsTrue():
		return False()
	case a.IsFalse():
		return True()
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", "Bool", a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x.IsTrue() || seen[x.id] {
			continue
		}
		if x.IsFalse() {
			return x
		}
		if x.Op == "and" {
			for _, y := range x.Args {
				if !seen[y.id] {
					seen[y.id] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x.id] = true
		out = append(out, x)
	}
	for _, x := range out {
		if x.Op == "not" && seen[x.Args[0].id] {
			return False()
		}
	}
	if len(out) == 0 {
		return True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "Bool", out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x.IsFalse() || seen[x.id] {
			continue
		}
		if x.IsTrue() {
			return x
		}
		if x.Op == "or" {
			for _, y := range x.Args {
				if !seen[y.id] {
					seen[y.id] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x.id] = true
		out = append(out, x)
	}
	for _, x := range out {
		if x.Op == "not" && seen[x.Args[0].id] {
			return True()
		}
	}
	if len(out) == 0 {
		return False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "Bool", out...)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s / %s: %s | %s", a.Sort, b.Sort, a, b))
	}
	switch {
	case c.IsTrue() || a == b:
		return a
	case c.IsFalse():
		return b
	case c.Op == "not":
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == "Bool" {
		if a.IsTrue() {
			return Or(c, b)
		}
		if a.IsFalse() {
			return And(Not(c), b)
		}
		if b.IsTrue() {
			return Or(Not(c), a)
		}
		if b.IsFalse() {
			return And(c, a)
		}
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return mk("ite", a.Sort, c, a, b)
}

// datatype constructors are registered here
type Ctor struct {
	Name  string
	Sort  string
	Sels  []string
	Sorts []string
}

func ctorOf(t *Term) *Ctor {
	return ctors[t.Op]
}

func MkCtor(c *Ctor, args ...*Term) *Term {
	if len(args) != len(c.Sels) {
		panic("ctor arity " + c.Name)
	}
	for i, a := range args {
		if a.Sort != c.Sorts[i] {
			panic(fmt.Sprintf("ctor %s arg %d: sort %s, expected %s", c.Name, i, a.Sort, c.Sorts[i]))
		}
	}
	// mk(sel0 x, sel1 x..) = x for single-constructor sorts
	if len(args) > 0 && !strings.HasPrefix(c.Sort, "Any") {
		if args[0].Op == c.Sels[0] && len(args[0].Args) == 1 {
			x := args[0].Args[0]
			ok := true
			for i := range args {
				if args[i].Op != c.Sels[i] || args[i].Args[0] != x {
					ok = false
					break
				}
			}
			if ok {
				return x
			}
		}
	}
	return mk(c.Name, c.Sort, args...)
}

// Sel projects field i
func Sel(c *Ctor, i int, x *Term) *Term {
	if x.Sort != c.Sort {
		panic(fmt.Sprintf("selector %s on sort %s", c.Sels[i], x.Sort))
	}
	if x.Op == c.Name {
		return x.Args[i]
	}
	if x.Op == "ite" {
		if cc := ctorOf(x.Args[1]); cc != nil && cc == c || ctorOf(x.Args[2]) == c || iteHasCtor(x, c) {
			return Ite(x.Args[0], Sel(c, i, x.Args[1]), Sel(c, i, x.Args[2]))
		}
	}
	return mk(c.Sels[i], c.Sorts[i], x)
}

func iteHasCtor(x *Term, c *Ctor) bool {
	if x.Op == "ite" {
		return iteHasCtor(x.Args[1], c) || iteHasCtor(x.Args[2], c)
	}
	return ctorOf(x) != nil
}

// Is tests for a constructor
func Is(c *Ctor, x *Term) *Term {
	if x.Sort != c.Sort {
		panic(fmt.Sprintf("tester %s on sort %s", c.Name, x.Sort))
	}
	if k := ctorOf(x); k != nil {
		return BoolT(k == c)
	}
	if x.Op == "ite" {
		return Ite(x.Args[0], Is(c, x.Args[1]), Is(c, x.Args[2]))
	}
	return mk("is:"+c.Name, "Bool", x)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True()
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s / %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	if a.IsLit() && b.IsLit() {
		return False()
	}
	if a.Op == "world.id" && b.Op == "world.id" {
		// a name of the state of the world
		return Eq(a.Args[0], b.Args[0])
	}
	if a.Sort == "Bool" {
		if a.IsTrue() {
			return b
		}
		if b.IsTrue() {
			return a
		}
		if a.IsFalse() {
			return Not(b)
		}
		if b.IsFalse() {
			return Not(a)
		}
	}
	ca, cb := ctorOf(a), ctorOf(b)
	if ca != nil && cb != nil {
		if ca != cb {
			return False()
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if ca != nil && len(ca.Sels) == 0 && strings.HasPrefix(ca.Sort, "Any") {
		return Is(ca, b)
	}
	if cb != nil && len(cb.Sels) == 0 && strings.HasPrefix(cb.Sort, "Any") {
		return Is(cb, a)
	}
	if a.Op == "ite" && (b.IsLit() || cb != nil) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" && (a.IsLit() || ca != nil) {
		return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
	}
	if a.Sort == "Int" {
		// x+c1 = x+c2
		x1, c1 := splitAdd(a)
		x2, c2 := splitAdd(b)
		if x1 == x2 {
			return BoolT(c1.Cmp(c2) == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "Bool", a, b)
}

// splitAdd returns t as x + c (x nil if literal)
func splitAdd(t *Term) (*Term, *big.Int) {
	if n, ok := t.IntLit(); ok {
		return nil, n
	}
	if t.Op == "+" && len(t.Args) == 2 {
		if n, ok := t.Args[1].IntLit(); ok {
			return t.Args[0], n
		}
	}
	return t, new(big.Int)
}

func Add(a, b *Term) *Term {
	xa, ca := splitAdd(a)
	xb, cb := splitAdd(b)
	c := new(big.Int).Add(ca, cb)
	var x *Term
	switch {
	case xa == nil && xb == nil:
		return BigT(c)
	case xa == nil:
		x = xb
	case xb == nil:
		x = xa
	default:
		if xb.Op == "-1*" && xb.Args[0] == xa || xa.Op == "-1*" && xa.Args[0] == xb {
			return BigT(c)
		}
		if xa.id > xb.id {
			xa, xb = xb, xa
		}
		x = mk("+", "Int", xa, xb)
	}
	if c.Sign() == 0 {
		return x
	}
	return mk("+", "Int", x, BigT(c))
}

func Neg(a *Term) *Term {
	x, c := splitAdd(a)
	nc := BigT(new(big.Int).Neg(c))
	if x == nil {
		return nc
	}
	var nx *Term
	if x.Op == "-1*" {
		nx = x.Args[0]
	} else {
		nx = mk("-1*", "Int", x)
	}
	return Add(nx, nc)
}
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }

func Le(a, b *Term) *Term {
	xa, ca := splitAdd(a)
	xb, cb := splitAdd(b)
	if xa == xb {
		return BoolT(ca.Cmp(cb) <= 0)
	}
	return mk("<=", "Bool", a, b)
}
func Lt(a, b *Term) *Term {
	xa, ca := splitAdd(a)
	xb, cb := splitAdd(b)
	if xa == xb {
		return BoolT(ca.Cmp(cb) < 0)
	}
	return Not(Le(b, a))
}

func arrSort(idx, elem string) string { return "(Array " + idx + " " + elem + ")" }
func arrElem(s string) (string, string) {
	// (Array I E)
	s = s[len("(Array ") : len(s)-1]
	depth := 0
	for i, c := range s {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return s[:i], s[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func Select(a, i *Term) *Term {
	_, e := arrElem(a.Sort)
	for {
		if a.Op == "store" {
			eq := Eq(a.Args[1], i)
			if eq.IsTrue() {
				return a.Args[2]
			}
			if eq.IsFalse() {
				a = a.Args[0]
				continue
			}
			if a.virt {
				return Ite(eq, a.Args[2], Select(a.Args[0], i))
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		if a.Op == "hv" {
			// (hv new old lo): old below lo
			nw, old, lo := a.Args[0], a.Args[1], a.Args[2]
			if i.stamp < nw.stamp {
				a = old
				continue
			}
			c := Lt(i, lo)
			if xi, _ := splitAdd(i); xi != nil && strings.HasPrefix(xi.Op, "alloc") && xi.stamp >= nw.stamp {
				c = False()
			}
			return Ite(c, Select(old, i), Select(nw, i))
		}
		if a.Op == "shift" {
			i = Add(i, a.Args[1])
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
	}
	return mk("select", e, a, i)
}
func Store(a, i, v *Term) *Term {
	idx, e := arrElem(a.Sort)
	if i.Sort != idx || v.Sort != e {
		panic(fmt.Sprintf("store sorts %s <- %s %s", a.Sort, i.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", a.Sort, a, i, v)
}
func ConstArr(sort string, v *Term) *Term { return mk("constarr", sort, v) }

func Forall(vars []*Term, body *Term) *Term {
	if body.IsTrue() {
		return body
	}
	if body.IsFalse() {
		return body
	}
	t := mk("forall", "Bool", append(append([]*Term{}, vars...), body)...)
	t.bound = hasFreeBound(t)
	return t
}

func Exists(vars []*Term, body *Term) *Term { return Not(Forall(vars, Not(body))) }

func hasFreeBound(t *Term) bool {
	memo := map[string]bool{}
	var rec func(t *Term, scope map[*Term]bool) bool
	rec = func(t *Term, scope map[*Term]bool) bool {
		if len(t.Args) == 0 {
			return t.bound && !scope[t]
		}
		if !t.bound && t.Op != "forall" {
			return false
		}
		if t.Op == "forall" {
			ns := map[*Term]bool{}
			for k := range scope {
				ns[k] = true
			}
			for _, v := range t.Args[:len(t.Args)-1] {
				ns[v] = true
			}
			return rec(t.Args[len(t.Args)-1], ns)
		}
		for _, a := range t.Args {
			if rec(a, scope) {
				return true
			}
		}
		return false
	}
	_ = memo
	return rec(t, map[*Term]bool{})
}

// Subst replaces terms
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		return Add(args[0], args[1])
	case "-1*":
		return Neg(args[0])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "hv", "shift":
		return mk(t.Op, t.Sort, args...)
	case "forall":
		return Forall(args[:len(args)-1], args[len(args)-1])
	}
	if c := ctors[t.Op]; c != nil {
		return MkCtor(c, args...)
	}
	if s, ok := selectors[t.Op]; ok {
		return Sel(s.c, s.i, args[0])
	}
	if strings.HasPrefix(t.Op, "is:") {
		return Is(ctors[t.Op[3:]], args[0])
	}
	return mk(t.Op, t.Sort, args...)
}

type selRef struct {
	c *Ctor
	i int
}

var ctors = map[string]*Ctor{}
var selectors = map[string]selRef{}

func RegCtor(name, sort string, sels, sorts []string) *Ctor {
	name = quote(name)
	c := &Ctor{Name: name, Sort: sort, Sorts: sorts}
	for _, s := range sels {
		c.Sels = append(c.Sels, quote(s))
	}
	ctors[name] = c
	for i, s := range c.Sels {
		selectors[s] = selRef{c, i}
	}
	return c
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if len(t.Args) == 0 {
		return t.Op
	}
	if d > 7 {
		return "…"
	}
	var ss []string
	for _, a := range t.Args {
		ss = append(ss, a.str(d+1))
	}
	return "(" + t.Op + " " + strings.Join(ss, " ") + ")"
}

// Walk visits every subterm once
func Walk(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
