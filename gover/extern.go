package main

import (
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts of the functions outside of the package (assumed)

// assumedExterns records every assumed contract used by a run
var assumedExterns = map[string]string{}

func (x *Exec) freshErr(st *State) *Term {
	e := FreshConst("err", SInt)
	st.assume(Le(IntT(1), e))
	return MkCtor(anyOther, e)
}

func (x *Exec) freshResults(st *State, sig *types.Signature) []Val {
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		ty := sig.Results().At(i).Type()
		r := FreshConst("ext", SortOf(ty))
		x.wf(st, r, ty)
		res = append(res, r)
	}
	return res
}

func (x *Exec) extern(fr *Frame, st *State, f *ssa.Function, args []Val, k Cont) {
	full := f.RelString(x.p.pkg.Pkg)
	sig := f.Signature
	note := func(kind string) { assumedExterns[full] = kind }
	term := func(i int) *Term { return x.asTerm(st, args[i], nil) }
	pure := func(name string) {
		note("pure function of its arguments")
		k(st, x.pureCall(st, name, sig, args))
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	switch lpgName(full) {
	case "errors.New", "fmt.Errorf":
		note("returns a non-nil error")
		k(st, one(x.freshErr(st)))
		return
	case "errors.Is":
		note("reflexive, false for nil")
		k(st, one(UF("errIs", SBool, term(0), term(1))))
		return
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "strings.Join":
		note("returns an arbitrary string")
		k(st, x.freshResults(st, sig))
		return
	case "fmt.Print", "fmt.Println", "fmt.Printf":
		note("no effect on the program state")
		k(st, x.freshResults(st, sig))
		return
	case "time.Now":
		note("returns an arbitrary time")
		k(st, x.freshResults(st, sig))
		return
	case "(time.Time).Equal":
		note("equality of instants")
		k(st, one(UF("tequal", SBool, term(0), term(1))))
		return
	case "(time.Time).Before":
		note("order of instants")
		k(st, one(UF("tbefore", SBool, term(0), term(1))))
		return
	case "(time.Time).After":
		note("order of instants")
		k(st, one(UF("tbefore", SBool, term(1), term(0))))
		return
	case "math.IsNaN":
		k(st, one(Not(feq(term(0), term(0)))))
		return
	case "math.Inf":
		if n, ok := term(0).Lit(); ok {
			_ = n
		}
		pure("math.Inf")
		return
	case "strings.ToUpper", "strings.ToLower":
		if s, ok := term(0).StrVal(); ok {
			if full == "strings.ToUpper" {
				s = strings.ToUpper(s)
			} else {
				s = strings.ToLower(s)
			}
			k(st, one(StrLit(s)))
			return
		}
		pure(full)
		return
	case "strconv.Itoa":
		if n, ok := term(0).Lit(); ok {
			k(st, one(StrLit(strconv.FormatInt(n, 10))))
			return
		}
		pure(full)
		return
	case "unicode.IsDigit":
		note("for a Latin-1 character: '0' to '9'")
		r := term(0)
		u := UF("unicode.IsDigit", SBool, r)
		st.assume(Or(Lt(r, IntT(0)), Le(IntT(256), r), Eq(u, And(Le(IntT('0'), r), Le(r, IntT('9'))))))
		k(st, one(u))
		return
	case "strings.HasPrefix":
		note("prefix test: s[:len(p)] == p")
		s, p := term(0), term(1)
		k(st, one(And(Le(slen(p), slen(s)), Eq(ssub(s, IntT(0), slen(p)), p))))
		return
	case "strings.HasSuffix":
		note("suffix test: s[len(s)-len(p):] == p")
		s, p := term(0), term(1)
		k(st, one(And(Le(slen(p), slen(s)), Eq(ssub(s, Sub(slen(s), slen(p)), slen(s)), p))))
		return
	case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).WriteString", "(*strings.Builder).String", "(*strings.Builder).Len", "(*strings.Builder).Grow", "(*strings.Builder).Reset":
		note("append-only string buffer")
		x.builder(st, f.Name(), args, sig, k)
		return
	case "lpg.NewStringSet", "(lpg.StringSet).Has", "(lpg.StringSet).Clone", "(*lpg.StringSet).Add", "(*lpg.StringSet).AddSet", "(*lpg.StringSet).Remove", "(lpg.StringSet).Len", "(lpg.StringSet).Slice":
		note("operation on a mathematical set of strings")
		x.stringSet(st, f.Name(), args, sig, k)
		return
	}
	_ = math.Pi
	switch pkg {
	case "strings", "strconv", "math", "unicode", "unicode/utf8", "math/bits", "math/big", "cmp":
		for _, a := range args {
			if t, ok := a.(*Term); ok && t.Sort == SSlice {
				x.unsupported("slice argument of %s", full)
			}
		}
		pure(full)
		x.externFacts(st, full)
		return
	case "time":
		pure(full)
		return
	case "reflect":
		if full == "reflect.TypeOf" {
			note("the dynamic type")
			k(st, one(MkCtor(anyOther, x.typeID(st, term(0)))))
			return
		}
	}
	if strings.Contains(pkg, "antlr") || strings.HasSuffix(pkg, "/parser") {
		note("parse tree accessor: pure")
		k(st, x.pureCall(st, "pt."+f.Name()+"@"+recvName(f), sig, args))
		return
	}
	if strings.Contains(pkg, "cloudprivacylabs/lpg") {
		note("graph operation: a function of its arguments and of the graph")
		x.effectCall(st, "lpg."+full, sig, args, lpgMutates(f.Name()), k)
		return
	}
	x.unsupported("external function %s", full)
}

func (x *Exec) externFacts(st *State, name string) {}

func recvName(f *ssa.Function) string {
	if f.Signature.Recv() == nil {
		return ""
	}
	return typeName(f.Signature.Recv().Type())
}

func lpgMutates(n string) bool {
	for _, p := range []string{"Get", "Num", "Has", "Len", "Slice", "ForEach", "Clone", "String", "Node", "Edge", "IsEmpty", "First", "Last"} {
		if strings.HasPrefix(n, p) {
			return false
		}
	}
	return true
}

func (x *Exec) typeID(st *State, v *Term) *Term {
	if v.Op == "ite" {
		return Ite(v.Args[0], x.typeID(st, v.Args[1]), x.typeID(st, v.Args[2]))
	}
	c := ctorOf(v)
	if c == nil {
		c = st.ctorF[v]
	}
	if c != nil && c != anyOther {
		for i, n := range sortedKeys(anyTypes) {
			if n == c.Name {
				return IntT(int64(-1000000 - i))
			}
		}
	}
	return UF("typeid", SInt, v)
}

// strings.Builder: its content is in the heap SB:
func (x *Exec) builder(st *State, m string, args []Val, sig *types.Signature, k Cont) {
	get := func() *Term {
		if a, ok := args[0].(*Addr); ok && a.cell != 0 && len(a.path) == 0 {
			return x.bufferOf(st, a.cell)
		}
		x.unsupported("strings.Builder that is not a local variable")
		return nil
	}
	put := func(s *Term) {
		a := args[0].(*Addr)
		x.setCell(st, a.cell, sbuf{s})
	}
	switch m {
	case "WriteString":
		s := x.asTerm(st, args[1], nil)
		put(scat(get(), s))
		k(st, []Val{slen(s), NilAny()})
	case "WriteByte":
		put(scat(get(), b2s(st.lit(args[1].(*Term)))))
		k(st, one(NilAny()))
	case "WriteRune":
		r := r2s(st.lit(args[1].(*Term)))
		put(scat(get(), r))
		k(st, []Val{slen(r), NilAny()})
	case "String":
		k(st, one(get()))
	case "Len":
		k(st, one(slen(get())))
	case "Grow":
		k(st, nil)
	case "Reset":
		put(StrLit(""))
		k(st, nil)
	default:
		x.unsupported("strings.Builder.%s", m)
	}
}

type sbuf struct{ s *Term }

// bufferOf is the content of a strings.Builder
func (x *Exec) bufferOf(st *State, cell int) *Term {
	if b, ok := st.cells[cell].(sbuf); ok {
		return b.s
	}
	return StrLit("")
}

// lit is the literal that a term is known to be
func (st *State) lit(t *Term) *Term {
	if l, ok := st.litF[t]; ok {
		return l
	}
	return t
}

func b2s(t *Term) *Term {
	if n, ok := t.Lit(); ok && n >= 0 && n < 256 {
		return StrLit(string([]byte{byte(n)}))
	}
	return UF("b2s", SStr, t)
}

func r2s(t *Term) *Term {
	if n, ok := t.Lit(); ok && n >= 0 && n < 0x110000 {
		return StrLit(string(rune(n)))
	}
	return UF("rune2s", SStr, t)
}

func (x *Exec) setLen(st *State, set *Term) *Term {
	n := UF("stringset.len", SInt, set)
	st.assume(Le(IntT(0), n))
	st.assume(Le(n, BigT(maxLen)))
	st.assume(Eq(Eq(n, IntT(0)), Eq(set, ConstArr(set.Sort, False()))))
	return n
}

// setOf is the set of the elements of a list of strings
func (x *Exec) setOf(st *State, t *Term) *Term {
	_, h := x.elemHeap(st, types.Typ[types.String])
	return UF("stringset.of", arrSort(SStr, SBool), Select(h, Sel(sliceCtor, 0, t)), Sel(sliceCtor, 1, t), Sel(sliceCtor, 2, t))
}

// stringSet: lpg.StringSet is a set of strings
func (x *Exec) stringSet(st *State, m string, args []Val, sig *types.Signature, k Cont) {
	elems := func(v Val) []*Term {
		t := x.asTerm(st, v, nil)
		n, ok := st.simp(Sel(sliceCtor, 2, t)).Lit()
		if !ok {
			x.unsupported("StringSet.%s of a slice of unknown length", m)
		}
		var out []*Term
		_, h := x.elemHeap(st, types.Typ[types.String])
		for i := int64(0); i < n; i++ {
			out = append(out, Select(Select(h, Sel(sliceCtor, 0, t)), Add(Sel(sliceCtor, 1, t), IntT(i))))
		}
		return out
	}
	var ptr *Addr
	var set *Term
	if m != "NewStringSet" {
		if a, ok := args[0].(*Addr); ok {
			ptr = a
			set = x.asTerm(st, x.load(st, a), nil)
		} else if t := x.asTerm(st, args[0], nil); t.Sort != SInt {
			set = t
		} else {
			ptr = x.toAddr(nil, st, t, sig.Recv().Type(), 0)
			set = x.asTerm(st, x.load(st, ptr), nil)
		}
	}
	put := func(s *Term, v *Term, es []*Term) *Term {
		for _, e := range es {
			s = Store(s, e, v)
		}
		return s
	}
	switch m {
	case "NewStringSet":
		if _, ok := st.simp(Sel(sliceCtor, 2, x.asTerm(st, args[0], nil))).Lit(); !ok {
			k(st, one(x.setOf(st, x.asTerm(st, args[0], nil))))
			return
		}
		k(st, one(put(ConstArr(arrSort(SStr, SBool), False()), True(), elems(args[0]))))
	case "Has":
		k(st, one(Select(set, x.asTerm(st, args[1], nil))))
	case "Clone":
		k(st, one(set))
	case "Len":
		k(st, one(x.setLen(st, set)))
	case "Slice":
		ref := x.freshRef(st)
		n := x.setLen(st, set)
		t := MkCtor(sliceCtor, ref, IntT(0), n)
		st.assume(Eq(x.setOf(st, t), set))
		k(st, one(t))
	case "AddSet":
		b := x.asTerm(st, args[1], nil)
		r := FreshConst("union", set.Sort)
		bv := BoundVar("k", SStr)
		st.assume(Forall([]*Term{bv}, Eq(Select(r, bv), Or(Select(set, bv), Select(b, bv)))))
		x.store(st, ptr, r)
		k(st, one(args[0]))
	case "Add", "Remove":
		x.store(st, ptr, put(set, BoolT(m == "Add"), elems(args[1])))
		k(st, one(args[0]))
	default:
		x.unsupported("StringSet.%s", m)
	}
}
