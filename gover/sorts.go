package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Go types to SMT sorts.

const (
	SInt   = "Int"
	SBool  = "Bool"
	SStr   = "Str"
	SFlt   = "Flt"
	SAny   = "Any"
	SSlice = "Slice"
	STime  = "Time"
)

var (
	sliceCtor *Ctor
	anyNil    *Ctor
	anyOther  *Ctor
	anyCtors  = map[string]*Ctor{} // type string -> ctor
	anyTypes  = map[string]types.Type{}
	structs   = map[string]*StructInfo{}
)

type StructInfo struct {
	Name string
	Ctor *Ctor
	T    *types.Struct
}

func initSorts() {
	sliceCtor = RegCtor("mkSlice", SSlice, []string{"sl.ref", "sl.off", "sl.len"}, []string{SInt, SInt, SInt})
	anyNil = RegCtor("A.nil", SAny, nil, nil)
	anyOther = RegCtor("A.other", SAny, []string{"other.id"}, []string{SInt})
}

var pkgPath string

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == pkgPath {
			return ""
		}
		return p.Name()
	})
}

func isTimeType(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 3 {
		return false
	}
	return st.Field(0).Name() == "wall" && st.Field(1).Name() == "ext" && st.Field(2).Name() == "loc"
}

// isSet: sets of strings. lpg.StringSet has value semantics: its methods
// never change the map of a set, they replace it
func isSet(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	switch n.Obj().Name() {
	case "vSet":
		return true
	case "StringSet":
		return n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "lpg"
	}
	return false
}

// isSeq: vRows, vNodes and vEdges are sequences of references, by value
func isSeq(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && (n.Obj().Name() == "vRows" || n.Obj().Name() == "vNodes" || n.Obj().Name() == "vEdges" || n.Obj().Name() == "vCtxs")
}

var seqC *Ctor

func seqCtor() *Ctor {
	if seqC == nil {
		seqC = RegCtor("seq.mk", "VSeq", []string{"seq.arr", "seq.len"}, []string{arrSort(SInt, SInt), SInt})
	}
	return seqC
}

// isOpaque: struct types that are not seen as structs
func isOpaque(t types.Type) bool { return isTimeType(t) || isSet(t) || isSeq(t) }

func SortOf(t types.Type) string {
	if isTimeType(t) {
		return STime
	}
	if isSet(t) {
		return arrSort(SStr, SBool)
	}
	if isSeq(t) {
		return seqCtor().Sort
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SFlt
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Kind() == types.UntypedNil:
			return SAny
		case u.Kind() == types.UnsafePointer:
			return SInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SAny
	case *types.Struct:
		return structInfo(t).Ctor.Sort
	case *types.Array:
		return arrSort(SInt, SortOf(u.Elem()))
	}
	panic(Unsupported{fmt.Sprintf("type %s", t)})
}

func structInfo(t types.Type) *StructInfo {
	st := t.Underlying().(*types.Struct)
	name := "S." + typeName(t)
	if _, ok := t.(*types.Named); !ok {
		name = "S.anon." + typeName(st)
	}
	if si, ok := structs[name]; ok {
		return si
	}
	si := &StructInfo{Name: name, T: st}
	structs[name] = si
	srt := quote(name)
	var sels, sorts []string
	si.Ctor = &Ctor{Sort: srt}
	for i := 0; i < st.NumFields(); i++ {
		sels = append(sels, fmt.Sprintf("%s.%d.%s", name, i, st.Field(i).Name()))
	}
	// the sort name must be known while the fields are computed (a struct
	// cannot contain itself except through pointers and interfaces)
	for i := 0; i < st.NumFields(); i++ {
		sorts = append(sorts, SortOf(st.Field(i).Type()))
	}
	si.Ctor = RegCtor("mk."+name, srt, sels, sorts)
	return si
}

func structBySort(s string) *StructInfo {
	for _, si := range structs {
		if si.Ctor.Sort == s {
			return si
		}
	}
	return nil
}

// AnyCtor returns the constructor of interface values with dynamic type t
func AnyCtor(t types.Type) *Ctor {
	n := typeName(t)
	if c, ok := anyCtors[n]; ok {
		return c
	}
	s := SortOf(t)
	c := RegCtor("A."+n, SAny, []string{"val." + n}, []string{s})
	anyCtors[n] = c
	anyTypes[c.Name] = t
	return c
}

func ZeroOf(t types.Type) *Term { return zeroSort(SortOf(t), t) }

func zeroSort(s string, t types.Type) *Term {
	switch s {
	case SInt:
		return IntT(0)
	case SBool:
		return False()
	case SStr:
		return StrLit("")
	case SFlt:
		return FltLit("0")
	case SAny:
		return MkCtor(anyNil)
	case SSlice:
		return MkCtor(sliceCtor, IntT(0), IntT(0), IntT(0))
	case STime:
		return Const("time.zero", STime)
	}
	if isSeq(t) {
		return MkCtor(seqCtor(), ConstArr(arrSort(SInt, SInt), IntT(0)), IntT(0))
	}
	if strings.HasPrefix(s, "(Array") {
		if isSet(t) {
			return ConstArr(s, False())
		}
		a := t.Underlying().(*types.Array)
		return ConstArr(s, ZeroOf(a.Elem()))
	}
	si := structInfo(t)
	var args []*Term
	for i := 0; i < si.T.NumFields(); i++ {
		args = append(args, ZeroOf(si.T.Field(i).Type()))
	}
	return MkCtor(si.Ctor, args...)
}

func NilAny() *Term { return MkCtor(anyNil) }

// sort declarations needed by a set of terms
func datatypeDecls(used map[string]bool, anyUsed map[*Ctor]bool) string {
	// close over struct fields
	var names []string
	var work []string
	add := func(s string) {
		for strings.HasPrefix(s, "(Array") {
			i, e := arrElem(s)
			if !used[i] {
				used[i] = true
				work = append(work, i)
			}
			s = e
		}
		if !used[s] {
			used[s] = true
			work = append(work, s)
		}
	}
	for s := range used {
		work = append(work, s)
	}
	for c := range anyUsed {
		for _, s := range c.Sorts {
			add(s)
		}
		add(SAny)
	}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		if strings.HasPrefix(s, "(Array") {
			i, e := arrElem(s)
			add(i)
			add(e)
			continue
		}
		if si := structBySort(s); si != nil {
			for _, f := range si.Ctor.Sorts {
				add(f)
			}
		}
	}
	for s := range used {
		names = append(names, s)
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("(declare-sort Str 0)\n(declare-sort Flt 0)\n(declare-sort Time 0)\n")
	var heads, bodies []string
	ctorDecl := func(c *Ctor) string {
		if len(c.Sels) == 0 {
			return "(" + c.Name + ")"
		}
		var fs []string
		for i := range c.Sels {
			fs = append(fs, "("+c.Sels[i]+" "+c.Sorts[i]+")")
		}
		return "(" + c.Name + " " + strings.Join(fs, " ") + ")"
	}
	heads = append(heads, "(Slice 0)")
	bodies = append(bodies, "("+ctorDecl(sliceCtor)+")")
	if seqC != nil && used[seqC.Sort] {
		heads = append(heads, "("+seqC.Sort+" 0)")
		bodies = append(bodies, "("+ctorDecl(seqC)+")")
	}
	for _, s := range names {
		if s == SAny {
			heads = append(heads, "(Any 0)")
			var cs []string
			cs = append(cs, ctorDecl(anyNil), ctorDecl(anyOther))
			var l []*Ctor
			for c := range anyUsed {
				if c != anyNil && c != anyOther {
					l = append(l, c)
				}
			}
			sort.Slice(l, func(i, j int) bool { return l[i].Name < l[j].Name })
			for _, c := range l {
				cs = append(cs, ctorDecl(c))
			}
			bodies = append(bodies, "("+strings.Join(cs, " ")+")")
			continue
		}
		if si := structBySort(s); si != nil {
			heads = append(heads, "("+s+" 0)")
			bodies = append(bodies, "("+ctorDecl(si.Ctor)+")")
		}
	}
	sb.WriteString("(declare-datatypes (" + strings.Join(heads, " ") + ") (" + strings.Join(bodies, " ") + "))\n")
	return sb.String()
}

type Unsupported struct{ Msg string }

func (u Unsupported) Error() string { return "unsupported: " + u.Msg }
