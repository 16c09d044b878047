package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the package under verification together with its contracts
type Program struct {
	pkg        *ssa.Package
	fset       *token.FileSet
	prog       *ssa.Program
	loops      map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	closures   map[*Term]*Closure
	recs       map[string]*recDef
	opaque     map[string]bool
	models     map[string]*ssa.Function
	localModel map[string]bool // the operation does not act on the graph
	pureIface  map[string]bool
	implIfaces map[string]*types.Interface
	ctorRValue *Ctor
	ctorLValue *Ctor
	tRValue    types.Type
	tSet       types.Type
	tLValue    types.Type
	valueIface types.Type
	solver     *Solver
	errIDs     map[string]int
	units      []*Unit
	funcs      map[string]*ssa.Function
}

type modEntry struct {
	heap string
	ref  *Term
}

// Unit is a function under contract, or a lemma
type Unit struct {
	name      string
	props     []string
	file      string
	target    *ssa.Function
	tgtName   string
	args      []string
	res       []string
	modSpec   []string
	modifies  []modEntry
	invs      []*ssa.Function
	variants  []*ssa.Function
	pres      []*ssa.Function
	posts     []*ssa.Function
	bound     map[string]Val
	effects   map[string]bool
	writesCtx bool     // what is evaluated depends on what the unit writes
	waive     []string // safety conditions that are assumptions here
	localInv  bool     // its invariants are for the loops of the target and of the models only
	models    bool     // graph operations act on the ghost state of the graph, as their models say
	pureDyn   bool     // functions stored in fields are pure
	owns      bool     // the arrays it appends to are its own by agreement with the caller
	reads     map[string]bool
	inline    map[string]bool
	summary   string          // the function that does what the target does, for callers
	calls     map[string]bool // callees that are used by contract
	unfold    int
	lemma     bool
	err       error
	clause    map[string]string // post name -> property (when restricted)
}

func (u *Unit) hasProp(p string) bool {
	for _, q := range u.props {
		if q == p {
			return true
		}
	}
	return false
}

func set(s, sep string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Split(s, sep) {
		if x != "" {
			m[x] = true
		}
	}
	return m
}

func loadProgram(repo string, contracts []string) (*Program, error) {
	overlay := map[string][]byte{}
	for _, f := range contracts {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		overlay[filepath.Join(repo, "zz_verif_"+filepath.Base(f))] = b
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Overlay: overlay, Env: append(os.Environ(), "CGO_ENABLED=0")}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages", len(pkgs))
	}
	if len(pkgs[0].Errors) > 0 {
		var ss []string
		for _, e := range pkgs[0].Errors {
			ss = append(ss, e.Error())
		}
		return nil, fmt.Errorf("%s", strings.Join(ss, "\n"))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{pkg: sp[0], prog: prog, fset: pkgs[0].Fset,
		loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, closures: map[*Term]*Closure{},
		recs: map[string]*recDef{}, opaque: map[string]bool{}, models: map[string]*ssa.Function{}, localModel: map[string]bool{}, pureIface: map[string]bool{},
		implIfaces: map[string]*types.Interface{}, errIDs: map[string]int{}, funcs: map[string]*ssa.Function{}}
	pkgPath = p.pkg.Pkg.Path()
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == p.pkg {
			p.funcs[f.RelString(p.pkg.Pkg)] = f
		}
	}
	p.tRValue = p.namedType("RValue")
	p.tSet = p.namedType("vSet")
	p.tLValue = p.namedType("LValue")
	p.valueIface = p.namedType("Value")
	if p.tRValue == nil || p.valueIface == nil || p.tLValue == nil {
		return nil, fmt.Errorf("types RValue, LValue, Value not found")
	}
	for pass := 0; pass < 2; pass++ {
		for _, f := range pkgs[0].Syntax {
			name := p.fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(name), "zz_verif_") {
				continue
			}
			if err := p.directives(f, filepath.Base(name), pass); err != nil {
				return nil, err
			}
		}
	}
	// iteration order over names only
	var names []string
	for n := range p.funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, u := range p.units {
		for _, n := range names {
			f := p.funcs[n]
			if f.Parent() != nil {
				continue
			}
			switch {
			case strings.HasPrefix(n, u.name+"_pre"):
				u.pres = append(u.pres, f)
			case strings.HasPrefix(n, u.name+"_post_") || u.lemma && n == u.name:
				u.posts = append(u.posts, f)
			case strings.HasPrefix(n, u.name+"_inv_"):
				u.invs = append(u.invs, f)
			case strings.HasPrefix(n, u.name+"_var_"):
				u.variants = append(u.variants, f)
			}
		}
	}
	return p, nil
}

func (p *Program) namedType(n string) types.Type {
	o := p.pkg.Pkg.Scope().Lookup(n)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (p *Program) directives(f *ast.File, file string, pass int) error {
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			t := c.Text
			if !strings.HasPrefix(t, "//@ ") {
				continue
			}
			fs := strings.Fields(t[4:])
			if (pass == 1) != (fs[0] == "unit" || fs[0] == "lemma") {
				continue
			}
			switch fs[0] {
			case "rec", "erec":
				for _, n := range fs[1:] {
					fn := p.funcs[n]
					if fn == nil {
						return fmt.Errorf("%s: no function %s", file, n)
					}
					p.recs[n] = &recDef{name: n, file: file, fn: fn, effect: fs[0] == "erec"}
				}
			case "prefix":
				for _, n := range fs[1:] {
					rd := p.recs[n]
					if rd == nil || len(rd.fn.Params) < 2 || !isSeq(rd.fn.Params[0].Type()) || rd.fn.Signature.Results().Len() != 1 || rd.effect {
						return fmt.Errorf("%s: prefix %s", file, n)
					}
					rd.prefix = true
				}
			case "model":
				fn := p.funcs[fs[2]]
				if fn == nil {
					return fmt.Errorf("%s: no function %s", file, fs[2])
				}
				p.models[fs[1]] = fn
				if len(fs) > 3 && fs[3] == "local" {
					p.localModel[fs[1]] = true
				}
			case "opaque":
				for _, n := range fs[1:] {
					p.opaque[n] = true
				}
			case "pure":
				for _, n := range fs[1:] {
					p.pureIface[n] = true
				}
			case "unit", "lemma":
				u := &Unit{name: fs[1], file: file, bound: map[string]Val{}, effects: map[string]bool{}, reads: map[string]bool{}, calls: map[string]bool{}, inline: map[string]bool{}, lemma: fs[0] == "lemma", unfold: 1, clause: map[string]string{}}
				for _, o := range fs[2:] {
					k, v, _ := strings.Cut(o, "=")
					switch k {
					case "target":
						u.tgtName = v
						u.target = p.funcs[v]
						if u.target == nil {
							u.err = fmt.Errorf("function %s not found", v)
						}
					case "props":
						u.props = strings.Split(v, ",")
					case "args":
						u.args = strings.Split(v, ",")
					case "res":
						u.res = strings.Split(v, ",")
					case "modifies":
						u.modSpec = strings.Split(v, ",")
					case "waive":
						for _, w := range strings.Split(v, ";") {
							u.waive = append(u.waive, strings.ReplaceAll(w, "_", " "))
						}
					case "owns":
						u.owns = v == "1"
					case "effects":
						u.effects = set(v, ";")
					case "reads":
						u.reads = set(v, ";")
					case "inline":
						u.inline = set(v, ";")
					case "calls":
						u.calls = set(v, ";")
					case "summary":
						u.summary = v
					case "localinv":
						u.localInv = v == "1"
					case "writesctx":
						u.writesCtx = v == "1"
					case "puredyn":
						u.pureDyn = v == "1"
					case "models":
						u.models = v == "1"
					case "unfold":
						fmt.Sscan(v, &u.unfold)
					case "only":
						// only=post:prop — the clause belongs to one property
						a, b, _ := strings.Cut(v, ":")
						u.clause[u.name+"_post_"+a] = b
					default:
						return fmt.Errorf("%s: bad option %s", file, o)
					}
				}
				p.units = append(p.units, u)
			default:
				return fmt.Errorf("%s: bad directive %s", file, t)
			}
		}
	}
	return nil
}

func (p *Program) modelFn(f *ssa.Function) bool {
	for _, m := range p.models {
		if m == f {
			return true
		}
	}
	return false
}

func (p *Program) isValueType(t types.Type) bool {
	return types.Identical(t, p.valueIface)
}

func (p *Program) globalErr(name string) int {
	if id, ok := p.errIDs[name]; ok {
		return id
	}
	p.errIDs[name] = len(p.errIDs) + 1
	return p.errIDs[name]
}

func (p *Program) inPkg(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg == p.pkg {
			return true
		}
		if o := g.Object(); o != nil && o.Pkg() == p.pkg.Pkg {
			return true
		}
		if g.Origin() != nil && g.Origin().Pkg == p.pkg {
			return true
		}
	}
	return false
}

// resetTerms makes a fresh term bank for a unit
func (p *Program) resetTerms() {
	B = newBank()
	ctors = map[string]*Ctor{}
	selectors = map[string]selRef{}
	anyCtors = map[string]*Ctor{}
	anyTypes = map[string]types.Type{}
	structs = map[string]*StructInfo{}
	smallTerms = map[*Term]bool{}
	p.closures = map[*Term]*Closure{}
	p.implIfaces = map[string]*types.Interface{}
	initSorts()
	p.ctorRValue = AnyCtor(p.tRValue)
	p.ctorLValue = AnyCtor(p.tLValue)
}

// externs lists the functions outside of the package that its code calls
func (p *Program) externs() {
	m := map[string][]string{}
	var names []string
	for n := range p.funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := p.funcs[n]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if cc.IsInvoke() {
					m["invoke "+typeName(cc.Value.Type())+"."+cc.Method.Name()] = append(m["invoke "+typeName(cc.Value.Type())+"."+cc.Method.Name()], n)
					continue
				}
				if g := cc.StaticCallee(); g != nil && !p.inPkg(g) {
					m[g.RelString(p.pkg.Pkg)] = append(m[g.RelString(p.pkg.Pkg)], n)
				}
			}
		}
	}
	for _, k := range sortedKeys(m) {
		l := m[k]
		if len(l) > 4 {
			l = append(l[:4], "…")
		}
		fmt.Println(k, "<-", strings.Join(l, ", "))
	}
}
