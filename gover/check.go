package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The check of one property: every obligation of its contracts is generated
// from the program text and discharged; the real code is run against the
// same contracts and against an oracle on the exported interface, to turn a
// failed obligation into a failing input.

type pool struct {
	Ints   []int
	Floats []float64
	Strs   []string
}

type replayFailure struct {
	Prop   string `json:"prop"`
	Probe  string `json:"probe"`
	Clause string `json:"clause"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
	Seed   int64  `json:"seed"`
}

type replayRun struct {
	Evals    int             `json:"evals"`
	Checks   int             `json:"checks"`
	Distinct int             `json:"distinct"`
	Samples  []string        `json:"samples"`
	Probes   map[string]int  `json:"probes"`
	Failures []replayFailure `json:"failures"`
	Done     bool            `json:"done"`

	buildErr string
	crash    string
	full     bool // with the contracts, or the exported interface only
}

type checker struct {
	repo, verif, prop, tier string
	seed                    int
	work                    string
	start                   time.Time
	bin                     string
	binErr                  string
	binFull                 bool
	pool                    pool
}

func (c *checker) overlay(full bool) string {
	m := map[string]string{}
	add := func(pat string) {
		fs, _ := filepath.Glob(filepath.Join(c.verif, pat))
		for _, f := range fs {
			m[filepath.Join(c.repo, "zz_verif_"+filepath.Base(f))] = f
		}
	}
	if full {
		add("contracts/*.go")
		add("replay/*_test.go")
	} else {
		add("replay/core_test.go")
		add("replay/api_*_test.go")
	}
	// the repository's own tests have no part in this
	ts, _ := filepath.Glob(filepath.Join(c.repo, "*_test.go"))
	for _, t := range ts {
		m[t] = ""
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": m})
	f := filepath.Join(c.work, fmt.Sprintf("overlay_%v.json", full))
	os.WriteFile(f, b, 0644)
	return f
}

// build compiles the replay harness
func (c *checker) build() {
	for _, full := range []bool{true, false} {
		bin := filepath.Join(c.work, "replay.test")
		ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
		cmd := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-overlay", c.overlay(full), "-o", bin, ".")
		cmd.Dir = c.repo
		out, err := cmd.CombinedOutput()
		cancel()
		if err == nil {
			c.bin, c.binFull = bin, full
			return
		}
		c.binErr += string(out)
	}
}

// runs runs several harnesses beside each other, on different inputs
func (c *checker) runs(n int, budget time.Duration, seed int, poolFile string) *replayRun {
	rs := make([]*replayRun, n)
	var wg sync.WaitGroup
	for i := range rs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rs[i] = c.run(budget, seed+i*7919, poolFile, "GOMAXPROCS=2")
		}()
	}
	wg.Wait()
	r := rs[0]
	for _, o := range rs[1:] {
		r.add(o)
	}
	return r
}

func (r *replayRun) add(o *replayRun) {
	r.Evals += o.Evals
	r.Checks += o.Checks
	r.Distinct += o.Distinct
	if r.Probes == nil {
		r.Probes = map[string]int{}
	}
	for k, v := range o.Probes {
		r.Probes[k] += v
	}
	if len(r.Samples) < 24 {
		r.Samples = append(r.Samples, o.Samples...)
	}
	r.Failures = append(r.Failures, o.Failures...)
	r.Done = r.Done && o.Done
	if r.crash == "" {
		r.crash = o.crash
	}
}

func (c *checker) run(budget time.Duration, seed int, poolFile string, env ...string) *replayRun {
	r := &replayRun{full: c.binFull}
	if c.bin == "" {
		r.buildErr = c.binErr
		return r
	}
	out := filepath.Join(c.work, fmt.Sprintf("replay_%d_%d.json", seed, time.Now().UnixNano()))
	ctx, cancel := context.WithTimeout(context.Background(), budget+60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", "-c", `ulimit -v 12000000; exec "$0" "$@"`, c.bin, "-test.run", "^TestVerifReplay$", "-test.timeout", fmt.Sprintf("%ds", int(budget.Seconds())+50))
	cmd.Dir = c.work
	cmd.Env = append(os.Environ(), "VERIF_PROP="+c.prop, fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_BUDGET_MS=%d", budget.Milliseconds()), "VERIF_OUT="+out, "VERIF_POOL="+poolFile, "GOMEMLIMIT=4GiB")
	cmd.Env = append(cmd.Env, env...)
	o, err := cmd.CombinedOutput()
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		json.Unmarshal(b, r)
	}
	if !r.Done {
		s := string(o)
		if len(s) > 4000 {
			s = s[:2000] + "\n…\n" + s[len(s)-2000:]
		}
		r.crash = fmt.Sprintf("the replay process ended early: %v\n%s", err, s)
	}
	return r
}

// mine collects the constants of the program text
func (c *checker) mine() {
	fs, _ := filepath.Glob(filepath.Join(c.repo, "*.go"))
	fset := token.NewFileSet()
	seen := map[string]bool{}
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				if seen[n.Value] {
					return true
				}
				seen[n.Value] = true
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						c.pool.Ints = append(c.pool.Ints, int(v))
					}
				case token.FLOAT:
					if v, err := strconv.ParseFloat(n.Value, 64); err == nil {
						c.pool.Floats = append(c.pool.Floats, v)
					}
				case token.STRING:
					if v, err := strconv.Unquote(n.Value); err == nil && len(v) < 24 {
						c.pool.Strs = append(c.pool.Strs, v)
					}
				}
			}
			return true
		})
	}
}

var (
	reInt   = regexp.MustCompile(`\(- (\d+)\)|\b(\d+)\b`)
	reStr   = regexp.MustCompile(`"((?:[^"]|"")*)"`)
	reFloat = regexp.MustCompile(`\(fp #b([01]) #b([01]{11}) #(x[0-9a-f]{13}|b[01]{52})\)`)
)

// minePool adds the constants of a solver's counterexample
func (p *pool) model(m string) {
	seenI := map[int]bool{}
	for _, g := range reInt.FindAllStringSubmatch(m, -1) {
		s := g[2]
		if g[1] != "" {
			s = "-" + g[1]
		}
		if n, err := strconv.ParseInt(s, 10, 64); err == nil && !seenI[int(n)] {
			seenI[int(n)] = true
			if len(p.Ints) < 5000 {
				p.Ints = append(p.Ints, int(n))
			}
		}
	}
	for _, g := range reStr.FindAllStringSubmatch(m, -1) {
		if len(g[1]) < 40 && len(p.Strs) < 5000 {
			p.Strs = append(p.Strs, strings.ReplaceAll(g[1], `""`, `"`))
		}
	}
	for _, g := range reFloat.FindAllStringSubmatch(m, -1) {
		var mant uint64
		if g[3][0] == 'x' {
			mant, _ = strconv.ParseUint(g[3][1:], 16, 64)
		} else {
			mant, _ = strconv.ParseUint(g[3][1:], 2, 64)
		}
		ex, _ := strconv.ParseUint(g[2], 2, 64)
		sg, _ := strconv.ParseUint(g[1], 2, 64)
		if len(p.Floats) < 5000 {
			p.Floats = append(p.Floats, math.Float64frombits(sg<<63|ex<<52|mant))
		}
	}
}

func (c *checker) writePool(name string, p pool) string {
	for i := 0; i < len(p.Floats); i++ {
		if math.IsNaN(p.Floats[i]) || math.IsInf(p.Floats[i], 0) {
			p.Floats = append(p.Floats[:i:i], p.Floats[i+1:]...)
			i--
		}
	}
	f := filepath.Join(c.work, name)
	b, _ := json.Marshal(p)
	os.WriteFile(f, b, 0644)
	return f
}

type knownFinding struct{ prop, key, text string }

// known reads the findings that are not repaired:
//
//	known: property=<id> key=<probe/clause> input=<text of the input> -- <what fails>
func (c *checker) known() []knownFinding {
	var out []knownFinding
	b, _ := os.ReadFile(filepath.Join(c.verif, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+c.prop+" key=") {
			continue
		}
		k, t, _ := strings.Cut(strings.TrimPrefix(l, "known: property="+c.prop+" key="), " -- ")
		out = append(out, knownFinding{c.prop, k, t})
	}
	return out
}

// unitsOf are the units of a property, and those whose contracts they use
func (p *Program) unitsOf(prop string) []*Unit {
	need := map[string]bool{}
	for ch := true; ch; {
		ch = false
		for _, u := range p.units {
			if !need[u.name] && u.hasProp(prop) {
				need[u.name] = true
				ch = true
			}
			if need[u.name] {
				for n := range u.calls {
					if !need[n] {
						need[n] = true
						ch = true
					}
				}
			}
		}
	}
	var out []*Unit
	for _, u := range p.units {
		if need[u.name] {
			out = append(out, u)
		}
	}
	return out
}

func runCheck(repo, verif, prop, tier string) int {
	c := &checker{repo: repo, verif: verif, prop: prop, tier: tier, start: time.Now(), seed: 1}
	if n, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		c.seed = n
	}
	work, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	c.work = work
	c.mine()
	poolFile := c.writePool("pool.json", c.pool)
	thorough := tier == "thorough"

	// the replay harness is built and run beside the proof
	built := make(chan bool)
	go func() { c.build(); close(built) }()

	files, _ := filepath.Glob(filepath.Join(verif, "contracts", "*.go"))
	p, loadErr := loadProgram(repo, files)
	var results []*UnitResult
	type undischarged struct {
		unit, target, name, kind, pos, why, solver, model, text string
	}
	var failed []undischarged
	nobl, ndis := 0, 0
	byKind := map[string]int{}
	backends := map[string]int{}
	var funcs, inlined []string
	queries, cpu := 0, 0.0
	units := 0
	if loadErr != nil {
		failed = append(failed, undischarged{unit: "-", name: "the contracts do not fit the program", kind: "load", why: loadErr.Error()})
	} else {
		p.solver = newSolver()
		p.solver.deadline = c.start.Add(480 * time.Second)
		if thorough {
			p.solver.timeout = 20 * time.Second
			p.solver.deadline = c.start.Add(700 * time.Second)
		}
		inl := map[string]bool{}
		for _, u := range p.unitsOf(prop) {
			units++
			clauses := prop
			if !u.hasProp(prop) {
				clauses = ""
			}
			r := p.verify(u, clauses)
			results = append(results, r)
			if r.Err != "" {
				failed = append(failed, undischarged{unit: u.name, target: u.tgtName, name: "contract of " + u.name, kind: "generation", why: r.Err})
				nobl++
				continue
			}
			if r.Vacuous != "" {
				failed = append(failed, undischarged{unit: u.name, target: u.tgtName, name: "contract of " + u.name, kind: "vacuity", why: r.Vacuous})
			}
			if u.lemma {
				funcs = append(funcs, "lemma "+u.name)
			} else {
				funcs = append(funcs, u.tgtName)
			}
			for _, n := range r.Inlined {
				inl[n] = true
			}
			for _, o := range r.Obls {
				nobl++
				byKind[o.Kind]++
				if o.Status == "unsat" {
					ndis++
					s := o.Solver
					if s == "" {
						s = "simplifier"
					}
					backends[s]++
				} else {
					failed = append(failed, undischarged{unit: u.name, target: u.tgtName, name: o.Name, kind: o.Kind, pos: o.Pos, why: o.Status, solver: o.Solver, model: o.Model, text: o.Text})
				}
			}
		}
		queries, cpu = p.solver.Queries, p.solver.CPU
		for n := range inl {
			inlined = append(inlined, n)
		}
		sort.Strings(inlined)
		if units == 0 {
			failed = append(failed, undischarged{unit: "-", name: "no contract for " + prop, kind: "load", why: "nothing to prove"})
		}
	}
	fmt.Printf("%s: %d functions and lemmas under contract, %d obligations, %d discharged, %d open (%.0fs)\n", prop, units, nobl, ndis, len(failed), time.Since(c.start).Seconds())

	<-built
	budget := 12 * time.Second
	if thorough {
		budget = 150 * time.Second
	}
	run := c.runs(6, budget, c.seed, poolFile)
	guided := 0
	if len(run.Failures) == 0 && run.crash == "" && run.buildErr == "" && len(failed) > 0 {
		// look for an input with the constants of the counterexamples
		cx := pool{Ints: append([]int{}, c.pool.Ints...), Floats: append([]float64{}, c.pool.Floats...), Strs: append([]string{}, c.pool.Strs...)}
		for i, f := range failed {
			if i < 30 {
				cx.model(f.model)
			}
		}
		guided = len(cx.Ints) + len(cx.Floats) + len(cx.Strs) - len(c.pool.Ints) - len(c.pool.Floats) - len(c.pool.Strs)
		b2 := 60 * time.Second
		r2 := c.runs(6, b2, c.seed+1, c.writePool("pool_cx.json", cx))
		r2.add(run)
		run = r2
	}
	if run.buildErr != "" {
		fmt.Println("the replay harness does not build:\n" + run.buildErr)
		failed = append(failed, undischarged{unit: "-", name: "the replay harness does not build", kind: "load", why: run.buildErr})
	}

	// verdict
	var violations []map[string]interface{}
	var lines []string
	replayDir := filepath.Join(verif, "replays")
	os.MkdirAll(replayDir, 0755)
	known := c.known()
	old, _ := filepath.Glob(filepath.Join(replayDir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	var fails []replayFailure
	printed := map[string]bool{}
	for _, f := range run.Failures {
		isKnown := false
		for _, k := range known {
			if strings.HasPrefix(f.Probe+"/"+f.Clause+" input="+f.Input, k.key) {
				isKnown = true
				if !printed[k.key] {
					printed[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				}
			}
		}
		if !isKnown {
			fails = append(fails, f)
		}
	}
	for _, k := range known {
		if !printed[k.key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	var open []map[string]interface{}
	for i, f := range failed {
		m := map[string]interface{}{"unit": f.unit, "function": f.target, "obligation": f.name, "kind": f.kind, "position": f.pos, "verdict": f.why, "solver": f.solver}
		if i < 5 {
			m["counterexample"] = clip(f.model, 20000)
			m["query"] = clip(f.text, 60000)
		}
		open = append(open, m)
	}
	if len(fails) > 0 {
		path := filepath.Join(replayDir, prop+"-input.json")
		ov := "overlay built by gover check (contracts/*.go and replay/*_test.go as zz_verif_* files of the package)"
		var ins []map[string]interface{}
		for _, f := range fails {
			ins = append(ins, map[string]interface{}{"probe": f.Probe, "clause": f.Clause, "input": f.Input, "detail": f.Detail, "case": f.Seed})
		}
		writeJSON(path, map[string]interface{}{"property": prop, "failing_inputs": ins, "failed_obligations": open, "harness": ov,
			"reproduce": fmt.Sprintf("%s/check.sh %s replay %d '%s'", verif, prop, fails[0].Seed, fails[0].Probe)})
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
		for _, f := range fails {
			fmt.Printf("  %s: %s\n    input: %s\n    %s\n", f.Probe, f.Clause, clip(f.Input, 600), clip(f.Detail, 600))
			violations = append(violations, map[string]interface{}{"clause": f.Clause, "input": clip(f.Input, 1000)})
		}
	} else if run.crash != "" {
		path := filepath.Join(replayDir, prop+"-crash.json")
		writeJSON(path, map[string]interface{}{"property": prop, "crash": run.crash, "failed_obligations": open})
		fmt.Println(clip(run.crash, 3000))
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
		violations = append(violations, map[string]interface{}{"clause": "the code ends or hangs the process", "input": clip(run.crash, 1000)})
	} else if len(failed) > 0 {
		path := filepath.Join(replayDir, prop+"-obligations.json")
		writeJSON(path, map[string]interface{}{"property": prop, "failed_obligations": open, "inputs_tried": run.Evals})
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", prop, path))
		violations = append(violations, map[string]interface{}{"clause": failed[0].name, "input": "no failing input found"})
	}
	for i, f := range failed {
		if i < 12 {
			fmt.Printf("  open: %s %s (%s) %s: %s\n", f.unit, f.name, f.kind, f.pos, clip(f.why, 400))
		}
	}

	// evidence
	var trusted []string
	for _, k := range sortedKeys(assumedExterns) {
		trusted = append(trusted, "assumed contract: "+k+" ("+assumedExterns[k]+")")
	}
	trusted = append(trusted, "gover: the generator of the obligations (symbolic execution of go/ssa) and its encoding of Go's types and heap",
		"golang.org/x/tools/go/ssa as the meaning of the program text", "the solvers z3 and cvc5")
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": c.seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": nobl, "discharged": ndis, "obligations_by_kind": byKind, "discharged_by": backends,
			"checker_cmd":              fmt.Sprintf("./check.sh %s %s", prop, tier),
			"trusted_base":             trusted,
			"functions_under_contract": funcs, "functions_executed_inside": inlined,
			"solver_queries": queries, "solver_cpu_s": math.Round(cpu*10) / 10,
			"bounded_replay": map[string]interface{}{"note": "bounded: the contracts and oracles run on the real code; finds failing inputs, proves nothing", "evaluations": run.Evals, "clause_checks": run.Checks, "distinct_inputs": run.Distinct, "per_probe": run.Probes, "with_contracts": run.full, "counterexample_constants": guided, "samples": run.Samples},
		},
		"assumptions": assumptions(p, prop),
		"wall_s":      math.Round(time.Since(c.start).Seconds()*10) / 10,
		"violations":  len(violations),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	writeJSON(filepath.Join(verif, "evidence", prop+".json"), ev)
	fmt.Printf("%s: replay ran %d inputs, %d distinct, %d clause evaluations, %d failing\n", prop, run.Evals, run.Distinct, run.Checks, len(fails))
	for _, l := range lines {
		fmt.Println(l)
	}
	if len(lines) > 0 {
		return 1
	}
	fmt.Printf("%s holds (%.0fs)\n", prop, time.Since(c.start).Seconds())
	return 0
}

// assumptions of the contracts of a property: preconditions nobody discharges
func assumptions(p *Program, prop string) []string {
	out := []string{
		"64-bit int; integer operators wrap exactly; floating point operators other than comparison and negation are uninterpreted functions of their operands",
		"sub-expressions and other implementations of the expression interface are pure functions of their receiver and context (their own contracts are verified separately)",
		"no other goroutine runs; memory and stack are unlimited; termination is not proved",
	}
	if p == nil {
		return out
	}
	for _, u := range p.units {
		if !u.hasProp(prop) {
			continue
		}
		for _, f := range u.pres {
			out = append(out, fmt.Sprintf("precondition %s of %s is assumed of every caller", f.Name(), u.tgtName))
		}
	}
	return out
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func writeJSON(f string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("{\"error\": %q}", err.Error()))
	}
	os.WriteFile(f, b, 0644)
}

// runReplay runs one input again
func runReplay(repo, verif, prop, seed, probe string) int {
	c := &checker{repo: repo, verif: verif, prop: prop, tier: "quick", start: time.Now(), seed: 1}
	work, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(work)
	c.work = work
	c.mine()
	c.build()
	r := c.run(10*time.Second, 1, c.writePool("pool.json", c.pool), "VERIF_CASE="+seed, "VERIF_ONLY="+probe)
	for _, f := range r.Failures {
		fmt.Printf("%s %s\n  input: %s\n  %s\n", f.Probe, f.Clause, f.Input, f.Detail)
	}
	fmt.Print(r.buildErr, r.crash)
	if len(r.Failures) > 0 || r.crash != "" {
		return 1
	}
	return 0
}
