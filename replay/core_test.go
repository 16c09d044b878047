package opencypher

// The part of the replay harness that does not depend on anything but the
// exported interface of the package. A run tries inputs for one property
// until its time is used up and writes what it found to VERIF_OUT.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
)

// wGen makes one input. Everything it makes depends on its seed only.
type wGen struct {
	*rand.Rand
	run   *wRun
	probe string
	label string // what the current input is
}

// wProbe is a source of inputs together with the oracle
type wProbe struct {
	name  string
	props string
	f     func(g *wGen)
	// number of inputs to run at least, whatever the time
	min int
}

var wProbes []wProbe

func wProbeAdd(name, props string, f func(g *wGen)) bool {
	wProbes = append(wProbes, wProbe{name: name, props: props, f: f})
	return true
}

// wFailure is a failing input
type wFailure struct {
	Prop   string `json:"prop"`
	Probe  string `json:"probe"`
	Clause string `json:"clause"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
	Seed   int64  `json:"seed"`
}

type wRun struct {
	Prop     string         `json:"prop"`
	Evals    int            `json:"evals"`
	Checks   int            `json:"checks"`
	Distinct int            `json:"distinct"`
	Samples  []string       `json:"samples"`
	Probes   map[string]int `json:"probes"`
	Failures []wFailure     `json:"failures"`
	Done     bool           `json:"done"`

	seen    map[string]bool
	curSeed int64
	ints    []int
	floats  []float64
	strs    []string
	failed  map[string]int
	hit     bool
	strict  bool
	now     atomic.Pointer[wNow]
}

// wNow is what is being tried, and since when
type wNow struct {
	probe, label string
	seed         int64
	start        time.Time
}

// watch reports an input that never comes to an end, or uses up the memory
func (r *wRun) watch(out string) {
	for {
		time.Sleep(250 * time.Millisecond)
		n := r.now.Load()
		if n == nil || time.Since(n.start) < 2*time.Second {
			continue
		}
		why := ""
		m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		metrics.Read(m)
		if m[0].Value.Uint64() > 3<<30 {
			why = "uses more than 3 GB"
		} else if time.Since(n.start) > 40*time.Second {
			why = "does not end within 40 s"
		} else {
			continue
		}
		f := wFailure{Prop: r.Prop, Probe: n.probe, Clause: "terminates", Input: n.label, Detail: why, Seed: n.seed}
		b, _ := json.Marshal(map[string]interface{}{"failures": []wFailure{f}, "done": true, "evals": r.Evals, "checks": r.Checks, "distinct": r.Distinct})
		if out != "" {
			os.WriteFile(out, b, 0644)
		} else {
			fmt.Printf("%+v\n", f)
		}
		os.Exit(1)
	}
}

type wAbort struct{}

// skip gives up on the current input
func (g *wGen) skip() { panic(wAbort{}) }

// input records what is being tried
func (g *wGen) input(format string, args ...interface{}) {
	g.label = fmt.Sprintf(format, args...)
	r := g.run
	r.now.Store(&wNow{probe: g.probe, label: g.label, seed: r.curSeed, start: time.Now()})
	if !r.seen[g.label] {
		if len(r.seen) < 2000000 {
			r.seen[g.label] = true
		}
		r.Distinct++
		if len(r.Samples) < 6 || len(r.Samples) < 24 && g.Intn(200) == 0 {
			s := g.label
			if len(s) > 400 {
				s = s[:400]
			}
			r.Samples = append(r.Samples, g.probe+": "+s)
		}
	}
}

// check is one evaluation of a clause on the current input
func (g *wGen) check(clause string, ok bool, format string, args ...interface{}) bool {
	r := g.run
	r.Checks++
	if ok {
		return true
	}
	r.hit = true
	key := g.probe + "/" + clause
	r.failed[key]++
	if r.failed[key] <= 3 {
		r.Failures = append(r.Failures, wFailure{Prop: r.Prop, Probe: g.probe, Clause: clause, Input: g.label, Detail: fmt.Sprintf(format, args...), Seed: r.curSeed})
	}
	return false
}

func (r *wRun) one(p wProbe, seed int64) {
	r.curSeed = seed
	r.now.Store(&wNow{probe: p.name, seed: seed, start: time.Now()})
	g := &wGen{Rand: rand.New(rand.NewSource(seed)), run: r, probe: p.name}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(wAbort); ok {
				return
			}
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			g.check("panic", false, "panic: %v\n%s", e, st)
		}
	}()
	r.Evals++
	r.Probes[p.name]++
	p.f(g)
}

func wEnvInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

func TestVerifReplay(t *testing.T) {
	debug.SetGCPercent(400)
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("no property")
	}
	r := &wRun{Prop: prop, Probes: map[string]int{}, seen: map[string]bool{}, failed: map[string]int{}}
	r.pools()
	only := os.Getenv("VERIF_ONLY")
	var ps []wProbe
	for _, p := range wProbes {
		for _, q := range strings.Split(p.props, ",") {
			if q == prop && (only == "" || p.name == only) {
				ps = append(ps, p)
			}
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].name < ps[j].name })
	out := os.Getenv("VERIF_OUT")
	go r.watch(out)
	save := func() {
		r.now.Store(nil)
		if out == "" {
			for _, f := range r.Failures {
				t.Logf("%+v", f)
			}
			t.Log(r.Evals, r.Distinct, r.Checks, r.Probes, r.failed)
			for _, s := range r.Samples {
				t.Log(s)
			}
			return
		}
		b, _ := json.Marshal(r)
		os.WriteFile(out, b, 0644)
	}
	if s := os.Getenv("VERIF_CASE"); s != "" {
		n, _ := strconv.ParseInt(s, 10, 64)
		for _, p := range ps {
			r.one(p, n)
		}
		r.Done = true
		save()
		if len(r.Failures) > 0 {
			t.Fail()
		}
		return
	}
	base := int64(wEnvInt("VERIF_SEED", 1))
	budget := time.Duration(wEnvInt("VERIF_BUDGET_MS", 2000)) * time.Millisecond
	max := wEnvInt("VERIF_MAX", 1<<40)
	end := time.Now().Add(budget)
	last := time.Now()
	// the probes share the time
	count := make([]int64, len(ps))
	for len(ps) > 0 && count[0] < int64(max) {
		for i, p := range ps {
			h := int64(0)
			for _, c := range p.name {
				h = h*131 + int64(c)
			}
			for slice := time.Now().Add(20 * time.Millisecond); ; {
				r.one(p, (base*1000003+h)<<20+count[i])
				count[i]++
				if time.Now().After(slice) || count[i] >= int64(max) {
					break
				}
			}
		}
		if time.Since(last) > 5*time.Second {
			save()
			last = time.Now()
		}
		if time.Now().After(end) {
			break
		}
		if len(r.Failures) > 0 && time.Now().After(end.Add(-budget*3/4)) {
			break
		}
	}
	r.Done = true
	save()
}

// pools are the constants inputs are made of: the usual ones, those in the
// program text and those in the counterexamples of the solver
func (r *wRun) pools() {
	r.ints = []int{0, 1, -1, 2, -2, 3, 5, 7, 10, -7, 12, 30, 31, 60, 100, 365, 1000, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, 1 << 53, 1<<53 + 1, 4294967296}
	r.floats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 1.5, 2, 2.5, -2.5, 3, 1e10, 1e19, -1e19, 1e300, -1e300, 1e-300, 5e-324, math.MaxFloat64, math.Inf(1), math.Inf(-1), 9007199254740992, 0.1}
	r.strs = []string{"", "a", "b", "ab", "abc", "A", "aB", " a ", "  ", "é", "日本", "0", "1", "-1", "1.5", "12abc", "true", "TRUE", "false", "null", "x.y", "'", "\"", "\\", "\n", "a\tb", "2020-01-31", "10:11:12", "aaa", "9223372036854775808"}
	if f := os.Getenv("VERIF_POOL"); f != "" {
		var pool struct {
			Ints   []int
			Floats []float64
			Strs   []string
		}
		if b, err := os.ReadFile(f); err == nil && json.Unmarshal(b, &pool) == nil {
			r.ints = append(r.ints, pool.Ints...)
			r.floats = append(r.floats, pool.Floats...)
			r.strs = append(r.strs, pool.Strs...)
		}
	}
}

func (g *wGen) chance(percent int) bool { return g.Intn(100) < percent }

func (g *wGen) pick(ss ...string) string { return ss[g.Intn(len(ss))] }

func (g *wGen) int_() int {
	switch g.Intn(10) {
	case 0, 1, 2, 3:
		return g.Intn(9) - 3
	case 4:
		return g.run.ints[g.Intn(len(g.run.ints))] + g.Intn(3) - 1
	case 5:
		return int(g.Uint64() >> uint(g.Intn(64)))
	case 6:
		return g.Intn(41) - 20
	}
	return g.run.ints[g.Intn(len(g.run.ints))]
}

func (g *wGen) small(n int) int { return g.Intn(n) }

func (g *wGen) float() float64 {
	switch g.Intn(6) {
	case 0:
		return g.NormFloat64() * 10
	case 1:
		return float64(g.int_())
	}
	return g.run.floats[g.Intn(len(g.run.floats))]
}

func (g *wGen) str() string {
	switch g.Intn(6) {
	case 0:
		n := g.Intn(5)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + g.Intn(3))
		}
		return string(b)
	case 1:
		return g.run.strs[g.Intn(len(g.run.strs))] + g.run.strs[g.Intn(len(g.run.strs))]
	}
	return g.run.strs[g.Intn(len(g.run.strs))]
}

func (g *wGen) duration() Duration {
	f := func() int64 {
		if g.chance(60) {
			return int64(g.Intn(7) - 2)
		}
		return int64(g.int_())
	}
	return Duration{Months: f(), Days: f(), Seconds: f(), Nanos: int(f())}
}

func (g *wGen) time() time.Time {
	return time.Date(1900+g.Intn(200), time.Month(1+g.Intn(12)), 1+g.Intn(31), g.Intn(24), g.Intn(60), g.Intn(60), g.Intn(3)*499999999, time.UTC)
}

// raw is the content of a value: null, a number, a string, …
func (g *wGen) raw(depth int) interface{} {
	switch g.Intn(16) {
	case 0:
		return nil
	case 1, 2, 3:
		return g.int_()
	case 4, 5:
		return g.float()
	case 6, 7:
		return g.str()
	case 8:
		return g.Intn(2) == 0
	case 9:
		return g.duration()
	case 10:
		return NewDate(g.time())
	case 11:
		return NewLocalTime(g.time())
	case 12:
		return NewLocalDateTime(g.time())
	case 13, 14:
		if depth > 0 {
			// with something behind the end of the list
			l := make([]Value, g.Intn(4)+g.Intn(3))
			for i := range l {
				l[i] = RValue{Value: g.raw(depth - 1)}
			}
			return l[:g.Intn(len(l)+1)]
		}
		return g.int_()
	}
	if depth > 0 {
		m := map[string]Value{}
		for i := g.Intn(3); i > 0; i-- {
			m[g.pick("a", "b", "c")] = RValue{Value: g.raw(depth - 1)}
		}
		return m
	}
	return nil
}

// like makes a value of the kind of another one
func (g *wGen) like(v interface{}) interface{} {
	switch v.(type) {
	case int:
		if g.chance(30) {
			return g.float()
		}
		return g.int_()
	case float64:
		if g.chance(30) {
			return g.int_()
		}
		return g.float()
	case string:
		return g.str()
	case bool:
		return g.Intn(2) == 0
	case Duration:
		return g.duration()
	case Date:
		return NewDate(g.time())
	case LocalTime:
		return NewLocalTime(g.time())
	case LocalDateTime:
		return NewLocalDateTime(g.time())
	}
	return g.raw(2)
}

// wFreeze is what a value holds, including what is behind the end of its lists
func wFreeze(v interface{}) string {
	b := &strings.Builder{}
	var f func(v interface{}, d int)
	f = func(v interface{}, d int) {
		if d > 8 {
			return
		}
		switch x := v.(type) {
		case []Value:
			fmt.Fprintf(b, "[%d:", len(x))
			for _, e := range x[:cap(x)] {
				f(e, d+1)
			}
			b.WriteString("]")
		case map[string]Value:
			ks := make([]string, 0, len(x))
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			b.WriteString("{")
			for _, k := range ks {
				b.WriteString(k + ":")
				f(x[k], d+1)
			}
			b.WriteString("}")
		case RValue:
			fmt.Fprintf(b, "%t", x.Const)
			f(x.Value, d+1)
		case Value:
			f(x.Get(), d+1)
		case *lpg.Node, *lpg.Edge, *lpg.Path:
			fmt.Fprintf(b, "%p;", x)
		default:
			fmt.Fprintf(b, "%T %v;", x, x)
		}
	}
	f(v, 0)
	return b.String()
}

func (g *wGen) num() interface{} {
	if g.chance(60) {
		return g.int_()
	}
	return g.float()
}

func (g *wGen) tri() interface{} {
	switch g.Intn(3) {
	case 0:
		return nil
	case 1:
		return true
	}
	return false
}

func wGraph() *lpg.Graph { return lpg.NewGraph() }

// wDump writes a value in full, whatever it is
func wDump(v interface{}) string {
	b := &strings.Builder{}
	wDumpTo(b, reflect.ValueOf(v), 0)
	s := b.String()
	if len(s) > 3000 {
		s = s[:3000] + "…"
	}
	return s
}

func wDumpTo(b *strings.Builder, v reflect.Value, d int) {
	if d > 14 {
		b.WriteString("…")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		wDumpTo(b, v.Elem(), d+1)
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Elem().Kind() != reflect.Struct || strings.Contains(v.Type().String(), "lpg.") || strings.Contains(v.Type().String(), "EvalContext") {
			fmt.Fprintf(b, "%s", v.Type())
			return
		}
		b.WriteString("&")
		wDumpTo(b, v.Elem(), d+1)
	case reflect.Struct:
		if v.Type().String() == "time.Time" {
			fmt.Fprintf(b, "%v", v)
			return
		}
		b.WriteString(strings.TrimPrefix(v.Type().String(), "opencypher.") + "{")
		first := true
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().Field(i).Name == "loc" {
				continue
			}
			if f.IsZero() && (f.Kind() == reflect.Interface || f.Kind() == reflect.Ptr || f.Kind() == reflect.Slice) && !strings.HasSuffix(v.Type().String(), "RValue") {
				continue
			}
			if !first {
				b.WriteString(", ")
			}
			first = false
			b.WriteString(v.Type().Field(i).Name + ": ")
			wDumpTo(b, f, d+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len() && i < 40; i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			wDumpTo(b, v.Index(i), d+1)
		}
		b.WriteString("]")
	case reflect.Map:
		b.WriteString("{")
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for i, k := range ks {
			if i > 0 {
				b.WriteString(", ")
			}
			fmt.Fprintf(b, "%v: ", k)
			wDumpTo(b, v.MapIndex(k), d+1)
		}
		b.WriteString("}")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Func:
		b.WriteString("func")
	case reflect.Int32:
		if v.Type().String() == "int32" && v.Int() > 32 && v.Int() < 127 {
			fmt.Fprintf(b, "%q", rune(v.Int()))
			return
		}
		fmt.Fprintf(b, "%v", v)
	default:
		fmt.Fprintf(b, "%v", v)
	}
}
