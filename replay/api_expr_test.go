package opencypher

// Expressions as text: random expressions are parsed and evaluated through
// the exported interface, several times with different parameters, and
// compared with what they mean.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
)

// xN is an expression
type xN struct {
	op   string
	kids []*xN
	ops  []string
	s    string
	v    interface{}
}

// xEnv holds the parameters
type xEnv map[string]interface{}

type xErr struct{}

// precedence of the operators, weakest first
var xPrec = map[string]int{"or": 1, "xor": 2, "and": 3, "not": 4, "cmp": 5, "add": 6, "mul": 7, "pow": 8, "neg": 9,
	"idx": 10, "slice": 10, "in": 10, "str": 10, "isnull": 10}

func (n *xN) prec() int {
	if p, ok := xPrec[n.op]; ok {
		return p
	}
	return 11
}

func (n *xN) at(p int) string {
	if n.prec() < p {
		return "(" + n.String() + ")"
	}
	return n.String()
}

func (n *xN) String() string {
	k := n.kids
	join := func(sep string, p int) string {
		parts := make([]string, len(k))
		for i := range k {
			parts[i] = k[i].at(p)
		}
		return strings.Join(parts, sep)
	}
	switch n.op {
	case "lit", "param":
		return n.s
	case "paren":
		return "(" + k[0].String() + ")"
	case "or":
		return join(" OR ", 2)
	case "xor":
		return join(" XOR ", 3)
	case "and":
		return join(" AND ", 4)
	case "not":
		return "NOT " + k[0].at(4)
	case "cmp", "add", "mul":
		p := n.prec() + 1
		b := k[0].at(p)
		for i, o := range n.ops {
			b += " " + o + " " + k[i+1].at(p)
		}
		return b
	case "pow":
		return join(" ^ ", 9)
	case "neg":
		return n.s + " " + k[0].at(9)
	case "idx":
		return k[0].at(10) + "[" + k[1].String() + "]"
	case "slice":
		b := k[0].at(10) + "["
		if k[1] != nil {
			b += k[1].String()
		}
		b += ".."
		if k[2] != nil {
			b += k[2].String()
		}
		return b + "]"
	case "in":
		return k[0].at(10) + " IN " + k[1].at(11)
	case "str":
		return k[0].at(10) + " " + n.s + " " + k[1].at(11)
	case "isnull":
		return k[0].at(10) + " " + n.s
	case "func":
		return n.s + "(" + join(", ", 0) + ")"
	case "list":
		return "[" + join(", ", 0) + "]"
	case "map":
		b := "{"
		for i := range k {
			if i > 0 {
				b += ", "
			}
			b += n.ops[i] + ": " + k[i].String()
		}
		return b + "}"
	case "case":
		b := "CASE"
		i := 0
		if n.s == "simple" {
			b += " " + k[0].String()
			i = 1
		}
		for ; i+1 < len(k); i += 2 {
			b += " WHEN " + k[i].String() + " THEN " + k[i+1].String()
		}
		if i < len(k) {
			b += " ELSE " + k[i].String()
		}
		return b + " END"
	}
	panic("op " + n.op)
}

// ------------------------------------------------------------ the meaning

func xFail() interface{} { panic(xErr{}) }

func (n *xN) value(env xEnv) (v interface{}, failed bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(xErr); !ok {
				panic(e)
			}
			v, failed = nil, true
		}
	}()
	return n.eval(env), false
}

func xNum(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func xMul(op string, a, b interface{}) interface{} {
	if a == nil || b == nil {
		return nil
	}
	af, an := xNum(a)
	bf, bn := xNum(b)
	ai, aint := a.(int)
	bi, bint := b.(int)
	ad, adur := a.(Duration)
	bd, bdur := b.(Duration)
	switch {
	case an && bn:
		if op != "*" && bf == 0 {
			return xFail()
		}
		if aint && bint {
			switch op {
			case "*":
				return ai * bi
			case "/":
				return ai / bi
			}
			return ai % bi
		}
		switch op {
		case "*":
			return af * bf
		case "/":
			return af / bf
		}
		return math.Mod(af, bf)
	case adur && bn:
		if op == "%" || op == "/" && bf == 0 {
			return xFail()
		}
		return xScale(ad, b, op == "/")
	case an && bdur:
		if op != "*" {
			return xFail()
		}
		return xScale(bd, a, false)
	}
	return xFail()
}

func xScale(d Duration, by interface{}, div bool) Duration {
	f := func(n int64) int64 {
		switch x := by.(type) {
		case int:
			if div {
				return n / int64(x)
			}
			return n * int64(x)
		case float64:
			if div {
				return int64(float64(n) / x)
			}
			return int64(float64(n) * x)
		}
		return 0
	}
	return Duration{Months: f(d.Months), Days: f(d.Days), Seconds: f(d.Seconds), Nanos: int(f(int64(d.Nanos)))}
}

func xAdd(a, b interface{}, sub bool) interface{} {
	if a == nil || b == nil {
		return nil
	}
	s := int64(1)
	if sub {
		s = -1
	}
	switch x := a.(type) {
	case int, float64:
		af, _ := xNum(a)
		bf, ok := xNum(b)
		if !ok {
			return xFail()
		}
		ai, aint := a.(int)
		bi, bint := b.(int)
		if aint && bint {
			return ai + int(s)*bi
		}
		if sub {
			return af - bf
		}
		return af + bf
	case string:
		if y, ok := b.(string); ok && !sub {
			return x + y
		}
	case []interface{}:
		if y, ok := b.([]interface{}); ok && !sub {
			return append(append([]interface{}{}, x...), y...)
		}
	case Duration:
		if y, ok := b.(Duration); ok {
			return Duration{Months: x.Months + s*y.Months, Days: x.Days + s*y.Days, Seconds: x.Seconds + s*y.Seconds, Nanos: x.Nanos + int(s)*y.Nanos}
		}
		if !sub {
			switch b.(type) {
			case Date, LocalTime, LocalDateTime:
				return xAdd(b, a, false)
			}
		}
	case Date:
		if d, ok := b.(Duration); ok {
			t := x.Time()
			return NewDate(time.Date(t.Year(), t.Month()+time.Month(s*d.Months), t.Day()+int(s*d.Days), 0, 0, 0, 0, t.Location()))
		}
	case LocalTime:
		if d, ok := b.(Duration); ok {
			t := x.Time()
			return NewLocalTime(time.Date(1970, 1, 1, t.Hour(), t.Minute(), t.Second()+int(s*d.Seconds), t.Nanosecond()+int(s)*d.Nanos, t.Location()))
		}
	case LocalDateTime:
		if d, ok := b.(Duration); ok {
			t := x.Time()
			return NewLocalDateTime(time.Date(t.Year(), t.Month()+time.Month(s*d.Months), t.Day()+int(s*d.Days), t.Hour(), t.Minute(), t.Second()+int(s*d.Seconds), t.Nanosecond()+int(s)*d.Nanos, t.Location()))
		}
	}
	return xFail()
}

// xCmp orders two values that are not null
func xCmp(a, b interface{}) int {
	lt := func(l, g bool) int {
		if l {
			return -1
		}
		if g {
			return 1
		}
		return 0
	}
	switch x := a.(type) {
	case bool:
		if y, ok := b.(bool); ok {
			return lt(!x && y, x && !y)
		}
	case int, float64:
		if y, ok := xNum(b); ok {
			ai, aint := a.(int)
			bi, bint := b.(int)
			if aint && bint {
				return lt(ai < bi, ai > bi)
			}
			z, _ := xNum(a)
			return lt(z < y, !(z <= y))
		}
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y)
		}
	case Duration:
		if y, ok := b.(Duration); ok {
			p := []int64{x.Months, x.Days, x.Seconds, int64(x.Nanos)}
			q := []int64{y.Months, y.Days, y.Seconds, int64(y.Nanos)}
			for i := range p {
				if p[i] != q[i] {
					return lt(p[i] < q[i], p[i] > q[i])
				}
			}
			return 0
		}
	case Date:
		if y, ok := b.(Date); ok {
			return lt(x.Time().Before(y.Time()), x.Time().After(y.Time()))
		}
	case LocalTime:
		if y, ok := b.(LocalTime); ok {
			return lt(x.Time().Before(y.Time()), x.Time().After(y.Time()))
		}
	case LocalDateTime:
		if y, ok := b.(LocalDateTime); ok {
			return lt(x.Time().Before(y.Time()), x.Time().After(y.Time()))
		}
	}
	xFail()
	return 0
}

func xTri(v interface{}) interface{} {
	if v == nil {
		return nil
	}
	if b, ok := v.(bool); ok {
		return b
	}
	return xFail()
}

func (n *xN) eval(env xEnv) interface{} {
	k := n.kids
	switch n.op {
	case "lit":
		return n.v
	case "param":
		v, ok := env[n.s]
		if !ok {
			return xFail()
		}
		return v
	case "paren":
		return k[0].eval(env)
	case "or", "and":
		decides := n.op == "or"
		unknown := false
		for _, c := range k {
			v := xTri(c.eval(env))
			if v == decides {
				return decides
			}
			if v == nil {
				unknown = true
			}
		}
		if unknown {
			return nil
		}
		return !decides
	case "xor":
		acc := xTri(k[0].eval(env))
		for _, c := range k[1:] {
			v := xTri(c.eval(env))
			if v == nil || acc == nil {
				acc = nil
			} else {
				acc = v != acc
			}
		}
		return acc
	case "not":
		v := xTri(k[0].eval(env))
		if v == nil {
			return nil
		}
		return v == false
	case "cmp":
		left := k[0].eval(env)
		var acc interface{} = true
		for i, op := range n.ops {
			right := k[i+1].eval(env)
			var link interface{}
			if left != nil && right != nil {
				c := xCmp(left, right)
				link = map[string]bool{"=": c == 0, "<>": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
			}
			if acc == false || link == false {
				acc = false
			} else if link == nil {
				acc = nil
			}
			left = right
		}
		return acc
	case "add":
		acc := k[0].eval(env)
		for i, op := range n.ops {
			acc = xAdd(acc, k[i+1].eval(env), op == "-")
		}
		return acc
	case "mul":
		acc := k[0].eval(env)
		for i, op := range n.ops {
			r := k[i+1].eval(env)
			if acc == nil || r == nil {
				return nil
			}
			acc = xMul(op, acc, r)
		}
		return acc
	case "pow":
		acc := k[0].eval(env)
		for _, c := range k[1:] {
			r := c.eval(env)
			if acc == nil || r == nil {
				return nil
			}
			a, ok1 := xNum(acc)
			b, ok2 := xNum(r)
			if !ok1 || !ok2 {
				return xFail()
			}
			acc = math.Pow(a, b)
		}
		return acc
	case "neg":
		v := k[0].eval(env)
		if n.s == "+" {
			return v
		}
		switch x := v.(type) {
		case nil:
			return nil
		case int:
			return -x
		case float64:
			return -x
		}
		return xFail()
	case "isnull":
		return (k[0].eval(env) == nil) == (n.s == "IS NULL")
	case "idx":
		v := k[0].eval(env)
		l, ok := v.([]interface{})
		if !ok && v != nil {
			return xFail()
		}
		i := k[1].eval(env)
		if i == nil {
			return nil
		}
		at, ok := i.(int)
		if !ok {
			return xFail()
		}
		if v == nil {
			return nil
		}
		if at < 0 {
			at += len(l)
		}
		if at < 0 || at >= len(l) {
			return nil
		}
		return l[at]
	case "slice":
		v := k[0].eval(env)
		if v == nil {
			return nil
		}
		l, ok := v.([]interface{})
		if !ok {
			return xFail()
		}
		b := []int{0, len(l)}
		for i := range b {
			if k[i+1] == nil {
				continue
			}
			w := k[i+1].eval(env)
			if w == nil {
				return nil
			}
			x, ok := w.(int)
			if !ok {
				return xFail()
			}
			b[i] = x
		}
		if b[0] < 0 || b[1] < 0 {
			return xFail()
		}
		out := []interface{}{}
		for i := range l {
			if i >= b[0] && i < b[1] {
				out = append(out, l[i])
			}
		}
		return out
	case "in":
		v := k[0].eval(env)
		w := k[1].eval(env)
		if w == nil {
			return nil
		}
		l, ok := w.([]interface{})
		if !ok {
			return xFail()
		}
		if v == nil {
			return nil
		}
		unknown := false
		for _, e := range l {
			if e == nil {
				unknown = true
				continue
			}
			if xCmp(v, e) == 0 {
				return true
			}
		}
		if unknown {
			return nil
		}
		return false
	case "str":
		v := k[0].eval(env)
		w := k[1].eval(env)
		if v == nil || w == nil {
			return nil
		}
		a, ok1 := v.(string)
		b, ok2 := w.(string)
		if !ok1 || !ok2 {
			return xFail()
		}
		switch n.s {
		case "STARTS WITH":
			return len(a) >= len(b) && a[:len(b)] == b
		case "ENDS WITH":
			return len(a) >= len(b) && a[len(a)-len(b):] == b
		}
		return strings.Index(a, b) >= 0
	case "list":
		out := []interface{}{}
		for _, c := range k {
			out = append(out, c.eval(env))
		}
		return out
	case "map":
		out := map[string]interface{}{}
		for i, c := range k {
			key := n.ops[i]
			if key[0] == '`' {
				key = strings.ReplaceAll(key[1:len(key)-1], "``", "`")
			}
			if key == "" {
				return xFail()
			}
			out[key] = c.eval(env)
		}
		return out
	case "case":
		i := 0
		var test interface{}
		if n.s == "simple" {
			test = k[0].eval(env)
			i = 1
		}
		for ; i+1 < len(k); i += 2 {
			w := k[i].eval(env)
			if n.s == "simple" {
				if test != nil && w != nil && xCmp(test, w) == 0 {
					return k[i+1].eval(env)
				}
				continue
			}
			if xTri(w) == true {
				return k[i+1].eval(env)
			}
		}
		if i < len(k) {
			return k[i].eval(env)
		}
		return nil
	case "func":
		f := xFuncs[n.s]
		if f.f == nil || len(k) < f.min || f.max >= 0 && len(k) > f.max {
			return xFail()
		}
		args := make([]interface{}, len(k))
		for i := range k {
			args[i] = k[i].eval(env)
		}
		return f.f(args)
	}
	panic("op " + n.op)
}

// --------------------------------------------------------------- functions

type xFunc struct {
	min, max int
	f        func(a []interface{}) interface{}
}

func xStrArg(v interface{}) string {
	s, ok := v.(string)
	if !ok {
		xFail()
	}
	return s
}

func xIntArg(v interface{}) int {
	i, ok := v.(int)
	if !ok {
		xFail()
	}
	return i
}

func xSpace(c rune) bool { return strings.TrimSpace(string(c)) == "" }

var xFuncs = map[string]xFunc{
	"size": {1, 1, func(a []interface{}) interface{} {
		switch x := a[0].(type) {
		case []interface{}:
			return len(x)
		case string:
			return len(x)
		}
		return nil
	}},
	"range": {2, 3, func(a []interface{}) interface{} {
		from, to, step := xIntArg(a[0]), xIntArg(a[1]), 1
		if len(a) == 3 {
			step = xIntArg(a[2])
		}
		out := []interface{}{}
		if step == 0 {
			return out
		}
		n := 0
		for i := from; step > 0 && i < to || step < 0 && i > to; i += step {
			out = append(out, i)
			if step > 0 && i+step < i || step < 0 && i+step > i {
				break
			}
			if n++; n > 3000 {
				panic(wAbort{})
			}
		}
		return out
	}},
	"left": {2, 2, func(a []interface{}) interface{} {
		if a[0] == nil || a[1] == nil {
			return nil
		}
		s, n := xStrArg(a[0]), xIntArg(a[1])
		if n < 0 {
			return ""
		}
		if n > len(s) {
			return s
		}
		return s[:n]
	}},
	"right": {2, 2, func(a []interface{}) interface{} {
		if a[0] == nil || a[1] == nil {
			return nil
		}
		s, n := xStrArg(a[0]), xIntArg(a[1])
		if n < 0 {
			return ""
		}
		if n > len(s) {
			return s
		}
		return s[len(s)-n:]
	}},
	"substring": {2, 3, func(a []interface{}) interface{} {
		if a[0] == nil || a[1] == nil {
			return nil
		}
		s, from := xStrArg(a[0]), xIntArg(a[1])
		n := len(s)
		if len(a) == 3 {
			if a[2] == nil {
				return nil
			}
			n = xIntArg(a[2])
			if n < 0 {
				return nil
			}
		}
		if from < 0 || from > len(s) {
			return ""
		}
		s = s[from:]
		if n < len(s) {
			s = s[:n]
		}
		return s
	}},
	"split": {2, 2, func(a []interface{}) interface{} {
		if a[0] == nil {
			return nil
		}
		s := xStrArg(a[0])
		if a[1] == nil {
			return nil
		}
		d := xStrArg(a[1])
		out := []interface{}{}
		if d == "" {
			for _, c := range strings.Split(s, "") {
				out = append(out, c)
			}
			return out
		}
		for {
			i := strings.Index(s, d)
			if i < 0 {
				return append(out, s)
			}
			out = append(out, s[:i])
			s = s[i+len(d):]
		}
	}},
	"trim": {1, 1, func(a []interface{}) interface{} {
		if a[0] == nil {
			return nil
		}
		return strings.TrimFunc(xStrArg(a[0]), xSpace)
	}},
	"ltrim": {1, 1, func(a []interface{}) interface{} {
		if a[0] == nil {
			return nil
		}
		return strings.TrimLeftFunc(xStrArg(a[0]), xSpace)
	}},
	"rtrim": {1, 1, func(a []interface{}) interface{} {
		if a[0] == nil {
			return nil
		}
		return strings.TrimRightFunc(xStrArg(a[0]), xSpace)
	}},
	"toInteger":       {1, 1, func(a []interface{}) interface{} { return xToInt(a[0], false) }},
	"toIntegerOrNull": {1, 1, func(a []interface{}) interface{} { return xToInt(a[0], true) }},
	"toFloat":         {1, 1, func(a []interface{}) interface{} { return xToFloat(a[0], false) }},
	"toFloatOrNull":   {1, 1, func(a []interface{}) interface{} { return xToFloat(a[0], true) }},
	// registered by the probes
	"v.first": {1, -1, func(a []interface{}) interface{} { return a[0] }},
	"v.args":  {2, 4, func(a []interface{}) interface{} { return append([]interface{}{}, a...) }},
	"v.none":  {0, 0, func(a []interface{}) interface{} { return 42 }},
	"vlist":   {0, -1, func(a []interface{}) interface{} { return append([]interface{}{}, a...) }},
}

func xToInt(v interface{}, orNull bool) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case int:
		return x
	case float64:
		return int(x)
	case bool:
		if x {
			return 1
		}
		return 0
	case string:
		if n, err := strconv.ParseInt(x, 10, 64); err == nil {
			return int(n)
		}
	}
	if orNull {
		return nil
	}
	return xFail()
}

func xToFloat(v interface{}, orNull bool) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case int:
		return float64(x)
	case float64:
		return x
	case string:
		if n, err := strconv.ParseFloat(x, 64); err == nil {
			return n
		}
	}
	if orNull {
		return nil
	}
	return xFail()
}

func init() {
	f := func(name string, min, max int, fn func(a []Value) Value) {
		RegisterGlobalFunc(Function{Name: name, MinArgs: min, MaxArgs: max, ValueFunc: func(ctx *EvalContext, a []Value) (Value, error) { return fn(a), nil }})
	}
	list := func(a []Value) Value { return RValue{Value: append([]Value{}, a...)} }
	f("v.first", 1, -1, func(a []Value) Value { return a[0] })
	f("v.args", 2, 4, list)
	f("v.none", 0, 0, func(a []Value) Value { return RValue{Value: 42} })
	RegisterGlobalFunc(Function{Name: "vlist", MinArgs: 0, MaxArgs: -1, Func: func(ctx *EvalContext, a []Evaluatable) (Value, error) {
		out := []Value{}
		for _, e := range a {
			v, err := e.Evaluate(ctx)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		return RValue{Value: out}, nil
	}})
}

// ----------------------------------------------------- values of both sides

// xNative is a value without its wrapping
func xNative(v interface{}) interface{} {
	if w, ok := v.(Value); ok {
		v = w.Get()
	}
	switch x := v.(type) {
	case []Value:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = xNative(x[i])
		}
		return out
	case map[string]Value:
		out := map[string]interface{}{}
		for k, e := range x {
			out[k] = xNative(e)
		}
		return out
	}
	return v
}

func xWrap(v interface{}) Value {
	switch x := v.(type) {
	case []interface{}:
		out := make([]Value, len(x), len(x)+2)
		for i := range x {
			out[i] = xWrap(x[i])
		}
		return RValue{Value: out}
	case map[string]interface{}:
		out := map[string]Value{}
		for k, e := range x {
			out[k] = xWrap(e)
		}
		return RValue{Value: out}
	}
	return RValue{Value: v}
}

func xSame(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case float64:
		y, ok := b.(float64)
		return ok && (x == y && math.Signbit(x) == math.Signbit(y) || x != x && y != y)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !xSame(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !xSame(x[k], v) {
				return false
			}
		}
		return true
	case Date:
		y, ok := b.(Date)
		return ok && x.Time().Equal(y.Time())
	case LocalTime:
		y, ok := b.(LocalTime)
		return ok && x.Time().Equal(y.Time())
	case LocalDateTime:
		y, ok := b.(LocalDateTime)
		return ok && x.Time().Equal(y.Time())
	}
	return a == b
}

func xShow(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case string:
		return strconv.Quote(x)
	case float64:
		return fmt.Sprintf("float %v", x)
	case []interface{}:
		p := make([]string, len(x))
		for i := range x {
			p[i] = xShow(x[i])
		}
		return "[" + strings.Join(p, ", ") + "]"
	case map[string]interface{}:
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			ks[i] = strconv.Quote(k) + ": " + xShow(x[k])
		}
		return "{" + strings.Join(ks, ", ") + "}"
	case Duration:
		return fmt.Sprintf("Duration%+v", struct {
			M, D, S int64
			N       int
		}{x.Months, x.Days, x.Seconds, x.Nanos})
	case int, bool:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%T %v", v, v)
}

// -------------------------------------------------------------- generation

type xG struct {
	*wGen
	n    int
	kind map[string]string // of the parameters
	lits bool              // literals only
}

// xRaw is a value of a kind
func (g *xG) xRaw(kind string) interface{} {
	if g.chance(7) && g.run.strict == false {
		return nil
	}
	switch kind {
	case "num":
		return g.num()
	case "int":
		return g.int_()
	case "small":
		return g.Intn(9) - 3
	case "str":
		return g.str()
	case "bool":
		return g.Intn(2) == 0
	case "dur":
		return g.duration()
	case "date":
		return NewDate(g.time())
	case "time":
		return NewLocalTime(g.time())
	case "datetime":
		return NewLocalDateTime(g.time())
	}
	if strings.HasPrefix(kind, "list") {
		sub := strings.TrimPrefix(kind, "list:")
		out := make([]interface{}, g.Intn(5))
		for i := range out {
			out[i] = g.xRaw(sub)
		}
		return out
	}
	return xNative(g.raw(2))
}

var xKinds = []string{"num", "int", "str", "bool", "dur", "date", "time", "datetime", "list:num", "list:any", "any"}

func (g *xG) anyKind() string { return xKinds[g.Intn(len(xKinds))] }

func xQuote(s string, q byte) string {
	b := strings.Builder{}
	b.WriteByte(q)
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '\\', q:
			b.WriteByte('\\')
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte(q)
	return b.String()
}

// xLit writes a value as text, if it has one
func (g *xG) xLit(v interface{}) *xN {
	l := func(s string) *xN { return &xN{op: "lit", s: s, v: v} }
	switch x := v.(type) {
	case nil:
		return l(g.pick("null", "NULL", "Null"))
	case bool:
		if x {
			return l(g.pick("true", "TRUE"))
		}
		return l(g.pick("false", "FALSE", "False"))
	case int:
		if x < 0 {
			return nil
		}
		switch g.Intn(6) {
		case 0:
			return l(fmt.Sprintf("0x%x", x))
		case 1:
			return l(fmt.Sprintf("0x%X", x))
		case 2:
			if x > 0 {
				return l(fmt.Sprintf("0%o", x))
			}
		}
		return l(strconv.Itoa(x))
	case float64:
		if x < 0 || math.IsNaN(x) || math.IsInf(x, 0) || math.Signbit(x) {
			return nil
		}
		s := strconv.FormatFloat(x, 'g', -1, 64)
		if g.chance(30) {
			s = strconv.FormatFloat(x, 'f', -1, 64)
		} else if g.chance(30) {
			s = strconv.FormatFloat(x, 'e', -1, 64)
		}
		s = strings.ReplaceAll(s, "e+", "e")
		if !strings.ContainsAny(s, ".e") {
			s += ".0"
		}
		if g.chance(30) {
			s = strings.ReplaceAll(s, "e", "E")
		}
		if strings.HasPrefix(s, "0.") && g.chance(30) {
			s = s[1:]
		}
		return l(s)
	case string:
		return l(xQuote(x, "'\""[g.Intn(2)]))
	case []interface{}:
		n := &xN{op: "list"}
		for _, e := range x {
			c := g.xLit(e)
			if c == nil {
				return nil
			}
			n.kids = append(n.kids, c)
		}
		return n
	case map[string]interface{}:
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		n := &xN{op: "map"}
		for _, k := range ks {
			c := g.xLit(x[k])
			if c == nil {
				return nil
			}
			n.ops = append(n.ops, k)
			n.kids = append(n.kids, c)
		}
		return n
	}
	return nil
}

func (g *xG) param(kind string) *xN {
	name := fmt.Sprintf("$p%d", g.n)
	if len(g.kind) > 0 && g.chance(15) {
		for n, k := range g.kind {
			if k == kind {
				name = n
			}
		}
	} else {
		g.n++
	}
	g.kind[name] = kind
	return &xN{op: "param", s: name}
}

// leaf is a literal or a parameter
func (g *xG) leaf(kind string) *xN {
	if g.chance(5) {
		kind = g.anyKind()
	}
	if g.lits || g.chance(40) {
		for i := 0; i < 5; i++ {
			if n := g.xLit(g.xRaw(kind)); n != nil {
				return n
			}
		}
	}
	return g.param(kind)
}

// expr is an expression whose value is mostly of a kind
func (g *xG) expr(kind string, depth int) *xN {
	if depth <= 0 {
		return g.leaf(kind)
	}
	if g.chance(12) {
		return g.leaf(kind)
	}
	var ops []string
	switch {
	case kind == "num":
		ops = []string{"add", "mul", "pow", "neg", "add", "mul", "case", "size", "idx", "paren", "conv"}
	case kind == "int" || kind == "small":
		ops = []string{"add", "neg", "size", "toInteger"}
	case kind == "bool":
		ops = []string{"or", "and", "xor", "not", "cmp", "cmp", "in", "str", "isnull", "case", "paren"}
	case kind == "str":
		ops = []string{"cat", "strfun", "case"}
	case strings.HasPrefix(kind, "list"):
		ops = []string{"list", "list", "slice", "catlist", "range", "split"}
	case kind == "dur":
		ops = []string{"durmul", "duradd"}
	case kind == "date" || kind == "time" || kind == "datetime":
		ops = []string{"tempadd"}
	default:
		return g.expr(g.anyKind2(), depth)
	}
	return g.build(ops[g.Intn(len(ops))], kind, depth-1)
}

func (g *xG) anyKind2() string { return xKinds[g.Intn(len(xKinds)-2)] }

func (g *xG) many(n int, f func() *xN) []*xN {
	out := make([]*xN, n)
	for i := range out {
		out[i] = f()
	}
	return out
}

func (g *xG) build(op, kind string, d int) *xN {
	n := 2 + g.Intn(5)/3 + g.Intn(5)/4
	of := func(k string) func() *xN { return func() *xN { return g.expr(k, d) } }
	switch op {
	case "or", "and", "xor":
		return &xN{op: op, kids: g.many(n, of("bool"))}
	case "not":
		return &xN{op: "not", kids: g.many(1, of("bool"))}
	case "paren":
		return &xN{op: "paren", kids: g.many(1, of(kind))}
	case "cmp":
		k := g.pick("num", "num", "int", "str", "bool", "dur", "date", "time", "datetime", "small")
		if g.chance(4) {
			k = "any"
		}
		e := &xN{op: "cmp", kids: g.many(n, of(k))}
		for i := 1; i < n; i++ {
			e.ops = append(e.ops, g.pick("=", "<>", "<", "<=", ">", ">="))
		}
		return e
	case "add", "mul", "cat", "catlist", "duradd":
		k := map[string]string{"cat": "str", "catlist": "list:any", "duradd": "dur"}[op]
		if k == "" {
			k = "num"
			if kind == "int" || kind == "small" {
				k = kind
			}
		}
		if strings.HasPrefix(kind, "list") && op == "catlist" {
			k = kind
		}
		e := &xN{op: op, kids: g.many(n, of(k))}
		if op != "add" && op != "mul" {
			e.op = "add"
		}
		for i := 1; i < n; i++ {
			switch {
			case op == "mul":
				e.ops = append(e.ops, g.pick("*", "/", "%"))
			case op == "add" || op == "duradd" || g.chance(2):
				e.ops = append(e.ops, g.pick("+", "-"))
			default:
				e.ops = append(e.ops, "+")
			}
		}
		return e
	case "durmul":
		e := &xN{op: "mul", kids: []*xN{g.expr("dur", d), g.expr("num", d)}, ops: []string{g.pick("*", "*", "/", "%")}}
		if e.ops[0] != "/" && g.chance(40) {
			e.kids[0], e.kids[1] = e.kids[1], e.kids[0]
		}
		return e
	case "tempadd":
		e := &xN{op: "add", kids: []*xN{g.expr(kind, d), g.expr("dur", d)}, ops: []string{g.pick("+", "-")}}
		if g.chance(30) {
			e.kids[0], e.kids[1] = e.kids[1], e.kids[0]
		}
		if g.chance(20) {
			e.kids = append(e.kids, g.expr("dur", d))
			e.ops = append(e.ops, g.pick("+", "-"))
		}
		return e
	case "pow":
		return &xN{op: "pow", kids: g.many(n, of("num"))}
	case "neg":
		return &xN{op: "neg", s: g.pick("-", "-", "+"), kids: g.many(1, of("num"))}
	case "isnull":
		return &xN{op: "isnull", s: g.pick("IS NULL", "IS NOT NULL"), kids: g.many(1, of(g.anyKind()))}
	case "in":
		k := g.pick("num", "str", "small", "bool", "dur", "date")
		return &xN{op: "in", kids: []*xN{g.expr(k, d), g.expr("list:"+k, d)}}
	case "str":
		return &xN{op: "str", s: g.pick("STARTS WITH", "ENDS WITH", "CONTAINS"), kids: g.many(2, of("str"))}
	case "idx":
		k := kind
		if k == "any" || strings.HasPrefix(k, "list") {
			k = "num"
		}
		return &xN{op: "idx", kids: []*xN{g.expr("list:"+k, d), g.expr("small", d)}}
	case "slice":
		e := &xN{op: "slice", kids: []*xN{g.expr(kind, d), nil, nil}}
		for i := 1; i <= 2; i++ {
			if g.chance(75) {
				if g.chance(80) {
					v := g.Intn(6)
					e.kids[i] = &xN{op: "lit", s: strconv.Itoa(v), v: v}
				} else {
					e.kids[i] = g.expr("small", d)
				}
			}
		}
		return e
	case "list":
		k := "any"
		if strings.HasPrefix(kind, "list:") {
			k = strings.TrimPrefix(kind, "list:")
		}
		return &xN{op: "list", kids: g.many(g.Intn(4), of(k))}
	case "map":
		e := &xN{op: "map"}
		for i := g.Intn(4); i > 0; i-- {
			e.ops = append(e.ops, g.pick("a", "b", "c", "A", "x1", "key", "`a b`", "`x``y`", "Match", "END"))
			e.kids = append(e.kids, g.expr(g.anyKind(), d))
		}
		return e
	case "range":
		e := &xN{op: "func", s: "range", kids: g.many(2+g.Intn(2), of("small"))}
		if g.chance(15) {
			// around the extreme integers
			b := g.pick("$max", "$min")
			for i := 0; i < 2; i++ {
				v := g.Intn(5)
				o := "-"
				if b == "$min" {
					o = "+"
				}
				e.kids[i] = &xN{op: "add", ops: []string{o}, kids: []*xN{{op: "param", s: b}, {op: "lit", s: strconv.Itoa(v), v: v}}}
			}
			g.kind["$max"], g.kind["$min"] = "max", "min"
		}
		return e
	case "split":
		return &xN{op: "func", s: "split", kids: []*xN{g.expr("str", d), g.expr("str", d)}}
	case "size":
		return &xN{op: "func", s: "size", kids: g.many(1, of(g.pick("str", "list:any", "any")))}
	case "conv":
		return &xN{op: "func", s: g.pick("toInteger", "toFloat", "toIntegerOrNull", "toFloatOrNull"), kids: g.many(1, of(g.pick("num", "str", "bool", "any")))}
	case "toInteger":
		return &xN{op: "func", s: "toInteger", kids: g.many(1, of("num"))}
	case "strfun":
		switch f := g.pick("left", "right", "substring", "substring3", "trim", "ltrim", "rtrim"); f {
		case "left", "right", "substring":
			return &xN{op: "func", s: f, kids: []*xN{g.expr("str", d), g.expr("small", d)}}
		case "substring3":
			return &xN{op: "func", s: "substring", kids: []*xN{g.expr("str", d), g.expr(g.pick("small", "small", "int"), d), g.expr(g.pick("small", "small", "int"), d)}}
		default:
			return &xN{op: "func", s: f, kids: []*xN{g.expr("str", d)}}
		}
	case "case":
		e := &xN{op: "case", s: g.pick("simple", "searched")}
		k := g.pick("small", "str", "num", "bool", "dur")
		if e.s == "simple" {
			e.kids = append(e.kids, g.expr(k, d))
		} else {
			k = "bool"
		}
		for i := 1 + g.Intn(3); i > 0; i-- {
			e.kids = append(e.kids, g.expr(k, d), g.expr(kind, d))
		}
		if g.chance(60) {
			e.kids = append(e.kids, g.expr(kind, d))
		}
		return e
	case "func":
		names := make([]string, 0, len(xFuncs))
		for f := range xFuncs {
			names = append(names, f)
		}
		sort.Strings(names)
		f := names[g.Intn(len(names))]
		x := xFuncs[f]
		n := x.min
		if x.max > x.min {
			n += g.Intn(x.max - x.min + 1)
		} else if x.max < 0 {
			n += g.Intn(4)
		}
		if g.chance(15) {
			n += g.Intn(3) - 1
			if n < 0 {
				n = 0
			}
		}
		if g.chance(5) {
			f = g.pick("nosuch", "v.nosuch", strings.ToUpper(f), "v."+f)
		}
		k := g.pick("num", "str", "small", "any")
		kids := make([]*xN, n)
		for i := range kids {
			kids[i] = g.expr(k, d)
		}
		return &xN{op: "func", s: f, kids: kids}
	}
	panic("build " + op)
}

// env gives the parameters values
func (g *xG) env() xEnv {
	e := xEnv{}
	names := make([]string, 0, len(g.kind))
	for n := range g.kind {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch g.kind[n] {
		case "max":
			e[n] = math.MaxInt64
		case "min":
			e[n] = math.MinInt64
		default:
			e[n] = g.xRaw(g.kind[n])
		}
		if g.chance(1) {
			delete(e, n)
		}
	}
	return e
}

// xCell is the only cell of a result
func xCell(v Value) (interface{}, bool) {
	rs, ok := v.Get().(ResultSet)
	if !ok || len(rs.Rows) != 1 || len(rs.Rows[0]) != 1 {
		return nil, false
	}
	c, ok := rs.Rows[0]["1"]
	if !ok || c == nil {
		return nil, false
	}
	return xNative(c), true
}

// try evaluates an expression with several sets of parameters
func (g *xG) try(n *xN, rounds int) {
	text := "RETURN " + n.String()
	ev, err := Parse(text)
	if err != nil {
		g.input("%s", text)
		g.check("parse", false, "%v", err)
		return
	}
	for r := 0; r < rounds; r++ {
		env := g.env()
		want, failed := n.value(env)
		g.input("%s with %s", text, xShow(map[string]interface{}(env)))
		ctx := NewEvalContext(wGraph())
		wrapped := map[string]Value{}
		for k, v := range env {
			wrapped[k] = xWrap(v)
			ctx.SetParameter(k, wrapped[k])
		}
		v, err := ev.Evaluate(ctx)
		for k, v := range env {
			g.check("params", xSame(xNative(wrapped[k]), v), "parameter %s changed from %s to %s", k, xShow(v), xShow(xNative(wrapped[k])))
		}
		if failed {
			if !g.check("fails", err != nil, "evaluation %d gave %s, want an error", r+1, wDump(v)) {
				return
			}
			continue
		}
		if !g.check("succeeds", err == nil, "evaluation %d failed (%v), want %s", r+1, err, xShow(want)) {
			return
		}
		got, ok := xCell(v)
		if !g.check("value", ok && xSame(got, want), "evaluation %d gave %s, want %s", r+1, xShow(got), xShow(want)) {
			return
		}
	}
}

func xProbe(name, props string, rounds int, f func(g *xG) *xN) bool {
	return wProbeAdd("api "+name, props, func(w *wGen) {
		g := &xG{wGen: w, kind: map[string]string{}}
		n := f(g)
		g.try(n, rounds)
	})
}

var (
	_ = xProbe("multiplicative", "C01", 5, func(g *xG) *xN {
		if g.chance(30) {
			return g.build("durmul", "dur", g.Intn(2))
		}
		return g.build("mul", "num", g.Intn(2))
	})
	_ = xProbe("additive", "C02", 5, func(g *xG) *xN {
		switch g.Intn(6) {
		case 0:
			return g.build("add", "num", g.Intn(2))
		case 1:
			return g.build("cat", "str", 0)
		case 2:
			return g.build("catlist", "list:any", g.Intn(2))
		case 3:
			return g.build("duradd", "dur", g.Intn(2))
		case 4:
			e := &xN{op: "add", kids: []*xN{g.leaf(g.anyKind()), g.leaf(g.anyKind())}, ops: []string{g.pick("+", "-")}}
			return e
		}
		return g.build("tempadd", g.pick("date", "time", "datetime"), g.Intn(2))
	})
	_ = xProbe("power and sign", "C03", 5, func(g *xG) *xN {
		if g.chance(20) {
			return &xN{op: "neg", s: g.pick("-", "+"), kids: []*xN{g.pick2(g.leaf(g.anyKind()), &xN{op: "neg", s: g.pick("-", "+"), kids: []*xN{g.leaf(g.anyKind())}})}}
		}
		return g.build(g.pick("pow", "neg"), "num", g.Intn(2))
	})
	_ = xProbe("comparison", "C04,C05", 5, func(g *xG) *xN {
		if g.chance(30) {
			k1, k2 := g.anyKind(), g.anyKind()
			return &xN{op: "cmp", kids: []*xN{g.leaf(k1), g.leaf(k2)}, ops: []string{g.pick("=", "<>", "<", "<=", ">", ">=")}}
		}
		return g.build("cmp", "bool", g.Intn(2))
	})
	_ = xProbe("logic", "C06", 5, func(g *xG) *xN { return g.build(g.pick("or", "and", "xor", "not"), "bool", g.Intn(2)) })
	_ = xProbe("lists", "C07", 5, func(g *xG) *xN {
		switch g.Intn(5) {
		case 0:
			return g.build("in", "bool", g.Intn(2))
		case 1:
			return g.build("isnull", "bool", g.Intn(2))
		case 2:
			return g.build("slice", "list:any", g.Intn(2))
		case 3:
			return &xN{op: g.pick("idx", "in"), kids: []*xN{g.leaf(g.anyKind()), g.leaf(g.pick("small", "any", "list:num", "num"))}}
		}
		return g.build("idx", "num", g.Intn(2))
	})
	_ = xProbe("strings", "C08", 5, func(g *xG) *xN {
		if g.chance(10) {
			return &xN{op: "func", s: g.pick("trim", "ltrim", "rtrim", "size"), kids: []*xN{g.leaf(g.anyKind())}}
		}
		if g.chance(10) {
			return &xN{op: "func", s: g.pick("left", "right", "substring", "split"), kids: []*xN{g.leaf(g.anyKind()), g.leaf(g.anyKind())}}
		}
		return g.build(g.pick("str", "strfun", "strfun", "split", "size"), "str", g.Intn(2))
	})
	_ = xProbe("conversions", "C09", 5, func(g *xG) *xN { return g.build("conv", "num", g.Intn(2)) })
	_ = xProbe("range", "C10", 5, func(g *xG) *xN { return g.build("range", "list:int", g.Intn(2)) })
	_ = xProbe("case", "C14", 5, func(g *xG) *xN { return g.build("case", g.pick("num", "str", "any"), g.Intn(2)) })
	_ = xProbe("again", "C15", 8, func(g *xG) *xN { return g.expr(g.anyKind(), 1+g.Intn(3)) })
	_ = xProbe("expression", "C17", 5, func(g *xG) *xN { return g.expr(g.pick("num", "bool", "num", "bool", "any"), 2+g.Intn(3)) })
	_ = xProbe("functions", "C18", 5, func(g *xG) *xN { return g.build("func", "any", g.Intn(2)) })
	_ = xProbe("literals", "C19", 5, func(g *xG) *xN {
		g.lits = g.chance(60)
		return g.build(g.pick("list", "list", "map", "map", "paren"), "any", g.Intn(3))
	})
)

func (g *xG) pick2(ns ...*xN) *xN { return ns[g.Intn(len(ns))] }
