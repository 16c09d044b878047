package opencypher

// Queries over small graphs, against a model of the language: rows and the
// resulting graph are compared up to the identity of new elements.

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

type qNode struct {
	id     int // -1: created by the query
	labels map[string]bool
	props  map[string]interface{}
	color  string
	dead   bool
}

type qEdge struct {
	id       int
	from, to *qNode
	label    string
	props    map[string]interface{}
	dead     bool
}

type qGraph struct {
	nodes []*qNode
	edges []*qEdge
}

// qPath is what an edge variable holds
type qPath []*qEdge

type qEnv map[string]interface{}

func (e qEnv) with(o qEnv) qEnv {
	r := qEnv{}
	for k, v := range e {
		r[k] = v
	}
	for k, v := range o {
		r[k] = v
	}
	return r
}

func (g *qGraph) clone() *qGraph {
	r := &qGraph{}
	m := map[*qNode]*qNode{}
	for _, n := range g.nodes {
		c := &qNode{id: n.id, labels: map[string]bool{}, props: map[string]interface{}{}}
		for l := range n.labels {
			c.labels[l] = true
		}
		for k, v := range n.props {
			c.props[k] = v
		}
		m[n] = c
		r.nodes = append(r.nodes, c)
	}
	for _, e := range g.edges {
		c := &qEdge{id: e.id, from: m[e.from], to: m[e.to], label: e.label, props: map[string]interface{}{}}
		for k, v := range e.props {
			c.props[k] = v
		}
		r.edges = append(r.edges, c)
	}
	return r
}

// qReal is a real graph and where its elements come from
type qReal struct {
	g     *lpg.Graph
	nodes []*lpg.Node
	edges []*lpg.Edge
}

func (g *qGraph) build() *qReal {
	r := &qReal{g: lpg.NewGraph()}
	m := map[*qNode]*lpg.Node{}
	for _, n := range g.nodes {
		var ls []string
		for _, l := range qKeysB(n.labels) {
			ls = append(ls, l)
		}
		p := map[string]interface{}{}
		for k, v := range n.props {
			p[k] = v
		}
		x := r.g.NewNode(ls, p)
		m[n] = x
		r.nodes = append(r.nodes, x)
	}
	for _, e := range g.edges {
		p := map[string]interface{}{}
		for k, v := range e.props {
			p[k] = v
		}
		r.edges = append(r.edges, r.g.NewEdge(m[e.from], m[e.to], e.label, p))
	}
	return r
}

// qSeen is the graph a query left behind
type qSeen struct {
	g *qGraph
	n map[*lpg.Node]*qNode
	e map[*lpg.Edge]*qEdge
}

func (r *qReal) look() *qSeen {
	s := &qSeen{g: &qGraph{}, n: map[*lpg.Node]*qNode{}, e: map[*lpg.Edge]*qEdge{}}
	for i, n := range r.nodes {
		s.n[n] = &qNode{id: i, dead: true}
	}
	for i, e := range r.edges {
		s.e[e] = &qEdge{id: i, dead: true}
	}
	for itr := r.g.GetNodes(); itr.Next(); {
		x := itr.Node()
		n := s.n[x]
		if n == nil {
			n = &qNode{id: -1}
			s.n[x] = n
		}
		n.dead = false
		n.labels = map[string]bool{}
		ls := x.GetLabels()
		for _, l := range ls.Slice() {
			n.labels[l] = true
		}
		n.props = map[string]interface{}{}
		x.ForEachProperty(func(k string, v interface{}) bool {
			n.props[k] = v
			return true
		})
		s.g.nodes = append(s.g.nodes, n)
	}
	for itr := r.g.GetEdges(); itr.Next(); {
		x := itr.Edge()
		e := s.e[x]
		if e == nil {
			e = &qEdge{id: -1}
			s.e[x] = e
		}
		e.dead = false
		e.from, e.to, e.label = s.n[x.GetFrom()], s.n[x.GetTo()], x.GetLabel()
		if e.from == nil || e.to == nil {
			e.from, e.to = &qNode{id: -2, dead: true}, &qNode{id: -2, dead: true}
		}
		e.props = map[string]interface{}{}
		x.ForEachProperty(func(k string, v interface{}) bool {
			e.props[k] = v
			return true
		})
		s.g.edges = append(s.g.edges, e)
	}
	return s
}

// value is the model's form of a real value
func (s *qSeen) value(v interface{}) interface{} {
	switch x := v.(type) {
	case Value:
		return s.value(x.Get())
	case *lpg.Node:
		if n := s.n[x]; n != nil {
			return n
		}
		return &qNode{id: -1, dead: true}
	case *lpg.Edge:
		return qPath{s.edge(x)}
	case *lpg.Path:
		p := qPath{}
		for i := 0; i < x.NumEdges(); i++ {
			p = append(p, s.edge(x.GetEdge(i)))
		}
		return p
	case []Value:
		r := []interface{}{}
		for _, e := range x {
			r = append(r, s.value(e))
		}
		return r
	case map[string]Value:
		r := map[string]interface{}{}
		for k, e := range x {
			r[k] = s.value(e)
		}
		return r
	}
	return v
}

func (s *qSeen) edge(x *lpg.Edge) *qEdge {
	if e := s.e[x]; e != nil {
		return e
	}
	return &qEdge{id: -1, dead: true}
}

func qKeysB(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func qProps(m map[string]interface{}) string {
	var r []string
	for k, v := range m {
		r = append(r, fmt.Sprintf("%q:%T(%v)", k, v, v))
	}
	sort.Strings(r)
	return "{" + strings.Join(r, ",") + "}"
}

func qHash(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return strconv.FormatUint(h.Sum64(), 36)
}

// paint gives nodes colors that do not depend on the identity of new nodes
func (g *qGraph) paint() {
	for _, n := range g.nodes {
		n.color = fmt.Sprintf("%d:%s%s", n.id, strings.Join(qKeysB(n.labels), ":"), qProps(n.props))
	}
	for round := 0; round < 3; round++ {
		next := map[*qNode][]string{}
		for _, e := range g.edges {
			next[e.from] = append(next[e.from], ">"+strconv.Itoa(e.id)+e.label+qProps(e.props)+e.to.color)
			next[e.to] = append(next[e.to], "<"+strconv.Itoa(e.id)+e.label+qProps(e.props)+e.from.color)
		}
		colors := map[*qNode]string{}
		for _, n := range g.nodes {
			sort.Strings(next[n])
			colors[n] = qHash(n.color + "|" + strings.Join(next[n], ";"))
		}
		for n, c := range colors {
			n.color = c
		}
	}
}

// dump is a canonical text of the graph
func (g *qGraph) dump() string {
	g.paint()
	var r []string
	for _, n := range g.nodes {
		r = append(r, fmt.Sprintf("node %d %v %s %s", n.id, qKeysB(n.labels), qProps(n.props), n.color))
	}
	for _, e := range g.edges {
		r = append(r, fmt.Sprintf("edge %d %s-%s%s->%s", e.id, e.from.color, e.label, qProps(e.props), e.to.color))
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

// brief is a readable text of the graph
func (g *qGraph) brief() string {
	var r []string
	ix := map[*qNode]int{}
	for i, n := range g.nodes {
		ix[n] = i
		id := strconv.Itoa(n.id)
		if n.id < 0 {
			id = "new"
		}
		r = append(r, fmt.Sprintf("(%s %v %s)", id, qKeysB(n.labels), qProps(n.props)))
	}
	for _, e := range g.edges {
		r = append(r, fmt.Sprintf("%d-[%d %s%s]->%d", ix[e.from], e.id, e.label, qProps(e.props), ix[e.to]))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// text is a canonical text of a value; the graph must be painted
func qText(v interface{}) string {
	switch x := v.(type) {
	case *qNode:
		if x.dead {
			return fmt.Sprintf("dead node %d", x.id)
		}
		return fmt.Sprintf("node %d %s", x.id, x.color)
	case qPath:
		var r []string
		for _, e := range x {
			if e.dead {
				r = append(r, fmt.Sprintf("dead edge %d", e.id))
			} else {
				r = append(r, fmt.Sprintf("edge %d %s-%s%s->%s", e.id, e.from.color, e.label, qProps(e.props), e.to.color))
			}
		}
		sort.Strings(r)
		return "path" + strings.Join(r, "+")
	case []interface{}:
		var r []string
		for _, e := range x {
			r = append(r, qText(e))
		}
		return "[" + strings.Join(r, ",") + "]"
	case map[string]interface{}:
		var r []string
		for k, e := range x {
			r = append(r, k+":"+qText(e))
		}
		sort.Strings(r)
		return "{" + strings.Join(r, ",") + "}"
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func qRowText(row qEnv) string { return qText(map[string]interface{}(row)) }

func qRowsText(rows []qEnv) []string {
	var r []string
	for _, x := range rows {
		r = append(r, qRowText(x))
	}
	return r
}

func qSorted(r []string) string {
	s := append([]string{}, r...)
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// expressions

type qE struct {
	op   string // lit var prop plus minus cmp and or not isnull param list
	lit  interface{}
	name string
	key  string
	kids []*qE
}

func qName(s string) string {
	for i, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || i > 0 && c >= '0' && c <= '9') {
			return "`" + strings.Replace(s, "`", "``", -1) + "`"
		}
	}
	return s
}

func qLit(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case string:
		return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(x) + "'"
	case int:
		if x < 0 {
			return "(" + strconv.Itoa(x) + ")"
		}
	}
	return fmt.Sprint(v)
}

func (e *qE) String() string {
	switch e.op {
	case "lit":
		return qLit(e.lit)
	case "var":
		return qName(e.name)
	case "param":
		return "$" + e.name
	case "prop":
		return qName(e.name) + "." + qName(e.key)
	case "not":
		return "(NOT " + e.kids[0].String() + ")"
	case "isnull":
		return "(" + e.kids[0].String() + " " + e.key + ")"
	case "list":
		var r []string
		for _, k := range e.kids {
			r = append(r, k.String())
		}
		return "[" + strings.Join(r, ", ") + "]"
	}
	return "(" + e.kids[0].String() + " " + e.key + " " + e.kids[1].String() + ")"
}

type qErr string

func qFail(f string, a ...interface{}) { panic(qErr(fmt.Sprintf(f, a...))) }

func (e *qE) eval(env qEnv) interface{} {
	switch e.op {
	case "lit":
		return e.lit
	case "param":
		return qParams[e.name]
	case "var":
		v, ok := env[e.name]
		if !ok {
			qFail("unknown variable %s", e.name)
		}
		return v
	case "prop":
		v, ok := env[e.name]
		if !ok {
			qFail("unknown variable %s", e.name)
		}
		n, ok := v.(*qNode)
		if !ok {
			qFail("no properties")
		}
		return n.props[e.key]
	case "list":
		r := []interface{}{}
		for _, k := range e.kids {
			r = append(r, k.eval(env))
		}
		return r
	}
	var a, b interface{}
	a = e.kids[0].eval(env)
	if len(e.kids) > 1 {
		b = e.kids[1].eval(env)
	}
	switch e.op {
	case "isnull":
		return (a == nil) == (e.key == "IS NULL")
	case "not":
		if a == nil {
			return nil
		}
		return !a.(bool)
	case "and", "or":
		stop := e.op == "or"
		if a == stop || b == stop {
			return stop
		}
		if a == nil || b == nil {
			return nil
		}
		return !stop
	case "plus":
		if a == nil || b == nil {
			return nil
		}
		switch x := a.(type) {
		case int:
			if y, ok := b.(int); ok {
				if e.key == "-" {
					return x - y
				}
				return x + y
			}
		case string:
			if y, ok := b.(string); ok && e.key == "+" {
				if len(x)+len(y) > 1<<12 {
					panic(wAbort{}) // a text that doubles with every row
				}
				return x + y
			}
		}
		panic(wAbort{})
	case "cmp":
		if a == nil || b == nil {
			return nil
		}
		c := 0
		switch x := a.(type) {
		case int:
			y, ok := b.(int)
			if !ok {
				panic(wAbort{})
			}
			if x < y {
				c = -1
			} else if x > y {
				c = 1
			}
		case string:
			y, ok := b.(string)
			if !ok {
				panic(wAbort{})
			}
			c = strings.Compare(x, y)
		default:
			panic(wAbort{})
		}
		switch e.key {
		case "=":
			return c == 0
		case "<>":
			return c != 0
		case "<":
			return c < 0
		case "<=":
			return c <= 0
		case ">":
			return c > 0
		}
		return c >= 0
	}
	panic("bad expression " + e.op)
}

// queries

type qKV struct {
	key string
	e   *qE
}

type qNP struct {
	v      string
	labels []string
	props  []qKV
	param  string
}

type qRP struct {
	v        string
	types    []string
	props    []qKV
	dir      int // 0 right 1 left 2 either
	varlen   bool
	min, max int
}

type qPart struct {
	v     string
	nodes []*qNP
	rels  []*qRP
}

type qMatch struct {
	parts []*qPart
	where *qE
}

type qSet struct {
	v, key string
	e      *qE
	op     string // = += prop labels
	m      []qKV
	labels []string
}

type qUpd struct {
	kind     string
	parts    []*qPart
	sets     []*qSet
	onCreate []*qSet
	onMatch  []*qSet
	order    bool
	split    bool
	del      []string
	detach   bool
	remove   []*qSet
}

type qItem struct {
	e     *qE
	alias string
}

type qSingle struct {
	reads       []*qMatch
	upd         []*qUpd
	ret         bool
	all         bool
	items       []qItem
	skip, limit int
}

func qMap(kv []qKV) string {
	var r []string
	for _, x := range kv {
		r = append(r, qName(x.key)+": "+x.e.String())
	}
	return "{" + strings.Join(r, ", ") + "}"
}

func (n *qNP) String() string {
	s := ""
	if n.v != "" {
		s = qName(n.v)
	}
	for _, l := range n.labels {
		s += ":" + qName(l)
	}
	if n.param != "" {
		s += " $" + n.param
	} else if n.props != nil {
		s += " " + qMap(n.props)
	}
	return "(" + s + ")"
}

func (r *qRP) String() string {
	s := ""
	if r.v != "" {
		s = qName(r.v)
	}
	for i, l := range r.types {
		if i == 0 {
			s += ":"
		} else {
			s += "|"
		}
		s += qName(l)
	}
	if r.varlen {
		s += "*"
		switch {
		case r.min == r.max && r.min >= 0:
			s += strconv.Itoa(r.min)
		default:
			if r.min >= 0 {
				s += strconv.Itoa(r.min)
			}
			if r.min >= 0 || r.max >= 0 {
				s += ".."
			}
			if r.max >= 0 {
				s += strconv.Itoa(r.max)
			}
		}
	}
	if r.props != nil {
		s += " " + qMap(r.props)
	}
	switch r.dir {
	case 0:
		return "-[" + s + "]->"
	case 1:
		return "<-[" + s + "]-"
	}
	return "-[" + s + "]-"
}

func (p *qPart) String() string {
	s := p.nodes[0].String()
	if p.v != "" {
		s = qName(p.v) + " = " + s
	}
	for i, r := range p.rels {
		s += r.String() + p.nodes[i+1].String()
	}
	return s
}

func qParts(ps []*qPart) string {
	var r []string
	for _, p := range ps {
		r = append(r, p.String())
	}
	return strings.Join(r, ", ")
}

func (s *qSet) String() string {
	switch s.op {
	case "prop":
		return qName(s.v) + "." + qName(s.key) + " = " + s.e.String()
	case "labels":
		r := qName(s.v)
		for _, l := range s.labels {
			r += ":" + qName(l)
		}
		return r
	}
	if s.e != nil {
		return qName(s.v) + " " + s.op + " " + s.e.String()
	}
	return qName(s.v) + " " + s.op + " " + qMap(s.m)
}

func qSets(ss []*qSet) string {
	var r []string
	for _, s := range ss {
		r = append(r, s.String())
	}
	return strings.Join(r, ", ")
}

func (u *qUpd) String() string {
	switch u.kind {
	case "create":
		return "CREATE " + qParts(u.parts)
	case "merge":
		r := "MERGE " + qParts(u.parts)
		c, m := "", ""
		if u.onCreate != nil {
			c = " ON CREATE SET " + qSets(u.onCreate)
		}
		if u.onMatch != nil {
			m = " ON MATCH SET " + qSets(u.onMatch)
		}
		if u.split {
			c, m = "", ""
			for _, s := range u.onCreate {
				c += " ON CREATE SET " + s.String()
			}
			for _, s := range u.onMatch {
				m += " ON MATCH SET " + s.String()
			}
		}
		if u.order {
			return r + m + c
		}
		return r + c + m
	case "set":
		return "SET " + qSets(u.sets)
	case "remove":
		var r []string
		for _, s := range u.remove {
			if s.op == "labels" {
				r = append(r, s.String())
			} else {
				r = append(r, qName(s.v)+"."+qName(s.key))
			}
		}
		return "REMOVE " + strings.Join(r, ", ")
	}
	var r []string
	for _, d := range u.del {
		r = append(r, qName(d))
	}
	s := "DELETE " + strings.Join(r, ", ")
	if u.detach {
		s = "DETACH " + s
	}
	return s
}

func (q *qSingle) String() string {
	var r []string
	for _, m := range q.reads {
		s := "MATCH " + qParts(m.parts)
		if m.where != nil {
			s += " WHERE " + m.where.String()
		}
		r = append(r, s)
	}
	for _, u := range q.upd {
		r = append(r, u.String())
	}
	if q.ret {
		s := "RETURN *"
		if !q.all {
			var it []string
			for _, x := range q.items {
				t := x.e.String()
				if x.alias != "" {
					t += " AS " + qName(x.alias)
				}
				it = append(it, t)
			}
			s = "RETURN " + strings.Join(it, ", ")
		}
		if q.skip >= 0 {
			s += " SKIP " + strconv.Itoa(q.skip)
		}
		if q.limit >= 0 {
			s += " LIMIT " + strconv.Itoa(q.limit)
		}
		r = append(r, s)
	}
	return strings.Join(r, " ")
}

// the model

type qModel struct {
	g    *qGraph
	w    *wGen
	mix  bool
	outs qEnv // variables of the context

	found int // what searching came across: a limit of this model
}

var qParams = map[string]interface{}{
	"p": map[string]interface{}{"x": 2, "z": "k"},
}

func qEvalProps(kv []qKV, param string, env qEnv) map[string]interface{} {
	r := map[string]interface{}{}
	if param != "" {
		for k, v := range qParams[param].(map[string]interface{}) {
			r[k] = v
		}
		return r
	}
	for _, x := range kv {
		r[x.key] = x.e.eval(env)
	}
	return r
}

func qFits(want, have map[string]interface{}) bool {
	for k, v := range want {
		if v == nil {
			panic(wAbort{}) // what the search makes of a null is its own business
		}
		if have[k] != v {
			return false
		}
	}
	return true
}

func (m *qModel) match(parts []*qPart, env qEnv) []qEnv {
	rows := []qEnv{{}}
	for _, p := range parts {
		var next []qEnv
		for _, r := range rows {
			e := env.with(r)
			// the patterns' values are those of the variables of earlier clauses
			np := make([]map[string]interface{}, len(p.nodes))
			for i, n := range p.nodes {
				np[i] = qEvalProps(n.props, n.param, env)
			}
			rp := make([]map[string]interface{}, len(p.rels))
			for i, x := range p.rels {
				rp[i] = qEvalProps(x.props, "", env)
			}
			var walk func(i int, at *qNode, got qEnv)
			node := func(i int, n *qNode, got qEnv) (qEnv, bool) {
				pt := p.nodes[i]
				for _, l := range pt.labels {
					if !n.labels[l] {
						return nil, false
					}
				}
				if !qFits(np[i], n.props) {
					return nil, false
				}
				if pt.v == "" {
					return got, true
				}
				if o, bound := e[pt.v]; bound {
					if o == nil {
						return nil, false
					}
					on, isNode := o.(*qNode)
					if !isNode {
						panic(wAbort{})
					}
					if on != n {
						return nil, false
					}
				}
				return got.with(qEnv{pt.v: n}), true
			}
			walk = func(i int, at *qNode, got qEnv) {
				if i == len(p.rels) {
					next = append(next, r.with(got))
					if len(next) > 3000 {
						panic(wAbort{})
					}
					return
				}
				rel := p.rels[i]
				ok := func(x *qEdge) bool {
					if len(rel.types) > 0 {
						found := false
						for _, t := range rel.types {
							found = found || t == x.label
						}
						if !found {
							return false
						}
					}
					return qFits(rp[i], x.props)
				}
				steps := func(at *qNode) (es []*qEdge, to []*qNode) {
					for _, x := range m.g.edges {
						if !ok(x) {
							continue
						}
						if x.from == at && (rel.dir == 0 || rel.dir == 2) {
							es, to = append(es, x), append(to, x.to)
						} else if x.to == at && (rel.dir == 1 || rel.dir == 2) {
							es, to = append(es, x), append(to, x.from)
						}
					}
					return
				}
				min, max := 1, 1
				if rel.varlen {
					min, max = rel.min, rel.max
					if min < 0 {
						min = 1
					}
				}
				var hop func(at *qNode, path qPath)
				hop = func(at *qNode, path qPath) {
					if m.found++; m.found > 200000 {
						panic(wAbort{})
					}
					if len(path) >= min && len(path) > 0 {
						if g2, fit := node(i+1, at, got); fit {
							if rel.v != "" {
								g2 = g2.with(qEnv{rel.v: append(qPath{}, path...)})
							}
							walk(i+1, at, g2)
						}
					}
					if max >= 0 && len(path) >= max {
						return
					}
					es, to := steps(at)
					for j, x := range es {
						used := false
						for _, y := range path {
							used = used || x == y
						}
						if !used {
							hop(to[j], append(append(qPath{}, path...), x))
						}
					}
				}
				hop(at, nil)
			}
			for _, n := range m.g.nodes {
				if g2, fit := node(0, n, qEnv{}); fit {
					walk(0, n, g2)
				}
			}
		}
		rows = next
		if len(rows) > 300 {
			panic(wAbort{})
		}
	}
	return rows
}

func (m *qModel) shuffle(rows []qEnv) []qEnv {
	if m.mix {
		m.w.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	}
	return rows
}

// create creates the elements of a pattern; the variables it binds
func (m *qModel) create(p *qPart, env qEnv) qEnv {
	got := qEnv{}
	node := func(n *qNP) *qNode {
		if v, bound := env.with(got)[n.v]; bound && n.v != "" {
			if n.labels != nil || n.props != nil || n.param != "" {
				qFail("bound node with labels")
			}
			x, ok := v.(*qNode)
			if !ok {
				qFail("not a node")
			}
			return x
		}
		x := &qNode{id: -1, labels: map[string]bool{}, props: map[string]interface{}{}}
		for _, l := range n.labels {
			x.labels[l] = true
		}
		for k, v := range qEvalProps(n.props, n.param, env.with(got)) {
			if v != nil {
				x.props[k] = v
			}
		}
		m.g.nodes = append(m.g.nodes, x)
		if n.v != "" {
			got[n.v] = x
		}
		return x
	}
	last := node(p.nodes[0])
	path := qPath{}
	for i, r := range p.rels {
		next := node(p.nodes[i+1])
		if r.varlen || len(r.types) > 1 {
			qFail("cannot create such an edge")
		}
		if r.v != "" {
			if _, bound := env.with(got)[r.v]; bound {
				qFail("bound edge")
			}
		}
		e := &qEdge{id: -1, from: last, to: next, props: map[string]interface{}{}}
		if r.dir == 1 {
			e.from, e.to = next, last
		}
		if len(r.types) > 0 {
			e.label = r.types[0]
		}
		for k, v := range qEvalProps(r.props, "", env.with(got)) {
			if v != nil {
				e.props[k] = v
			}
		}
		m.g.edges = append(m.g.edges, e)
		if r.v != "" {
			got[r.v] = qPath{e}
		}
		path = append(path, e)
		last = next
	}
	if p.v != "" {
		got[p.v] = path
		if len(path) == 0 {
			got[p.v] = last
		}
	}
	return got
}

func (m *qModel) set(ss []*qSet, env qEnv) {
	for _, s := range ss {
		v, ok := env[s.v]
		if !ok {
			qFail("unknown variable")
		}
		n, isNode := v.(*qNode)
		switch s.op {
		case "prop":
			x := s.e.eval(env)
			if !isNode {
				qFail("not a node")
			}
			if x == nil {
				delete(n.props, s.key)
			} else {
				n.props[s.key] = x
			}
		case "labels":
			if !isNode {
				qFail("not a node")
			}
			for _, l := range s.labels {
				n.labels[l] = true
			}
		default:
			src := map[string]interface{}{}
			if s.e != nil {
				switch x := s.e.eval(env).(type) {
				case *qNode:
					for k, v := range x.props {
						src[k] = v
					}
				case map[string]interface{}:
					for k, v := range x {
						src[k] = v
					}
				default:
					qFail("invalid assignment")
				}
			} else {
				src = qEvalProps(s.m, "", env)
			}
			if !isNode {
				qFail("not a node")
			}
			if s.op == "=" {
				n.props = map[string]interface{}{}
			}
			for k, v := range src {
				if v == nil {
					delete(n.props, k)
				} else {
					n.props[k] = v
				}
			}
		}
	}
}

func (m *qModel) merge(u *qUpd, env qEnv) []qEnv {
	got := m.match(u.parts, env)
	if len(got) == 0 {
		got = []qEnv{m.create(u.parts[0], env)}
		if u.onCreate != nil {
			m.set(u.onCreate, env.with(got[0]))
		}
	} else if u.onMatch != nil {
		m.shuffle(got)
		if u.split && m.mix && m.w.chance(50) {
			// no order is set between the actions and the matches
			for i := range u.onMatch {
				for _, r := range got {
					m.set(u.onMatch[i:i+1], env.with(r))
				}
			}
		} else {
			for _, r := range got {
				m.set(u.onMatch, env.with(r))
			}
		}
	}
	var rows []qEnv
	for _, r := range got {
		rows = append(rows, env.with(r))
	}
	return rows
}

func (m *qModel) delete(u *qUpd, rows []qEnv) {
	nodes, edges := map[*qNode]bool{}, map[*qEdge]bool{}
	for _, r := range rows {
		env := m.outs.with(r)
		for _, d := range u.del {
			v, ok := env[d]
			if !ok {
				qFail("unknown variable")
			}
			switch x := v.(type) {
			case *qNode:
				nodes[x] = true
			case qPath:
				for _, e := range x {
					edges[e] = true
				}
			}
		}
	}
	for _, e := range m.g.edges {
		if (nodes[e.from] || nodes[e.to]) && !edges[e] {
			if !u.detach {
				qFail("attached node")
			}
			edges[e] = true
		}
	}
	var ns []*qNode
	for _, n := range m.g.nodes {
		n.dead = nodes[n]
		if !n.dead {
			ns = append(ns, n)
		}
	}
	var es []*qEdge
	for _, e := range m.g.edges {
		e.dead = edges[e]
		if !e.dead {
			es = append(es, e)
		}
	}
	m.g.nodes, m.g.edges = ns, es
}

// run gives the rows in full, before SKIP and LIMIT
func (m *qModel) run(q *qSingle) (rows []qEnv) {
	rows = []qEnv{{}}
	for _, r := range q.reads {
		var next []qEnv
		for _, row := range rows {
			env := m.outs.with(row)
			for _, got := range m.match(r.parts, env) {
				if r.where != nil && r.where.eval(env.with(got)) != true {
					continue
				}
				next = append(next, row.with(got))
			}
		}
		rows = next
		if len(rows) > 300 {
			panic(wAbort{})
		}
	}
	if len(q.reads) > 0 {
		m.shuffle(rows)
	}
	for _, u := range q.upd {
		var next []qEnv
		switch u.kind {
		case "create":
			for _, row := range rows {
				r := row
				for _, p := range u.parts {
					r = r.with(m.create(p, m.outs.with(r)))
				}
				next = append(next, r)
			}
		case "merge":
			for _, row := range rows {
				for _, r := range m.merge(u, m.outs.with(row)) {
					x := row.with(nil)
					for k, v := range r {
						if _, out := m.outs[k]; !out {
							x[k] = v
						}
					}
					next = append(next, x)
				}
			}
		case "set":
			for _, row := range rows {
				m.set(u.sets, m.outs.with(row))
			}
			next = rows
		case "remove":
			for _, row := range rows {
				env := m.outs.with(row)
				for _, s := range u.remove {
					v, ok := env[s.v]
					if !ok {
						qFail("unknown variable")
					}
					if v == nil && s.op == "labels" {
						continue
					}
					n, isNode := v.(*qNode)
					if !isNode {
						qFail("not a node")
					}
					if s.op == "labels" {
						for _, l := range s.labels {
							delete(n.labels, l)
						}
					} else {
						delete(n.props, s.key)
					}
				}
			}
			next = rows
		case "delete":
			m.delete(u, rows)
			next = rows
		}
		rows = next
	}
	if !q.ret {
		return nil
	}
	var out []qEnv
	for _, row := range rows {
		if q.all {
			out = append(out, row)
			continue
		}
		r := qEnv{}
		for i, it := range q.items {
			n := it.alias
			if n == "" {
				n = strconv.Itoa(i + 1)
			}
			r[n] = it.e.eval(m.outs.with(row))
		}
		out = append(out, r)
	}
	return out
}

// qOutcome is what a query leads to
type qOutcome struct {
	err   string
	rows  []string
	graph string
	brief string
}

func (o qOutcome) key() string {
	if o.err != "" {
		return "error"
	}
	return qSorted(o.rows) + "\n--\n" + o.graph
}

func qRunModel(w *wGen, g *qGraph, q *qSingle, mix bool) (o qOutcome) {
	m := &qModel{g: g.clone(), w: w, mix: mix}
	m.outs = qEnv{"nul": nil, "k": 3}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(qErr)
			if !ok {
				panic(r)
			}
			o = qOutcome{err: string(e)}
		}
		o.graph = m.g.dump()
		o.brief = m.g.brief()
	}()
	rows := m.run(q)
	m.g.paint()
	o.rows = qRowsText(rows)
	return
}

// qRunReal evaluates the text of a query
func qRunReal(w *wGen, g *qGraph, text string) (o qOutcome) {
	return qRunOn(w, g.build(), text)
}

func qRunOn(w *wGen, r *qReal, text string) (o qOutcome) {
	return qEval(w, r, qParse(w, text))
}

func qParse(w *wGen, text string) Evaluatable {
	e, err := Parse(text)
	if err != nil {
		w.check("parse", false, "%s: %v", text, err)
		panic(wAbort{})
	}
	return e
}

func qEval(w *wGen, r *qReal, e Evaluatable) (o qOutcome) {
	ctx := NewEvalContext(r.g)
	ctx.SetVar("nul", RValue{})
	ctx.SetVar("k", RValue{Value: 3})
	p := map[string]Value{}
	for k, v := range qParams["p"].(map[string]interface{}) {
		p[k] = RValue{Value: v}
	}
	ctx.SetParameter("$p", RValue{Value: p})
	defer qStumble()
	v, err := e.Evaluate(ctx)
	s := r.look()
	o.graph = s.g.dump()
	o.brief = s.g.brief()
	if err != nil {
		o.err = err.Error()
		if o.err == "" {
			o.err = "error"
		}
		return o
	}
	rs, ok := v.Get().(ResultSet)
	if !ok {
		o.err = fmt.Sprintf("not a result set: %T", v.Get())
		return o
	}
	for _, row := range rs.Rows {
		x := qEnv{}
		for k, v := range row {
			x[k] = s.value(v)
		}
		o.rows = append(o.rows, qRowText(x))
	}
	return o
}

// qStumble skips what the search in lpg stumbles over: paths of its own making
func qStumble() {
	if x := recover(); x != nil {
		if s := fmt.Sprint(x); strings.Contains(s, "Appended edge") && !strings.Contains(qStackTop(), ".Create(") {
			panic(wAbort{})
		}
		panic(x)
	}
}

// qStackTop is the frame of this package next to the panic
func qStackTop() string {
	ls := strings.Split(string(debug.Stack()), "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			for _, f := range ls[i+1:] {
				if strings.Contains(f, "/opencypher.") && !strings.HasPrefix(f, "\t") {
					return f
				}
			}
		}
	}
	return ""
}

// the generator

type qGen struct {
	// variables hold single edges: the text of longer paths does not tell
	// their order
	single bool
	// patterns name one relation type at most: lpg finds the edges of several
	// types in no particular order
	ordered bool

	*wGen
	nodes, edges []string // variables in scope
	n            int
	plain        bool
}

var qLabels = []string{"A", "B", "C", "Match", "x y", "a`b", "Ünï"}
var qTypes = []string{"R", "S", "ORDER", "r s"}

func (g *qGen) label() string {
	if g.chance(75) {
		return g.pick("A", "B")
	}
	return qLabels[g.Intn(len(qLabels))]
}

func (g *qGen) typ() string {
	if g.chance(80) {
		return g.pick("R", "S")
	}
	return qTypes[g.Intn(len(qTypes))]
}

func (g *qGen) key() string {
	if g.chance(8) {
		return g.pick("Where", "p q", "X")
	}
	return g.pick("x", "y", "z")
}

func (g *qGen) val(key string) interface{} {
	if key == "z" {
		return g.pick("", "k", "it's", "k2")
	}
	return g.Intn(4)
}

func (g *qGen) graph() *qGraph {
	r := &qGraph{}
	n := g.Intn(6)
	for i := 0; i < n; i++ {
		x := &qNode{id: i, labels: map[string]bool{}, props: map[string]interface{}{}}
		for j := g.Intn(3); j > 0; j-- {
			x.labels[g.label()] = true
		}
		for j := g.Intn(4); j > 0; j-- {
			k := g.key()
			x.props[k] = g.val(k)
		}
		r.nodes = append(r.nodes, x)
	}
	if n > 0 {
		// edges at random, or most of them in a chain
		chain, ct := g.chance(35), g.typ()
		for i := g.Intn(7); i > 0; i-- {
			e := &qEdge{id: len(r.edges), from: r.nodes[g.Intn(n)], to: r.nodes[g.Intn(n)], label: g.typ(), props: map[string]interface{}{}}
			if k := len(r.edges); chain && k+1 < n {
				e.from, e.to, e.label = r.nodes[k], r.nodes[k+1], ct
			}
			if g.chance(40) {
				k := g.key()
				e.props[k] = g.val(k)
			}
			r.edges = append(r.edges, e)
		}
	}
	return r
}

// plant adds to the graph what the patterns of a query look for
func (g *qGen) plant(gr *qGraph, q *qSingle) {
	var parts []*qPart
	for _, m := range q.reads {
		parts = append(parts, m.parts...)
	}
	for _, u := range q.upd {
		if u.kind == "merge" && g.chance(60) {
			parts = append(parts, u.parts...)
		}
	}
	lits := func(kv []qKV, to map[string]interface{}) {
		for _, x := range kv {
			if x.e.op == "lit" && x.e.lit != nil && g.chance(97) {
				to[x.key] = x.e.lit
			}
		}
	}
	for k := 1 + g.Intn(2); k > 0; k-- {
		vars := map[string]*qNode{}
		node := func(p *qNP) *qNode {
			n := vars[p.v]
			if p.v == "" || n == nil {
				if len(gr.nodes) > 0 && g.chance(25) {
					n = gr.nodes[g.Intn(len(gr.nodes))]
				} else {
					n = &qNode{id: len(gr.nodes), labels: map[string]bool{}, props: map[string]interface{}{}}
					for j := g.Intn(3); j > 0; j-- {
						k := g.key()
						n.props[k] = g.val(k)
					}
					gr.nodes = append(gr.nodes, n)
				}
				if p.v != "" {
					vars[p.v] = n
				}
			}
			for _, l := range p.labels {
				n.labels[l] = true
			}
			lits(p.props, n.props)
			return n
		}
		for _, p := range parts {
			if len(gr.nodes) > 9 || len(gr.edges) > 9 {
				return
			}
			at := node(p.nodes[0])
			for i, r := range p.rels {
				to := node(p.nodes[i+1])
				steps := 1
				if r.varlen {
					if r.min > 0 {
						steps = r.min
					}
					if r.max < 0 || steps < r.max {
						steps += g.Intn(2)
					}
				}
				for ; steps > 0; steps-- {
					next := to
					if steps > 1 {
						next = node(&qNP{})
					}
					e := &qEdge{id: len(gr.edges), from: at, to: next, label: g.typ(), props: map[string]interface{}{}}
					if len(r.types) > 0 {
						e.label = r.types[g.Intn(len(r.types))]
					}
					lits(r.props, e.props)
					if r.dir == 1 || r.dir == 2 && g.chance(50) {
						e.from, e.to = e.to, e.from
					}
					gr.edges = append(gr.edges, e)
					at = next
				}
			}
		}
	}
}

func (g *qGen) fresh() string {
	g.n++
	if g.chance(5) {
		return fmt.Sprintf("v %d", g.n)
	}
	if g.n < 22 && g.chance(25) {
		return string(rune('D' + g.n))
	}
	return fmt.Sprintf("%c%d", 'a'+rune(g.n%3), g.n)
}

func (g *qGen) anyNode() string { return g.nodes[g.Intn(len(g.nodes))] }

// expr makes an expression of a kind: int str bool
func (g *qGen) expr(kind string, d int) *qE {
	lit := func(v interface{}) *qE { return &qE{op: "lit", lit: v} }
	if g.chance(6) {
		return lit(nil)
	}
	switch kind {
	case "int":
		switch c := g.Intn(6); {
		case c < 2 && len(g.nodes) > 0:
			return &qE{op: "prop", name: g.anyNode(), key: g.pick("x", "y")}
		case c == 2 && d > 0:
			return &qE{op: "plus", key: g.pick("+", "-"), kids: []*qE{g.expr("int", d-1), g.expr("int", d-1)}}
		case c == 3 && g.chance(30):
			return &qE{op: "var", name: "k"}
		}
		return lit(g.Intn(5))
	case "str":
		switch c := g.Intn(4); {
		case c < 2 && len(g.nodes) > 0:
			return &qE{op: "prop", name: g.anyNode(), key: "z"}
		case c == 2 && d > 0:
			return &qE{op: "plus", key: "+", kids: []*qE{g.expr("str", d-1), g.expr("str", d-1)}}
		}
		return lit(g.val("z"))
	}
	switch c := g.Intn(7); {
	case c < 1 && d > 0:
		return &qE{op: "and", key: "AND", kids: []*qE{g.expr("bool", d-1), g.expr("bool", d-1)}}
	case c < 2 && d > 0:
		return &qE{op: "or", key: "OR", kids: []*qE{g.expr("bool", d-1), g.expr("bool", d-1)}}
	case c < 3 && d > 0:
		return &qE{op: "not", kids: []*qE{g.expr("bool", d-1)}}
	case c < 4:
		return &qE{op: "isnull", key: g.pick("IS NULL", "IS NOT NULL"), kids: []*qE{g.expr(g.pick("int", "str"), 0)}}
	case c == 4 && g.chance(20):
		return lit(g.chance(50))
	}
	k := g.pick("int", "int", "str")
	return &qE{op: "cmp", key: g.pick("=", "<>", "<", "<=", ">", ">="), kids: []*qE{g.expr(k, d-1), g.expr(k, d-1)}}
}

func qKind(key string) string {
	if key == "z" {
		return "str"
	}
	return "int"
}

func (g *qGen) kvs(n int, null bool) []qKV {
	r := []qKV{}
	seen := map[string]bool{}
	for ; n > 0; n-- {
		k := g.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		e := g.expr(qKind(k), 1)
		if !null && g.chance(60) {
			e = &qE{op: "lit", lit: g.val(k)}
		}
		r = append(r, qKV{k, e})
	}
	return r
}

// part makes a pattern. use is how: match, create, merge
func (g *qGen) part(use string, hops int) (p *qPart, nodes, edges []string) {
	p = &qPart{}
	taken := map[string]bool{}
	bare := g.chance(15)
	node := func() *qNP {
		n := &qNP{}
		if bare && g.chance(50) {
			return n
		}
		if len(g.nodes) > 0 && g.chance(35) {
			v := g.anyNode()
			if !taken[v] {
				taken[v] = true
				n.v = v
				if use == "match" && g.chance(20) {
					n.labels = []string{g.label()}
				}
				return n
			}
		}
		if g.chance(75) {
			n.v = g.fresh()
			taken[n.v] = true
			nodes = append(nodes, n.v)
		}
		lp := 45
		if use == "create" {
			lp = 70
		}
		if g.chance(lp) {
			n.labels = append(n.labels, g.label())
			if g.chance(20) {
				if l := g.label(); l != n.labels[0] {
					n.labels = append(n.labels, l)
				}
			}
		}
		pp := 20
		if use != "match" {
			pp = 55
		}
		if g.chance(pp) {
			if g.chance(12) {
				n.param = "p"
			} else {
				n.props = g.kvs(1+g.Intn(2), use == "create")
			}
		}
		return n
	}
	p.nodes = append(p.nodes, node())
	for ; hops > 0; hops-- {
		r := &qRP{}
		if g.chance(50) {
			r.v = g.fresh()
			edges = append(edges, r.v)
		}
		if use == "create" && g.chance(85) || use == "merge" || use == "match" && g.chance(50) {
			r.types = []string{g.typ()}
			if use == "match" && !g.ordered && g.chance(25) {
				if t := g.typ(); t != r.types[0] {
					r.types = append(r.types, t)
				}
			}
		}
		r.dir = g.Intn(2)
		if g.chance(25) {
			r.props = g.kvs(1, use == "create")
		}
		if use == "match" && g.chance(20) && r.props == nil {
			r.varlen = true
			if g.single || g.chance(50) {
				r.v = ""
			}
			switch g.Intn(5) {
			case 0:
				r.min, r.max = -1, -1
			case 4:
				r.min, r.max = 1+g.Intn(3), -1
			case 1:
				r.min = 1 + g.Intn(3)
				r.max = r.min
			case 2:
				r.min, r.max = -1, 1+g.Intn(3)
			case 3:
				r.min = 1 + g.Intn(2)
				r.max = r.min + g.Intn(2)
				if r.min == r.max {
					r.max++
				}
			}
			hops = 1
		}
		p.rels = append(p.rels, r)
		p.nodes = append(p.nodes, node())
	}
	// only the edges that were kept
	edges = nil
	for _, r := range p.rels {
		if r.v != "" {
			edges = append(edges, r.v)
		}
	}
	if use == "create" && g.chance(20) {
		p.v = g.fresh()
		if len(p.rels) == 0 {
			nodes = append(nodes, p.v)
		} else {
			edges = append(edges, p.v)
		}
	}
	return
}

func (g *qGen) scope(nodes, edges []string) {
	g.nodes = append(g.nodes, nodes...)
	g.edges = append(g.edges, edges...)
}

func (g *qGen) match() *qMatch {
	m := &qMatch{}
	k := 1
	if g.chance(30) {
		k = 2 + g.Intn(3)/2
	}
	outer := g.nodes
	var ns, es []string
	for ; k > 0; k-- {
		// values in a pattern refer to earlier clauses, nodes to earlier parts too
		p, n, e := g.part("match", g.Intn(3))
		m.parts = append(m.parts, p)
		ns, es = append(ns, n...), append(es, e...)
		if k > 1 && len(n) > 0 && g.chance(60) {
			// share a node with the next part
			q, n2, e2 := g.part("match", g.Intn(2))
			q.nodes[0] = &qNP{v: n[g.Intn(len(n))]}
			n2, e2 = nil, nil
			for i, x := range q.nodes[1:] {
				if x.v != "" && !qHas(outer, x.v) {
					n2 = append(n2, x.v)
				}
				if q.rels[i].v != "" {
					e2 = append(e2, q.rels[i].v)
				}
			}
			m.parts = append(m.parts, q)
			ns, es = append(ns, n2...), append(es, e2...)
			k--
			if k < 1 {
				break
			}
		}
	}
	g.scope(ns, es)
	if g.chance(45) || len(m.parts) > 2 && g.chance(60) {
		m.where = g.expr("bool", 2)
	}
	return m
}

func qHas(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func (g *qGen) sets(n int) []*qSet {
	var r []*qSet
	for ; n > 0; n-- {
		v := g.anyNode()
		switch g.Intn(8) {
		case 0, 1, 2, 3:
			k := g.key()
			r = append(r, &qSet{v: v, op: "prop", key: k, e: g.expr(qKind(k), 1)})
		case 4:
			r = append(r, &qSet{v: v, op: g.pick("=", "+="), m: g.kvs(g.Intn(3), true)})
		case 5:
			e := &qE{op: "var", name: g.anyNode()}
			if g.chance(30) {
				e = &qE{op: "param", name: "p"}
			}
			r = append(r, &qSet{v: v, op: g.pick("=", "+="), e: e})
		default:
			s := &qSet{v: v, op: "labels", labels: []string{g.label()}}
			if g.chance(30) {
				s.labels = append(s.labels, g.label())
			}
			r = append(r, s)
		}
	}
	return r
}

func (g *qGen) update(kind string) *qUpd {
	u := &qUpd{kind: kind}
	switch kind {
	case "create":
		for k := 1 + g.Intn(2); k > 0; k-- {
			hops := g.Intn(3)
			if g.chance(20) {
				hops = 3 + g.Intn(2)
			}
			p, n, e := g.part("create", hops)
			u.parts = append(u.parts, p)
			g.scope(n, e)
		}
	case "merge":
		p, n, e := g.part("merge", g.Intn(2))
		if g.chance(4) {
			// a value that fails
			x := p.nodes[g.Intn(len(p.nodes))]
			x.param, x.props = "", append(x.props, qKV{"x", &qE{op: "var", name: "unbound"}})
			if len(x.props) > 1 {
				x.props = x.props[len(x.props)-1:]
			}
		}
		u.parts = []*qPart{p}
		outer := len(g.nodes)
		g.scope(n, e)
		_ = outer
		if len(g.nodes) > 0 {
			if g.chance(50) {
				u.onCreate = g.sets(1 + g.Intn(2))
			}
			if g.chance(50) {
				u.onMatch = g.sets(1 + g.Intn(2))
			}
			u.order = g.chance(50)
			u.split = g.chance(50)
		}
	case "set":
		u.sets = g.sets(1 + g.Intn(3))
	case "remove":
		for k := 1 + g.Intn(3); k > 0; k-- {
			s := &qSet{v: g.anyNode(), op: "prop", key: g.key()}
			if g.chance(50) {
				s = &qSet{v: s.v, op: "labels", labels: []string{g.label()}}
				if g.chance(20) {
					s.labels = append(s.labels, g.label())
				}
				if g.chance(10) {
					s.v = "nul"
				}
			}
			u.remove = append(u.remove, s)
		}
	case "delete":
		u.detach = g.chance(40)
		for k := 1 + g.Intn(3); k > 0; k-- {
			switch {
			case g.chance(10):
				u.del = append(u.del, "nul")
			case len(g.edges) > 0 && g.chance(50):
				u.del = append(u.del, g.edges[g.Intn(len(g.edges))])
			default:
				u.del = append(u.del, g.anyNode())
			}
		}
	}
	return u
}

func (g *qGen) returns(q *qSingle, last string) {
	q.skip, q.limit = -1, -1
	q.ret = true
	if len(q.reads) > 0 && g.chance(25) {
		q.all = true
	}
	if !q.all {
		for k := 1 + g.Intn(3); k > 0; k-- {
			var e *qE
			vars := append(append([]string{}, g.nodes...), g.edges...)
			if last == "delete" {
				e = &qE{op: "lit", lit: g.Intn(3)}
				if len(vars) > 0 && g.chance(60) {
					e = &qE{op: "var", name: vars[g.Intn(len(vars))]}
				}
			} else if len(vars) > 0 && g.chance(45) {
				e = &qE{op: "var", name: vars[g.Intn(len(vars))]}
			} else {
				e = g.expr(g.pick("int", "str", "bool"), 2)
				if g.chance(10) {
					e = &qE{op: "list", kids: []*qE{e, g.expr("int", 0)}}
				}
			}
			it := qItem{e: e}
			if g.chance(60) {
				it.alias = fmt.Sprintf("r%d", len(q.items))
			}
			q.items = append(q.items, it)
		}
	}
}

func (g *qGen) bounds(q *qSingle) {
	if g.chance(50) {
		q.skip = g.Intn(5)
	}
	if g.chance(60) {
		q.limit = g.Intn(5)
	}
}

// query makes a query around an update of the given kind ("": none)
func (g *qGen) query(kinds ...string) *qSingle {
	q := &qSingle{skip: -1, limit: -1}
	k := 1
	if g.chance(35) {
		k = 2
	}
	for ; k > 0; k-- {
		q.reads = append(q.reads, g.match())
	}
	last := ""
	for _, k := range kinds {
		if (k == "set" || k == "remove" || k == "delete") && len(g.nodes) == 0 {
			continue
		}
		q.upd = append(q.upd, g.update(k))
		last = k
	}
	if len(q.upd) == 0 || g.chance(80) {
		g.returns(q, last)
	}
	return q
}

// qTry compares a query with the model, on several graphs
func (g *qGen) try(gr *qGraph, q *qSingle) {
	text := q.String()
	g.input("%s", text)
	e := qParse(g.wGen, text)
	for round := 0; round < 10; round++ {
		if round > 0 {
			gr = g.graph()
			if g.chance(60) {
				if g.chance(50) && len(gr.nodes) > 2 {
					gr.nodes, gr.edges = gr.nodes[:1], nil
				}
				g.plant(gr, q)
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, skipped := r.(wAbort); !skipped {
						panic(r)
					}
				}
			}()
			g.tryOn(gr, q, text, e)
		}()
	}
}

func (g *qGen) tryOn(gr *qGraph, q *qSingle, text string, e Evaluatable) {
	g.input("%s on %s", text, gr.brief())
	want := qRunModel(g.wGen, gr, q, false)
	for i := 0; i < 3; i++ {
		if o := qRunModel(g.wGen, gr, q, true); o.key() != want.key() || (o.err == "") != (want.err == "") {
			g.skip() // the outcome depends on the order of the rows
		}
	}
	got := qEval(g.wGen, gr.build(), e)
	if (got.err == "") != (want.err == "") || got.err == "" && (got.graph != want.graph || q.ret && qSorted(got.rows) != qSorted(want.rows)) {
		// before this counts: is there really no other order with another outcome?
		for i := 0; i < 150; i++ {
			if o := qRunModel(g.wGen, gr, q, true); o.key() != want.key() || (o.err == "") != (want.err == "") {
				g.skip()
			}
		}
	}
	if !g.check("error", (got.err == "") == (want.err == ""), "error: got %q, want %q", got.err, want.err) {
		return
	}
	if want.err != "" {
		if len(q.upd) > 0 && q.upd[0].kind == "delete" {
			g.check("unchanged", got.graph == gr.clone().dump(), "the graph has changed to %s", got.brief)
		}
		return
	}
	g.check("graph", got.graph == want.graph, "graph: got %s, want %s", got.brief, want.brief)
	if q.ret {
		g.check("rows", qSorted(got.rows) == qSorted(want.rows), "rows: got %s, want %s", qShort(got.rows), qShort(want.rows))
	} else {
		g.check("rows", len(got.rows) == 0, "rows: got %s, want none", qShort(got.rows))
	}
}

// rounds tries several graphs
func (g *qGen) rounds(f func(gr *qGraph)) {
	for i := 0; i < 8; i++ {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, skipped := r.(wAbort); !skipped {
						panic(r)
					}
				}
			}()
			f(g.graph())
		}()
	}
}

// qWords are reserved words
var qWords = []string{"ALL", "ASC", "BY", "CREATE", "DELETE", "DESC", "DETACH", "EXISTS", "LIMIT", "MATCH", "MERGE", "ON", "OPTIONAL", "ORDER", "REMOVE", "RETURN", "SET", "SKIP", "WHERE", "WITH", "UNION", "UNWIND", "AND", "AS", "CONTAINS", "DISTINCT", "ENDS", "IN", "IS", "NOT", "OR", "STARTS", "XOR", "FALSE", "TRUE", "NULL", "CASE", "ELSE", "END", "THEN", "WHEN"}

func qReadBack(g *wGen, lit, want string) {
	e, err := Parse("RETURN " + lit + " AS v")
	if err != nil {
		g.check("parse", false, "%v", err)
		return
	}
	v, err := e.Evaluate(NewEvalContext(lpg.NewGraph()))
	if err != nil {
		g.check("evaluate", false, "%v", err)
		return
	}
	rs := v.Get().(ResultSet)
	got := interface{}(nil)
	if len(rs.Rows) == 1 && rs.Rows[0]["v"] != nil {
		got = rs.Rows[0]["v"].Get()
	}
	g.check("value", got == want, "%s reads as %#v, want %#v", lit, got, want)
}

func qShort(rows []string) string {
	s := fmt.Sprintf("%d rows %s", len(rows), strings.Join(rows, " / "))
	if len(s) > 700 {
		s = s[:700] + "…"
	}
	return s
}

func qProbe(name, props string, f func(g *qGen)) bool {
	return wProbeAdd("query "+name, props, func(w *wGen) { f(&qGen{wGen: w}) })
}

// top makes a query without reading clauses
func (g *qGen) top(kinds ...string) *qSingle {
	q := &qSingle{skip: -1, limit: -1}
	for _, k := range kinds {
		q.upd = append(q.upd, g.update(k))
	}
	if g.chance(80) {
		g.returns(q, "")
		q.all = false
		if len(q.items) == 0 {
			q.items = []qItem{{e: &qE{op: "lit", lit: 1}}}
		}
	}
	return q
}

var (
	_ = qProbe("match", "C25,C12,C27", func(g *qGen) {
		gr := g.graph()
		g.try(gr, g.query())
	})
	_ = qProbe("set", "C20,C27", func(g *qGen) {
		gr := g.graph()
		g.try(gr, g.query("set"))
	})
	_ = qProbe("remove", "C21,C27", func(g *qGen) {
		gr := g.graph()
		g.try(gr, g.query("remove"))
	})
	_ = qProbe("delete", "C22", func(g *qGen) {
		gr := g.graph()
		g.try(gr, g.query("delete"))
	})
	_ = qProbe("create", "C23,C27", func(g *qGen) {
		gr := g.graph()
		g.try(gr, g.query("create"))
	})
	_ = qProbe("create alone", "C23", func(g *qGen) {
		gr := g.graph()
		if g.chance(30) {
			g.try(gr, g.top("create", "create"))
			return
		}
		g.try(gr, g.top("create"))
	})
	_ = qProbe("merge", "C24", func(g *qGen) {
		gr := g.graph()
		g.try(gr, g.query("merge"))
	})
	_ = qProbe("merge alone", "C24", func(g *qGen) {
		gr := g.graph()
		g.try(gr, g.top("merge"))
	})
	_ = qProbe("merge twice", "C24", func(g *qGen) {
		gr := g.graph()
		u := g.update("merge")
		u.onCreate, u.onMatch = nil, nil
		r := gr.build()
		text := u.String()
		g.input("%s, twice, on %s", text, gr.brief())
		one := qRunOn(g.wGen, r, text)
		two := qRunOn(g.wGen, r, text)
		if one.err == "" {
			for _, p := range u.parts {
				for _, n := range p.nodes {
					for _, kv := range n.props {
						if kv.e.eval(qEnv{"k": 3}) == nil {
							g.skip()
						}
					}
				}
				for _, x := range p.rels {
					for _, kv := range x.props {
						if kv.e.eval(qEnv{"k": 3}) == nil {
							g.skip()
						}
					}
				}
			}
			g.check("again", two.err == "" && one.graph == two.graph, "merging again: %s%s, before %s", two.brief, two.err, one.brief)
		}
	})
	_ = qProbe("clauses", "C27,C20,C21,C23,C24", func(g *qGen) {
		gr := g.graph()
		var ks []string
		for k := 1 + g.Intn(3); k > 0; k-- {
			ks = append(ks, g.pick("set", "remove", "create", "merge", "set"))
		}
		if g.chance(20) {
			ks = append(ks, "delete")
		}
		g.try(gr, g.query(ks...))
	})
	_ = qProbe("skip and limit", "C12", func(g *qGen) {
		g.ordered = true
		q := g.query()
		full := q.String()
		g.bounds(q)
		text := q.String()
		g.input("%s", text)
		ef, et := qParse(g.wGen, full), qParse(g.wGen, text)
		g.rounds(func(gr *qGraph) {
			for len(gr.nodes) < 3 {
				gr = g.graph()
			}
			g.input("%s on %s", text, gr.brief())
			want := qEval(g.wGen, gr.build(), ef)
			got := qEval(g.wGen, gr.build(), et)
			if again := qEval(g.wGen, gr.build(), ef); strings.Join(again.rows, "\n") != strings.Join(want.rows, "\n") {
				g.skip()
			}
			if want.err != "" {
				g.skip()
			}
			lo, hi := 0, len(want.rows)
			if q.skip >= 0 && q.skip < hi {
				lo = q.skip
			} else if q.skip >= 0 {
				lo = hi
			}
			if q.limit >= 0 && lo+q.limit < hi {
				hi = lo + q.limit
			}
			g.check("rows", got.err == "" && strings.Join(got.rows, "\n") == strings.Join(want.rows[lo:hi], "\n"), "got %s %s, want %s of %s", got.err, qShort(got.rows), qShort(want.rows[lo:hi]), qShort(want.rows))
		})
	})
	_ = qProbe("union", "C11", func(g *qGen) {
		g.single, g.ordered = true, true
		all := g.chance(40)
		var texts []string
		n := 2 + g.Intn(2)
		var names []string
		for i := 0; i < n; i++ {
			q := &qSingle{skip: -1, limit: -1, ret: true}
			g.nodes, g.edges = nil, nil
			if g.chance(75) {
				q.reads = append(q.reads, g.match())
			}
			k := len(names)
			if k == 0 {
				k = 1 + g.Intn(2)
				for j := 0; j < k; j++ {
					names = append(names, fmt.Sprintf("r%d", j))
				}
			}
			for j := 0; j < k; j++ {
				var e *qE
				switch {
				case len(g.nodes) > 0 && g.chance(40):
					e = &qE{op: "var", name: g.anyNode()}
				case len(g.edges) > 0 && g.chance(30):
					e = &qE{op: "var", name: g.edges[0]}
				case g.chance(25):
					e = &qE{op: "list", kids: []*qE{g.expr("int", 0), g.expr(g.pick("int", "str"), 0)}}
				default:
					e = g.expr(g.pick("int", "int", "bool", "str"), 0)
				}
				q.items = append(q.items, qItem{e: e, alias: names[j]})
			}
			texts = append(texts, q.String())
		}
		sep := " UNION "
		if all {
			sep = " UNION ALL "
		}
		text := strings.Join(texts, sep)
		g.input("%s", text)
		var es []Evaluatable
		for _, t := range texts {
			es = append(es, qParse(g.wGen, t))
		}
		eu := qParse(g.wGen, text)
		g.rounds(func(gr *qGraph) {
			g.input("%s on %s", text, gr.brief())
			failed := false
			var want []string
			for _, e := range es {
				o := qEval(g.wGen, gr.build(), e)
				if p := qEval(g.wGen, gr.build(), e); strings.Join(o.rows, "\n") != strings.Join(p.rows, "\n") {
					g.skip()
				}
				failed = failed || o.err != ""
				for _, r := range o.rows {
					if all || !qHas(want, r) {
						want = append(want, r)
					}
				}
			}
			got := qEval(g.wGen, gr.build(), eu)
			g.check("error", (got.err != "") == failed, "error %q", got.err)
			if !failed {
				g.check("rows", strings.Join(got.rows, "\n") == strings.Join(want, "\n"), "got %s, want %s", qShort(got.rows), qShort(want))
			}
		})
	})
	_ = qProbe("scopes of a union", "C13,C11", func(g *qGen) {
		// a variable is known in the query that binds it only
		queries := []string{"MATCH (a) RETURN 1 AS r", "MATCH (a)-[b]->(c) RETURN 1 AS r", "CREATE (a) RETURN 1 AS r", "MATCH (b) RETURN b.x AS r", "RETURN 1 AS r"}
		binds := []string{"a", "abc", "a", "b", ""}
		i, j := g.Intn(5), g.Intn(5)
		v := g.pick("a", "b", "c", "r")
		use := g.pick(v, v+".x", "[1, "+v+"]", v+" IS NULL")
		text := queries[i] + g.pick(" UNION ", " UNION ALL ")
		known := false
		if g.chance(40) {
			text += queries[j] + g.pick(" UNION ", " UNION ALL ")
		}
		if g.chance(30) {
			k := g.Intn(4)
			known = strings.Contains(binds[k], v)
			text += strings.Replace(queries[k], " RETURN ", " RETURN "+use+" AS s, ", 1)
		} else {
			text += "RETURN " + use + " AS r"
		}
		g.input("%s", text)
		gr := &qGraph{nodes: []*qNode{{labels: map[string]bool{}, props: map[string]interface{}{"x": 1}}}}
		gr.edges = []*qEdge{{from: gr.nodes[0], to: gr.nodes[0], label: "R", props: map[string]interface{}{}}}
		o := qEval(g.wGen, gr.build(), qParse(g.wGen, text))
		if !known {
			g.check("scope", o.err != "", "%s is known outside its query: %s", v, qShort(o.rows))
		} else if use == v {
			g.check("scope", o.err == "", "%s: %s", v, o.err)
		}
	})
	_ = qProbe("pattern expression", "C25", func(g *qGen) {
		p, _, _ := g.part("match", g.Intn(4))
		for _, n := range p.nodes {
			n.param, n.v = "", ""
			n.props = nil
			if g.chance(25) {
				k := g.pick("x", "y", "z")
				n.props = []qKV{{k, &qE{op: "lit", lit: g.val(k)}}}
			}
		}
		for _, r := range p.rels {
			if r.props != nil {
				r.props = []qKV{{"x", &qE{op: "lit", lit: g.val("x")}}}
			}
			if r.varlen {
				r.v = ""
			}
		}
		i, j := g.Intn(len(p.nodes)), g.Intn(len(p.nodes))
		p.nodes[j].v = "target"
		if g.chance(95) {
			p.nodes[i].v = "this"
		}
		text := p.String()
		g.input("%s", text)
		e, err := ParsePatternExpr(text)
		if !g.check("parse", err == nil, "%v", err) {
			return
		}
		q := &qSingle{reads: []*qMatch{{parts: []*qPart{p}}}}
		defer qStumble()
		for round := 0; round < 10; round++ {
			gr := g.graph()
			if g.chance(70) {
				g.plant(gr, q)
			}
			if len(gr.nodes) == 0 {
				continue
			}
			at := g.Intn(len(gr.nodes))
			g.input("%s from %d on %s", text, at, gr.brief())
			m := &qModel{g: gr, w: g.wGen}
			want := []string{}
			for _, row := range m.match([]*qPart{p}, qEnv{"this": gr.nodes[at]}) {
				if n, ok := row["target"].(*qNode); ok {
					want = append(want, strconv.Itoa(n.id))
				}
			}
			r := gr.build()
			found, err := e.FindRelative(r.nodes[at])
			if !g.check("error", err == nil, "%v", err) {
				return
			}
			got := []string{}
			for _, n := range found {
				for k, x := range r.nodes {
					if x == n {
						got = append(got, strconv.Itoa(k))
					}
				}
			}
			g.check("nodes", qSorted(got) == qSorted(want), "got %v, want %v", got, want)
		}
	})
	_ = wProbeAdd("query text", "C17", func(g *wGen) {
		// what is no symbol of the language is refused, not skipped
		a, b := g.Intn(9), g.Intn(9)
		parts := []string{"RETURN", " ", strconv.Itoa(a), " ", g.pick("+", "-", "*", "<", "AND", "="), " ", strconv.Itoa(b)}
		if g.chance(30) {
			parts = []string{"MATCH", " ", "(", "n", ":", "A", ")", " ", "RETURN", " ", "n", ".", "x"}
		}
		ctx := func() *EvalContext { return NewEvalContext(lpg.NewGraph()) }
		good := strings.Join(parts, "")
		e, err := Parse(good)
		g.input("%s", good)
		if !g.check("parse", err == nil, "%v", err) {
			return
		}
		v, err := e.Evaluate(ctx())
		v2, err2 := ParseAndEvaluate(good, ctx())
		g.check("parse and evaluate", (err == nil) == (err2 == nil) && (err != nil || fmt.Sprint(v.Get().(ResultSet).Rows) == fmt.Sprint(v2.Get().(ResultSet).Rows)), "%v %v, evaluated at once %v %v", v, err, v2, err2)
		i := g.Intn(len(parts) + 1)
		bad := strings.Join(parts[:i], "") + g.pick("~", "!", "?", "@", "#", "&", "\x01", "\x7f", "\u00a7", "~~", "'", "\"", "`") + strings.Join(parts[i:], "")
		g.input("%q", bad)
		e, err = Parse(bad)
		g.check("refused", err != nil, "accepted")
		v, err = ParseAndEvaluate(bad, ctx())
		g.check("refused at once", err != nil, "gives %v", v)
	})
	_ = wProbeAdd("query string literals", "C16", func(g *wGen) {
		s := g.str()
		for g.chance(40) {
			s += g.pick("\\", "\"", "'", "\n", "\t", "`", "u0041", "\u00fc", "\u20ac", "\U0001F600", "n", "\r", "\x00", "/", "b")
		}
		s = strings.ToValidUTF8(s, "?")
		lit := EscapeStringLiteral(s)
		g.input("EscapeStringLiteral(%q) = %s", s, lit)
		qReadBack(g, lit, s)
	})
	_ = wProbeAdd("query escape sequences", "C16", func(g *wGen) {
		var lit, want strings.Builder
		q := g.pick("'", "\"")
		for k := g.Intn(5); k >= 0; k-- {
			switch g.Intn(5) {
			case 0:
				i := g.Intn(9)
				lit.WriteString("\\" + string("bfnrt\\'\"B"[i]))
				want.WriteString(string("\b\f\n\r\t\\'\"\b"[i]))
			case 1:
				c := []rune{0x41, 0xfc, 0x20ac, 0x7f, 0xffff, 0x1000}[g.Intn(6)]
				lit.WriteString(fmt.Sprintf(g.pick("\\u%04x", "\\u%04X", "\\U%08x"), c))
				want.WriteRune(c)
			case 2:
				c := rune(0x10000 + g.Intn(0x100000))
				lit.WriteString(fmt.Sprintf("\\U%08X", c))
				want.WriteRune(c)
			default:
				c := g.pick("a", "\u00e9", "\u6f22", " ", "1", "`", "0041")
				lit.WriteString(c)
				want.WriteString(c)
			}
		}
		text := q + lit.String() + q
		g.input("%s", text)
		qReadBack(g, text, want.String())
	})
	_ = wProbeAdd("query names", "C16", func(g *wGen) {
		s := strings.ToValidUTF8(g.str(), "?")
		switch g.Intn(4) {
		case 0:
			s = qWords[g.Intn(len(qWords))]
			if g.chance(50) {
				s = strings.ToLower(s)
			} else if g.chance(50) {
				s = s[:1] + strings.ToLower(s[1:])
			}
		case 1:
			for k := g.Intn(4); k >= 0; k-- {
				s += g.pick("`", "``", " ", "a", "B", "'", "\\", "\u00fc", ".", "1")
			}
		}
		if s == "" {
			s = "x"
		}
		label, key := EscapeLabelLiteral(s), EscapePropertyKeyLiteral(s)
		for _, w := range qWords {
			if strings.EqualFold(w, s) && g.chance(60) {
				label, key = s, s
			}
		}
		text := "CREATE (a:" + label + " {" + key + ": 1})-[:" + label + " {" + key + ": 2}]->() RETURN a." + key + " AS v, a:" + label + " AS l"
		text = "CREATE (a:" + label + " {" + key + ": 1})-[:" + label + " {" + key + ": 2}]->() RETURN a." + key + " AS v"
		g.input("name %q: %s", s, text)
		r := (&qGraph{}).build()
		o := qRunOn(g, r, text)
		want := &qGraph{nodes: []*qNode{{id: -1, labels: map[string]bool{s: true}, props: map[string]interface{}{s: 1}}, {id: -1}}}
		want.edges = []*qEdge{{id: -1, from: want.nodes[0], to: want.nodes[1], label: s, props: map[string]interface{}{s: 2}}}
		g.check("names", o.err == "" && o.graph == want.dump(), "got %s %s", o.err, o.brief)
		g.check("value", qSorted(o.rows) == "{v:int(1)}", "got %s", qShort(o.rows))
		o = qRunOn(g, r, "MATCH (a:"+label+")-[r:"+label+"]->(b) RETURN a."+key+" AS v")
		g.check("found", qSorted(o.rows) == "{v:int(1)}", "got %s %s", o.err, qShort(o.rows))
	})
	_ = wProbeAdd("cartesian product", "C26", func(g *wGen) {
		n := g.Intn(4)
		var sets []ResultSet
		id := 0
		for i := 0; i < n; i++ {
			rs := *NewResultSet()
			for j := g.Intn(4); j > 0; j-- {
				row := map[string]Value{}
				for c := 0; c <= g.Intn(2); c++ {
					id++
					row[fmt.Sprintf("c%d_%d", i, c)] = RValue{Value: id}
				}
				if g.chance(20) {
					row["shared"] = RValue{Value: id}
				}
				rs.Rows = append(rs.Rows, row)
			}
			sets = append(sets, rs)
		}
		all := g.chance(50)
		mod := 1 + g.Intn(3)
		show := func(rows []map[string]Value) string {
			var r []string
			for _, row := range rows {
				var c []string
				for k, v := range row {
					c = append(c, fmt.Sprintf("%s=%v", k, v.Get()))
				}
				sort.Strings(c)
				r = append(r, strings.Join(c, " "))
			}
			return strings.Join(r, "; ")
		}
		var in []string
		for _, s := range sets {
			in = append(in, "["+show(s.Rows)+"]")
		}
		g.input("CartesianProduct(%s, %v) keeping every %d", strings.Join(in, " "), all, mod)
		// rows of the later sets vary slowest, those of later sets win
		want := []map[string]Value{{}}
		for i, s := range sets {
			if len(s.Rows) == 0 {
				if !all {
					want = nil
				}
				continue
			}
			var next []map[string]Value
			for _, r := range s.Rows {
				for _, w := range want {
					x := map[string]Value{}
					for k, v := range w {
						x[k] = v
					}
					for k, v := range r {
						x[k] = v
					}
					next = append(next, x)
				}
			}
			want = next
			_ = i
		}
		calls := 0
		var seen, kept []map[string]Value
		rs := CartesianProduct(sets, all, func(m map[string]Value) bool {
			c := map[string]Value{}
			for k, v := range m {
				c[k] = v
			}
			seen = append(seen, c)
			calls++
			keep := (calls-1)%mod == 0
			if keep {
				kept = append(kept, c)
			}
			return keep
		})
		g.check("visited", len(seen) == 0 && len(want) == 0 || show(seen) == show(want), "visited %s, want %s", show(seen), show(want))
		if len(want) > 0 || len(seen) == 0 {
			g.check("kept", show(rs.Rows) == show(kept), "got %s, want %s", show(rs.Rows), show(kept))
		}
		// columns of one set
		if n > 0 {
			s := sets[0]
			cols := 0
			if len(s.Rows) > 0 {
				cols = len(s.Rows[0])
			}
			for _, r := range s.Rows {
				if len(r) != cols || r["shared"] != nil {
					return
				}
			}
			count := 0
			dist := map[string]bool{}
			stop := -1
			if g.chance(30) {
				stop = 1 + g.Intn(3)
			}
			ok := s.CartesianProduct(func(m map[string]Value) bool {
				count++
				dist[show([]map[string]Value{m})] = true
				return count != stop
			})
			want := 1
			for i := 0; i < cols; i++ {
				want *= len(s.Rows)
			}
			if len(s.Rows) == 0 {
				want = 0
			}
			g.input("(ResultSet).CartesianProduct(%s) stopping at %d", in[0], stop)
			stopped := stop > 0 && stop <= want
			if stopped {
				want = stop
			}
			g.check("columns", count == want && len(dist) == want && ok == !stopped, "%d calls, %d of them different, want %d; returned %v", count, len(dist), want, ok)
		}
	})
)
