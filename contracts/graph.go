package opencypher

import "github.com/cloudprivacylabs/lpg/v2"

// The ghost state of the graph, and what the operations of lpg do to it. The
// models are assumptions about lpg.

type vGhostProp interface{}

// vGhostProps are the properties of a node
type vGhostProps map[string]vGhostProp

type vGhostNode struct {
	labels  lpg.StringSet
	removed int // how often it was removed from its graph
}

// vNodeProps is the ghost state of a node
func vNodeProps(n *lpg.Node) vGhostProps {
	ret := vGhostProps{}
	n.ForEachProperty(func(k string, v interface{}) bool { ret[k] = v; return true })
	return ret
}

func vNode(n *lpg.Node) *vGhostNode { return &vGhostNode{labels: n.GetLabels()} }

//@ model (*lpg.Node).SetProperty mSetProperty
//@ model (*lpg.Node).RemoveProperty mRemoveProperty
//@ model (*lpg.Node).ForEachProperty mForEachProperty
//@ model (*lpg.Node).GetLabels mGetLabels
//@ model (*lpg.Node).SetLabels mSetLabels

func mSetProperty(n *lpg.Node, key string, value interface{}) { vNodeProps(n)[key] = value }

func mRemoveProperty(n *lpg.Node, key string) { delete(vNodeProps(n), key) }

func mForEachProperty(n *lpg.Node, f func(string, interface{}) bool) bool {
	for k, v := range vNodeProps(n) {
		if !f(k, v) {
			return false
		}
	}
	return true
}

func mGetLabels(n *lpg.Node) lpg.StringSet { return vNode(n).labels }

func mSetLabels(n *lpg.Node, labels lpg.StringSet) { vNode(n).labels = labels }

//@ model (*lpg.Node).DetachAndRemove mDetachAndRemove
//@ model (*lpg.Edge).Remove mEdgeRemove

func mDetachAndRemove(n *lpg.Node) { vNode(n).removed++ }

func mEdgeRemove(e *lpg.Edge) { vEdge(e).removed++ }

// The edges of a node in a direction, before anything is removed. The iterator
// returned by GetEdges gives them one after the other.

//@ opaque vEdgesAt
//@ model (*lpg.Node).GetEdges mGetEdges

func vEdgesAt(n *lpg.Node, dir lpg.EdgeDir) vEdges { return vEdgesOf(lpg.EdgeSlice(n.GetEdges(dir))) }

type vEdgeItr struct {
	edges vEdges
	n     int // how many were given
}

func mGetEdges(n *lpg.Node, dir lpg.EdgeDir) lpg.EdgeIterator {
	return &vEdgeItr{edges: vEdgesAt(n, dir)}
}

func (i *vEdgeItr) Next() bool {
	if i.n >= vEdgeLen(i.edges) {
		return false
	}
	i.n++
	return true
}

func (i *vEdgeItr) Edge() *lpg.Edge    { return vEdgeAt(i.edges, i.n-1) }
func (i *vEdgeItr) Value() interface{} { return i.Edge() }
func (i *vEdgeItr) MaxSize() int       { return -1 }

// The sets of nodes and edges of a result set are not tracked.

//@ model (*lpg.NodeSet).Add mNodeSetAdd local
//@ model (*lpg.EdgeSet).Add mEdgeSetAdd local
//@ model lpg.NewNodeSet mNewNodeSet local
//@ model lpg.NewEdgeSet mNewEdgeSet local

// what is in a set: its iterator gives it

//@ opaque vNodesIn vEdgesIn
//@ model (lpg.NodeSet).Iterator mNodeSetIterator local
//@ model (lpg.EdgeSet).Iterator mEdgeSetIterator local

func vNodesIn(s lpg.NodeSet) vNodes { return vNodesOf(lpg.NodeSlice(s.Iterator())) }
func vEdgesIn(s lpg.EdgeSet) vEdges { return vEdgesOf(lpg.EdgeSlice(s.Iterator())) }

func mNodeSetIterator(s lpg.NodeSet) lpg.NodeIterator { return &vNodeItr{nodes: vNodesIn(s)} }
func mEdgeSetIterator(s lpg.EdgeSet) lpg.EdgeIterator { return &vEdgeItr{edges: vEdgesIn(s)} }

type vNodeItr struct {
	nodes vNodes
	n     int
}

func (i *vNodeItr) Next() bool {
	if i.n >= vNodeLen(i.nodes) {
		return false
	}
	i.n++
	return true
}

func (i *vNodeItr) Node() *lpg.Node    { return vNodeAt(i.nodes, i.n-1) }
func (i *vNodeItr) Value() interface{} { return i.Node() }
func (i *vNodeItr) MaxSize() int       { return -1 }

func mNodeSetAdd(s *lpg.NodeSet, n *lpg.Node) {}
func mEdgeSetAdd(s *lpg.EdgeSet, e *lpg.Edge) {}
func mNewNodeSet() *lpg.NodeSet               { return new(lpg.NodeSet) }
func mNewEdgeSet() *lpg.EdgeSet               { return new(lpg.EdgeSet) }

// A path is the list of its elements. (Append panics if they are not
// connected; that is not modelled.)

// vPathElems is the field path
func vPathElems(p *lpg.Path) *[]lpg.PathElement {
	ret := make([]lpg.PathElement, p.NumEdges())
	for i := range ret {
		ret[i] = lpg.PathElement{Edge: p.GetEdge(i)}
	}
	return &ret
}

//@ model (*lpg.Path).Append mPathAppend local
//@ model (*lpg.Path).NumEdges mPathNumEdges
//@ model (*lpg.Path).GetEdge mPathGetEdge

func mPathAppend(p *lpg.Path, e ...lpg.PathElement) *lpg.Path {
	s := vPathElems(p)
	*s = append(*s, e...)
	return p
}

func mPathNumEdges(p *lpg.Path) int { return len(*vPathElems(p)) }

func mPathGetEdge(p *lpg.Path, i int) *lpg.Edge { return (*vPathElems(p))[i].Edge }

// The sets of a pattern symbol are known by what was added to them.

//@ opaque vAddedNode vAddedPath
//@ model (*lpg.PatternSymbol).AddNode mSymbolAddNode local
//@ model (*lpg.PatternSymbol).AddPath mSymbolAddPath local

func vAddedNode(s *lpg.NodeSet, n *lpg.Node) *lpg.NodeSet { return s }
func vAddedPath(s *lpg.EdgeSet, p *lpg.Path) *lpg.EdgeSet { return s }

func mSymbolAddNode(p *lpg.PatternSymbol, n *lpg.Node) { p.Nodes = vAddedNode(p.Nodes, n) }
func mSymbolAddPath(p *lpg.PatternSymbol, q *lpg.Path) { p.Edges = vAddedPath(p.Edges, q) }

// vGhostGraph counts what was added to a graph
type vGhostGraph struct {
	nodes, edges int
}

type vGhostEdge struct {
	from, to *lpg.Node
	label    string
	removed  int
}

type vGhostEdgeProp interface{}
type vGhostEdgeProps map[string]vGhostEdgeProp

func vGraph(g *lpg.Graph) *vGhostGraph { return &vGhostGraph{g.NumNodes(), g.NumEdges()} }

func vEdge(e *lpg.Edge) *vGhostEdge { return &vGhostEdge{from: e.GetFrom(), to: e.GetTo(), label: e.GetLabel()} }

func vEdgeProps(e *lpg.Edge) vGhostEdgeProps {
	ret := vGhostEdgeProps{}
	e.ForEachProperty(func(k string, v interface{}) bool { ret[k] = v; return true })
	return ret
}

// vNewNode is a node without labels and properties
func vNewNode() *lpg.Node { return new(lpg.Node) }

// vNewEdge is an edge without properties
func vNewEdge() *lpg.Edge { return new(lpg.Edge) }

//@ model (*lpg.Graph).NewNode mNewNode
//@ model (*lpg.Graph).NewEdge mNewEdge

func mNewNode(g *lpg.Graph, labels []string, props map[string]interface{}) *lpg.Node {
	n := vNewNode()
	vNode(n).labels = lpg.NewStringSet(labels...)
	ps := vNodeProps(n)
	for k, v := range props {
		ps[k] = v
	}
	vGraph(g).nodes++
	return n
}

func mNewEdge(g *lpg.Graph, from, to *lpg.Node, label string, props map[string]interface{}) *lpg.Edge {
	e := vNewEdge()
	vEdge(e).from, vEdge(e).to, vEdge(e).label = from, to, label
	ps := vEdgeProps(e)
	for k, v := range props {
		ps[k] = v
	}
	vGraph(g).edges++
	return e
}
