package lpg

// A reference model of a graph, and random and exhaustive operation histories run on both.

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

type mNode struct {
	n      *Node
	id     int
	labels map[string]bool
	props  map[string]any
	alive  bool
	name   string
}

type mEdge struct {
	e        *Edge
	id       int
	from, to *mNode
	label    string
	props    map[string]any
	alive    bool
	name     string
}

type mWorld struct {
	g       *Graph
	nodes   []*mNode
	edges   []*mEdge
	nodeIx  map[string]bool
	edgeIx  map[string]bool
	nm      *NodeMap // kept in step through its own interface, when used
	useNM   bool
	allowIx bool
}

func newWorld() *mWorld {
	return &mWorld{g: NewGraph(), nodeIx: map[string]bool{}, edgeIx: map[string]bool{}}
}

func (w *mWorld) liveNodes() (r []*mNode) {
	for _, n := range w.nodes {
		if n.alive {
			r = append(r, n)
		}
	}
	return
}

func (w *mWorld) liveEdges() (r []*mEdge) {
	for _, e := range w.edges {
		if e.alive {
			r = append(r, e)
		}
	}
	return
}

// gop is one operation; the numbers are taken modulo what is available.
type gop struct {
	k       string
	a, b, c int
	v       any
}

var vLabels = []string{"A", "B", "C"}
var vEdgeLabels = []string{"x", "y", "z"}
var vKeys = []string{"p", "q", "r"}

func vset(mask int) StringSet {
	s := NewStringSet()
	for i, l := range vLabels {
		if mask&(1<<i) != 0 {
			s.Add(l)
		}
	}
	return s
}

func vmask(mask int) map[string]bool {
	m := map[string]bool{}
	for i, l := range vLabels {
		if mask&(1<<i) != 0 {
			m[l] = true
		}
	}
	return m
}

func vprops(code int) map[string]any {
	m := map[string]any{}
	if code&1 != 0 {
		m["p"] = (code >> 3) % 3
	}
	if code&2 != 0 {
		m["q"] = string(rune('a' + (code>>4)%3))
	}
	if code&4 != 0 {
		m["r"] = []int{(code >> 3) % 2}
	}
	if len(m) == 0 {
		return nil
	}
	return m
}

func vval(key string, c int) any {
	switch key {
	case "p":
		if c%5 == 4 {
			return natv{c % 3}
		}
		return c % 3
	case "q":
		if c%5 == 4 {
			return natStr(string(rune('a' + c%3)))
		}
		return string(rune('a' + c%3))
	}
	switch c % 3 {
	case 0:
		return []int{c % 2}
	case 1:
		return []any{c % 2}
	}
	return []any{c % 2, 1}
}

func cpProps(m map[string]any) map[string]any {
	r := map[string]any{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func nodeIxIn(l []*mNode, n *mNode) int {
	for i, x := range l {
		if x == n {
			return i
		}
	}
	return -1
}

func (w *mWorld) apply(o gop) {
	ln := w.liveNodes()
	le := w.liveEdges()
	addNode := func(n *Node, labels map[string]bool, props map[string]any) {
		m := &mNode{n: n, id: n.GetID(), labels: labels, props: cpProps(props), alive: true, name: fmt.Sprintf("n%d", len(w.nodes))}
		w.nodes = append(w.nodes, m)
		if w.nm != nil {
			w.nm.Add(n)
		}
	}
	addEdge := func(e *Edge, from, to *mNode, label string, props map[string]any) {
		w.edges = append(w.edges, &mEdge{e: e, id: e.GetID(), from: from, to: to, label: label, props: cpProps(props), alive: true, name: fmt.Sprintf("e%d", len(w.edges))})
	}
	killEdges := func(n *mNode) {
		for _, e := range w.edges {
			if e.from == n || e.to == n {
				e.alive = false
			}
		}
	}
	switch o.k {
	case "node":
		p := vprops(o.b)
		var ls []string
		for l := range vmask(o.a % 8) {
			ls = append(ls, l)
		}
		addNode(w.g.NewNode(ls, p), vmask(o.a%8), p)
		if p != nil {
			p["p"] = 99 // the graph keeps its own copy
		}
	case "fnode":
		p := vprops(o.b)
		addNode(w.g.FastNewNode(vset(o.a%8), p), vmask(o.a%8), p)
	case "edge", "fedge":
		if len(ln) == 0 {
			return
		}
		f, t := ln[o.a%len(ln)], ln[o.b%len(ln)]
		l := vEdgeLabels[o.c%3]
		p := vprops(o.c / 3)
		if o.k == "edge" {
			addEdge(w.g.NewEdge(f.n, t.n, l, p), f, t, l, p)
			if p != nil {
				p["p"] = 99
			}
		} else {
			addEdge(w.g.FastNewEdge(f.n, t.n, l, p), f, t, l, p)
		}
	case "rmedge":
		if len(le) > 0 {
			e := le[o.a%len(le)]
			e.e.Remove()
			e.alive = false
		}
	case "label":
		if len(le) > 0 {
			e := le[o.a%len(le)]
			e.label = vEdgeLabels[o.b%3]
			e.e.SetLabel(e.label)
		}
	case "detach":
		if len(ln) > 0 {
			n := ln[o.a%len(ln)]
			n.n.Detach()
			killEdges(n)
		}
	case "rmnode":
		if len(ln) > 0 {
			n := ln[o.a%len(ln)]
			if w.nm != nil {
				w.nm.Remove(n.n)
			}
			n.n.DetachAndRemove()
			killEdges(n)
			n.alive = false
		}
	case "labels":
		if len(ln) > 0 {
			n := ln[o.a%len(ln)]
			s := vset(o.b % 8)
			if w.nm != nil {
				w.nm.Replace(n.n, n.n.GetLabels(), s)
			}
			n.n.SetLabels(s)
			n.labels = vmask(o.b % 8)
			s.Add("later") // the node keeps its own copy
			g := n.n.GetLabels()
			g.Add("later")
			g.Remove("A", "B", "C")
		}
	case "nprop":
		if len(ln) > 0 {
			n := ln[o.a%len(ln)]
			k := vKeys[o.b%3]
			n.props[k] = vval(k, o.c)
			n.n.SetProperty(k, n.props[k])
		}
	case "rmnprop":
		if len(ln) > 0 {
			n := ln[o.a%len(ln)]
			k := vKeys[o.b%3]
			delete(n.props, k)
			n.n.RemoveProperty(k)
		}
	case "eprop":
		if len(le) > 0 {
			e := le[o.a%len(le)]
			k := vKeys[o.b%3]
			e.props[k] = vval(k, o.c)
			e.e.SetProperty(k, e.props[k])
		}
	case "rmeprop":
		if len(le) > 0 {
			e := le[o.a%len(le)]
			k := vKeys[o.b%3]
			delete(e.props, k)
			e.e.RemoveProperty(k)
		}
	case "nindex", "eindex":
		k := vKeys[o.a%3]
		ty := BtreeIndex
		if o.b%2 == 1 && k != "r" { // lists cannot be hashed
			ty = HashIndex
		}
		if o.k == "nindex" {
			w.g.AddNodePropertyIndex(k, ty)
			w.nodeIx[k] = true
		} else {
			w.g.AddEdgePropertyIndex(k, ty)
			w.edgeIx[k] = true
		}
	case "copynode":
		if len(ln) > 0 {
			n := ln[o.a%len(ln)]
			c := CopyNode(n.n, w.g, func(_ string, v any) any { return v })
			lab := map[string]bool{}
			for l := range n.labels {
				lab[l] = true
			}
			addNode(c, lab, n.props)
		}
	case "copyedge":
		if len(le) > 0 {
			e := le[o.a%len(le)]
			f, t := ln[o.b%len(ln)], ln[o.c%len(ln)]
			c := CloneEdge(f.n, t.n, e.e, w.g, func(_ string, v any) any { return v })
			addEdge(c, f, t, e.label, e.props)
		}
	case "bystander":
		// operations that must not change anything
		if len(le) > 0 {
			le[o.a%len(le)].e.SetLabel(le[o.a%len(le)].label)
		}
		if len(ln) > 0 {
			n := ln[o.a%len(ln)]
			_ = n.n.GetEdges(AnyEdge).Next()
			n.n.RemoveProperty("never")
		}
	}
}

func showOps(ops []gop) string {
	var b []string
	for _, o := range ops {
		switch o.k {
		case "node", "fnode":
			b = append(b, fmt.Sprintf("%s(labels=%d props=%v)", o.k, o.a%8, vprops(o.b)))
		case "edge", "fedge":
			b = append(b, fmt.Sprintf("%s(live#%d->live#%d %s %v)", o.k, o.a, o.b, vEdgeLabels[o.c%3], vprops(o.c/3)))
		case "nprop", "eprop":
			k := vKeys[o.b%3]
			b = append(b, fmt.Sprintf("%s(live#%d %s=%v)", o.k, o.a, k, vval(k, o.c)))
		case "rmnprop", "rmeprop":
			b = append(b, fmt.Sprintf("%s(live#%d %s)", o.k, o.a, vKeys[o.b%3]))
		case "nindex", "eindex":
			b = append(b, fmt.Sprintf("%s(%s kind=%d)", o.k, vKeys[o.a%3], o.b%2))
		case "label":
			b = append(b, fmt.Sprintf("label(live#%d %s)", o.a, vEdgeLabels[o.b%3]))
		case "labels":
			b = append(b, fmt.Sprintf("labels(live#%d set=%d)", o.a, o.b%8))
		default:
			b = append(b, fmt.Sprintf("%s(%d,%d,%d)", o.k, o.a, o.b, o.c))
		}
	}
	return strings.Join(b, "; ")
}

func (w *mWorld) nodeNames(l []*Node) string {
	var r []string
	for _, n := range l {
		x := "?"
		for _, m := range w.nodes {
			if m.n == n {
				x = m.name
			}
		}
		r = append(r, x)
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func (w *mWorld) edgeNames(l []*Edge) string {
	var r []string
	for _, n := range l {
		x := "?"
		for _, m := range w.edges {
			if m.e == n {
				x = m.name
			}
		}
		r = append(r, x)
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

// drain reads an iterator to its end, with a bound, and checks its size hint and that it stays exhausted.
func (w *mWorld) drainN(it NodeIterator, what string) []*Node {
	hint := it.MaxSize()
	var r []*Node
	for it.Next() {
		n := it.Node()
		vmust(n != nil, "nil-element", "%s yields nil", what)
		vmust(it.Value() == any(n), "value", "%s: Value and Node differ", what)
		r = append(r, n)
		vmust(len(r) <= 4*len(w.nodes)+8, "endless", "%s yields more elements than there are", what)
	}
	vmust(!it.Next() && !it.Next(), "not-exhausted", "%s continues after its end", what)
	vmust(hint == -1 || hint >= len(r), "size-hint", "%s: MaxSize %d, but %d elements", what, hint, len(r))
	return r
}

func (w *mWorld) drainE(it EdgeIterator, what string) []*Edge {
	hint := it.MaxSize()
	var r []*Edge
	for it.Next() {
		n := it.Edge()
		vmust(n != nil, "nil-element", "%s yields nil", what)
		vmust(it.Value() == any(n), "value", "%s: Value and Edge differ", what)
		r = append(r, n)
		vmust(len(r) <= 4*len(w.edges)+8, "endless", "%s yields more elements than there are", what)
	}
	vmust(!it.Next() && !it.Next(), "not-exhausted", "%s continues after its end", what)
	vmust(hint == -1 || hint >= len(r), "size-hint", "%s: MaxSize %d, but %d elements", what, hint, len(r))
	return r
}

func (w *mWorld) sameN(key, what string, got []*Node, want func(*mNode) bool) {
	var l []*Node
	for _, n := range w.nodes {
		if n.alive && want(n) {
			l = append(l, n.n)
		}
	}
	a, b := w.nodeNames(got), w.nodeNames(l)
	vmust(a == b, key, "%s yields [%s], want [%s]", what, a, b)
}

func (w *mWorld) sameE(key, what string, got []*Edge, want func(*mEdge) int) {
	var l []*Edge
	for _, n := range w.edges {
		if n.alive {
			for i := want(n); i > 0; i-- {
				l = append(l, n.e)
			}
		}
	}
	a, b := w.edgeNames(got), w.edgeNames(l)
	vmust(a == b, key, "%s yields [%s], want [%s]", what, a, b)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// checkC01: the three enumerations without label restriction, and the counts.
func (w *mWorld) checkC01() {
	w.sameN("nodes", "GetNodes", w.drainN(w.g.GetNodes(), "GetNodes"), func(*mNode) bool { return true })
	w.sameE("edges", "GetEdges", w.drainE(w.g.GetEdges(), "GetEdges"), func(*mEdge) int { return 1 })
	vmust(w.g.NumNodes() == len(w.liveNodes()), "num-nodes", "NumNodes is %d, want %d", w.g.NumNodes(), len(w.liveNodes()))
	vmust(w.g.NumEdges() == len(w.liveEdges()), "num-edges", "NumEdges is %d, want %d", w.g.NumEdges(), len(w.liveEdges()))
	for _, n := range w.liveNodes() {
		n := n
		vmust(n.n.GetGraph() == w.g, "graph", "GetGraph of %s", n.name)
		w.sameE("outgoing", "outgoing edges of "+n.name, w.drainE(n.n.GetEdges(OutgoingEdge), "GetEdges"), func(e *mEdge) int { return b2i(e.from == n) })
		w.sameE("incoming", "incoming edges of "+n.name, w.drainE(n.n.GetEdges(IncomingEdge), "GetEdges"), func(e *mEdge) int { return b2i(e.to == n) })
	}
	var each []*Node
	vmust(ForEachNode(w.g, func(n *Node) bool { each = append(each, n); return true }), "nodes", "ForEachNode reports an early stop")
	w.sameN("nodes", "ForEachNode", each, func(*mNode) bool { return true })
	if len(each) > 0 {
		calls := 0
		vmust(!ForEachNode(w.g, func(n *Node) bool { calls++; return false }) && calls == 1, "nodes", "ForEachNode goes on after false (%d calls)", calls)
		foreign := NewGraph().NewNode(nil, nil)
		for _, ends := range [][2]*Node{{each[0], foreign}, {foreign, each[0]}, {foreign, foreign}} {
			vmust(vpanics(func() { w.g.NewEdge(ends[0], ends[1], "x", nil) }), "foreign", "an edge to or from a node of another graph is accepted")
			vmust(vpanics(func() { w.g.FastNewEdge(ends[0], ends[1], "x", nil) }), "foreign", "an edge to or from a node of another graph is accepted")
		}
		vmust(!foreign.GetEdges(AnyEdge).Next() && w.g.NumEdges() == len(w.liveEdges()), "foreign", "a refused edge leaves traces")
	}
	for _, e := range w.liveEdges() {
		vmust(e.e.GetFrom() == e.from.n && e.e.GetTo() == e.to.n && e.e.GetLabel() == e.label, "endpoints", "%s has other endpoints or label", e.name)
	}
}

func (w *mWorld) checkC02() {
	seen := map[int]string{}
	for _, n := range w.nodes {
		p, dup := seen[n.id]
		vmust(!dup, "reused-id", "%s and %s have the identifier %d", n.name, p, n.id)
		seen[n.id] = n.name
		if n.alive {
			vmust(n.n.GetID() == n.id, "id-changed", "the identifier of %s changed from %d to %d", n.name, n.id, n.n.GetID())
		}
	}
	for _, n := range w.edges {
		p, dup := seen[n.id]
		vmust(!dup, "reused-id", "%s and %s have the identifier %d", n.name, p, n.id)
		seen[n.id] = n.name
		if n.alive {
			vmust(n.e.GetID() == n.id, "id-changed", "the identifier of %s changed from %d to %d", n.name, n.id, n.e.GetID())
		}
	}
}

func (w *mWorld) checkC03() {
	masks := []int{0, 1, 2, 3, 5, 7, 8, 9}
	lset := func(m int) StringSet {
		s := NewStringSet()
		for i, l := range vEdgeLabels {
			if m&(1<<i) != 0 {
				s.Add(l)
			}
		}
		if m&8 != 0 {
			s.Add("none")
		}
		return s
	}
	w.sameE("all", "GetEdges", w.drainE(w.g.GetEdges(), "GetEdges"), func(*mEdge) int { return 1 })
	for _, m := range masks {
		if m == 0 {
			continue
		}
		s := lset(m)
		w.sameE("graph-labels", fmt.Sprintf("GetEdgesWithAnyLabel(%v)", s), w.drainE(w.g.GetEdgesWithAnyLabel(s), "GetEdgesWithAnyLabel"), func(e *mEdge) int { return b2i(s.Has(e.label)) })
	}
	for _, n := range w.liveNodes() {
		n := n
		for _, d := range []EdgeDir{IncomingEdge, OutgoingEdge, AnyEdge} {
			cnt := func(e *mEdge) int {
				return b2i(d != IncomingEdge && e.from == n) + b2i(d != OutgoingEdge && e.to == n)
			}
			what := fmt.Sprintf("%s.GetEdges(%d)", n.name, d)
			w.sameE("node-edges", what, w.drainE(n.n.GetEdges(d), what), cnt)
			for _, l := range []string{"x", "y", "none"} {
				what := fmt.Sprintf("%s.GetEdgesWithLabel(%d,%s)", n.name, d, l)
				w.sameE("node-label", what, w.drainE(n.n.GetEdgesWithLabel(d, l), what), func(e *mEdge) int { return cnt(e) * b2i(e.label == l) })
			}
			for _, m := range masks {
				s := lset(m)
				what := fmt.Sprintf("%s.GetEdgesWithAnyLabel(%d,%v)", n.name, d, s)
				w.sameE("node-labels", what, w.drainE(n.n.GetEdgesWithAnyLabel(d, s), what), func(e *mEdge) int { return cnt(e) * b2i(m == 0 || s.Has(e.label)) })
			}
		}
	}
}

func hasAll(have map[string]bool, mask int) bool {
	for l := range vmask(mask) {
		if !have[l] {
			return false
		}
	}
	return true
}

func (w *mWorld) checkC04() {
	for m := 1; m < 8; m++ {
		what := fmt.Sprintf("GetNodesWithAllLabels(%v)", vset(m))
		w.sameN("labels", what, w.drainN(w.g.GetNodesWithAllLabels(vset(m)), what), func(n *mNode) bool { return hasAll(n.labels, m) })
		if w.nm != nil {
			what := fmt.Sprintf("NodeMap.IteratorAllLabels(%v)", vset(m))
			w.sameN("nodemap-labels", what, w.drainN(w.nm.IteratorAllLabels(vset(m)), what), func(n *mNode) bool { return hasAll(n.labels, m) })
		}
	}
	if w.nm != nil {
		w.sameN("nodemap", "NodeMap.Iterator", w.drainN(w.nm.Iterator(), "NodeMap.Iterator"), func(n *mNode) bool { return true })
		vmust(w.nm.IsEmpty() == (len(w.liveNodes()) == 0), "nodemap-empty", "NodeMap.IsEmpty is %v, the map holds %d nodes", w.nm.IsEmpty(), len(w.liveNodes()))
	}
	for _, n := range w.liveNodes() {
		for i := range vLabels {
			vmust(n.n.HasLabel(vLabels[i]) == n.labels[vLabels[i]], "has-label", "%s.HasLabel(%s)", n.name, vLabels[i])
		}
		ls := n.n.GetLabels()
		vmust(ls.Len() == len(n.labels), "get-labels", "%s.GetLabels is %v, want %v", n.name, ls, n.labels)
	}
}

func (w *mWorld) probe(k string) []any {
	switch k {
	case "p":
		return []any{0, 1, 2, 3, natv{1}}
	case "q":
		return []any{"a", "b", "c", "zz", natStr("b")}
	}
	return []any{[]int{0}, []any{1}, []any{1, 1}, []int{7}}
}

func (w *mWorld) checkC05() {
	for _, k := range vKeys {
		k := k
		hasN := func(n *mNode) bool { _, ok := n.props[k]; return ok }
		hasE := func(n *mEdge) int { _, ok := n.props[k]; return b2i(ok) }
		w.sameN("nodes-with", "GetNodesWithProperty("+k+")", w.drainN(w.g.GetNodesWithProperty(k), "GetNodesWithProperty"), hasN)
		w.sameE("edges-with", "GetEdgesWithProperty("+k+")", w.drainE(w.g.GetEdgesWithProperty(k), "GetEdgesWithProperty"), hasE)
		for _, v := range w.probe(k) {
			v := v
			if it := w.g.index.GetIteratorForNodeProperty(k, v); w.nodeIx[k] {
				what := fmt.Sprintf("node index lookup %s=%v", k, v)
				vmust(it != nil, "no-index", "%s: no index", what)
				w.sameN("node-index", what, w.drainN(it, what), func(n *mNode) bool { return hasN(n) && refcmp(n.props[k], v) == 0 })
			}
			if it := w.g.index.GetIteratorForEdgeProperty(k, v); w.edgeIx[k] {
				what := fmt.Sprintf("edge index lookup %s=%v", k, v)
				vmust(it != nil, "no-index", "%s: no index", what)
				w.sameE("edge-index", what, w.drainE(it, what), func(n *mEdge) int { return b2i(hasE(n) == 1 && refcmp(n.props[k], v) == 0) })
			}
		}
	}
	for _, n := range w.liveNodes() {
		for _, k := range vKeys {
			v, ok := n.n.GetProperty(k)
			mv, mok := n.props[k]
			vmust(ok == mok && (!ok || refcmp(v, mv) == 0), "property", "%s.%s is %v (%v), want %v", n.name, k, v, ok, mv)
		}
		eachProperty(n.name, n.n.ForEachProperty, n.props)
	}
	for _, n := range w.liveEdges() {
		for _, k := range vKeys {
			v, ok := n.e.GetProperty(k)
			mv, mok := n.props[k]
			vmust(ok == mok && (!ok || refcmp(v, mv) == 0), "property", "%s.%s is %v (%v), want %v", n.name, k, v, ok, mv)
		}
		eachProperty(n.name, n.e.ForEachProperty, n.props)
	}
}

// eachProperty: ForEachProperty reports every property once, with its value, and stops when it is told to.
func eachProperty(name string, each func(func(string, any) bool) bool, want map[string]any) {
	got := map[string]any{}
	ok := each(func(k string, v any) bool {
		_, dup := got[k]
		vmust(!dup, "each-property", "ForEachProperty of %s reports %s twice", name, k)
		got[k] = v
		return true
	})
	vmust(ok, "each-property", "ForEachProperty of %s reports an early stop", name)
	vmust(len(got) == len(want), "each-property", "ForEachProperty of %s reports %v, want %v", name, got, want)
	for k, v := range want {
		g, has := got[k]
		vmust(has && refcmp(g, v) == 0, "each-property", "ForEachProperty of %s reports %v, want %v", name, got, want)
	}
	calls := 0
	ok = each(func(string, any) bool { calls++; return false })
	vmust(ok == (len(want) == 0) && calls == b2i(len(want) > 0), "each-property", "ForEachProperty of %s with a callback that stops: %v after %d calls", name, ok, calls)
}

func (w *mWorld) checkC06() {
	match := func(have, want map[string]any) bool {
		for k, v := range want {
			h, ok := have[k]
			if !ok || refcmp(h, v) != 0 {
				return false
			}
		}
		return true
	}
	props := []map[string]any{nil, {"p": 0}, {"p": 1}, {"q": "a"}, {"p": 1, "q": "b"}, {"p": 0, "q": "a", "r": []int{0}}, {"r": []any{1}}, {"p": natv{2}}, {"none": 1}, {"p": 1, "none": "x"}, {"p": "a"}, {"q": 1}, {"p": []int{1}}}
	for m := 0; m < 8; m++ {
		for _, p := range props {
			what := fmt.Sprintf("FindNodes(%v,%v)", vset(m), p)
			w.sameN("find-nodes", what, w.drainN(w.g.FindNodes(vset(m), p), what), func(n *mNode) bool { return hasAll(n.labels, m) && match(n.props, p) })
			s := NewStringSet()
			for i, l := range vEdgeLabels {
				if m&(1<<i) != 0 {
					s.Add(l)
				}
			}
			if len(p) > 0 && !strings.Contains(fmt.Sprint(p), "none") {
				// a property that is asked for with no value does not relax the others
				q := map[string]any{"none": nil}
				for k, v := range p {
					q[k] = v
				}
				for _, n := range w.drainN(w.g.FindNodes(vset(m), q), "FindNodes") {
					for _, x := range w.nodes {
						vmust(x.n != n || match(x.props, p) && hasAll(x.labels, m), "find-nodes", "FindNodes(%v,%v) yields %s, which does not match", vset(m), q, x.name)
					}
				}
				for _, n := range w.drainE(w.g.FindEdges(s, q), "FindEdges") {
					for _, x := range w.edges {
						vmust(x.e != n || match(x.props, p) && (m == 0 || s.Has(x.label)), "find-edges", "FindEdges(%v,%v) yields %s, which does not match", s, q, x.name)
					}
				}
			}
			what = fmt.Sprintf("FindEdges(%v,%v)", s, p)
			w.sameE("find-edges", what, w.drainE(w.g.FindEdges(s, p), what), func(n *mEdge) int { return b2i((m == 0 || s.Has(n.label)) && match(n.props, p)) })
		}
	}
}

func (w *mWorld) checkC18() {
	w.sameN("sources", "Sources", Sources(w.g), func(n *mNode) bool {
		for _, e := range w.edges {
			if e.alive && e.to == n {
				return false
			}
		}
		return true
	})
	w.sameN("sinks", "Sinks", Sinks(w.g), func(n *mNode) bool {
		for _, e := range w.edges {
			if e.alive && e.from == n {
				return false
			}
		}
		return true
	})
	w.sameN("sources", "SourcesItr", w.drainN(SourcesItr(w.g), "SourcesItr"), func(n *mNode) bool {
		for _, e := range w.edges {
			if e.alive && e.to == n {
				return false
			}
		}
		return true
	})
	for _, a := range w.liveNodes() {
		a := a
		reach := func(d EdgeDir, label string) func(*mNode) bool {
			return func(n *mNode) bool {
				for _, e := range w.edges {
					if e.alive && (label == "" || e.label == label) {
						if d != IncomingEdge && e.from == a && e.to == n {
							return true
						}
						if d != OutgoingEdge && e.to == a && e.from == n {
							return true
						}
					}
				}
				return false
			}
		}
		for _, b := range w.liveNodes() {
			b := b
			w.sameE("between", fmt.Sprintf("EdgesBetweenNodes(%s,%s)", a.name, b.name), EdgesBetweenNodes(a.n, b.n), func(e *mEdge) int { return b2i(e.from == a && e.to == b) })
		}
		c := (&Cursor{}).Set(a.n)
		for _, d := range []EdgeDir{IncomingEdge, OutgoingEdge, AnyEdge} {
			what := fmt.Sprintf("Cursor(%s).Nodes(%d)", a.name, d)
			w.sameN("cursor-nodes", what, w.drainN(c.Nodes(d), what), reach(d, ""))
			what = fmt.Sprintf("Cursor(%s).Edges(%d)", a.name, d)
			w.sameE("cursor-edges", what, w.drainE(c.Edges(d), what), func(e *mEdge) int { return b2i(d != IncomingEdge && e.from == a) + b2i(d != OutgoingEdge && e.to == a) })
			for _, l := range []string{"x", "y", "none"} {
				what := fmt.Sprintf("Cursor(%s).NodesWith(%d,%s)", a.name, d, l)
				w.sameN("cursor-nodes", what, w.drainN(c.NodesWith(d, l), what), reach(d, l))
				what = fmt.Sprintf("Cursor(%s).EdgesWith(%d,%s)", a.name, d, l)
				w.sameE("cursor-edges", what, w.drainE(c.EdgesWith(d, l), what), func(e *mEdge) int {
					return b2i(e.label == l) * (b2i(d != IncomingEdge && e.from == a) + b2i(d != OutgoingEdge && e.to == a))
				})
			}
		}
		w.sameN("cursor-nodes", "NextNodes of "+a.name, w.drainN(c.NextNodes(), "NextNodes"), reach(OutgoingEdge, ""))
		w.sameN("cursor-nodes", "PrevNodes of "+a.name, w.drainN(c.PrevNodes(), "PrevNodes"), reach(IncomingEdge, ""))
		w.sameE("cursor-edges", "Forward of "+a.name, w.drainE(c.Forward(), "Forward"), func(e *mEdge) int { return b2i(e.from == a) })
		w.sameE("cursor-edges", "Backward of "+a.name, w.drainE(c.Backward(), "Backward"), func(e *mEdge) int { return b2i(e.to == a) })
		for _, l := range []string{"x", "y", "none"} {
			w.sameN("next-with", "NextNodesWith("+a.name+","+l+")", NextNodesWith(a.n, l), reach(OutgoingEdge, l))
			w.sameN("prev-with", "PrevNodesWith("+a.name+","+l+")", PrevNodesWith(a.n, l), reach(IncomingEdge, l))
			w.sameN("cursor-nodes", "Cursor.NextNodesWith", w.drainN(c.NextNodesWith(l), "NextNodesWith"), reach(OutgoingEdge, l))
			w.sameN("cursor-nodes", "Cursor.PrevNodesWith", w.drainN(c.PrevNodesWith(l), "PrevNodesWith"), reach(IncomingEdge, l))
			w.sameE("cursor-edges", "ForwardWith", w.drainE(c.ForwardWith(l), "ForwardWith"), func(e *mEdge) int { return b2i(e.from == a && e.label == l) })
			w.sameE("cursor-edges", "BackwardWith", w.drainE(c.BackwardWith(l), "BackwardWith"), func(e *mEdge) int { return b2i(e.to == a && e.label == l) })
		}
	}
	for i, a := range w.liveNodes() {
		c := (&Cursor{}).Set(a.n).StartPath()
		at, seq := a.n, []*Node{a.n}
		for k := 0; k < 3; k++ {
			out := EdgeSlice(at.GetEdges(OutgoingEdge))
			if len(out) == 0 {
				break
			}
			e := out[(i+k)%len(out)]
			c.PushToPath(e)
			at = e.GetTo()
			seq = append(seq, at)
		}
		for k := len(seq) - 1; k >= 0; k-- {
			vmust(c.node == seq[k], "cursor-path", "the cursor walking from %s is at the wrong node after %d of %d steps back", a.name, len(seq)-1-k, len(seq)-1)
			vmust(c.GetPath().NumNodes() == k+1 && c.GetPath().First() == seq[0] && c.GetPath().Last() == seq[k], "cursor-path", "the path of the cursor walking from %s is wrong after %d of %d steps back", a.name, len(seq)-1-k, len(seq)-1)
			if k > 0 {
				c.PopFromPath()
			}
		}
	}
	var none Cursor
	vmust(!none.Nodes(AnyEdge).Next() && !none.Edges(OutgoingEdge).Next() && !none.NodesWith(AnyEdge, "x").Next() && !none.EdgesWith(IncomingEdge, "x").Next(), "no-node", "a cursor without node yields something")
}

var vOpSets = map[string][]string{
	"structure": {"node", "fnode", "edge", "edge", "edge", "fedge", "edge", "rmedge", "rmedge", "label", "label", "detach", "rmnode", "copynode", "copyedge", "bystander"},
	"labels":    {"node", "fnode", "labels", "labels", "labels", "rmnode", "copynode", "edge", "detach"},
	"props":     {"node", "fnode", "node", "edge", "edge", "fedge", "nprop", "nprop", "rmnprop", "eprop", "eprop", "rmeprop", "nindex", "eindex", "rmedge", "rmnode", "detach", "copynode", "copyedge", "label", "labels"},
}

func genOps(h *vhunt, set string, n int) []gop {
	ks := vOpSets[set]
	var ops []gop
	for i, m := 0, 1+h.rnd.Intn(4); i < m; i++ {
		ops = append(ops, gop{k: "node", a: h.rnd.Intn(8), b: h.rnd.Intn(64)})
	}
	dense := h.rnd.Intn(3) == 0
	for len(ops) < n {
		k := ks[h.rnd.Intn(len(ks))]
		if dense && h.rnd.Intn(2) == 0 {
			k = "edge"
		}
		ops = append(ops, gop{k: k, a: h.rnd.Intn(8), b: h.rnd.Intn(64), c: h.rnd.Intn(192)})
	}
	return ops
}

// vgraphHunt runs histories and checks after every step of short ones, and at the end of long ones.
func vgraphHunt(t *testing.T, prop, set string, count, maxLen int, nm bool, checks ...func(*mWorld)) {
	h := newHunt(fmt.Sprintf("operation histories (%s) of length up to %d on up to 8 nodes, 3 node labels, 3 edge labels, 3 properties, against a reference model; non-trivial: more than one operation", set, maxLen))
	run := func(ops []gop) {
		w := newWorld()
		if nm {
			w.nm = NewNodeMap()
		}
		for i, o := range ops {
			w.apply(o)
			if len(ops) <= 24 || i == len(ops)-1 || i%8 == 7 {
				for _, c := range checks {
					c(w)
				}
			}
		}
	}
	// short histories exhaustively: two nodes, then every sequence of 3 from a small alphabet
	var alpha []gop
	done := map[string]bool{}
	for _, k := range vOpSets[set] {
		if done[k] {
			continue
		}
		done[k] = true
		switch k {
		case "edge":
			alpha = append(alpha, gop{k, 0, 1, 3, nil}, gop{k, 0, 0, 4, nil}, gop{k, 1, 0, 30, nil})
		case "label":
			alpha = append(alpha, gop{k, 0, 1, 0, nil}, gop{k, 1, 0, 0, nil})
		case "rmedge", "detach", "rmnode":
			alpha = append(alpha, gop{k, 0, 0, 0, nil}, gop{k, 1, 0, 0, nil})
		case "labels":
			alpha = append(alpha, gop{k, 0, 0, 0, nil}, gop{k, 1, 3, 0, nil}, gop{k, 0, 6, 0, nil})
		case "nprop", "eprop":
			alpha = append(alpha, gop{k, 0, 0, 1, nil}, gop{k, 0, 0, 2, nil})
		case "nindex", "eindex":
			alpha = append(alpha, gop{k, 0, 0, 0, nil}, gop{k, 0, 1, 0, nil})
		case "fnode", "fedge", "bystander":
		default:
			alpha = append(alpha, gop{k, 0, 0, 0, nil})
		}
	}
	pre := []gop{{"node", 1, 1, 0, nil}, {"node", 3, 9, 0, nil}}
	for _, a := range alpha {
		for _, b := range alpha {
			for _, c := range alpha {
				if h.over() {
					break
				}
				if len(alpha) > 16 && h.rnd.Intn(10) != 0 && !h.thorough {
					continue // a tenth of them
				}
				vseq(h, append(append([]gop{}, pre...), a, b, c), showOps, run)
			}
		}
	}
	for i := 0; i < h.n(count) && !h.over(); i++ {
		n := 4 + h.rnd.Intn(20)
		if i%4 == 3 {
			n = 8 + h.rnd.Intn(maxLen-8)
		}
		vseq(h, genOps(h, set, n), showOps, run)
	}
	vdone(t, h)
}
