package lpg

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

// baseItr yields a fixed list; hint is its size hint.
type baseItr struct {
	l    []any
	i    int
	hint int
}

func (b *baseItr) Next() bool {
	if b.i < len(b.l) {
		b.i++
		return true
	}
	b.i = len(b.l) + 1
	return false
}
func (b *baseItr) Value() any   { return b.l[b.i-1] }
func (b *baseItr) MaxSize() int { return b.hint }

// expr is a combination of adapters with its meaning.
func genItr(h *vhunt, d int) (mk func() Iterator, want []any, desc string) {
	k := h.rnd.Intn(7)
	if d == 0 || k == 0 {
		var l []any
		for i := h.rnd.Intn(6); i > 0; i-- {
			l = append(l, h.rnd.Intn(4))
		}
		hint := len(l)
		if h.rnd.Intn(3) == 0 {
			hint = -1
		}
		if h.rnd.Intn(5) == 0 {
			return func() Iterator { return emptyIterator{} }, nil, "empty"
		}
		return func() Iterator { return &baseItr{l: l, hint: hint} }, l, fmt.Sprintf("%v/%d", l, hint)
	}
	in, w, s := genItr(h, d-1)
	switch k {
	case 1:
		m := 1 + h.rnd.Intn(3)
		var r []any
		for _, x := range w {
			if x.(int)%m == 0 {
				r = append(r, x)
			}
		}
		return func() Iterator { return &filterIterator{itr: in(), filter: func(x any) bool { return x.(int)%m == 0 }} }, r, fmt.Sprintf("filter%d(%s)", m, s)
	case 2:
		var r []any
		for _, x := range w {
			r = append(r, (x.(int)+1)%4)
		}
		return func() Iterator { return &procIterator{itr: in(), proc: func(x any) any { return (x.(int) + 1) % 4 }} }, r, "map(" + s + ")"
	case 3:
		var r []any
		seen := map[any]bool{}
		for _, x := range w {
			if !seen[x] {
				seen[x] = true
				r = append(r, x)
			}
		}
		return func() Iterator { return makeUniqueIterator(in()) }, r, "unique(" + s + ")"
	case 4, 5:
		ins := []func() Iterator{in}
		ss := []string{s}
		r := append([]any{}, w...)
		for i := h.rnd.Intn(3); i > 0; i-- {
			in2, w2, s2 := genItr(h, d-1)
			ins, ss, r = append(ins, in2), append(ss, s2), append(r, w2...)
		}
		if h.rnd.Intn(8) == 0 {
			return func() Iterator { return MultiIterator() }, nil, "concat()"
		}
		return func() Iterator {
			var l []Iterator
			for _, f := range ins {
				l = append(l, f())
			}
			return MultiIterator(l...)
		}, r, "concat(" + strings.Join(ss, ", ") + ")"
	}
	n := len(w) + h.rnd.Intn(2)
	return func() Iterator { return withSize(in(), n) }, w, fmt.Sprintf("resize%d(%s)", n, s)
}

func TestVerifC09(t *testing.T) {
	h := newHunt("random combinations (depth up to 4) of the iterator adapters over lists of up to 5 elements, and the slice and neighbour collectors on random graphs, against list functions; non-trivial: at least one adapter")
	for i := 0; i < h.n(20000) && !h.over(); i++ {
		mk, want, desc := genItr(h, 1+h.rnd.Intn(4))
		extra := h.rnd.Intn(3)
		h.check(desc, strings.Contains(desc, "("), func() {
			it := mk()
			hint := it.MaxSize()
			var got []any
			for it.Next() {
				v := it.Value()
				vmust(fmt.Sprint(v) == fmt.Sprint(it.Value()), "value", "Value changes between calls")
				got = append(got, v)
				vmust(len(got) <= len(want)+20, "endless", "yields more than %d elements", len(want))
			}
			for j := 0; j <= extra; j++ {
				vmust(!it.Next(), "not-exhausted", "Next returns true after the end")
			}
			vmust(fmt.Sprint(got) == fmt.Sprint(append([]any(nil), want...)), "elements", "yields %v, want %v", got, want)
			vmust(hint == -1 || hint >= len(got), "size-hint", "MaxSize %d, but %d elements", hint, len(got))
		})
	}
	for i := 0; i < h.n(1500) && !h.over(); i++ {
		n, m := 1+h.rnd.Intn(4), h.rnd.Intn(8)
		var pr [][3]int
		for j := 0; j < m; j++ {
			pr = append(pr, [3]int{h.rnd.Intn(n), h.rnd.Intn(n), h.rnd.Intn(2)})
		}
		h.check(fmt.Sprintf("graph of %d nodes with edges %v (from, to, label)", n, pr), m > 0, func() {
			g := NewGraph()
			var ns []*Node
			for j := 0; j < n; j++ {
				ns = append(ns, g.NewNode(nil, nil))
			}
			var es []*Edge
			for _, x := range pr {
				es = append(es, g.NewEdge(ns[x[0]], ns[x[1]], fmt.Sprint("l", x[2]), nil))
			}
			ids := func(l []*Node) string {
				var r []int
				for _, x := range l {
					r = append(r, x.GetID())
				}
				sort.Ints(r)
				return fmt.Sprint(r)
			}
			eids := func(l []*Edge) string {
				var r []int
				for _, x := range l {
					r = append(r, x.GetID())
				}
				sort.Ints(r)
				return fmt.Sprint(r)
			}
			vmust(ids(NodeSlice(g.GetNodes())) == ids(ns), "node-slice", "NodeSlice(GetNodes) is %s", ids(NodeSlice(g.GetNodes())))
			vmust(eids(EdgeSlice(g.GetEdges())) == eids(es), "edge-slice", "EdgeSlice(GetEdges) is %s", eids(EdgeSlice(g.GetEdges())))
			skip := len(ns) / 2
			it := g.GetNodes()
			for j := 0; j < skip; j++ {
				it.Next()
			}
			vmust(len(NodeSlice(it)) == n-skip, "node-slice", "NodeSlice of an iterator already advanced")
			var tl, sl []*Node
			st, ss := map[*Node]bool{}, map[*Node]bool{}
			for _, e := range es {
				if !st[e.GetTo()] {
					st[e.GetTo()] = true
					tl = append(tl, e.GetTo())
				}
				if !ss[e.GetFrom()] {
					ss[e.GetFrom()] = true
					sl = append(sl, e.GetFrom())
				}
			}
			vmust(ids(TargetNodes(g.GetEdges())) == ids(tl), "target-nodes", "TargetNodes")
			vmust(ids(SourceNodes(g.GetEdges())) == ids(sl), "source-nodes", "SourceNodes")
			for _, x := range ns {
				for _, d := range []EdgeDir{IncomingEdge, OutgoingEdge, AnyEdge} {
					for _, it := range []EdgeIterator{x.GetEdges(d), x.GetEdgesWithLabel(d, "l0"), x.GetEdgesWithAnyLabel(d, NewStringSet("l0", "l1")), x.GetEdgesWithAnyLabel(d, NewStringSet())} {
						hint := it.MaxSize()
						c := 0
						for it.Next() {
							c++
						}
						vmust(hint == -1 || hint >= c, "size-hint", "edges of a node: MaxSize %d, but %d elements", hint, c)
						vmust(!it.Next(), "not-exhausted", "edges of a node: Next after the end")
					}
				}
			}
		})
	}
	// size hints and exhaustion of every iterator a graph with indexes and a node map hand out
	for i := 0; i < h.n(1500) && !h.over(); i++ {
		d := h.smallGraph(6, 6, true, true)
		ix := h.rnd.Intn(4)
		h.check(fmt.Sprintf("iterators of %s indexes=%d", d, ix), len(d.ns) > 1, func() {
			g := NewGraph()
			for j, k := range vKeys {
				if ix&1 != 0 {
					g.AddNodePropertyIndex(k, IndexType(j%2))
				}
				if ix&2 != 0 {
					g.AddEdgePropertyIndex(k, IndexType((4-j)%3%2))
				}
			}
			ns, es := d.build(g)
			ns, es = liveN(ns), liveE(es)
			nm, nset, eset := NewNodeMap(), NewNodeSet(), NewEdgeSet()
			for _, n := range ns {
				nm.Add(n)
				nset.Add(n)
			}
			for _, e := range es {
				eset.Add(e)
			}
			type it struct {
				what string
				it   Iterator
			}
			its := []it{{"NodeMap.Iterator", nm.Iterator()}, {"NodeSet.Iterator", nset.Iterator()}, {"EdgeSet.Iterator", eset.Iterator()},
				{"GetNodes", g.GetNodes()}, {"GetEdges", g.GetEdges()}, {"SourcesItr", SourcesItr(g)}, {"SinksItr", SinksItr(g)}}
			for m := 1; m < 8; m++ {
				its = append(its, it{"NodeMap.IteratorAllLabels", nm.IteratorAllLabels(vset(m))}, it{"GetNodesWithAllLabels", g.GetNodesWithAllLabels(vset(m))})
			}
			its = append(its, it{"GetEdgesWithAnyLabel", g.GetEdgesWithAnyLabel(NewStringSet(vEdgeLabels...))})
			for _, k := range vKeys {
				its = append(its, it{"GetNodesWithProperty", g.GetNodesWithProperty(k)}, it{"GetEdgesWithProperty", g.GetEdgesWithProperty(k)})
				for c := 0; c < 3; c++ {
					if k == "r" {
						continue // lists cannot be looked up in a hash index
					}
					its = append(its, it{"FindNodes", g.FindNodes(NewStringSet(), map[string]any{k: vval(k, c)})}, it{"FindEdges", g.FindEdges(NewStringSet(), map[string]any{k: vval(k, c)})},
						it{"FindNodes", g.FindNodes(NewStringSet("A"), map[string]any{k: vval(k, c)})}, it{"FindEdges", g.FindEdges(NewStringSet("x", "y"), map[string]any{k: vval(k, c)})})
				}
			}
			for _, n := range ns {
				c := (&Cursor{}).Set(n)
				for _, dir := range []EdgeDir{IncomingEdge, OutgoingEdge, AnyEdge} {
					its = append(its, it{"Cursor.Nodes", c.Nodes(dir)}, it{"Cursor.NodesWith", c.NodesWith(dir, "x")}, it{"GetEdges", n.GetEdges(dir)})
				}
			}
			for _, x := range its {
				hint := x.it.MaxSize()
				c := 0
				for x.it.Next() {
					c++
					vmust(c <= 1000, "endless", "%s does not end", x.what)
				}
				vmust(hint == -1 || hint >= c, "size-hint", "%s: MaxSize %d, but %d elements", x.what, hint, c)
				vmust(!x.it.Next() && !x.it.Next(), "not-exhausted", "%s: Next after the end", x.what)
			}
		})
	}
	vdone(t, h)
}
