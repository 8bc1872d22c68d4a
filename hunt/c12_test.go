package lpg

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
)

func cloneVal(k string, v any) any {
	switch x := v.(type) {
	case int:
		return x + 100
	case string:
		return k + x
	case []int:
		return append([]int{7}, x...)
	}
	return v
}

func cloneProps(m map[string]any) map[string]any {
	r := map[string]any{}
	for k, v := range m {
		r[k] = cloneVal(k, v)
	}
	return r
}

func wantProps(m map[string]any) string { return vjson(cloneProps(m)) }

func checkCopies(what string, target *Graph, nodeMap map[*Node]*Node, srcN []*Node, srcE []*Edge, oldN map[*Node]bool, oldE map[*Edge]bool) {
	vmust(len(nodeMap) == len(srcN), "correspondence", "%s: the correspondence has %d entries for %d nodes", what, len(nodeMap), len(srcN))
	seen := map[*Node]bool{}
	tn := map[*Node]bool{}
	for it := target.GetNodes(); it.Next(); {
		vmust(!tn[it.Node()], "copies", "%s: a node is listed twice", what)
		tn[it.Node()] = true
	}
	for _, n := range srcN {
		c := nodeMap[n]
		vmust(c != nil, "correspondence", "%s: a node has no copy", what)
		vmust(c != n && tn[c] && !oldN[c] && !seen[c], "correspondence", "%s: the copy of a node is no new node of the target", what)
		seen[c] = true
		vmust(c.GetGraph() == target, "copies", "%s: a copy belongs to another graph", what)
		vmust(vlabels(c.labels) == vlabels(n.labels), "labels", "%s: the labels of a copy are [%s], want [%s]", what, vlabels(c.labels), vlabels(n.labels))
		vmust(vjson(c.properties) == wantProps(n.properties), "properties", "%s: the properties of a copy are %s, want %s", what, vjson(c.properties), wantProps(n.properties))
		for _, l := range n.labels.Slice() {
			found := 0
			for it := target.GetNodesWithAllLabels(NewStringSet(l)); it.Next(); {
				if it.Node() == c {
					found++
				}
			}
			vmust(found == 1, "labels", "%s: a copy is found %d times by label %s", what, found, l)
		}
		for k, v := range n.properties {
			found := 0
			for it := target.FindNodes(NewStringSet(), map[string]any{k: cloneVal(k, v)}); it.Next(); {
				if it.Node() == c {
					found++
				}
			}
			vmust(found == 1, "properties", "%s: a copy is found %d times by property %s", what, found, k)
		}
	}
	vmust(len(tn) == len(oldN)+len(srcN) && target.NumNodes() == len(tn), "copies", "%s: the target has %d nodes, want %d", what, len(tn), len(oldN)+len(srcN))
	sig := func(f, t *Node, l, p string) string { return fmt.Sprintf("%p-%s->%p %s", f, l, t, p) }
	var want, got []string
	for _, e := range srcE {
		want = append(want, sig(nodeMap[e.from], nodeMap[e.to], e.label, wantProps(e.properties)))
	}
	ne := 0
	for it := target.GetEdges(); it.Next(); {
		e := it.Edge()
		ne++
		if !oldE[e] {
			got = append(got, sig(e.from, e.to, e.label, vjson(e.properties)))
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	vmust(reflect.DeepEqual(want, got) || len(want)+len(got) == 0, "edges", "%s: the copied edges are\n%s\nwant\n%s", what, strings.Join(got, "\n"), strings.Join(want, "\n"))
	vmust(target.NumEdges() == ne && ne == len(oldE)+len(srcE), "edges", "%s: the target has %d edges, want %d", what, ne, len(oldE)+len(srcE))
	for _, e := range srcE {
		out := 0
		for it := nodeMap[e.from].GetEdgesWithLabel(OutgoingEdge, e.label); it.Next(); {
			if it.Edge().to == nodeMap[e.to] {
				out++
			}
		}
		vmust(out > 0, "edges", "%s: a copied edge is not listed by the copy of its source", what)
	}
}

func churn(h *vhunt, ops []int, g *Graph) {
	for _, o := range ops {
		ns := NodeSlice(g.GetNodes())
		es := EdgeSlice(g.GetEdges())
		if len(ns) == 0 {
			return
		}
		n := ns[o/16%len(ns)]
		switch o % 8 {
		case 0:
			n.SetLabels(vset(o / 16))
		case 1:
			n.SetProperty("p", 500+o)
		case 2:
			n.RemoveProperty("q")
		case 3:
			n.DetachAndRemove()
		case 4:
			if len(es) > 0 {
				es[o/16%len(es)].Remove()
			}
		case 5:
			if len(es) > 0 {
				es[o/16%len(es)].SetLabel("churn")
			}
		case 6:
			if len(es) > 0 {
				es[o/16%len(es)].SetProperty("p", 900+o)
				es[o/16%len(es)].RemoveProperty("q")
			}
		case 7:
			g.NewEdge(n, ns[o/64%len(ns)], "x", nil)
		}
	}
}

func TestVerifC12(t *testing.T) {
	h := newHunt("random source graphs of at most 5 nodes and 6 edges with removal histories, copied into random target graphs with and without indexes by CopyGraph, CopySubgraph, CopyNode, CopyEdge and CloneEdge, followed by random changes to either graph; non-trivial: at least one edge")
	for i := 0; i < h.n(12000) && !h.over(); i++ {
		d, td := h.smallGraph(5, 6, true, true), h.smallGraph(2, 2, true, true)
		ix := h.rnd.Intn(16)
		mode := h.rnd.Intn(4)
		start := h.rnd.Intn(5)
		var ops []int
		for j := 0; j < 6; j++ {
			ops = append(ops, h.rnd.Intn(1024))
		}
		modes := []string{"CopyGraph", "CopySubgraph", "CopyNode+CopyEdge", "CopyGraphf"}
		h.check(fmt.Sprintf("%s of %s into %s indexes=%d start=%d then %v", modes[mode], d, td, ix, start, ops), len(d.es) > 0, func() {
			src, target := NewGraph(), NewGraph()
			if ix&1 != 0 {
				target.AddNodePropertyIndex("p", BtreeIndex)
				target.AddNodePropertyIndex("q", HashIndex)
			}
			if ix&2 != 0 {
				target.AddEdgePropertyIndex("p", HashIndex)
				target.AddEdgePropertyIndex("q", BtreeIndex)
			}
			if ix&4 != 0 {
				src.AddNodePropertyIndex("p", HashIndex)
			}
			sn, se := d.build(src)
			tn, te := td.build(target)
			sn, se, tn, te = liveN(sn), liveE(se), liveN(tn), liveE(te)
			oldN, oldE := map[*Node]bool{}, map[*Edge]bool{}
			for _, n := range tn {
				oldN[n] = true
			}
			for _, e := range te {
				oldE[e] = true
			}
			before := snapshot(src)
			var m map[*Node]*Node
			copied, copiedE := sn, se
			switch mode {
			case 0:
				m = CopyGraph(src, target, cloneVal)
			case 1:
				if len(sn) == 0 {
					return
				}
				m = map[*Node]*Node{}
				CopySubgraph(sn[start%len(sn)], target, cloneVal, m)
				reach := map[*Node]bool{sn[start%len(sn)]: true}
				for k := 0; k < len(sn); k++ {
					for _, e := range se {
						if reach[e.from] {
							reach[e.to] = true
						}
					}
				}
				copied, copiedE = nil, nil
				for _, n := range sn {
					if reach[n] {
						copied = append(copied, n)
					}
				}
				for _, e := range se {
					if reach[e.from] {
						copiedE = append(copiedE, e)
					}
				}
			case 2:
				m = map[*Node]*Node{}
				for _, n := range sn {
					m[n] = CopyNode(n, target, cloneVal)
				}
				for k, e := range se {
					var c *Edge
					if k%2 == 0 {
						c = CopyEdge(e, target, cloneVal, m)
					} else {
						c = CloneEdge(m[e.from], m[e.to], e, target, cloneVal)
					}
					vmust(vpanics(func() { CloneEdge(e.from, m[e.to], e, target, cloneVal) }) && vpanics(func() { CloneEdge(m[e.from], e.to, e, target, cloneVal) }), "foreign", "CloneEdge accepts an end outside the target graph")
					vmust(c != nil && c.from == m[e.from] && c.to == m[e.to] && c.label == e.label, "edges", "the result of %s is not the copy", modes[mode])
				}
			case 3:
				skip := func(n *Node) bool { return n.labels.Has("A") && start%2 == 0 }
				m = CopyGraphf(src, func(n *Node, _ map[*Node]*Node) *Node {
					if skip(n) {
						return nil
					}
					return target.NewNode(n.labels.Slice(), cloneProps(n.properties))
				}, func(e *Edge, nm map[*Node]*Node) *Edge {
					return target.NewEdge(nm[e.from], nm[e.to], e.label, cloneProps(e.properties))
				})
				copied, copiedE = nil, nil
				for _, n := range sn {
					if !skip(n) {
						copied = append(copied, n)
					}
				}
				for _, e := range se {
					if !skip(e.from) && !skip(e.to) {
						copiedE = append(copiedE, e)
					}
				}
			}
			checkCopies(modes[mode], target, m, copied, copiedE, oldN, oldE)
			s := snapshot(src)
			vmust(s == before, "source-changed", "%s changes the source: %s", modes[mode], snapDiff(before, s))
			churn(h, ops[:3], target)
			s = snapshot(src)
			vmust(s == before, "not-independent", "a change to the target shows in the source: %s", snapDiff(before, s))
			before = snapshot(target)
			churn(h, ops[3:], src)
			s = snapshot(target)
			vmust(s == before, "not-independent", "a change to the source shows in the target: %s", snapDiff(before, s))
		})
	}
	vdone(t, h)
}
