package lpg

// Random small graphs, described by a value that can be shown and built again.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

type sgNode struct {
	mask, props int
	gone        bool // created and then removed again
	emptied     bool // had a property that was removed
}

type sgEdge struct {
	f, t, label, props int
	gone               bool
	emptied            bool
}

type sg struct {
	ns []sgNode
	es []sgEdge
}

func (h *vhunt) smallGraph(maxN, maxE int, props, history bool) sg {
	var g sg
	n := h.rnd.Intn(maxN + 1)
	for i := 0; i < n; i++ {
		x := sgNode{mask: h.rnd.Intn(8)}
		if h.rnd.Intn(2) == 0 {
			x.mask &= 1
		}
		if props {
			x.props = h.rnd.Intn(64)
		}
		x.gone = history && h.rnd.Intn(6) == 0
		if history && h.rnd.Intn(4) == 0 {
			x.props, x.emptied = 0, true
		}
		g.ns = append(g.ns, x)
	}
	if n > 0 {
		for i, m := 0, h.rnd.Intn(maxE+1); i < m; i++ {
			e := sgEdge{f: h.rnd.Intn(n), t: h.rnd.Intn(n), label: h.rnd.Intn(2)}
			if props {
				e.props = h.rnd.Intn(64)
			}
			e.gone = history && h.rnd.Intn(6) == 0
			if history && h.rnd.Intn(4) == 0 {
				e.props, e.emptied = 0, true
			}
			g.es = append(g.es, e)
		}
	}
	return g
}

func (g sg) String() string {
	var b []string
	for i, n := range g.ns {
		s := fmt.Sprintf("n%d:%s%s", i, maskStr(n.mask), propStr(n.props))
		if n.emptied {
			s += "(property removed)"
		}
		if n.gone {
			s += "(removed)"
		}
		b = append(b, s)
	}
	for _, e := range g.es {
		s := fmt.Sprintf("n%d-%s%s->n%d", e.f, vEdgeLabels[e.label], propStr(e.props), e.t)
		if e.emptied {
			s += "(property removed)"
		}
		if e.gone {
			s += "(removed)"
		}
		b = append(b, s)
	}
	return "{" + strings.Join(b, " ") + "}"
}

func maskStr(m int) string {
	s := ""
	for i, l := range vLabels {
		if m&(1<<i) != 0 {
			s += l
		}
	}
	return s
}

func propStr(c int) string {
	p := vprops(c)
	if len(p) == 0 {
		return ""
	}
	d, _ := json.Marshal(p)
	return string(d)
}

// build creates the graph; removed nodes and edges are nil in the result.
func (g sg) build(to *Graph) ([]*Node, []*Edge) {
	var ns []*Node
	var es []*Edge
	for _, n := range g.ns {
		ns = append(ns, to.NewNode(vset(n.mask).Slice(), vprops(n.props)))
	}
	for _, e := range g.es {
		es = append(es, to.NewEdge(ns[e.f], ns[e.t], vEdgeLabels[e.label], vprops(e.props)))
	}
	for i, n := range g.ns {
		if n.emptied {
			ns[i].SetProperty("p", 1)
			ns[i].RemoveProperty("p")
		}
	}
	for i, e := range g.es {
		if e.emptied {
			es[i].SetProperty("p", 1)
			es[i].RemoveProperty("p")
		}
		if e.gone {
			es[i].Remove()
			es[i] = nil
		}
	}
	for i, n := range g.ns {
		if n.gone {
			for j, e := range g.es {
				if e.f == i || e.t == i {
					es[j] = nil
				}
			}
			ns[i].DetachAndRemove()
			ns[i] = nil
		}
	}
	return ns, es
}

func liveN(l []*Node) (r []*Node) {
	for _, n := range l {
		if n != nil {
			r = append(r, n)
		}
	}
	return
}

func liveE(l []*Edge) (r []*Edge) {
	for _, n := range l {
		if n != nil {
			r = append(r, n)
		}
	}
	return
}

func vlabels(s StringSet) string {
	l := s.Slice()
	sort.Strings(l)
	return strings.Join(l, ",")
}

func vjson(m map[string]any) string {
	if len(m) == 0 {
		return "{}"
	}
	d, err := json.Marshal(m)
	if err != nil {
		return err.Error()
	}
	return string(d)
}

// snapshot describes a whole graph through its listings; nodes and edges are named by identity.
func snapshot(g *Graph) string {
	var b []string
	names := map[*Node]string{}
	i := 0
	for it := g.GetNodes(); it.Next(); {
		n := it.Node()
		names[n] = fmt.Sprintf("%p", n)
		b = append(b, fmt.Sprintf("%p id=%d %s %s", n, n.id, vlabels(n.labels), vjson(n.properties)))
		if i++; i > 10000 {
			vmust(false, "endless", "GetNodes does not end")
		}
	}
	for it := g.GetEdges(); it.Next(); {
		e := it.Edge()
		b = append(b, fmt.Sprintf("%p id=%d %s-%s->%s %s", e, e.id, names[e.from], e.label, names[e.to], vjson(e.properties)))
		if i++; i > 10000 {
			vmust(false, "endless", "GetEdges does not end")
		}
	}
	for n := range names {
		_ = n
	}
	for it := g.GetNodes(); it.Next(); {
		n := it.Node()
		for x := n.GetEdges(OutgoingEdge); x.Next(); {
			b = append(b, fmt.Sprintf("%p out %p", n, x.Edge()))
		}
		for x := n.GetEdges(IncomingEdge); x.Next(); {
			b = append(b, fmt.Sprintf("%p in %p", n, x.Edge()))
		}
	}
	for _, l := range vLabels {
		for it := g.GetNodesWithAllLabels(NewStringSet(l)); it.Next(); {
			b = append(b, fmt.Sprintf("label %s %p", l, it.Node()))
		}
	}
	sort.Strings(b)
	return strings.Join(b, "\n")
}

func snapDiff(a, b string) string {
	in := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for _, x := range la {
		if !in(lb, x) {
			return "lost: " + x
		}
	}
	for _, x := range lb {
		if !in(la, x) {
			return "new: " + x
		}
	}
	return "multiplicities differ"
}

// perms calls f with every permutation of 0..n-1 until it returns true.
func perms(n int, f func([]int) bool) bool {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(int) bool
	rec = func(i int) bool {
		if i == n {
			return f(p)
		}
		for x := 0; x < n; x++ {
			if !used[x] {
				used[x] = true
				p[i] = x
				if rec(i + 1) {
					return true
				}
				used[x] = false
			}
		}
		return false
	}
	return rec(0)
}

// isoBy decides isomorphism by brute force over signatures.
func isoBy(n1, n2 []*Node, e1, e2 []*Edge, ns func(*Node) string, es func(*Edge) string) bool {
	if len(n1) != len(n2) || len(e1) != len(e2) {
		return false
	}
	s1, s2 := make([]string, len(n1)), make([]string, len(n2))
	ix2 := map[*Node]int{}
	ix1 := map[*Node]int{}
	for i := range n1 {
		s1[i], s2[i] = ns(n1[i]), ns(n2[i])
		ix1[n1[i]], ix2[n2[i]] = i, i
	}
	type key struct {
		f, t int
		s    string
	}
	m2 := map[key]int{}
	for _, e := range e2 {
		m2[key{ix2[e.from], ix2[e.to], es(e)}]++
	}
	k1 := make([]key, len(e1))
	for i, e := range e1 {
		k1[i] = key{ix1[e.from], ix1[e.to], es(e)}
	}
	return perms(len(n1), func(p []int) bool {
		for i := range p {
			if s1[i] != s2[p[i]] {
				return false
			}
		}
		m := map[key]int{}
		for _, k := range k1 {
			m[key{p[k.f], p[k.t], k.s}]++
		}
		for k, c := range m {
			if m2[k] != c {
				return false
			}
		}
		return true
	})
}
