package lpg

import (
	"fmt"
	"strings"
	"testing"
)

type sop struct{ k, i int }

func showSops(ops []sop) string {
	var b []string
	for _, o := range ops {
		b = append(b, fmt.Sprintf("%s(%d)", []string{"add", "remove", "iterate"}[o.k], o.i))
	}
	return strings.Join(b, "; ")
}

func runSops(ops []sop) {
	g := NewGraph()
	var ns []*Node
	var es []*Edge
	for i := 0; i < 5; i++ {
		ns = append(ns, g.NewNode(nil, nil))
	}
	for i := 0; i < 5; i++ {
		es = append(es, g.NewEdge(ns[i], ns[(i*2)%5], "e", nil))
	}
	N, E := NewNodeSet(), NewEdgeSet()
	m := map[int]bool{}
	for _, o := range ops {
		switch o.k {
		case 0:
			N.Add(ns[o.i])
			E.Add(es[o.i])
			m[o.i] = true
		case 1:
			N.Remove(ns[o.i])
			E.Remove(es[o.i])
			delete(m, o.i)
		}
		vmust(N.Len() == len(m), "size", "NodeSet.Len is %d, want %d", N.Len(), len(m))
		vmust(E.Len() == len(m), "size", "EdgeSet.Len is %d, want %d", E.Len(), len(m))
		sn, se := N.Slice(), E.Slice()
		cn, ce := map[*Node]int{}, map[*Edge]int{}
		for _, x := range sn {
			cn[x]++
		}
		for _, x := range se {
			ce[x]++
		}
		in, ie := N.Iterator(), E.Iterator()
		hn, he := in.MaxSize(), ie.MaxSize()
		vmust((hn == -1 || hn >= len(m)) && (he == -1 || he >= len(m)), "size-hint", "MaxSize %d %d for %d members", hn, he, len(m))
		for in.Next() {
			cn[in.Node()] += 10
		}
		for ie.Next() {
			ce[ie.Edge()] += 10
		}
		vmust(!in.Next() && !ie.Next(), "not-exhausted", "an exhausted iterator continues")
		for i := range ns {
			w := 0
			if m[i] {
				w = 11
			}
			vmust(cn[ns[i]] == w, "members", "node %d: slice and iterator count %d, want %d", i, cn[ns[i]], w)
			vmust(ce[es[i]] == w, "members", "edge %d: slice and iterator count %d, want %d", i, ce[es[i]], w)
			vmust(N.Has(ns[i]) == m[i], "has", "Has(%d) is %v", i, N.Has(ns[i]))
		}
		vmust(len(sn) == len(m) && len(se) == len(m), "members", "slices of %d and %d for %d members", len(sn), len(se), len(m))
	}
}

func TestVerifC16(t *testing.T) {
	h := newHunt("all add/remove histories of length 6 over 2 members, random ones of length up to 40 over 5 members, for node and edge sets; non-trivial: more than one operation")
	var rec func(ops []sop, n int)
	rec = func(ops []sop, n int) {
		if n == 0 {
			vseq(h, ops, showSops, runSops)
			return
		}
		for k := 0; k < 4; k++ {
			rec(append(append([]sop{}, ops...), sop{k & 1, k / 2}), n-1)
		}
	}
	rec(nil, 6)
	for i := 0; i < h.n(6000) && !h.over(); i++ {
		var ops []sop
		for j, n := 0, 1+h.rnd.Intn(40); j < n; j++ {
			ops = append(ops, sop{h.rnd.Intn(2), h.rnd.Intn(5)})
		}
		vseq(h, ops, showSops, runSops)
	}
	vdone(t, h)
}
