package lpg

import (
	"context"
	"fmt"
	"testing"
	"time"
)

func TestVerifC13(t *testing.T) {
	h := newHunt("pairs of graphs of at most 4 nodes and 6 edges (a random relabelling of the first, mostly with one edge end, one label or one multiplicity changed), equivalence by label or by anything, against all node permutations and edge multisets; cancellation before, at every callback, and by a deadline on a search of 10^10 steps; non-trivial: at least one edge")
	for i := 0; i < h.n(20000) && !h.over(); i++ {
		a := h.smallGraph(4, 6, false, true)
		b := sg{ns: make([]sgNode, len(a.ns))}
		p := h.rnd.Perm(len(a.ns))
		for k, n := range a.ns {
			b.ns[p[k]] = n
		}
		for _, k := range h.rnd.Perm(len(a.es)) {
			e := a.es[k]
			b.es = append(b.es, sgEdge{f: p[e.f], t: p[e.t], label: e.label, gone: e.gone})
		}
		for x := h.rnd.Intn(3); x > 0 && len(b.es) > 0; x-- {
			e := &b.es[h.rnd.Intn(len(b.es))]
			switch h.rnd.Intn(5) {
			case 0:
				e.f = h.rnd.Intn(len(b.ns))
			case 1:
				e.t = h.rnd.Intn(len(b.ns))
			case 2:
				e.label = h.rnd.Intn(2)
			case 3:
				*e = b.es[h.rnd.Intn(len(b.es))]
			case 4:
				b.ns[h.rnd.Intn(len(b.ns))].mask = h.rnd.Intn(8)
			}
		}
		switch h.rnd.Intn(12) {
		case 0:
			a.ns = append(a.ns, sgNode{mask: h.rnd.Intn(8)})
		case 1:
			b.ns = append(b.ns, sgNode{mask: h.rnd.Intn(8)})
		}
		byN, byE, cancel := h.rnd.Intn(3) > 0, h.rnd.Intn(3) > 0, -2
		if h.rnd.Intn(4) == 0 {
			cancel = h.rnd.Intn(12) - 1
		}
		h.check(fmt.Sprintf("%s and %s, nodes by label=%v, edges by label=%v, cancelled at call %d", a, b, byN, byE, cancel), len(a.es) > 0, func() {
			g1, g2 := NewGraph(), NewGraph()
			n1, e1 := a.build(g1)
			n2, e2 := b.build(g2)
			ns := func(n *Node) string {
				if byN {
					return vlabels(n.labels)
				}
				return ""
			}
			es := func(e *Edge) string {
				if byE {
					return e.label
				}
				return ""
			}
			want := isoBy(liveN(n1), liveN(n2), liveE(e1), liveE(e2), ns, es)
			ctx, stop := context.WithCancel(context.Background())
			defer stop()
			calls := 0
			tick := func() {
				if cancel >= 0 && calls >= cancel {
					stop()
				}
				calls++
			}
			if cancel == -1 {
				stop()
			}
			got, err := CheckIsomorphism(ctx, g1, g2, func(x, y *Node) bool { tick(); return ns(x) == ns(y) }, func(x, y *Edge) bool { tick(); return es(x) == es(y) })
			if err != nil {
				vmust(cancel > -2 && err == ctx.Err(), "error", "the error is %v", err)
				return
			}
			vmust(got == want, "wrong-answer", "the answer is %v", got)
		})
	}
	// a search that would take 10^10 steps ends when its context does
	for _, mode := range []string{"before", "last node callback", "first edge callback", "deadline"} {
		h.check("two cycles of 5 nodes and one cycle of 10 nodes, any node and edge equivalent, cancelled: "+mode, true, func() {
			g1, g2 := NewGraph(), NewGraph()
			var a, b []*Node
			for i := 0; i < 10; i++ {
				a, b = append(a, g1.NewNode(nil, nil)), append(b, g2.NewNode(nil, nil))
			}
			for i := 0; i < 10; i++ {
				g1.NewEdge(a[i], a[(i+1)%10], "x", nil)
				g2.NewEdge(b[i], b[i/5*5+(i+1)%5], "x", nil)
			}
			ctx, stop := context.WithCancel(context.Background())
			if mode == "deadline" {
				ctx, stop = context.WithTimeout(context.Background(), 50*time.Millisecond)
			}
			defer stop()
			if mode == "before" {
				stop()
			}
			calls := 0
			got, err := CheckIsomorphism(ctx, g1, g2, func(x, y *Node) bool {
				if calls++; calls == 100 && mode == "last node callback" {
					stop()
				}
				return true
			}, func(x, y *Edge) bool {
				if mode == "first edge callback" {
					stop()
				}
				return true
			})
			vmust(!got && (err == nil || err == ctx.Err()), "error", "the result is %v, %v", got, err)
			vmust(err != nil || mode != "before", "error", "the result is %v, %v", got, err)
		})
	}
	vdone(t, h)
}
