package lpg

import (
	"fmt"
	"strings"
	"testing"
)

// vslice1 is set when slicing one node gives an empty path.
var vslice1 string

type pop struct {
	k          string
	p, q, a, b int
	es         []int // edge*2+reverse
}

func showPops(ops []pop) string {
	var b []string
	for _, o := range ops {
		var es []string
		for _, e := range o.es {
			r := ""
			if e&1 == 1 {
				r = "~"
			}
			es = append(es, fmt.Sprintf("%se%d", r, e/2))
		}
		b = append(b, fmt.Sprintf("p%d.%s(p%d %d %d [%s])", o.p, o.k, o.q, o.a, o.b, strings.Join(es, " ")))
	}
	return "edges e0:0->1 e1:1->2 e2:2->0 e3:0->1 e4:1->0 e5:1->1 e6:2->3; " + strings.Join(b, "; ")
}

type mPath struct {
	only *Node
	el   []PathElement
}

func (m mPath) nodes() []*Node {
	if m.only != nil {
		return []*Node{m.only}
	}
	var r []*Node
	for i, e := range m.el {
		f, t := e.Edge.from, e.Edge.to
		if e.Reverse {
			f, t = t, f
		}
		if i == 0 {
			r = append(r, f)
		}
		r = append(r, t)
	}
	return r
}

func vconnected(l []PathElement) bool {
	for i := 1; i < len(l); i++ {
		a, b := l[i-1].Edge.to, l[i].Edge.from
		if l[i-1].Reverse {
			a = l[i-1].Edge.from
		}
		if l[i].Reverse {
			b = l[i].Edge.to
		}
		if a != b {
			return false
		}
	}
	return true
}

func runPops(ops []pop) {
	g := NewGraph()
	var ns []*Node
	for i := 0; i < 4; i++ {
		ns = append(ns, g.NewNode([]string{fmt.Sprint("N", i)}, nil))
	}
	var es []*Edge
	for _, x := range [][2]int{{0, 1}, {1, 2}, {2, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 3}} {
		es = append(es, g.NewEdge(ns[x[0]], ns[x[1]], "e", nil))
	}
	ps := []*Path{{}, {}, {}}
	ms := []mPath{{}, {}, {}}
	same := func(p *Path, m mPath, what string) {
		nn := m.nodes()
		vmust(p.NumNodes() == len(nn), "num-nodes", "%s: NumNodes is %d, want %d", what, p.NumNodes(), len(nn))
		vmust(p.NumEdges() == len(m.el), "num-edges", "%s: NumEdges is %d, want %d", what, p.NumEdges(), len(m.el))
		vmust(p.IsEmpty() == (len(nn) == 0), "is-empty", "%s: IsEmpty is %v", what, p.IsEmpty())
		for i, n := range nn {
			vmust(p.GetNode(i) == n, "get-node", "%s: GetNode(%d)", what, i)
		}
		for i, e := range m.el {
			vmust(p.GetEdge(i) == e.Edge, "get-edge", "%s: GetEdge(%d)", what, i)
		}
		vmust(p.GetEdge(len(m.el)) == nil, "get-edge", "%s: GetEdge past the end", what)
		if len(nn) > 0 {
			vmust(p.First() == nn[0] && p.Last() == nn[len(nn)-1], "ends", "%s: First or Last", what)
		} else {
			vmust(p.First() == nil && p.Last() == nil, "ends", "%s: First or Last of an empty path", what)
		}
		vmust(vconnected(p.path), "disconnected", "%s: the path is not connected", what)
	}
	for _, o := range ops {
		i, j := o.p%3, o.q%3
		p, m := ps[i], ms[i]
		var el []PathElement
		for _, e := range o.es {
			el = append(el, PathElement{es[e/2%len(es)], e&1 == 1})
		}
		switch o.k {
		case "walk":
			// append edges that do connect, chosen when the last node is known
			nn := m.nodes()
			if len(nn) == 0 {
				break
			}
			el = nil
			at := nn[len(nn)-1]
			for x, c := 0, o.b; x < 1+o.a%3; x, c = x+1, c/3+5*x {
				var cand []PathElement
				for _, e := range es {
					if e.from == at {
						cand = append(cand, PathElement{Edge: e})
					}
					if e.to == at {
						cand = append(cand, PathElement{Edge: e, Reverse: true})
					}
				}
				if len(cand) == 0 {
					break
				}
				el = append(el, cand[c%len(cand)])
				at = cand[c%len(cand)].GetTargetNode()
			}
			if len(el) > 0 {
				p.Append(el...)
				ms[i] = mPath{el: append(append([]PathElement{}, m.el...), el...)}
			}
		case "append":
			arg := append([]PathElement{}, el...)
			ok := vconnected(el)
			if nn := m.nodes(); ok && len(el) > 0 && len(nn) > 0 {
				ok = vconnected(append(append([]PathElement{}, m.el...), el...))
				if m.only != nil {
					ok = el[0].GetSourceNode() == m.only
				}
			}
			pan := vpanics(func() { p.Append(arg...) })
			vmust(pan == !ok, "append-panic", "Append: panics=%v, connected=%v", pan, ok)
			for x := range arg {
				vmust(arg[x] == el[x], "argument-changed", "Append changed its argument")
			}
			if ok && len(el) > 0 {
				ms[i] = mPath{el: append(append([]PathElement{}, m.el...), el...)}
				// the caller goes on using its slice
				for x := range arg {
					arg[x].Reverse = !arg[x].Reverse
				}
			}
		case "appendpath":
			mq := ms[j]
			nn, nq := m.nodes(), mq.nodes()
			ok := len(nn) == 0 || len(nq) == 0 || nn[len(nn)-1] == nq[0]
			pan := vpanics(func() { p.AppendPath(ps[j]) })
			vmust(pan == !ok, "append-panic", "AppendPath: panics=%v, connected=%v", pan, ok)
			if ok && len(nq) > 0 {
				if len(nn) == 0 {
					ms[i] = mPath{only: mq.only, el: append([]PathElement{}, mq.el...)}
				} else if len(mq.el) > 0 {
					ms[i] = mPath{el: append(append([]PathElement{}, m.el...), mq.el...)}
				}
			}
		case "removelast":
			p.RemoveLast()
			nn := m.nodes()
			switch {
			case len(nn) <= 1:
				ms[i] = mPath{}
			case len(nn) == 2:
				ms[i] = mPath{only: nn[0]}
			default:
				ms[i] = mPath{el: append([]PathElement{}, m.el[:len(m.el)-1]...)}
			}
		case "removefirst":
			p.RemoveFirst()
			nn := m.nodes()
			switch {
			case len(nn) <= 1:
				ms[i] = mPath{}
			case len(nn) == 2:
				ms[i] = mPath{only: nn[1]}
			default:
				ms[i] = mPath{el: append([]PathElement{}, m.el[1:]...)}
			}
		case "clone":
			ps[j] = p.Clone()
			ms[j] = mPath{m.only, append([]PathElement{}, m.el...)}
		case "clear":
			p.Clear()
			ms[i] = mPath{}
		case "only":
			p.SetOnlyNode(ns[o.a%4])
			ms[i] = mPath{only: ns[o.a%4]}
		case "elements":
			if vconnected(el) && len(el) > 0 {
				arg := make([]PathElement, len(el), len(el)+3)
				copy(arg, el)
				ps[i], ms[i] = NewPathFromElements(arg...), mPath{el: append([]PathElement{}, el...)}
				ps[j], ms[j] = NewPathFromElements(arg...), mPath{el: append([]PathElement{}, el...)}
			}
		case "fromnode":
			ps[i] = PathFromNode(ns[o.a%4])
			ms[i] = mPath{only: ns[o.a%4]}
		case "cursor":
			c := (&Cursor{}).Set(ns[o.a%4]).StartPath()
			at := ns[o.a%4]
			var trail []*Node
			var rec []PathElement
			for _, e := range el {
				if e.Edge.from != at {
					vmust(vpanics(func() { c.PushToPath(e.Edge) }), "append-panic", "PushToPath of a disconnected edge does not panic")
					continue
				}
				c.PushToPath(e.Edge)
				trail = append(trail, at)
				at = e.Edge.to
				rec = append(rec, PathElement{Edge: e.Edge})
				vmust(c.node == at, "cursor", "PushToPath moves the cursor elsewhere")
			}
			for k := 0; k < o.b%3 && len(trail) > 0; k++ {
				c.PopFromPath()
				at = trail[len(trail)-1]
				trail, rec = trail[:len(trail)-1], rec[:len(rec)-1]
				vmust(c.node == at, "cursor", "PopFromPath does not move the cursor to the previous node")
			}
			ps[i] = c.GetPath()
			ms[i] = mPath{el: rec}
			if len(rec) == 0 {
				ms[i] = mPath{only: at}
			}
		case "slice":
			nn := m.nodes()
			if len(nn) == 0 {
				break
			}
			s := o.a % len(nn)
			e := s + o.b%(len(nn)-s+1)
			arg := e
			if o.b%7 == 6 {
				arg, e = -1, len(nn)
			}
			r := p.Slice(s, arg)
			var want mPath
			switch {
			case e == s:
				want.only = nn[s]
			case e == s+1:
				want.only = nn[s]
				if s < len(nn)-1 && r.only == nil && r.NumNodes() == 0 {
					// known: the slice is empty
					want.only = nil
					vslice1 = fmt.Sprintf("a path of %d nodes: Slice(%d,%d) is empty, want the node at %d", len(nn), s, e, s)
				}
			default:
				want.el = append([]PathElement{}, m.el[s:e-1]...)
			}
			same(r, want, fmt.Sprintf("Slice(%d,%d)", s, arg))
			if j != i && len(want.el) > 0 {
				ps[j], ms[j] = r, want
			}
		case "prefix":
			nn := m.nodes()
			if len(nn) >= 2 {
				want := len(el) <= len(m.el)
				for x := 0; want && x < len(el); x++ {
					want = el[x] == m.el[x]
				}
				vmust(p.HasPrefix(el) == want, "prefix", "HasPrefix is %v", !want)
				for x := 0; x <= len(m.el); x++ {
					vmust(p.HasPrefix(m.el[:x]), "prefix", "HasPrefix of its first %d elements is false", x)
				}
			}
			mq := ms[j]
			nq := mq.nodes()
			want := len(nq) <= len(nn)
			if want && len(nq) == 1 {
				want = nn[0] == nq[0]
			}
			if want && len(nq) > 1 {
				for x := range mq.el {
					want = want && mq.el[x] == m.el[x]
				}
			}
			vmust(p.HasPrefixPath(ps[j]) == want, "prefix", "HasPrefixPath is %v, want %v", !want, want)
		}
		for x := range ps {
			same(ps[x], ms[x], fmt.Sprintf("p%d after p%d.%s", x, o.p%3, o.k))
		}
		vmust(g.NumEdges() == len(es) && g.NumNodes() == 4 && len(EdgeSlice(g.GetEdges())) == len(es), "graph-changed", "p%d.%s changes the graph", o.p%3, o.k)
	}
}

func TestVerifC10(t *testing.T) {
	h := newHunt("histories of path operations on 3 paths over a graph of 4 nodes and 7 edges (parallel edges, a self-loop, cycles), against a reference node and edge sequence; non-trivial: more than one operation")
	ks := []string{"append", "append", "walk", "walk", "walk", "appendpath", "appendpath", "removelast", "removefirst", "clone", "clear", "only", "fromnode", "elements", "slice", "slice", "prefix", "prefix", "cursor"}
	// out-edges by node, for mostly connected appends
	type st struct{ e, to int }
	adj := map[int][]st{}
	for e, x := range [][2]int{{0, 1}, {1, 2}, {2, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 3}} {
		adj[x[0]] = append(adj[x[0]], st{2 * e, x[1]})
		adj[x[1]] = append(adj[x[1]], st{2*e + 1, x[0]})
	}
	for i := 0; i < h.n(40000) && !h.over(); i++ {
		var ops []pop
		at := [3]int{h.rnd.Intn(3), h.rnd.Intn(3), h.rnd.Intn(3)}
		for j, n := 0, 1+h.rnd.Intn(12); j < n; j++ {
			o := pop{k: ks[h.rnd.Intn(len(ks))], p: h.rnd.Intn(3), q: h.rnd.Intn(3), a: h.rnd.Intn(8), b: h.rnd.Intn(28)}
			if o.k == "append" || o.k == "elements" || o.k == "prefix" || o.k == "cursor" {
				c := at[o.p]
				if o.k == "cursor" {
					c = o.a % 4
				}
				for x, m := 0, h.rnd.Intn(4); x < m; x++ {
					if h.rnd.Intn(12) == 0 {
						c = h.rnd.Intn(3)
					}
					l := adj[c]
					s := l[h.rnd.Intn(len(l))]
					if o.k == "cursor" && s.e&1 == 1 {
						continue
					}
					o.es = append(o.es, s.e)
					c = s.to
				}
				if o.k == "append" {
					at[o.p] = c
				}
			}
			ops = append(ops, o)
		}
		vseq(h, ops, showPops, runPops)
	}
	if vslice1 != "" {
		h.report("slice-one-node", vslice1, "the slice has no nodes")
	}
	vdone(t, h)
}
