package lpg

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

type pit struct {
	mask, props int
	left, any   bool
	name        string
}

func TestVerifC15(t *testing.T) {
	h := newHunt("random graphs of at most 5 nodes and 6 edges, patterns of 1, 3 or 5 fixed-length elements with labels, properties, directions, variables bound outside the pattern, variables used twice and variables used for a node and an edge, without and with property indexes of both kinds; against all assignments; non-trivial: at least one edge in the pattern")
	for i := 0; i < h.n(20000) && !h.over(); i++ {
		d := h.smallGraph(5, 6, true, true)
		ln := []int{1, 3, 3, 3, 5, 5}[h.rnd.Intn(6)]
		ix := h.rnd.Intn(32)
		glob := map[string]int{} // variables bound outside: bit masks of nodes or edges
		its := make([]pit, ln)
		for k := range its {
			it := &its[k]
			if h.rnd.Intn(2) == 0 {
				it.mask = 1 << h.rnd.Intn(3)
				if h.rnd.Intn(4) == 0 {
					it.mask |= 1 << h.rnd.Intn(3)
				}
			}
			if h.rnd.Intn(3) == 0 {
				it.props = h.rnd.Intn(64)
			}
			if k%2 == 1 {
				it.left = h.rnd.Intn(3) == 0
				it.any = !it.left && h.rnd.Intn(2) == 0
				if h.rnd.Intn(3) == 0 {
					it.name = []string{"e", "f", "E"}[h.rnd.Intn(3)]
				}
				if it.name == "E" {
					glob["E"] = h.rnd.Intn(64)
				}
			} else {
				if h.rnd.Intn(2) == 0 {
					it.name = []string{"a", "b", "N"}[h.rnd.Intn(3)]
				}
				if it.name == "N" {
					glob["N"] = h.rnd.Intn(32)
				}
			}
		}
		// a variable used for nodes and for edges has no match
		conflict := false
		if ln > 1 && h.rnd.Intn(12) == 0 {
			k := h.rnd.Intn(ln)
			if k%2 == 1 {
				its[k].name = []string{"a", "b", "N"}[h.rnd.Intn(3)]
			} else {
				its[k].name = []string{"e", "f", "E"}[h.rnd.Intn(3)]
			}
			for j := range its {
				conflict = conflict || (j%2 != k%2 && its[j].name == its[k].name)
			}
			if its[k].name == "N" {
				glob["N"] = 31
				conflict = true
			} else if its[k].name == "E" {
				glob["E"] = 63
				conflict = true
			}
		}
		var ps []string
		for k, it := range its {
			s := it.name + ":" + maskStr(it.mask) + propStr(it.props)
			if k%2 == 0 {
				s = "(" + s + ")"
			} else {
				var l string
				for q := range vEdgeLabels {
					if it.mask&(1<<q) != 0 {
						l += vEdgeLabels[q]
					}
				}
				s = "[" + it.name + ":" + l + propStr(it.props) + "]"
				switch {
				case it.left:
					s = "<-" + s + "-"
				case it.any:
					s = "-" + s + "-"
				default:
					s = "-" + s + "->"
				}
			}
			ps = append(ps, s)
		}
		h.check(fmt.Sprintf("%s in %s bound=%v indexes=%d", strings.Join(ps, ""), d, glob, ix), ln > 1 && len(d.es) > 0, func() {
			g := NewGraph()
			if ix&1 != 0 {
				g.AddNodePropertyIndex("p", BtreeIndex)
			}
			if ix&2 != 0 {
				g.AddNodePropertyIndex("q", HashIndex)
			}
			if ix&4 != 0 {
				g.AddEdgePropertyIndex("p", HashIndex)
			}
			if ix&8 != 0 {
				g.AddEdgePropertyIndex("q", BtreeIndex)
			}
			ns, es := d.build(g)
			syms := map[string]*PatternSymbol{}
			inN, inE := map[*Node]bool{}, map[*Edge]bool{}
			if m, ok := glob["N"]; ok {
				s := &PatternSymbol{Nodes: NewNodeSet()}
				for k, n := range ns {
					if m&(1<<k) != 0 && n != nil {
						s.AddNode(n)
						inN[n] = true
					}
				}
				syms["N"] = s
			}
			if m, ok := glob["E"]; ok {
				s := &PatternSymbol{Edges: NewEdgeSet()}
				for k, e := range es {
					if m&(1<<k) != 0 && e != nil {
						s.Add(e)
						inE[e] = true
					}
				}
				syms["E"] = s
			}
			name := map[any]string{}
			for k, n := range ns {
				name[n] = fmt.Sprint("n", k)
			}
			for k, e := range es {
				name[e] = fmt.Sprint("e", k)
			}
			var pat Pattern
			for k, it := range its {
				x := PatternItem{Labels: NewStringSet(), Properties: vprops(it.props), ToLeft: it.left, Undirected: it.any, Name: it.name}
				if k%2 == 0 {
					x.Labels = vset(it.mask)
				} else {
					x.Min, x.Max = 1, 1
					for q, l := range vEdgeLabels {
						if it.mask&(1<<q) != 0 {
							x.Labels.Add(l)
						}
					}
				}
				pat = append(pat, x)
			}
			hasProps := func(have map[string]any, c int) bool {
				for k, v := range vprops(c) {
					w, ok := have[k]
					if !ok || refcmp(v, w) != 0 {
						return false
					}
				}
				return true
			}
			want := map[string]int{}
			bound := map[string]string{}
			var rec func(k int, at *Node, seq []string)
			with := func(nm, val string, f func()) {
				if nm == "" || nm == "N" || nm == "E" {
					f()
					return
				}
				if old, ok := bound[nm]; ok {
					if old == val {
						f()
					}
					return
				}
				bound[nm] = val
				f()
				delete(bound, nm)
			}
			rec = func(k int, at *Node, seq []string) {
				if k == len(its) {
					want[strings.Join(seq, " ")]++
					return
				}
				it := its[k]
				if k%2 == 0 {
					var cand []*Node
					if k == 0 {
						cand = liveN(ns)
					} else {
						cand = []*Node{at}
					}
					for _, n := range cand {
						n := n
						ok := hasProps(n.properties, it.props) && (it.name != "N" || inN[n])
						for q, l := range vLabels {
							ok = ok && (it.mask&(1<<q) == 0 || n.labels.Has(l))
						}
						if ok {
							with(it.name, name[n], func() { rec(k+1, n, append(append([]string{}, seq...), name[n])) })
						}
					}
					return
				}
				for _, e := range liveE(es) {
					e := e
					ok := it.mask == 0
					for q, l := range vEdgeLabels {
						ok = ok || (it.mask&(1<<q) != 0 && e.label == l)
					}
					if !ok || !hasProps(e.properties, it.props) || (it.name == "E" && !inE[e]) {
						continue
					}
					go_ := func(to *Node) {
						with(it.name, name[e], func() { rec(k+1, to, append(append([]string{}, seq...), name[e])) })
					}
					if (it.any || !it.left) && e.from == at {
						go_(e.to)
					}
					if (it.any || it.left) && e.to == at && !(it.any && e.from == e.to) {
						go_(e.from)
					}
				}
			}
			if !conflict {
				rec(0, nil, nil)
			}
			acc, err := pat.FindPaths(g, syms)
			vmust(err == nil || conflict, "error", "the search fails: %v", err)
			got := map[string]int{}
			for r, p := range acc.Paths {
				vmust(p.NumNodes() == (ln+1)/2, "path-shape", "a path has %d nodes", p.NumNodes())
				var seq []string
				for k := range its {
					if k%2 == 0 {
						seq = append(seq, name[p.GetNode(k/2)])
					} else {
						seq = append(seq, name[p.GetEdge(k/2)])
					}
				}
				got[strings.Join(seq, " ")]++
				for k, it := range its {
					if it.name == "" {
						continue
					}
					v, ok := acc.Symbols[r][it.name]
					vmust(ok, "binding", "variable %s is not bound", it.name)
					// a variable used twice inside the pattern has one value; one bound outside reports any of its elements
					var val string
					switch x := v.(type) {
					case *Node:
						val = name[x]
					case *Path:
						vmust(x.NumEdges() == 1, "binding", "variable %s is bound to %d edges", it.name, x.NumEdges())
						val = name[x.GetEdge(0)]
					}
					good := false
					for k2, it2 := range its {
						good = good || (it2.name == it.name && seq[k2] == val && k2%2 == k%2)
					}
					vmust(good, "binding", "variable %s is bound to %s in [%s]", it.name, val, strings.Join(seq, " "))
				}
			}
			for k, c := range got {
				if want[k] == 0 {
					vmust(false, "invented", "[%s] is reported, but does not match (matches: %s)", k, showBag2(want))
				}
				vmust(c == want[k], "repeated", "[%s] is reported %d times, want %d", k, c, want[k])
			}
			for k := range want {
				vmust(got[k] > 0, "lost", "[%s] is not reported", k)
			}
			heads, err := pat.FindNodes(g, syms)
			vmust(err == nil || conflict, "error", "FindNodes fails: %v", err)
			wh := map[string]bool{}
			for k := range want {
				wh[strings.Split(k, " ")[0]] = true
			}
			gh := map[string]bool{}
			for _, n := range heads {
				vmust(!gh[name[n]] && wh[name[n]], "heads", "FindNodes reports %s, which is no head or reported twice", name[n])
				gh[name[n]] = true
			}
			vmust(len(gh) == len(wh), "heads", "FindNodes reports %d heads, want %d", len(gh), len(wh))
		})
	}
	vdone(t, h)
}

func showBag2(m map[string]int) string {
	var b []string
	for k, c := range m {
		b = append(b, fmt.Sprintf("[%s]x%d", k, c))
	}
	sort.Strings(b)
	return strings.Join(b, " ")
}
