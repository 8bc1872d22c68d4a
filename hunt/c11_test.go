package lpg

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

func TestVerifC11(t *testing.T) {
	h := newHunt("random graphs of at most 5 nodes and 7 edges (parallel edges, self-loops, cycles), every start node, direction and bounds in -1..4, first legs and edge filters by label, early stops; against an enumeration of all trails; non-trivial: at least one edge")
	for i := 0; i < h.n(12000) && !h.over(); i++ {
		d := h.smallGraph(5, 7, false, true)
		if len(d.ns) == 0 {
			continue
		}
		from, dir := h.rnd.Intn(len(d.ns)), []EdgeDir{IncomingEdge, OutgoingEdge, AnyEdge}[h.rnd.Intn(3)]
		if d.ns[from].gone {
			continue
		}
		min, max := h.rnd.Intn(6)-1, h.rnd.Intn(6)-1
		leg, filt := h.rnd.Intn(3), h.rnd.Intn(3)
		stop := -1
		if h.rnd.Intn(3) == 0 {
			stop = h.rnd.Intn(5)
		}
		h.check(fmt.Sprintf("%s from n%d dir=%d min=%d max=%d firstleg=%d filter=%d stop=%d", d, from, dir, min, max, leg, filt, stop), len(d.es) > 0, func() {
			g := NewGraph()
			ns, es := d.build(g)
			name := map[*Edge]string{}
			for i, e := range es {
				if e != nil {
					name[e] = fmt.Sprint("e", i)
				}
			}
			accept := func(which int, e *Edge) bool { return which == 2 || e.label == vEdgeLabels[which] }
			want := map[string]int{}
			used := map[*Edge]bool{}
			var rec func(at *Node, trail []string)
			rec = func(at *Node, trail []string) {
				if n := len(trail); n > 0 && (min == -1 || n >= min) && (max == -1 || n <= max) {
					want[strings.Join(trail, " ")]++
				}
				if max != -1 && len(trail) >= max && len(trail) > 0 {
					return
				}
				for i, e := range es {
					_ = i
					if e == nil || used[e] {
						continue
					}
					w := filt
					if len(trail) == 0 {
						w = leg
					}
					if !accept(w, e) {
						continue
					}
					used[e] = true
					if dir != IncomingEdge && e.from == at {
						rec(e.to, append(append([]string{}, trail...), name[e]))
					} else if dir != OutgoingEdge && e.to == at && e.from == e.to {
						rec(e.from, append(append([]string{}, trail...), name[e]))
					} else if dir != OutgoingEdge && e.to == at {
						rec(e.from, append(append([]string{}, trail...), "~"+name[e]))
					}
					used[e] = false
				}
			}
			rec(ns[from], nil)
			var first EdgeIterator
			if leg == 2 {
				first = ns[from].GetEdges(dir)
			} else {
				first = ns[from].GetEdgesWithLabel(dir, vEdgeLabels[leg])
			}
			got := map[string]int{}
			calls := 0
			var kept []*Path
			var shows []string
			CollectAllPaths(g, ns[from], first, func(e *Edge) bool { return accept(filt, e) }, dir, min, max, func(p *Path) bool {
				calls++
				vmust(calls < 100000, "endless", "the collection does not end")
				vmust(stop < 0 || calls <= stop+1, "not-stopped", "the collection goes on after the consumer said stop")
				s := showTrail(p, ns[from], name)
				kept, shows = append(kept, p), append(shows, s)
				got[s]++
				return stop < 0 || calls <= stop
			})
			for i, p := range kept {
				vmust(showTrail(p, ns[from], name) == shows[i], "path-changed", "a reported path was changed later: %s", shows[i])
			}
			total := 0
			for _, c := range want {
				total += c
			}
			for k, c := range got {
				if want[k] == 0 {
					vmust(false, "invented", "[%s] is reported, but is no such trail (wanted: %s)", k, showBag(want))
				}
				vmust(c <= want[k], "repeated", "[%s] is reported %d times", k, c)
			}
			if stop < 0 {
				for k := range want {
					vmust(got[k] > 0, "lost", "[%s] is not reported", k)
				}
			} else {
				w := stop + 1
				if total < w {
					w = total
				}
				vmust(calls == w, "lost", "%d paths are reported before the stop, want %d", calls, w)
			}
		})
	}
	vdone(t, h)
}

func showTrail(p *Path, from *Node, name map[*Edge]string) string {
	var b []string
	at := from
	for _, pe := range p.path {
		s := name[pe.Edge]
		if s == "" {
			s = "removed-edge"
		}
		src, dst := pe.Edge.from, pe.Edge.to
		if pe.Reverse {
			src, dst = dst, src
		}
		if src != at {
			b = append(b, "DISCONNECTED")
		}
		if pe.Reverse && src != dst {
			s = "~" + s
		}
		at = dst
		b = append(b, s)
	}
	return strings.Join(b, " ")
}

func showBag(m map[string]int) string {
	var b []string
	for k := range m {
		b = append(b, "["+k+"]")
	}
	sort.Strings(b)
	return strings.Join(b, " ")
}
