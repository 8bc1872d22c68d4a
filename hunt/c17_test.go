package lpg

import (
	"fmt"
	"strings"
	"testing"
)

type tabOp struct {
	free bool
	s    string
}

func showTab(ops []tabOp) string {
	var b []string
	for _, o := range ops {
		if o.free {
			b = append(b, "free("+o.s+")")
		} else {
			b = append(b, "allocate("+o.s+")")
		}
	}
	return "init; " + strings.Join(b, "; ")
}

func runTab(ops []tabOp) {
	var tab stringTable
	tab.init()
	cnt := map[string]int{}
	idx := map[string]int{}
	universe := map[string]bool{"": true, "never": true}
	for _, o := range ops {
		universe[o.s] = true
		if o.free {
			if cnt[o.s] == 0 {
				continue
			}
			tab.free(idx[o.s])
			cnt[o.s]--
		} else {
			i := tab.allocate(o.s)
			if cnt[o.s] > 0 {
				vmust(i == idx[o.s], "index-changed", "allocate(%q) returned %d, want the index %d it has", o.s, i, idx[o.s])
			}
			idx[o.s] = i
			cnt[o.s]++
		}
		used := map[int]string{}
		for s := range universe {
			i, ok := tab.lookup(s)
			vmust(ok == (cnt[s] > 0), "lookup", "lookup(%q) found=%v with %d references", s, ok, cnt[s])
			if ok {
				vmust(i == idx[s], "index-changed", "lookup(%q)=%d, want %d", s, i, idx[s])
				vmust(tab.str(i) == s, "str", "str(%d)=%q, want %q", i, tab.str(i), s)
				p, dup := used[i]
				vmust(!dup, "shared-index", "%q and %q have the same index %d", s, p, i)
				used[i] = s
			}
		}
	}
}

func TestVerifC17(t *testing.T) {
	h := newHunt("all allocate/free histories of length 7 over 2 strings, random histories of length up to 40 over 5 strings, against a reference count per string; non-trivial: more than one operation")
	u := []string{"a", "b", "", "d", "eee"}
	var rec func(ops []tabOp, n int)
	rec = func(ops []tabOp, n int) {
		if n == 0 {
			vseq(h, ops, showTab, runTab)
			return
		}
		if h.over() {
			return
		}
		for k := 0; k < 4; k++ {
			rec(append(append([]tabOp{}, ops...), tabOp{k&1 == 1, u[k/2]}), n-1)
		}
	}
	rec(nil, 6)
	for i := 0; i < h.n(10000) && !h.over(); i++ {
		var ops []tabOp
		for j, n := 0, 1+h.rnd.Intn(40); j < n; j++ {
			ops = append(ops, tabOp{h.rnd.Intn(2) == 0, u[h.rnd.Intn(1+h.rnd.Intn(len(u)))]})
		}
		vseq(h, ops, showTab, runTab)
	}
	for i := 0; i < h.n(200); i++ {
		in := MapInterner{}
		var l []string
		for j, n := 0, 1+h.rnd.Intn(10); j < n; j++ {
			l = append(l, u[h.rnd.Intn(len(u))])
		}
		h.check(fmt.Sprintf("MapInterner.Intern of %q in turn", l), true, func() {
			for _, s := range l {
				vmust(in.Intern(s) == s, "intern", "Intern(%q) differs from its argument", s)
			}
		})
	}
	vdone(t, h)
}
