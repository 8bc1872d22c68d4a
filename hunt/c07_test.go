package lpg

import (
	"fmt"
	"testing"
)

func TestVerifC07(t *testing.T) {
	h := newHunt("all ordered pairs of a universe of values (integers, strings, lists of each kind, nested and wrapped values, unsupported values) and random nested lists, against a reference comparison; transitivity on all comparable triples; non-trivial: every pair")
	base := []any{0, 1, -1, 1 << 40, -(1 << 62), 1<<63 - 1, -1 << 63, "", "a", "b", "ab", "B", "é", natv{1}, natv{natv{"a"}}, natStr("b")}
	var vals []any
	vals = append(vals, base...)
	for _, n := range [][]int{nil, {}, {0}, {1}, {2}, {0, 1}, {1, 0}, {1, 2, 3}, {-1 << 63}, {1<<63 - 1}} {
		vals = append(vals, n)
	}
	for _, n := range [][]string{nil, {}, {""}, {"a"}, {"b"}, {"a", "b"}, {"a", "a"}, {"b", "a"}} {
		vals = append(vals, n, natv{n})
	}
	for _, n := range [][]any{nil, {}, {0}, {1}, {"a"}, {"a", "b"}, {1, 2}, {1, "a"}, {[]int{1}}, {[]string{"a"}, 1}, {[]any{"a"}, 2}, {natv{1}, 2}, {[]any{[]any{}}}, {natStr("a")}, {1, 2, 3}, {true}, {1, nil}} {
		vals = append(vals, n, natv{n})
	}
	vals = append(vals, nil, true, 1.5, int64(1), struct{}{}, natv{nil}, []bool{true})
	var gen func(d int) any
	gen = func(d int) any {
		k := h.rnd.Intn(6)
		if d == 0 {
			k = h.rnd.Intn(2)
		}
		switch k {
		case 0:
			return h.rnd.Intn(3)
		case 1:
			return string(rune('a' + h.rnd.Intn(2)))
		case 2:
			var l []int
			for i := h.rnd.Intn(4); i > 0; i-- {
				l = append(l, h.rnd.Intn(2))
			}
			return l
		case 3:
			var l []string
			for i := h.rnd.Intn(4); i > 0; i-- {
				l = append(l, string(rune('a'+h.rnd.Intn(2))))
			}
			return l
		case 4:
			var l []any
			for i := h.rnd.Intn(4); i > 0; i-- {
				l = append(l, gen(d-1))
			}
			return l
		}
		return natv{gen(d - 1)}
	}
	pair := func(a, b any) {
		h.check(fmt.Sprintf("ComparePropertyValue(%T %#v, %T %#v)", a, a, b, b), true, func() {
			want := refcmp(a, b)
			got, pan := 0, false
			func() {
				defer func() {
					if r := recover(); r != nil {
						pan = true
					}
				}()
				got = ComparePropertyValue(a, b)
			}()
			if want == 2 {
				vmust(pan, "no-panic", "returned %d for values that cannot be compared", got)
			} else {
				vmust(!pan, "panics", "panics, want %d", want)
				vmust(got == want, "wrong-order", "returned %d, want %d", got, want)
			}
		})
	}
	for _, a := range vals {
		for _, b := range vals {
			pair(a, b)
		}
	}
	for i := 0; i < h.n(20000) && !h.over(); i++ {
		pair(gen(2), gen(2))
	}
	vdone(t, h)
}
