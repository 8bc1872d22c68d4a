package lpg

import (
	"encoding/json"
	"fmt"
	"sort"
	"testing"
)

// C08: all operations on all pairs of subsets of a small universe, and random mutation histories with copies.

func vsub(u []string, m int) []string {
	out := []string{}
	for i, s := range u {
		if m&(1<<i) != 0 {
			out = append(out, s)
		}
	}
	return out
}

func TestVerifC08(t *testing.T) {
	h := newHunt("every pair of subsets of {a,b,c,d} (including nil and empty sets) through every operation, and every 2-step history of additions and removals after a copy; non-trivial: at least one set non-empty")
	u := []string{"a", "b", "c", "d"}
	mk := func(m int) *StringSet {
		var s *StringSet
		if m < 0 {
			z := StringSet{}
			return &z
		}
		x := NewStringSet(vsub(u, m)...)
		s = &x
		return s
	}
	same := func(s StringSet, m int, what string) {
		if m < 0 {
			m = 0
		}
		vmust(s.Len() == len(vsub(u, m)), "wrong-size", "%s: Len is %d, want %d", what, s.Len(), len(vsub(u, m)))
		for i, x := range u {
			vmust(s.Has(x) == (m&(1<<i) != 0), "wrong-membership", "%s: Has(%s) is %v", what, x, s.Has(x))
		}
		vmust(!s.Has("zz") && !s.Has(""), "wrong-membership", "%s: has an element never added", what)
		sl := append([]string{}, s.Slice()...)
		sort.Strings(sl)
		vmust(fmt.Sprint(sl) == fmt.Sprint(vsub(u, m)), "wrong-slice", "%s: Slice is %v, want %v", what, sl, vsub(u, m))
		vmust(fmt.Sprint(append([]string{}, s.SortedSlice()...)) == fmt.Sprint(vsub(u, m)), "wrong-slice", "%s: SortedSlice is %v, want %v", what, s.SortedSlice(), vsub(u, m))
		b, err := json.Marshal(s)
		vmust(err == nil, "json", "%s: MarshalJSON: %v", what, err)
		var r StringSet
		vmust(json.Unmarshal(b, &r) == nil && r.IsEqual(s) && s.IsEqual(r), "json", "%s: JSON %s does not read back", what, b)
	}
	for a := -1; a < 16; a++ {
		for b := -1; b < 16; b++ {
			a, b := a, b
			am, bm := a, b
			if am < 0 {
				am = 0
			}
			if bm < 0 {
				bm = 0
			}
			h.check(fmt.Sprintf("A=%v(nil:%v) B=%v(nil:%v)", vsub(u, am), a < 0, vsub(u, bm), b < 0), am+bm > 0, func() {
				A, B := mk(a), mk(b)
				same(*A, a, "A")
				vmust(A.HasAnySet(*B) == (am&bm != 0), "any", "HasAnySet is %v", A.HasAnySet(*B))
				vmust(A.HasAllSet(*B) == (am&bm == bm), "all", "HasAllSet is %v", A.HasAllSet(*B))
				vmust(A.HasAny(vsub(u, bm)...) == (am&bm != 0), "any", "HasAny is %v", A.HasAny(vsub(u, bm)...))
				vmust(A.HasAll(vsub(u, bm)...) == (am&bm == bm), "all", "HasAll is %v", A.HasAll(vsub(u, bm)...))
				vmust(A.IsEqual(*B) == (am == bm), "equal", "IsEqual is %v", A.IsEqual(*B))
				C := A.Clone()
				same(C, a, "clone")
				A.AddSet(*B)
				same(*A, am|bm, "A after AddSet(B)")
				same(*B, b, "B after A.AddSet(B)")
				same(C, a, "clone after A.AddSet(B)")
				A.Remove(vsub(u, bm)...)
				same(*A, am&^bm, "A after Remove(B)")
				same(C, a, "clone after A.Remove(B)")
				C.Add(vsub(u, bm)...)
				same(C, am|bm, "clone after Add(B)")
				same(*A, am&^bm, "A after clone.Add(B)")
				D := A.Clone()
				E := D.Clone()
				D.Add("a", "d", "a")
				same(E, am&^bm, "clone of the clone after Add")
				D.Remove("a", "d", "a")
				same(D, am&^bm&^9, "after Remove")
				same(E, am&^bm, "clone of the clone after Remove")
				// the first change after a copy, by each operation, on either side
				for side := 0; side < 2; side++ {
					for op := 0; op < 5; op++ {
						F := mk(a)
						G := F.Clone()
						x, y := F, &G
						if side == 1 {
							x, y = &G, F
						}
						want := am
						switch op {
						case 0:
							x.AddSet(*B)
							want = am | bm
						case 1:
							x.Add(vsub(u, bm)...)
							want = am | bm
						case 2:
							x.Remove(vsub(u, bm)...)
							want = am &^ bm
						case 3:
							x.Remove(u[bm%4])
							want = am &^ (1 << (bm % 4))
						case 4:
							x.Add(u[bm%4])
							want = am | (1 << (bm % 4))
						}
						same(*x, want, "changed after a copy")
						same(*y, a, "the other side of a copy")
						same(*B, b, "the argument")
						x.Add("zz")
						x.Remove("zz")
						same(*y, a, "the other side of a copy")
						same(*B, b, "the argument")
						B.Add("a")
						B = mk(b)
						same(*x, want, "changed after the argument changed")
					}
				}
				N := NewStringSet(append(vsub(u, am), vsub(u, bm)...)...)
				same(N, am|bm, "NewStringSet of both, with repetitions")
			})
		}
	}
	vdone(t, h)
}
