# C07: comparison of property values.
# cmpv is the specified comparison: -1, 0, 1, or 2 for values that cannot be compared.
# Lists are read through ilist, a name for the (unmodified) content of list memory during the comparison.

fn cmpv(any, any) int;
fn native(any) any;       # what GetNativeValue returns
fn nv(any) any;           # the value after unwrapping
fn hasNative(any) bool;   # implements WithNativeValue
fn depth(any) int;        # nesting depth; property values are finite trees
fn lsize(any) int;        # length of a list value
fn elt(any, int) any;     # element of a list value
fn fd(any, any) int;      # first index at which two lists differ, or the length of the shorter
fn isList(any) bool;
fn eltS([]string, int) string; # content of lists in memory
fn eltI([]int, int) int;
fn eltA([]any, int) any;
fn shorter(int, int) int;

axiom hasnative: forall a any :: {hasNative(a)} hasNative(a) <==> implements(WithNativeValue, a);
axiom shorter: forall a int, b int :: {shorter(a, b)} shorter(a, b) == ite(a < b, a, b);
axiom nvbase: forall a any :: {nv(a)} {hasNative(a)} !hasNative(a) ==> nv(a) == a;
axiom nvstep: forall a any :: {nv(a)} {native(a)} hasNative(a) ==> nv(a) == nv(native(a)) && depth(native(a)) < depth(a);
axiom nvdone: forall a any :: {nv(a)} !hasNative(nv(a)) && depth(nv(a)) <= depth(a);
axiom depth0: forall a any :: {depth(a)} depth(a) >= 0;
axiom cmpnv: forall a any, b any :: {cmpv(a, b)} cmpv(a, b) == cmpv(nv(a), nv(b));
axiom islist: forall a any :: {isList(a)} isList(a) <==> (is([]string, a) || is([]int, a) || is([]any, a));
axiom lsS: forall a any :: {lsize(a)} is([]string, a) ==> lsize(a) == len(as([]string, a));
axiom lsI: forall a any :: {lsize(a)} is([]int, a) ==> lsize(a) == len(as([]int, a));
axiom lsA: forall a any :: {lsize(a)} is([]any, a) ==> lsize(a) == len(as([]any, a));
axiom ls0: forall a any :: {lsize(a)} lsize(a) >= 0;
axiom elS: forall a any, i int :: {elt(a, i)} {eltS(as([]string, a), i)} is([]string, a) ==> elt(a, i) == box(string, eltS(as([]string, a), i));
axiom elI: forall a any, i int :: {elt(a, i)} {eltI(as([]int, a), i)} is([]int, a) ==> elt(a, i) == box(int, eltI(as([]int, a), i));
axiom elA: forall a any, i int :: {elt(a, i)} {eltA(as([]any, a), i)} is([]any, a) ==> elt(a, i) == eltA(as([]any, a), i);
axiom eldepth: forall a any, i int :: {elt(a, i)} isList(a) && 0 <= i && i < lsize(a) ==> depth(elt(a, i)) < depth(a);

# scalars
axiom cstr: forall a any, b any :: {cmpv(a, b)} is(string, a) && is(string, b) && !hasNative(a) && !hasNative(b) ==> cmpv(a, b) == ite(as(string, a) == as(string, b), 0, ite(as(string, a) < as(string, b), 0 - 1, 1));
axiom cint: forall a any, b any :: {cmpv(a, b)} is(int, a) && is(int, b) && !hasNative(a) && !hasNative(b) ==> cmpv(a, b) == ite(as(int, a) == as(int, b), 0, ite(as(int, a) < as(int, b), 0 - 1, 1));
# lists: lexicographic; a list of integers is never compared with a list of strings
axiom clist: forall a any, b any :: {cmpv(a, b)} pairL(a, b) && !hasNative(a) && !hasNative(b) ==>
  0 <= fd(a, b) && fd(a, b) <= shorter(lsize(a), lsize(b)) &&
  (fd(a, b) < shorter(lsize(a), lsize(b)) ==> cmpv(elt(a, fd(a, b)), elt(b, fd(a, b))) != 0 && cmpv(a, b) == cmpv(elt(a, fd(a, b)), elt(b, fd(a, b)))) &&
  (fd(a, b) == shorter(lsize(a), lsize(b)) ==> cmpv(a, b) == ite(lsize(a) < lsize(b), 0 - 1, ite(lsize(a) > lsize(b), 1, 0)));
axiom clistpre: forall a any, b any, i int :: {cmpv(a, b), elt(a, i)} {cmpv(a, b), elt(b, i)} pairL(a, b) && !hasNative(a) && !hasNative(b) && 0 <= i && i < fd(a, b) ==> cmpv(elt(a, i), elt(b, i)) == 0;
axiom cother: forall a any, b any :: {cmpv(a, b)} !hasNative(a) && !hasNative(b) && !(is(string, a) && is(string, b)) && !(is(int, a) && is(int, b)) && !pairL(a, b) ==> cmpv(a, b) == 2;
pred pairL(a any, b any) := isList(a) && isList(b) && !(is([]string, a) && is([]int, b)) && !(is([]int, a) && is([]string, b));

iface WithNativeValue.GetNativeValue(n)(r) { pure; ensures r == native(n); }

contract ComparePropertyValue(a, b)(r) {
  props C07;
  # names for the content of list memory: eltX is by definition what the memory holds during the comparison
  requires memS: forall s []string, i int :: {s[i]} {eltS(s, i)} s[i] == eltS(s, i);
  requires memI: forall s []int, i int :: {s[i]} {eltI(s, i)} s[i] == eltI(s, i);
  requires memA: forall s []any, i int :: {s[i]} {eltA(s, i)} s[i] == eltA(s, i);
  panics when cmpv(a, b) == 2;
  uses cmpRange, cmpAntisym;
  pure;
  ensures value: r == cmpv(a, b);
  inv any (v []string, w []string, i int): 0 <= i && i <= shorter(len(v), len(w)) && forall j int :: {v[j]} {w[j]} 0 <= j < i ==> v[j] == w[j];
  inv any (v []int, w []int, i int): 0 <= i && i <= shorter(len(v), len(w)) && forall j int :: {v[j]} {w[j]} 0 <= j < i ==> v[j] == w[j];
  inv any (v []any, w []any, i int): 0 <= i && i <= shorter(len(v), len(w)) && forall j int :: {v[j]} {w[j]} 0 <= j < i ==> cmpv(v[j], w[j]) == 0;
  inv any (v []string, w []any, i int): 0 <= i && i <= shorter(len(v), len(w)) && forall j int :: {v[j]} {w[j]} 0 <= j < i ==> cmpv(box(string, v[j]), w[j]) == 0;
  inv any (v []int, w []any, i int): 0 <= i && i <= shorter(len(v), len(w)) && forall j int :: {v[j]} {w[j]} 0 <= j < i ==> cmpv(box(int, v[j]), w[j]) == 0;
}

pred result4(c int) := c == 0 - 1 || c == 0 || c == 1 || c == 2;
pred neg4(c int) := ite(c == 2, 2, 0 - c);

lemma cmpRange(a any, b any) {
  props C07;
  induct depth(a);
  ensures range: result4(cmpv(a, b));
}
lemma cmpAntisym(a any, b any) {
  props C07;
  uses cmpRange;
  induct depth(a);
  ensures anti: cmpv(b, a) == neg4(cmpv(a, b));
}

fn supported(any) bool;
axiom supdef: forall a any :: {supported(a)} supported(a) <==> (is(string, nv(a)) || is(int, nv(a)) || is([]string, nv(a)) || is([]int, nv(a)) || (is([]any, nv(a)) && forall i int :: {elt(nv(a), i)} 0 <= i && i < lsize(nv(a)) ==> supported(elt(nv(a), i))));

lemma cmpReflexive(a any) {
  props C07;
  induct depth(a);
  requires supported(a);
  ensures zero: cmpv(a, a) == 0;
}
# transitivity, including substitution of equals; a and c are comparable (an integer list and a string list are both
# comparable with an empty or longer []any, but not with each other)
lemma cmpTrans(a any, b any, c any) {
  props C07;
  uses cmpRange;
  induct depth(a);
  requires cmpv(a, b) == 0 - 1 || cmpv(a, b) == 0;
  requires cmpv(b, c) == 0 - 1 || cmpv(b, c) == 0;
  requires cmpv(a, c) != 2;
  ih (elt(nv(a), fd(nv(a), nv(b))), elt(nv(b), fd(nv(a), nv(b))), elt(nv(c), fd(nv(a), nv(b))));
  ih (elt(nv(a), fd(nv(b), nv(c))), elt(nv(b), fd(nv(b), nv(c))), elt(nv(c), fd(nv(b), nv(c))));
  ih (elt(nv(a), fd(nv(a), nv(c))), elt(nv(b), fd(nv(a), nv(c))), elt(nv(c), fd(nv(a), nv(c))));
  ensures trans: cmpv(a, c) == ite(cmpv(a, b) == 0 && cmpv(b, c) == 0, 0, 0 - 1);
}
