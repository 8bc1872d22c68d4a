# C08: string sets.

pred mem(k string, s StringSet) := k in dom(s.M);
pred inSl(k string, s []string, n int) := exists i int :: {s[i]} 0 <= i < n && s[i] == k;

contract NewStringSet(s)(r) {
  props C08;
  allocates map[string]struct{};
  ensures nonnil: r.M != nil;
  ensures members: forall k string :: {k in dom(r.M)} mem(k, r) <==> inSl(k, s, len(s));
  inv any (t StringSet, i int): 0 <= i <= len(s) && t.M != nil && fresh(t.M) && forall k string :: {k in dom(t.M)} mem(k, t) <==> inSl(k, s, i);
}

contract StringSet.Clone(set)(r) {
  props C08;
  ensures same: forall k string :: {k in dom(r.M)} mem(k, r) <==> mem(k, set);
  ensures size: len(r.M) == len(set.M);
  ensures own: r.M == nil || r.M == set.M || fresh(r.M) && allocated(r.M);
}

contract StringSet.Has(set, s)(r) {
  props C08;
  ensures member: r <==> mem(s, set);
}

contract StringSet.HasAny(set, s)(r) {
  props C08;
  ensures any: r <==> exists k string :: {k in dom(set.M)} inSl(k, s, len(s)) && mem(k, set);
  inv any (i int): 0 <= i <= len(s) && forall j int :: {s[j]} 0 <= j < i ==> !mem(s[j], set);
}

contract StringSet.HasAnySet(set, s)(r) {
  props C08;
  ensures any: r <==> exists k string :: {k in dom(set.M)} mem(k, s) && mem(k, set);
  inv none: forall k string :: {k in $visited} k in $visited ==> !mem(k, set);
}

contract StringSet.HasAll(set, s)(r) {
  props C08;
  ensures all: r <==> forall i int :: {s[i]} 0 <= i < len(s) ==> mem(s[i], set);
  inv any (i int): 0 <= i <= len(s) && forall j int :: {s[j]} 0 <= j < i ==> mem(s[j], set);
}

contract StringSet.HasAllSet(set, s)(r) {
  props C08;
  ensures all: r <==> forall k string :: {k in dom(s.M)} mem(k, s) ==> mem(k, set);
  inv all: forall k string :: {k in $visited} k in $visited ==> mem(k, set);
}

contract StringSet.IsEqual(set, s)(r) {
  props C08; uses cards;
  ensures eq: r <==> forall k string :: {k in dom(set.M)} {k in dom(s.M)} mem(k, set) <==> mem(k, s);
}

contract StringSet.Len(set)(r) {
  props C08;
  ensures size: r == len(set.M);
}

contract StringSet.Add(set, s)(r) {
  props C08;
  requires set != nil;
  modifies StringSet.M@set;
  allocates map[string]struct{};
  ensures self: r == set;
  ensures union: forall k string :: {k in dom(set.M)} mem(k, *set) <==> (old(mem(k, *set)) || inSl(k, s, len(s)));
  inv own: fresh(set.M) && set.M != nil;
  inv any (i int): 0 <= i <= len(s) && forall k string :: {k in dom(set.M)} mem(k, *set) <==> (old(mem(k, *set)) || inSl(k, s, i));
  inv copy: forall k string :: {k in dom(set.M)} {k in $visited} mem(k, *set) <==> k in $visited;
}

contract StringSet.AddSet(set, s)(r) {
  props C08;
  requires set != nil;
  modifies StringSet.M@set;
  allocates map[string]struct{};
  ensures self: r == set;
  ensures union: forall k string :: {k in dom(set.M)} mem(k, *set) <==> (old(mem(k, *set)) || mem(k, s));
  inv own: fresh(set.M) && set.M != nil;
  inv copy: forall k string :: {k in dom(set.M)} {k in $visited} mem(k, *set) <==> k in $visited;
  inv second: forall k string :: {k in dom(set.M)} {k in $visited} mem(k, *set) <==> (old(mem(k, *set)) || k in $visited);
}

contract StringSet.Remove(set, s)(r) {
  props C08;
  requires set != nil;
  modifies StringSet.M@set;
  allocates map[string]struct{};
  ensures self: r == set;
  ensures difference: forall k string :: {k in dom(set.M)} mem(k, *set) <==> (old(mem(k, *set)) && !inSl(k, s, len(s)));
  inv own: fresh(set.M) && set.M != nil;
  inv outer: forall k string :: {k in dom(set.M)} {k in $visited} mem(k, *set) <==> (k in $visited && !inSl(k, s, len(s)));
  inv copy: forall k string :: {k in dom(set.M)} {k in $visited} mem(k, *set) <==> k in $visited;
  inv any (i int): 0 <= i <= len(s) && forall k string :: {k in dom(set.M)} mem(k, *set) <==> (old(mem(k, *set)) && !inSl(k, s, i));
  inv any (i int, x string): 0 <= i <= len(s) && forall j int :: {s[j]} 0 <= j < i ==> s[j] != x;
}

contract StringSet.Slice(set)(r) {
  props C08;
  allocates []string;
  ensures size: len(r) == len(set.M);
  ensures sound: forall i int :: {r[i]} 0 <= i < len(r) ==> mem(r[i], set);
  ensures complete: forall k string :: {k in dom(set.M)} mem(k, set) ==> inSl(k, r, len(r));
  ensures once: forall i int, j int :: {r[i], r[j]} 0 <= i < j && j < len(r) ==> r[i] != r[j];
  ensures counts: forall k string :: {count(r, k)} count(r, k) == ite(mem(k, set), 1, 0);
  inv any (t []string): forall k string :: {count(t, k)} count(t, k) == ite(k in $visited, 1, 0);
  inv any (t []string): len(t) == len($visited);
  inv any (t []string): forall i int :: {t[i]} 0 <= i < len(t) ==> t[i] in $visited;
  inv any (t []string): forall k string :: {k in $visited} k in $visited ==> inSl(k, t, len(t));
  inv any (t []string): forall i int, j int :: {t[i], t[j]} 0 <= i < j && j < len(t) ==> t[i] != t[j];
  inv sub: forall k string :: {k in $visited} k in $visited ==> mem(k, set);
}
