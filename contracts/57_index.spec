# C05: property indexes. $in are the items of an index, $val the normalised value an item is indexed under.

pred idOf(v any) := ite(is(*Node, v), as(*Node, v).id, as(*Edge, v).id);
pred isItem(v any) := isNode(v) || isEdge(v);

# ---- mapped iterators ----

pred todo_procIterator(l *procIterator, v any) := ite((exists w any :: {l.itr.$todo[w]} {app(l.proc, w)} l.itr.$todo[w] > 0 && app(l.proc, w) == v), 1, 0);
pred inv_procIterator(l *procIterator) := l.itr != nil && l.proc != nil
  && (forall w any :: {l.itr.$todo[w]} l.itr.$todo[w] > 0 ==> callable(l.proc, w) && l.itr.$todo[w] == 1)
  && (forall w any, u any :: {l.itr.$todo[w], l.itr.$todo[u]} l.itr.$todo[w] > 0 && l.itr.$todo[u] > 0 && app(l.proc, w) == app(l.proc, u) ==> w == u);
pred init_procIterator(l *procIterator) := sized(l.itr);
pred on_procIterator(l *procIterator) := l.itr.$on && callable(l.proc, l.itr.$curr);
pred curr_procIterator(l *procIterator) := app(l.proc, l.itr.$curr);
pred max_procIterator(l *procIterator) := l.itr.$max;
pred src_procIterator(l *procIterator) := l.itr.$todo;
pred img_procIterator(l *procIterator, v any) := app(l.proc, v);
iterclass procIterator { props C09, C05; modifies Iterator.*@l.itr; }

# ---- hash indexes ----

ghost fastSet.$hx : *hashIndex;
ghost fastSet.$hk : any;
ghost AnyMap.$hx : *hashIndex;
ghost list.List.$hx : *hashIndex;
ghost hashIndex.$live : bool;
ghost hashIndex.$in : set[any];
ghost hashIndex.$val : gmap[any]any;

pred hkey(v any) := ite(hasNative(v), native(v), v);
pred hel(f *fastSet, i int) := as(*list.Element, f.m[i].Value);
# a hash index in use
pred hxlive(ix *hashIndex) := ix != nil && ix.$live;
# the set belongs to a hash index in use
pred hxown(f *fastSet) := hxlive(f.$hx) && f.$hk in dom(f.$hx.values) && f.$hx.values[f.$hk] == f;

heapinv [C05] hi.live: forall ix *hashIndex :: {ix.$live} ix.$live ==> allocated(ix) && ix.elements.$hx == ix && ix.elements.$em == nil && ix.elements.$fs == nil;
heapinv [C05] hi.map: forall ix *hashIndex :: {ix.values} hxlive(ix) ==> allocated(ix.values) && (ix.values != nil ==> ix.values.$hx == ix);
heapinv [C05] hi.vals: forall ix *hashIndex, k any :: {ix.values[k]} {k in dom(ix.values)} hxlive(ix) && k in dom(ix.values) ==> let f := ix.values[k] :: f != nil && allocated(f) && fslive(f) && f.$hx == ix && f.$hk == k && hashable(k) && f.$lhm == nil;
heapinv [C05] hi.set: forall f *fastSet, i int :: {f.m[i]} {i in dom(f.m)} hxown(f) && i in dom(f.m) ==> let e := hel(f, i) :: is(*list.Element, f.m[i].Value) && e != nil && e.$lst == &f.$hx.elements && e.Value in f.$hx.$in && f.$hx.$val[e.Value] == f.$hk && idOf(e.Value) == i;
heapinv [C05] hi.has: forall ix *hashIndex, v any :: {v in ix.$in} hxlive(ix) && v in ix.$in ==> isItem(v) && ix.$val[v] in dom(ix.values) && (let f := ix.values[ix.$val[v]] :: idOf(v) in dom(f.m) && hel(f, idOf(v)).Value == v);
heapinv [C05] hi.elem: forall e *list.Element :: {e.$lst} e.$lst != nil && hxlive(e.$lst.$hx) && e.$lst == &e.$lst.$hx.elements ==> e.Value in e.$lst.$hx.$in;

contract hashIndex.add(ix, value, id, item) {
  props C05;
  maintains fs, dl, lm, hi;
  requires live: hxlive(ix);
  requires item: isItem(item) && idOf(item) == id;
  requires new: forall v any :: {v in ix.$in} v in ix.$in ==> idOf(v) != id;
  requires hash: hashable(hkey(value));
  modifies hashIndex.*@ix, map[any]*fastSet@ix.values, map[int]*list.Element@{m map[int]*list.Element :: m.$fs.$hx == ix}, fastSet.$items@{f fastSet :: f.$hx == ix}, list.List.$at@{l list.List :: l == &ix.elements || l.$fs.$hx == ix}, fastSet.$hx@{f fastSet :: fresh(f)}, fastSet.$hk@{f fastSet :: fresh(f)}, AnyMap.$hx@{m map[any]*fastSet :: fresh(m)};
  allocates fastSet, list.List, list.Element, map[int]*list.Element, map[any]*fastSet;
  set hashIndex.$in@ix := add(old(ix.$in), item);
  set hashIndex.$val@ix := upd(old(ix.$val), item, hkey(value));
  set fastSet.$hx@ix.values[hkey(value)] := ix;
  set fastSet.$hk@ix.values[hkey(value)] := hkey(value);
  set AnyMap.$hx@ix.values := ix;
}
contract hashIndex.remove(ix, value, id) {
  props C05;
  maintains fs, dl, hi;
  requires live: hxlive(ix);
  requires hash: hashable(hkey(value));
  modifies hashIndex.$in@ix, map[int]*list.Element@{m map[int]*list.Element :: m.$fs.$hx == ix}, fastSet.$items@{f fastSet :: f.$hx == ix}, list.Element.$lst@{e list.Element :: e.$lst == &ix.elements || e.$lst.$fs.$hx == ix};
  set hashIndex.$in@ix := ite(old(hkey(value) in dom(ix.values) && id in dom(ix.values[hkey(value)].m)), del(old(ix.$in), old(hel(ix.values[hkey(value)], id).Value)), old(ix.$in));
  hint in: old(hkey(value) in dom(ix.values) && id in dom(ix.values[hkey(value)].m)) ==> let e := old(hel(ix.values[hkey(value)], id)) :: ix.elements.$at[e.Value] == e;
  hint other: old(hkey(value) in dom(ix.values) && id in dom(ix.values[hkey(value)].m)) ==> forall d *list.Element :: {d.$lst} d.$lst == &ix.elements ==> d.Value != old(hel(ix.values[hkey(value)], id).Value);
  ensures gone: forall v any :: {v in ix.$in} v in ix.$in <==> old(v in ix.$in) && !(idOf(v) == id && ix.$val[v] == hkey(value));
}
contract hashIndex.find$2(in)(r) {
  props C05;
  pure;
  requires elem: is(*list.Element, in) && as(*list.Element, in) != nil;
  ensures value: r == as(*list.Element, in).Value;
}
contract hashIndex.find(ix, value)(r) {
  props C05;
  maintains fs, dl, hi;
  requires live: hxlive(ix);
  allocates listIterator, procIterator, iteratorWithSize, Iterator;
  ensures new: r != nil && !r.$on && sized(r) && (fresh(r) || nothing(r));
  hint held: let f := ix.values[hkey(value)] :: ix.values != nil && hkey(value) in dom(ix.values) ==> forall v any :: {v in ix.$in} v in ix.$in && ix.$val[v] == hkey(value) ==> f.m[idOf(v)].Value in f.$items && hel(f, idOf(v)).Value == v && is(*list.Element, f.m[idOf(v)].Value) && hel(f, idOf(v)) != nil;
  ensures all: forall v any :: {r.$todo[v]} {v in ix.$in} r.$todo[v] == ite(v in ix.$in && ix.$val[v] == hkey(value), 1, 0);
}
contract hashIndex.valueItr(ix)(r) {
  props C05;
  maintains fs, dl, hi;
  requires live: hxlive(ix);
  modifies list.List.$vals@ix.elements;
  allocates listIterator, Iterator;
  ensures new: r != nil && !r.$on && sized(r) && (fresh(r) || nothing(r));
  ensures all: forall v any :: {r.$todo[v]} {v in ix.$in} r.$todo[v] == ite(v in ix.$in, 1, 0);
}

# ---- indexes as the graph sees them ----
# The graph reaches an index only through this interface. hashIndex satisfies it by the contracts above (index.$in is its $in),
# so does setTree (58_settree.spec, apart from valueItr); both are assumed to be given values they can hold. What an index is made of (its sets and lists) is reached only through the index.

ghost index.$in : set[any];
ghost index.$val : gmap[any]any;    # the value an item was indexed under
ghost index.$g : *Graph;            # the graph the index belongs to
ghost index.$of : int;              # 1: nodes, 2: edges
ghost index.$key : string;
fn samekey(index, any, any) bool;   # the two values are the same key for the index
axiom samekey: forall ix index, a any :: {samekey(ix, a, a)} samekey(ix, a, a);

iface index.add(ix, value, id, item) {
  requires nn: ix != nil;
  requires [C05] item: isItem(item) && idOf(item) == id;
  requires [C05] new: forall v any :: {v in ix.$in} v in ix.$in ==> idOf(v) != id;
  modifies index.$in@ix, index.$val@ix;
  ensures in: ix.$in == add(old(ix.$in), item);
  ensures val: ix.$val == upd(old(ix.$val), item, value);
}
iface index.remove(ix, value, id) {
  requires nn: ix != nil;
  modifies index.$in@ix;
  ensures gone: forall v any :: {v in ix.$in} {v in old(ix.$in)} v in ix.$in <==> old(v in ix.$in) && !(idOf(v) == id && samekey(ix, ix.$val[v], value));
}
iface index.find(ix, value)(r) {
  requires nn: ix != nil;
  allocates Iterator;
  ensures new: r != nil && !r.$on && sized(r) && (fresh(r) || nothing(r));
  ensures all: forall v any :: {r.$todo[v]} {v in ix.$in} r.$todo[v] == ite(v in ix.$in && samekey(ix, ix.$val[v], value), 1, 0);
}
iface index.valueItr(ix)(r) {
  requires nn: ix != nil;
  allocates Iterator;
  ensures new: r != nil && !r.$on && sized(r) && (fresh(r) || nothing(r));
  ensures all: forall v any :: {r.$todo[v]} {v in ix.$in} r.$todo[v] == ite(v in ix.$in, 1, 0);
}
