# C16: node and edge sets. container/list is an assumed dependency: $lst is the list an element is in, $rk its rank there.

ghost list.Element.$lst : *list.List;
# the element that holds a value (values occur at most once in the lists of this library)
ghost list.List.$at : gmap[any]*list.Element;
ghost list.Element.$rk : int;
# the key of the element in the set that holds it
ghost list.Element.$key : int;

# the edge map a list of label lists belongs to
ghost list.List.$em : *edgeMap;

pred after(e *list.Element, d *list.Element) := d.$lst == e.$lst && d.$rk > e.$rk;

# ranks identify the elements of a list, and elements refer to existing lists
heapinv dl.rank: forall e *list.Element, d *list.Element :: {e.$rk, d.$rk} e.$lst != nil && e.$lst == d.$lst && e.$rk == d.$rk ==> e == d;
heapinv dl.alloc: forall e *list.Element :: {e.$lst} allocated(e.$lst) && (e.$lst != nil ==> e != nil && allocated(e));

heapinv dl.at: forall e *list.Element :: {e.$lst} e.$lst != nil ==> e.$lst.$at[e.Value] == e;

# the value is in the list
pred inList(l *list.List, v any) := l.$at[v].$lst == l && l.$at[v].Value == v;

extern list.New()(l) {
  maintains dl;
  allocates list.List;
  ensures fresh: l != nil && fresh(l);
}
extern list.List.PushBack(l, v)(e) {
  maintains dl;
  requires l != nil;
  requires once: !inList(l, v);
  modifies list.List.$at@l;
  allocates list.Element;
  ensures at: l.$at == upd(old(l.$at), v, e);
  ensures new: e != nil && fresh(e) && e.$lst == l && e.Value == v;
  ensures others: forall d *list.Element :: {d.$lst} d != e ==> d.$lst == old(d.$lst);
  ensures last: forall d *list.Element :: {d.$rk} d.$lst == l && d != e ==> d.$rk < e.$rk;
}
extern list.List.Remove(l, e)(v) {
  maintains dl;
  requires l != nil && e != nil;
  requires in: e.$lst == l;
  modifies list.Element.$lst@e;
  ensures value: v == e.Value;
  ensures out: e.$lst == nil;
}
extern list.List.Front(l)(e) {
  maintains dl;
  requires l != nil;
  ensures none: e == nil ==> forall d *list.Element :: {d.$lst} d.$lst != l;
  ensures first: e != nil ==> e.$lst == l && forall d *list.Element :: {d.$lst} {d.$rk} d.$lst == l ==> e.$rk <= d.$rk;
}
# scratch: the values counted by Len
ghost list.List.$vals : set[any];
extern list.List.Len(l)(r) {
  maintains dl;
  requires l != nil;
  modifies list.List.$vals@l;
  ensures count: r == len(l.$vals);
  ensures vals: forall v any :: {v in l.$vals} {l.$at[v]} v in l.$vals <==> inList(l, v);
}
extern list.Element.Next(e)(r) {
  maintains dl;
  requires e != nil;
  requires in: e.$lst != nil;
  ensures none: r == nil ==> forall d *list.Element :: {d.$lst} {d.$rk} !after(e, d);
  ensures next: r != nil ==> after(e, r) && forall d *list.Element :: {d.$lst} {d.$rk} after(e, d) ==> r.$rk <= d.$rk;
}

identity fastSet, NodeSet, EdgeSet;

# the values of a fast set
ghost fastSet.$items : set[any];

# a fast set owns its map and list; list elements and map entries correspond
ghost AnyMap.$fs : *fastSet;
ghost list.List.$fs : *fastSet;
# a set in use (not one whose contents were moved to another fastSet)
pred fslive(f *fastSet) := f != nil && f.m != nil && f.m.$fs == f;

heapinv [C16] fs.own: forall f *fastSet :: {f.m} {f.l} fslive(f) ==> f.l.$fs == f;
heapinv [C16] fs.alloc: forall f *fastSet :: {f.m} {f.l} allocated(f.m) && allocated(f.l) && (f.m != nil <==> f.l != nil);
heapinv [C16] fs.noem: forall f *fastSet :: {f.l} f.l != nil ==> f.l.$em == nil;
heapinv [C16] fs.elem: forall f *fastSet, k int :: {f.m[k]} {k in dom(f.m)} fslive(f) && k in dom(f.m) ==> f.m[k] != nil && f.m[k].$lst == f.l && f.m[k].$key == k;
heapinv [C16] fs.all: forall e *list.Element :: {e.$lst} let f := e.$lst.$fs :: e.$lst != nil && fslive(f) && f.l == e.$lst ==> e.$key in dom(f.m) && f.m[e.$key] == e;
heapinv [C16] fs.items: forall f *fastSet, v any :: {v in f.$items} fslive(f) ==> (v in f.$items <==> inList(f.l, v));
heapinv [C16] fs.count: forall f *fastSet :: {f.m} fslive(f) ==> len(f.$items) == len(f.m);

contract newFastSet()(f) {
  props C16;
  maintains fs, dl, lm;
  allocates fastSet, list.List, map[int]*list.Element;
  set fastSet.$items@f := emptyset(any);
  set list.List.$em@f.l := nil;
  set fastSet.$lhm@f := nil;
  set AnyMap.$fs@f.m := f;
  set list.List.$fs@f.l := f;
  ensures new: f != nil && fresh(f) && fslive(f) && fresh(f.m) && fresh(f.l);
  ensures empty: forall k int :: {k in dom(f.m)} !(k in dom(f.m));
}
contract fastSet.init(f) {
  props C16;
  maintains fs, dl;
  requires f != nil;
  modifies fastSet.*@f;
  allocates list.List, map[int]*list.Element;
  set fastSet.$items@f := emptyset(any);
  set list.List.$em@f.l := nil;
  set fastSet.$lhm@f := nil;
  set AnyMap.$fs@f.m := f;
  set list.List.$fs@f.l := f;
  ensures new: fslive(f) && fresh(f.m) && fresh(f.l);
  ensures empty: forall k int :: {k in dom(f.m)} !(k in dom(f.m));
}
contract fastSet.size(f)(r) {
  props C16;
  ensures card: r == len(f.m);
}
contract fastSet.has(f, id)(r) {
  props C16;
  ensures member: r <==> id in dom(f.m);
}
contract fastSet.get(f, id)(v, ok) {
  props C16;
  maintains fs, dl;
  requires f != nil && (f.m == nil || fslive(f));
  ensures member: ok <==> id in dom(f.m);
  ensures value: ok ==> v == f.m[id].Value;
  ensures none: !ok ==> v == nil;
}
contract fastSet.add(f, id, item)(r) {
  props C16;
  maintains fs, dl;
  requires f != nil && fslive(f);
  requires once: !(item in f.$items) || id in dom(f.m);
  modifies map[int]*list.Element@f.m, fastSet.$items@f, list.List.$at@f.l;
  allocates list.Element;
  set list.Element.$key@f.m[id] := id;
  set fastSet.$items@f := ite(old(id in dom(f.m)), old(f.$items), add(old(f.$items), item));
  ensures added: r <==> !old(id in dom(f.m));
  ensures members: dom(f.m) == add(old(dom(f.m)), id);
  ensures kept: forall k int :: {f.m[k]} old(k in dom(f.m)) ==> f.m[k] == old(f.m[k]);
  ensures value: r ==> fresh(f.m[id]) && f.m[id].Value == item;
  ensures others: forall e *list.Element :: {e.$lst} e.$lst == old(e.$lst) || r && e == f.m[id];
}
contract fastSet.remove(f, id)(r) {
  props C16;
  maintains fs, dl;
  requires f != nil && (f.m == nil || fslive(f));
  modifies map[int]*list.Element@f.m, list.Element.$lst@f.m[id], fastSet.$items@f;
  set fastSet.$items@f := ite(old(id in dom(f.m)), del(old(f.$items), old(f.m[id].Value)), old(f.$items));
  ensures removed: r <==> old(id in dom(f.m));
  ensures out: old(id in dom(f.m)) ==> old(f.m[id]).$lst == nil;
  ensures members: dom(f.m) == del(old(dom(f.m)), id);
  ensures kept: forall k int :: {f.m[k]} k in dom(f.m) ==> f.m[k] == old(f.m[k]);
}

# Node and edge sets: the value stored under an id is the node (edge) with that id.
heapinv [C16] ns.val: forall s *NodeSet, k int :: {s.set.m[k]} {k in dom(s.set.m)} k in dom(s.set.m) ==> is(*Node, s.set.m[k].Value) && as(*Node, s.set.m[k].Value) != nil && as(*Node, s.set.m[k].Value).id == k && allocated(as(*Node, s.set.m[k].Value));
heapinv [C16] es.val: forall s *EdgeSet, k int :: {s.set.m[k]} {k in dom(s.set.m)} k in dom(s.set.m) ==> is(*Edge, s.set.m[k].Value) && as(*Edge, s.set.m[k].Value) != nil && as(*Edge, s.set.m[k].Value).id == k && allocated(as(*Edge, s.set.m[k].Value));

# n is a member of the set
pred inNS(s NodeSet, n *Node) := n.id in dom(s.set.m) && as(*Node, s.set.m[n.id].Value) == n;
pred inES(s EdgeSet, e *Edge) := e.id in dom(s.set.m) && as(*Edge, s.set.m[e.id].Value) == e;
# the nodes a set is used with come from one graph: two with the same id are the same
pred oneGraphN(s NodeSet, n *Node) := n.id in dom(s.set.m) ==> as(*Node, s.set.m[n.id].Value) == n;
pred oneGraphE(s EdgeSet, e *Edge) := e.id in dom(s.set.m) ==> as(*Edge, s.set.m[e.id].Value) == e;

contract NewNodeSet()(r) {
  props C16;
  maintains fs, dl, ns;
  allocates NodeSet, fastSet, list.List, map[int]*list.Element;
  ensures new: r != nil && fresh(r) && fslive(&r.set);
  ensures empty: forall k int :: {k in dom(r.set.m)} !(k in dom(r.set.m));
}
contract NodeSet.Add(set, node) {
  props C16;
  maintains fs, dl, ns;
  requires set != nil && fslive(&set.set) && node != nil && oneGraphN(*set, node);
  modifies map[int]*list.Element@set.set.m, fastSet.$items@set.set, list.List.$at@set.set.l;
  allocates list.Element;
  ensures members: forall n *Node :: {inNS(*set, n)} inNS(*set, n) <==> old(inNS(*set, n)) || n == node;
  ensures size: len(set.set.m) == old(len(set.set.m)) + ite(old(inNS(*set, node)), 0, 1);
}
contract NodeSet.Has(set, node)(r) {
  props C16;
  requires node != nil && oneGraphN(set, node);
  ensures member: r <==> inNS(set, node);
}
contract NodeSet.Len(set)(r) {
  props C16;
  ensures card: r == len(set.set.m);
}
contract NodeSet.Remove(set, node) {
  props C16;
  maintains fs, dl, ns;
  requires live: set.set.m == nil || fslive(self(set.set));
  requires node != nil && oneGraphN(set, node);
  modifies map[int]*list.Element@set.set.m, list.Element.$lst@set.set.m[node.id], fastSet.$items@set.set;
  ensures members: forall n *Node :: {inNS(set, n)} inNS(set, n) <==> old(inNS(set, n)) && n != node;
  ensures size: len(set.set.m) == old(len(set.set.m)) - ite(old(inNS(set, node)), 1, 0);
}
contract NewEdgeSet()(r) {
  props C16;
  maintains fs, dl, es;
  allocates EdgeSet, fastSet, list.List, map[int]*list.Element;
  ensures new: r != nil && fresh(r) && fslive(&r.set);
  ensures empty: forall k int :: {k in dom(r.set.m)} !(k in dom(r.set.m));
}
contract EdgeSet.Add(set, edge) {
  props C16;
  maintains fs, dl, es;
  requires set != nil && fslive(&set.set) && edge != nil && oneGraphE(*set, edge);
  modifies map[int]*list.Element@set.set.m, fastSet.$items@set.set, list.List.$at@set.set.l;
  allocates list.Element;
  ensures members: forall n *Edge :: {inES(*set, n)} inES(*set, n) <==> old(inES(*set, n)) || n == edge;
  ensures size: len(set.set.m) == old(len(set.set.m)) + ite(old(inES(*set, edge)), 0, 1);
}
contract EdgeSet.Has(set, edge)(r) {
  props C16;
  requires edge != nil && oneGraphE(set, edge);
  ensures member: r <==> inES(set, edge);
}
contract EdgeSet.Len(set)(r) {
  props C16;
  ensures card: r == len(set.set.m);
}
contract EdgeSet.Remove(set, edge) {
  props C16;
  maintains fs, dl, es;
  requires live: set.set.m == nil || fslive(self(set.set));
  requires edge != nil && oneGraphE(set, edge);
  modifies map[int]*list.Element@set.set.m, list.Element.$lst@set.set.m[edge.id], fastSet.$items@set.set;
  ensures members: forall n *Edge :: {inES(set, n)} inES(set, n) <==> old(inES(set, n)) && n != edge;
  ensures size: len(set.set.m) == old(len(set.set.m)) - ite(old(inES(set, edge)), 1, 0);
}

# ---- iteration ----

pred left_listIterator(l *listIterator, v any) := let e := l.next.$lst.$at[v] :: l.next != nil && e.$lst == l.next.$lst && e.Value == v && e.$rk >= l.next.$rk;
pred todo_listIterator(l *listIterator, v any) := ite(left_listIterator(l, v), 1, 0);
pred inv_listIterator(l *listIterator) := l.next != nil ==> l.next.$lst != nil;
pred on_listIterator(l *listIterator) := l.current != nil;
pred curr_listIterator(l *listIterator) := l.current.Value;
pred max_listIterator(l *listIterator) := l.size;
iterclass listIterator { props C16, C09, C05; maintains dl; modifies listIterator.*@l; }

contract fastSet.iterator(f)(r) {
  props C16;
  maintains fs, dl;
  requires init: fslive(self(f));
  allocates listIterator, Iterator;
  ensures new: r != nil && fresh(r) && !r.$on && r.$max == len(f.m);
  ensures all: forall v any :: {r.$todo[v]} {v in f.$items} {f.l.$at[v]} r.$todo[v] == ite(v in f.$items, 1, 0);
}
contract NodeSet.Iterator(set)(r) {
  props C16;
  maintains fs, dl, ns;
  requires init: fslive(self(set.set));
  allocates listIterator, Iterator;
  ensures new: r != nil && fresh(r) && !r.$on && r.$max == len(set.set.m);
  ensures all: forall n *Node :: {r.$todo[box(*Node, n)]} r.$todo[box(*Node, n)] == ite(n != nil && inNS(set, n), 1, 0);
  ensures typed: nodesOnly(r);
}
contract EdgeSet.Iterator(set)(r) {
  props C16;
  maintains fs, dl, es;
  requires init: fslive(self(set.set));
  allocates listIterator, Iterator;
  ensures new: r != nil && fresh(r) && !r.$on && r.$max == len(set.set.m);
  ensures all: forall n *Edge :: {r.$todo[box(*Edge, n)]} r.$todo[box(*Edge, n)] == ite(n != nil && inES(set, n), 1, 0);
  ensures typed: edgesOnly(r);
}
contract NodeSet.Slice(set)(r) {
  props C16;
  maintains fs, dl, ns;
  requires init: fslive(self(set.set));
  allocates listIterator, Iterator, []*Node;
  ensures all: forall n *Node :: {count(r, n)} count(r, n) == ite(n != nil && inNS(set, n), 1, 0);
}
contract EdgeSet.Slice(set)(r) {
  props C16;
  maintains fs, dl, es;
  requires init: fslive(self(set.set));
  allocates listIterator, Iterator, []*Edge;
  ensures all: forall n *Edge :: {count(r, n)} count(r, n) == ite(n != nil && inES(set, n), 1, 0);
}
