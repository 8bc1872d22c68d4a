# Iterators. $todo counts how often each value is still to be returned, $curr is the current value, $on tells that
# there is one, $max is the size hint (-1: unknown).
ghost Iterator.$todo : gmap[any]int;
ghost Iterator.$curr : any;
ghost Iterator.$on : bool;
ghost Iterator.$max : int;
# what a function that returns iterators has still to deliver
ghost Generator.$rest : gmap[any]int;

pred sized(it Iterator) := it.$max == -1 || bsize(it.$todo) <= it.$max;
pred nothing(it Iterator) := forall v any :: {it.$todo[v]} it.$todo[v] == 0;
pred isNode(v any) := is(*Node, v) && as(*Node, v) != nil;
pred isEdge(v any) := is(*Edge, v) && as(*Edge, v) != nil;
# an iterator handed out by the library: its own object, or nothing to return
pred good(it Iterator) := it != nil && !it.$on && sized(it);
pred nodesOnly(it Iterator) := forall v any :: {it.$todo[v]} it.$todo[v] > 0 ==> isNode(v);
pred edgesOnly(it Iterator) := forall v any :: {it.$todo[v]} it.$todo[v] > 0 ==> isEdge(v);

iface Iterator.Next(it)(r) {
  requires nn: it != nil;
  modifies Iterator.$todo@it, Iterator.$curr@it, Iterator.$on@it;
  ensures on: r <==> it.$on;
  ensures step: r ==> old(it.$todo)[it.$curr] >= 1;
  ensures rest: r ==> it.$todo == upd(old(it.$todo), it.$curr, old(it.$todo)[it.$curr] - 1);
  ensures done: !r ==> it.$todo == old(it.$todo) && forall v any :: {it.$todo[v]} it.$todo[v] == 0;
}
iface NodeIterator.Next(it)(r) {
  requires nn: it != nil;
  modifies Iterator.$todo@it, Iterator.$curr@it, Iterator.$on@it;
  ensures on: r <==> it.$on;
  ensures step: r ==> old(it.$todo)[it.$curr] >= 1;
  ensures rest: r ==> it.$todo == upd(old(it.$todo), it.$curr, old(it.$todo)[it.$curr] - 1);
  ensures done: !r ==> it.$todo == old(it.$todo) && forall v any :: {it.$todo[v]} it.$todo[v] == 0;
  ensures typed: r ==> isNode(it.$curr);
}
iface EdgeIterator.Next(it)(r) {
  requires nn: it != nil;
  modifies Iterator.$todo@it, Iterator.$curr@it, Iterator.$on@it;
  ensures on: r <==> it.$on;
  ensures step: r ==> old(it.$todo)[it.$curr] >= 1;
  ensures rest: r ==> it.$todo == upd(old(it.$todo), it.$curr, old(it.$todo)[it.$curr] - 1);
  ensures done: !r ==> it.$todo == old(it.$todo) && forall v any :: {it.$todo[v]} it.$todo[v] == 0;
  ensures typed: r ==> isEdge(it.$curr);
}
iface Iterator.Value(it)(r) {
  requires nn: it != nil;
  requires on: it.$on;
  ensures value: r == it.$curr;
}
iface Iterator.MaxSize(it)(r) {
  requires nn: it != nil;
  ensures max: r == it.$max;
}
iface NodeIterator.Node(it)(r) {
  requires nn: it != nil;
  requires on: it.$on;
  ensures value: r != nil && box(*Node, r) == it.$curr;
}
iface EdgeIterator.Edge(it)(r) {
  requires nn: it != nil;
  requires on: it.$on;
  ensures value: r != nil && box(*Edge, r) == it.$curr;
}
# a function used as a filter: the values it accepts; some accept a value only once
ghost Predicate.$acc : set[any];
ghost Predicate.$once : bool;
iface Predicate.call(f, v)(r) {
  requires allowed: callable(f, v);
  modifies Predicate.$acc@f;
  ensures acc: r <==> v in old(f.$acc);
  ensures once: f.$acc == ite(f.$once, del(old(f.$acc), v), old(f.$acc));
}
iface Generator.call(f)(r) {
  modifies Generator.$rest@f;
  allocates Iterator;
  ensures none: r == nil ==> f.$rest == old(f.$rest) && forall v any :: {f.$rest[v]} f.$rest[v] == 0;
  ensures some: r != nil ==> !r.$on && forall v any :: {r.$todo[v]} {f.$rest[v]} r.$todo[v] + f.$rest[v] == old(f.$rest)[v];
}

# ---- the iterator types ----

pred todo_emptyIterator(l emptyIterator, v any) := 0;
pred inv_emptyIterator(l emptyIterator) := true;
pred on_emptyIterator(l emptyIterator) := false;
pred curr_emptyIterator(l emptyIterator) := box(int, 0);
pred max_emptyIterator(l emptyIterator) := 0;
iterclass emptyIterator value { props C09, C03; }

pred todo_singleEdgeIterator(l *singleEdgeIterator, v any) := ite(!l.done && v == box(*Edge, l.edge), 1, 0);
pred inv_singleEdgeIterator(l *singleEdgeIterator) := l.edge != nil;
pred on_singleEdgeIterator(l *singleEdgeIterator) := l.done;
pred curr_singleEdgeIterator(l *singleEdgeIterator) := box(*Edge, l.edge);
pred max_singleEdgeIterator(l *singleEdgeIterator) := 1;
pred sup_singleEdgeIterator(l *singleEdgeIterator) := add(emptyset(any), box(*Edge, l.edge));
iterclass singleEdgeIterator { kind edge; props C09, C03; modifies singleEdgeIterator.done@l; }

pred todo_iteratorWithSize(l *iteratorWithSize, v any) := l.itr.$todo[v];
pred inv_iteratorWithSize(l *iteratorWithSize) := l.itr != nil;
pred on_iteratorWithSize(l *iteratorWithSize) := l.itr.$on;
pred curr_iteratorWithSize(l *iteratorWithSize) := l.itr.$curr;
pred max_iteratorWithSize(l *iteratorWithSize) := l.size;
iterclass iteratorWithSize { props C09; modifies Iterator.*@l.itr; }

pred kept_filterIterator(l *filterIterator, v any) := ite(v in l.filter.$acc, l.itr.$todo[v], 0);
pred todo_filterIterator(l *filterIterator, v any) := let k := kept_filterIterator(l, v) :: ite(l.filter.$once && k > 1, 1, k);
pred inv_filterIterator(l *filterIterator) := l.itr != nil && l.filter != nil && forall v any :: {l.itr.$todo[v]} l.itr.$todo[v] > 0 ==> callable(l.filter, v);
pred init_filterIterator(l *filterIterator) := sized(l.itr);
pred on_filterIterator(l *filterIterator) := l.itr.$on && l.current == l.itr.$curr;
pred curr_filterIterator(l *filterIterator) := l.current;
pred max_filterIterator(l *filterIterator) := l.itr.$max;
iterclass filterIterator { props C09, C03; modifies Iterator.*@l.itr, filterIterator.current@l, Predicate.$acc@l.filter;
  inv rest: forall v any :: {l.itr.$todo[v]} {v in l.filter.$acc} todo_filterIterator(l, v) == old(todo_filterIterator(l, v));
  inv less: forall v any :: {l.itr.$todo[v]} l.itr.$todo[v] <= old(l.itr.$todo[v]);
}

pred todo_funcIterator(l *funcIterator, v any) := ite(l.current == nil, 0, l.current.$todo[v]) + l.iteratorFunc.$rest[v];
pred inv_funcIterator(l *funcIterator) := l.iteratorFunc != nil;
pred on_funcIterator(l *funcIterator) := l.current != nil && l.current.$on;
pred curr_funcIterator(l *funcIterator) := l.current.$curr;
pred max_funcIterator(l *funcIterator) := -1;
iterclass funcIterator { props C09, C03; modifies Iterator.*@{i Iterator :: true}, funcIterator.current@l, Generator.$rest@l.iteratorFunc; allocates Iterator;
  inv sum: forall v any :: {l.iteratorFunc.$rest[v]} {l.current.$todo[v]} {old(l.iteratorFunc.$rest[v])} ite(l.current == nil, 0, l.current.$todo[v]) + l.iteratorFunc.$rest[v] == old(ite(l.current == nil, 0, l.current.$todo[v]) + l.iteratorFunc.$rest[v]);
}

contract withSize(itr, size)(r) {
  props C09;
  requires it: itr != nil;
  requires sized: size == -1 || bsize(itr.$todo) <= size;
  allocates iteratorWithSize, Iterator;
  ensures new: r != nil && fresh(r) && !r.$on && r.$max == size;
  ensures same: forall v any :: {r.$todo[v]} {itr.$todo[v]} r.$todo[v] == itr.$todo[v];
}

# ---- reading iterators ----

contract NodeSlice(in)(r) {
  props C09;
  requires it: in != nil;
  requires typed: nodesOnly(in);
  modifies Iterator.*@in;
  allocates []*Node;
  ensures all: forall n *Node :: {count(r, n)} count(r, n) == old(in.$todo[box(*Node, n)]);
  ensures done: nothing(in);
  ensures members: forall i int :: {r[i]} 0 <= i < len(r) ==> let e := r[i] :: e != nil && old(in.$todo[box(*Node, e)]) >= 1;
  ensures once: forall i int, j int :: {r[i], r[j]} 0 <= i < j && j < len(r) ==> let e := r[i] :: old(in.$todo[box(*Node, e)]) <= 1 ==> e != r[j];
  ensures found: forall n *Node :: {old(in.$todo[box(*Node, n)])} old(in.$todo[box(*Node, n)]) >= 1 ==> exists i int :: {r[i]} 0 <= i < len(r) && r[i] == n;
  hint counts: forall i int :: {r[i]} 0 <= i < len(r) ==> count(r, r[i]) >= 1;
  inv any (t []*Node): forall n *Node :: {count(t, n)} {in.$todo[box(*Node, n)]} {old(in.$todo[box(*Node, n)])} count(t, n) + in.$todo[box(*Node, n)] == old(in.$todo[box(*Node, n)]);
}
contract EdgeSlice(in)(r) {
  props C09;
  requires it: in != nil;
  requires typed: edgesOnly(in);
  modifies Iterator.*@in;
  allocates []*Edge;
  ensures all: forall n *Edge :: {count(r, n)} count(r, n) == old(in.$todo[box(*Edge, n)]);
  ensures done: nothing(in);
  ensures members: forall i int :: {r[i]} 0 <= i < len(r) ==> let e := r[i] :: e != nil && old(in.$todo[box(*Edge, e)]) >= 1;
  ensures once: forall i int, j int :: {r[i], r[j]} 0 <= i < j && j < len(r) ==> let e := r[i] :: old(in.$todo[box(*Edge, e)]) <= 1 ==> e != r[j];
  ensures found: forall n *Edge :: {old(in.$todo[box(*Edge, n)])} old(in.$todo[box(*Edge, n)]) >= 1 ==> exists i int :: {r[i]} 0 <= i < len(r) && r[i] == n;
  hint counts: forall i int :: {r[i]} 0 <= i < len(r) ==> count(r, r[i]) >= 1;
  inv any (t []*Edge): forall n *Edge :: {count(t, n)} {in.$todo[box(*Edge, n)]} {old(in.$todo[box(*Edge, n)])} count(t, n) + in.$todo[box(*Edge, n)] == old(in.$todo[box(*Edge, n)]);
}
contract nodeIterator.Node(n)(r) {
  props C09;
  requires it: n.Iterator != nil && n.Iterator.$on;
  requires typed: isNode(n.Iterator.$curr);
  ensures value: r != nil && box(*Node, r) == n.Iterator.$curr;
}
contract edgeIterator.Edge(n)(r) {
  props C09;
  requires it: n.Iterator != nil && n.Iterator.$on;
  requires typed: isEdge(n.Iterator.$curr);
  ensures value: r != nil && box(*Edge, r) == n.Iterator.$curr;
}

# ---- concatenation ----

contract MultiIterator$1()(r) {
  props C09;
  gen v: isum(iterators, v);
  requires its: forall i int :: {iterators[i]} 0 <= i < len(iterators) ==> iterators[i] != nil && !iterators[i].$on;
}
contract MultiIterator(iterators)(r) {
  props C09;
  requires its: forall i int :: {iterators[i]} 0 <= i < len(iterators) ==> iterators[i] != nil && !iterators[i].$on;
  requires own: forall i int, j int :: {iterators[i], iterators[j]} 0 <= i < j && j < len(iterators) ==> base(iterators[i]) != base(iterators[j]) || nothing(iterators[i]);
  allocates funcIterator, Iterator;
  ensures new: r != nil && fresh(r) && !r.$on && r.$max == -1;
  ensures sum: forall v any :: {r.$todo[v]} r.$todo[v] == old(isum(iterators, v));
}

# ---- removing duplicates ----

contract makeUniqueIterator$1(item)(r) {
  props C09;
  acc once v: !(v in dom(seenItems));
  requires map: seenItems != nil;
  requires hash: hashable(item);
  modifies map[any]struct{}@seenItems;
}
contract makeUniqueIterator(itr)(r) {
  props C09;
  requires it: itr != nil && sized(itr);
  requires hash: forall v any :: {itr.$todo[v]} itr.$todo[v] > 0 ==> hashable(v);
  allocates filterIterator, Iterator, map[any]struct{};
  ensures new: r != nil && fresh(r) && !r.$on && r.$max == itr.$max;
  ensures once: forall v any :: {r.$todo[v]} {itr.$todo[v]} r.$todo[v] == ite(itr.$todo[v] > 0, 1, 0);
}

# ---- nodes at the ends of edges ----

pred gone(in EdgeIterator, v any) := in.$todo[v] < old(in.$todo[v]);
contract TargetNodes(in)(r) {
  props C18, C09;
  requires it: in != nil;
  requires typed: edgesOnly(in);
  modifies Iterator.*@in;
  allocates []*Node, map[*Node]struct{};
  ensures once: forall n *Node :: {count(r, n)} 0 <= count(r, n) <= 1;
  ensures sound: forall n *Node :: {count(r, n)} count(r, n) == 1 ==> exists e *Edge :: {old(in.$todo[box(*Edge, e)])} e != nil && old(in.$todo[box(*Edge, e)]) > 0 && e.to == n;
  ensures complete: forall e *Edge :: {old(in.$todo[box(*Edge, e)])} e != nil && old(in.$todo[box(*Edge, e)]) > 0 ==> count(r, e.to) == 1;
  inv any (m map[*Node]struct{}): m != nil && fresh(m);
  inv any (m map[*Node]struct{}): forall e *Edge :: {in.$todo[box(*Edge, e)]} {old(in.$todo[box(*Edge, e)])} gone(in, box(*Edge, e)) ==> e.to in dom(m);
  inv any (m map[*Node]struct{}): forall n *Node :: {n in dom(m)} n in dom(m) ==> exists e *Edge :: {old(in.$todo[box(*Edge, e)])} e != nil && old(in.$todo[box(*Edge, e)]) > 0 && e.to == n;
  inv less: forall v any :: {in.$todo[v]} in.$todo[v] <= old(in.$todo[v]);
  inv any (t []*Node): forall n *Node :: {count(t, n)} {n in $visited} count(t, n) == ite(n in $visited, 1, 0);
}
contract SourceNodes(in)(r) {
  props C18, C09;
  requires it: in != nil;
  requires typed: edgesOnly(in);
  modifies Iterator.*@in;
  allocates []*Node, map[*Node]struct{};
  ensures once: forall n *Node :: {count(r, n)} 0 <= count(r, n) <= 1;
  ensures sound: forall n *Node :: {count(r, n)} count(r, n) == 1 ==> exists e *Edge :: {old(in.$todo[box(*Edge, e)])} e != nil && old(in.$todo[box(*Edge, e)]) > 0 && e.from == n;
  ensures complete: forall e *Edge :: {old(in.$todo[box(*Edge, e)])} e != nil && old(in.$todo[box(*Edge, e)]) > 0 ==> count(r, e.from) == 1;
  inv any (m map[*Node]struct{}): m != nil && fresh(m);
  inv any (m map[*Node]struct{}): forall e *Edge :: {in.$todo[box(*Edge, e)]} {old(in.$todo[box(*Edge, e)])} gone(in, box(*Edge, e)) ==> e.from in dom(m);
  inv any (m map[*Node]struct{}): forall n *Node :: {n in dom(m)} n in dom(m) ==> exists e *Edge :: {old(in.$todo[box(*Edge, e)])} e != nil && old(in.$todo[box(*Edge, e)]) > 0 && e.from == n;
  inv less: forall v any :: {in.$todo[v]} in.$todo[v] <= old(in.$todo[v]);
  inv any (t []*Node): forall n *Node :: {count(t, n)} {n in $visited} count(t, n) == ite(n in $visited, 1, 0);
}

# the node at the other end of an edge
pred endOf(node *Node, dir int, e *Edge) := ite(dir == 0 - 1 || dir == 0 && e.to == node, e.from, e.to);
pred todo_nodesFromEdgesIterator(l *nodesFromEdgesIterator, v any) := ite(isNode(v) && !(as(*Node, v).id in dom(l.seen)) && (exists e *Edge :: {box(*Edge, e)} e != nil && l.itr.$todo[box(*Edge, e)] > 0 && endOf(l.node, l.dir, e) == as(*Node, v)), 1, 0);
pred inv_nodesFromEdgesIterator(l *nodesFromEdgesIterator) := l.itr != nil && l.seen != nil && edgesOnly(l.itr)
  && (forall e *Edge :: {l.itr.$todo[box(*Edge, e)]} l.itr.$todo[box(*Edge, e)] > 0 ==> endOf(l.node, l.dir, e) != nil)
  && (forall e *Edge, f *Edge :: {l.itr.$todo[box(*Edge, e)], l.itr.$todo[box(*Edge, f)]} l.itr.$todo[box(*Edge, e)] > 0 && l.itr.$todo[box(*Edge, f)] > 0 && endOf(l.node, l.dir, e).id == endOf(l.node, l.dir, f).id ==> endOf(l.node, l.dir, e) == endOf(l.node, l.dir, f));
pred init_nodesFromEdgesIterator(l *nodesFromEdgesIterator) := sized(l.itr) && forall k int :: {k in dom(l.seen)} !(k in dom(l.seen));
pred on_nodesFromEdgesIterator(l *nodesFromEdgesIterator) := l.itr.$on && isEdge(l.itr.$curr) && endOf(l.node, l.dir, as(*Edge, l.itr.$curr)) != nil;
pred curr_nodesFromEdgesIterator(l *nodesFromEdgesIterator) := box(*Node, endOf(l.node, l.dir, as(*Edge, l.itr.$curr)));
pred max_nodesFromEdgesIterator(l *nodesFromEdgesIterator) := l.itr.$max;
iterclass nodesFromEdgesIterator { kind node; props C09, C18; modifies Iterator.*@l.itr, map[int]struct{}@l.seen;
  inv less: forall v any :: {l.itr.$todo[v]} l.itr.$todo[v] <= old(l.itr.$todo[v]);
  inv seen: dom(l.seen) == old(dom(l.seen));
  inv rest: forall v any :: {l.itr.$todo[v]} {old(l.itr.$todo[v])} l.itr.$todo[v] < old(l.itr.$todo[v]) ==> isEdge(v) && endOf(l.node, l.dir, as(*Edge, v)).id in dom(l.seen);
}
pred src_nodesFromEdgesIterator(l *nodesFromEdgesIterator) := l.itr.$todo;
pred img_nodesFromEdgesIterator(l *nodesFromEdgesIterator, v any) := box(*Node, endOf(l.node, l.dir, as(*Edge, v)));
# all edges of an iterator end in nodes of one graph
pred endsOk(itr EdgeIterator, node *Node, dir int) := edgesOnly(itr)
  && (forall e *Edge :: {itr.$todo[box(*Edge, e)]} itr.$todo[box(*Edge, e)] > 0 ==> endOf(node, dir, e) != nil)
  && (forall e *Edge, f *Edge :: {itr.$todo[box(*Edge, e)], itr.$todo[box(*Edge, f)]} itr.$todo[box(*Edge, e)] > 0 && itr.$todo[box(*Edge, f)] > 0 && endOf(node, dir, e).id == endOf(node, dir, f).id ==> endOf(node, dir, e) == endOf(node, dir, f));
contract newNodesFromEdges(node, itr, dir)(r) {
  props C18, C09;
  requires it: itr != nil && sized(itr);
  requires ends: endsOk(itr, node, dir);
  allocates nodesFromEdgesIterator, Iterator, map[int]struct{};
  ensures new: r != nil && fresh(r) && !r.$on && sized(r) && nodesOnly(r);
  ensures ends: forall n *Node :: {r.$todo[box(*Node, n)]} r.$todo[box(*Node, n)] == ite(n != nil && (exists e *Edge :: {box(*Edge, e)} e != nil && itr.$todo[box(*Edge, e)] > 0 && endOf(node, dir, e) == n), 1, 0);
}
