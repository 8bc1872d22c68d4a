# C01, C03: edge lists, edge maps, node lists.
#
# An edge has three list elements: 0 for the edges of its graph, 1 for the outgoing edges of its source, 2 for the incoming
# edges of its target. $lst is the list a list element is in, $rk its rank there, $em the edge map it is registered in.

identity edgeMap;

ghost edgeElement.$lst : *edgeList;
ghost edgeElement.$rk : int;
ghost edgeElement.$em : *edgeMap;
ghost edgeList.$ix : int;
ghost edgeList.$dead : bool;
ghost edgeList.$set : set[*Edge];
ghost edgeLabelList.$label : string;
ghost edgeLabelList.$map : *edgeMap;
ghost edgeMap.$set : set[*Edge];
ghost edgeMap.$ix : int;

# an edge list links exactly the edges in $set, in the order of their ranks
heapinv [C01, C03] el.slot: forall e *Edge, i int :: {e.listElements[i].$lst} e.listElements[i].$lst != nil ==> e != nil && 0 <= i < 3 && allocated(e) && allocated(e.listElements[i].$lst) && e.listElements[i].$lst.$ix == i && e in e.listElements[i].$lst.$set && !e.listElements[i].$lst.$dead;
heapinv [C01, C03] el.mem: forall L *edgeList, e *Edge :: {e in L.$set} e in L.$set && !L.$dead ==> L != nil && e != nil && 0 <= L.$ix < 3 && e.listElements[L.$ix].$lst == L;
heapinv [C01, C03] el.rank: forall e *Edge, f *Edge, i int :: {e.listElements[i].$rk, f.listElements[i].$rk} e.listElements[i].$lst != nil && e.listElements[i].$lst == f.listElements[i].$lst && e.listElements[i].$rk == f.listElements[i].$rk ==> e == f;
heapinv [C01, C03] el.head: forall L *edgeList :: {L.head} !L.$dead && L.head != nil ==> L.head in L.$set && L.head.listElements[L.$ix].prev == nil;
heapinv [C01, C03] el.tail: forall L *edgeList :: {L.tail} !L.$dead && L.tail != nil ==> L.tail in L.$set && L.tail.listElements[L.$ix].next == nil;
heapinv [C01, C03] el.first: forall e *Edge, i int :: {e.listElements[i].$lst.head} e.listElements[i].$lst != nil ==> e.listElements[i].$lst.head != nil && e.listElements[i].$lst.head.listElements[i].$rk <= e.listElements[i].$rk;
heapinv [C01, C03] el.last: forall e *Edge, i int :: {e.listElements[i].$lst.tail} e.listElements[i].$lst != nil ==> e.listElements[i].$lst.tail != nil && e.listElements[i].$rk <= e.listElements[i].$lst.tail.listElements[i].$rk;
heapinv [C01, C03] el.next: forall e *Edge, i int :: {e.listElements[i].next} e.listElements[i].$lst != nil ==> ite(e.listElements[i].next == nil, e.listElements[i].$lst.tail == e, e.listElements[i].next.listElements[i].$lst == e.listElements[i].$lst && e.listElements[i].next.listElements[i].prev == e && e.listElements[i].next.listElements[i].$rk > e.listElements[i].$rk);
heapinv [C01, C03] el.prev: forall e *Edge, i int :: {e.listElements[i].prev} e.listElements[i].$lst != nil ==> ite(e.listElements[i].prev == nil, e.listElements[i].$lst.head == e, e.listElements[i].prev.listElements[i].$lst == e.listElements[i].$lst && e.listElements[i].prev.listElements[i].next == e);
heapinv [C01, C03] el.gap: forall e *Edge, f *Edge, i int :: {e.listElements[i].next, f.listElements[i].$rk} e.listElements[i].$lst != nil && e.listElements[i].$lst == f.listElements[i].$lst && e.listElements[i].$rk < f.listElements[i].$rk ==> e.listElements[i].next != nil && e.listElements[i].next.listElements[i].$rk <= f.listElements[i].$rk;
heapinv [C01, C03] el.n: forall L *edgeList :: {len(L.$set)} !L.$dead ==> L.n == len(L.$set);

contract edgeList.add(list, edge, ix) {
  props C01, C03;
  maintains el;
  requires ok: list != nil && allocated(list) && edge != nil && allocated(edge) && 0 <= ix < 3 && !list.$dead;
  requires ix: list.$ix == ix || list.n == 0;
  requires free: edge.listElements[ix].$lst == nil;
  modifies edgeList.*@list, edgeElement.next@edge.listElements[ix], edgeElement.prev@edge.listElements[ix], edgeElement.$lst@edge.listElements[ix], edgeElement.$rk@edge.listElements[ix], edgeElement.next@list.tail.listElements[ix];
  set edgeElement.$lst@edge.listElements[ix] := list;
  set edgeElement.$rk@edge.listElements[ix] := ite(old(list.tail) == nil, 0, old(list.tail.listElements[ix].$rk) + 1);
  set edgeList.$ix@list := ix;
  set edgeList.$set@list := add(old(list.$set), edge);
  ensures dead: !list.$dead;
  ensures n: list.n == old(list.n) + 1;
}
contract edgeList.remove(list, edge, ix) {
  props C01, C03;
  maintains el;
  requires ok: list != nil && edge != nil && 0 <= ix < 3;
  requires in: edge.listElements[ix].$lst == list;
  modifies edgeList.*@list, edgeElement.next@edge.listElements[ix], edgeElement.prev@edge.listElements[ix], edgeElement.$lst@edge.listElements[ix], edgeElement.next@edge.listElements[ix].prev.listElements[ix], edgeElement.prev@edge.listElements[ix].next.listElements[ix];
  set edgeElement.$lst@edge.listElements[ix] := nil;
  set edgeList.$set@list := del(old(list.$set), edge);
  ensures dead: !list.$dead && list.$ix == ix;
  ensures n: list.n == old(list.n) - 1;
}

# ---- edge maps ----

# the label list of an element of a list of label lists
pred ellOf(d *list.Element) := as(*edgeLabelList, d.Value);

heapinv [C01, C03] em.slot: forall e *Edge, i int :: {e.listElements[i].$em} e.listElements[i].$em != nil ==> e != nil && 0 <= i < 3 && allocated(e) && allocated(e.listElements[i].$em) && e.listElements[i].$em.$ix == i && e in e.listElements[i].$em.$set;
heapinv [C01, C03] em.mem: forall m *edgeMap, e *Edge :: {e in m.$set} e in m.$set ==> m != nil && e != nil && 0 <= m.$ix < 3 && e.listElements[m.$ix].$em == m;
heapinv [C01, C03] em.n: forall m *edgeMap :: {m.n} {len(m.$set)} m.n == len(m.$set);
heapinv [C01, C03] em.one: forall m *edgeMap :: {m.only} m.n == 1 ==> m.only in m.$set;
heapinv [C01, C03] em.few: forall m *edgeMap, k string :: {k in dom(m.labelMap)} m.n <= 1 ==> !(k in dom(m.labelMap));
heapinv [C01, C03] em.unlisted: forall e *Edge, i int :: {e.listElements[i].$lst} e.listElements[i].$lst != nil ==> e.listElements[i].$em != nil && e.listElements[i].$em.n >= 2;
heapinv [C01, C03] em.listed: forall e *Edge, i int :: {e.listElements[i].$em} e.listElements[i].$em != nil && e.listElements[i].$em.n >= 2 ==> e.label in dom(e.listElements[i].$em.labelMap) && e.listElements[i].$lst == &ellOf(e.listElements[i].$em.labelMap[e.label]).edges;
heapinv [C01, C03] em.entry: forall m *edgeMap, k string :: {m.labelMap[k]} {k in dom(m.labelMap)} m.n >= 2 && k in dom(m.labelMap) ==> m.labelMap[k] != nil && m.labelMap[k].$lst == m.edgeLabelLists && ellOf(m.labelMap[k]).$label == k;
heapinv [C01, C03] em.nonempty: forall m *edgeMap, k string :: {ellOf(m.labelMap[k]).edges.head} m.n >= 2 && k in dom(m.labelMap) ==> ellOf(m.labelMap[k]).edges.head != nil;
heapinv [C01, C03] em.elem: forall d *list.Element :: {d.$lst} d.$lst != nil && d.$lst.$em != nil ==> d.$lst.$em.n >= 2 && d.$lst == d.$lst.$em.edgeLabelLists && is(*edgeLabelList, d.Value) && ellOf(d) != nil && allocated(ellOf(d)) && ellOf(d).elem == d && ellOf(d).$map == d.$lst.$em && !ellOf(d).edges.$dead && ellOf(d).edges.$ix == d.$lst.$em.$ix && ellOf(d).$label in dom(d.$lst.$em.labelMap) && d.$lst.$em.labelMap[ellOf(d).$label] == d;
heapinv [C01, C03] em.own: forall m *edgeMap :: {m.n} m.n >= 2 ==> m.labelMap != nil && m.edgeLabelLists != nil && m.edgeLabelLists.$em == m;
heapinv [C01, C03] em.mapown: forall m *edgeMap, k *edgeMap :: {m.labelMap, k.labelMap} m != k && m.labelMap != nil ==> m.labelMap != k.labelMap;
heapinv [C01, C03] em.alloc: forall m *edgeMap :: {m.labelMap} {m.edgeLabelLists} allocated(m.labelMap) && allocated(m.edgeLabelLists);
heapinv [C01, C03] em.label: forall e *Edge, i int :: {e.listElements[i].$lst} e.listElements[i].$lst != nil ==> ref(*edgeLabelList, parent(e.listElements[i].$lst)).$label == e.label && ref(*edgeLabelList, parent(e.listElements[i].$lst)).$map == e.listElements[i].$em;

group edgemaps := el, em, dl, fs;

contract edgeMap.add(em, edge, listIndex) {
  props C01, C03;
  maintains edgemaps;
  requires ok: em != nil && allocated(em) && edge != nil && allocated(edge) && 0 <= listIndex < 3;
  requires ix: em.$ix == listIndex || em.n == 0;
  requires free: edge.listElements[listIndex].$em == nil;
  modifies edgeMap.*@em, edgeElement.$em@edge.listElements[listIndex], edgeElement.next, edgeElement.prev, edgeElement.$lst, edgeElement.$rk, edgeList.*, edgeLabelList.$label@{l edgeLabelList :: fresh(l)}, edgeLabelList.$map@{l edgeLabelList :: fresh(l)}, map[string]*list.Element@em.labelMap, list.List.$at@{l list.List :: em.n >= 2 && l == em.edgeLabelLists};
  allocates list.List, list.Element, map[string]*list.Element, edgeLabelList;
  set edgeMap.$ix@em := listIndex;
  set edgeMap.$set@em := add(old(em.$set), edge);
  set edgeElement.$em@edge.listElements[listIndex] := em;
  set list.List.$em@{l list.List :: fresh(l) && l == em.edgeLabelLists && em.n >= 2} := em;
  set edgeLabelList.$label@{l edgeLabelList :: fresh(l)} := l.edges.head.label;
  set edgeLabelList.$map@{l edgeLabelList :: fresh(l)} := em;
  ensures n: em.n == old(em.n) + 1;
  ensures lists: forall d *list.Element :: {d.$lst} fresh(d) && d.$lst != nil ==> d.$lst.$em != nil;
}
contract edgeMap.isEmpty(em)(r) { props C01; requires em != nil; ensures r <==> em.n == 0; }
contract edgeMap.size(em)(r) { props C01; requires em != nil; ensures r == em.n; }
contract edgeMap.remove(em, edge, listIndex) {
  props C01, C03;
  maintains edgemaps;
  requires ok: em != nil && edge != nil && 0 <= listIndex < 3;
  requires in: edge.listElements[listIndex].$em == em;
  modifies edgeMap.*@em, edgeElement.$em@edge.listElements[listIndex], edgeElement.next, edgeElement.prev, edgeElement.$lst, edgeList.*, map[string]*list.Element@em.labelMap, list.Element.$lst@{d list.Element :: em.n >= 2 && d.$lst == em.edgeLabelLists}, list.List.$em@{l list.List :: em.n >= 2 && l == em.edgeLabelLists};
  allocates list.List, map[string]*list.Element;
  set edgeMap.$set@em := del(old(em.$set), edge);
  set edgeElement.$em@edge.listElements[listIndex] := nil;
  set edgeList.$dead@{L edgeList :: L.$dead || em.n == 1 && em.only.listElements[listIndex].$lst == L && L != nil} := true;
  set edgeElement.$lst@{s edgeElement :: em.n == 1 && s == &em.only.listElements[listIndex]} := nil;
  set list.List.$em@{l list.List :: em.n == 1 && l == old(em.edgeLabelLists)} := nil;
  ensures n: em.n == old(em.n) - 1;
  ensures ix: em.$ix == old(em.$ix);
  ensures out: forall d *list.Element :: {d.$lst} d.$lst == old(d.$lst) || d.$lst == nil;
  hint two: em.n == 1 ==> em.only == other(old(em.$set), edge) && forall e *Edge :: {e in old(em.$set)} e in old(em.$set) ==> e == edge || e == em.only;
  inv key: other(old(em.$set), edge) in old(em.$set) && other(old(em.$set), edge) != edge && other(old(em.$set), edge).label in dom(em.labelMap);
  inv only: forall k string :: {k in $visited} k in $visited ==> em.only == other(old(em.$set), edge);
}

# ---- iteration over edges ----

# e comes at or after n in the list of n
pred edgeFrom(n *Edge, i int, e *Edge) := n != nil && e != nil && e.listElements[i].$lst == n.listElements[i].$lst && e.listElements[i].$rk >= n.listElements[i].$rk;

pred todo_edgeListIterator(l *edgeListIterator, v any) := ite(is(*Edge, v) && edgeFrom(l.next, l.ix, as(*Edge, v)), 1, 0);
pred inv_edgeListIterator(l *edgeListIterator) := l.next != nil ==> l.next.listElements[l.ix].$lst != nil;
pred on_edgeListIterator(l *edgeListIterator) := l.current != nil;
pred curr_edgeListIterator(l *edgeListIterator) := box(*Edge, l.current);
pred max_edgeListIterator(l *edgeListIterator) := l.n;
pred sup_edgeListIterator(l *edgeListIterator) := boxset(*Edge, l.next.listElements[l.ix].$lst.$set);
iterclass edgeListIterator { kind edge; props C03, C09; maintains el; modifies edgeListIterator.*@l; }

# the label list whose edges an edge is linked with
pred labelListOf(e *Edge, i int) := ref(*edgeLabelList, parent(e.listElements[i].$lst));
pred laterList(d *list.Element, i int, e *Edge) := d != nil && e != nil && e.listElements[i].$lst != nil && labelListOf(e, i).elem.$lst == d.$lst && labelListOf(e, i).elem.$rk >= d.$rk;
pred todo_allEdgesItr(l *allEdgesItr, v any) := ite(is(*Edge, v) && (edgeFrom(l.next, l.ix, as(*Edge, v)) || laterList(l.labelListNext, l.ix, as(*Edge, v))), 1, 0);
pred inv_allEdgesItr(l *allEdgesItr) := (l.next != nil ==> l.next.listElements[l.ix].$lst != nil && l.labelListCurrent != nil && l.next.listElements[l.ix].$lst == &ellOf(l.labelListCurrent).edges)
  && (l.labelListCurrent == nil ==> l.labelListNext == nil)
  && (l.labelListCurrent != nil ==> l.labelListCurrent.$lst != nil && l.labelListCurrent.$lst.$em != nil && l.labelListCurrent.$lst.$em.$ix == l.ix)
  && (l.labelListNext != nil ==> after(l.labelListCurrent, l.labelListNext));
pred on_allEdgesItr(l *allEdgesItr) := l.current != nil;
pred curr_allEdgesItr(l *allEdgesItr) := box(*Edge, l.current);
pred max_allEdgesItr(l *allEdgesItr) := l.size;
pred sup_allEdgesItr(l *allEdgesItr) := boxset(*Edge, l.labelListCurrent.$lst.$em.$set);
iterclass allEdgesItr { kind edge; props C03, C09; maintains edgemaps; modifies allEdgesItr.*@l;
  inv same: l.ix == old(l.ix) && l.size == old(l.size);
  inv keep: inv_allEdgesItr(l);
  inv rest: forall e *Edge :: {e.listElements[l.ix].$rk} {e.listElements[l.ix].$lst} edgeFrom(l.next, l.ix, e) || laterList(l.labelListNext, l.ix, e) <==> old(edgeFrom(l.next, l.ix, e) || laterList(l.labelListNext, l.ix, e));
}

contract edgeMap.iterator(em, listIndex)(r) {
  props C03, C01, C09;
  maintains edgemaps;
  requires ix: em.n == 0 || em.$ix == listIndex;
  allocates allEdgesItr, singleEdgeIterator, Iterator;
  ensures new: r != nil && !r.$on && r.$max == em.n && sized(r) && edgesOnly(r);
  ensures own: fresh(r) || nothing(r);
  ensures all: forall e *Edge :: {r.$todo[box(*Edge, e)]} {e in em.$set} r.$todo[box(*Edge, e)] == ite(e in em.$set, 1, 0);
}
contract edgeMap.iteratorLabel(em, label, listIndex)(r) {
  props C03, C09;
  maintains edgemaps;
  requires ix: em.n == 0 || em.$ix == listIndex;
  allocates edgeListIterator, singleEdgeIterator, emptyIterator, Iterator;
  ensures new: r != nil && !r.$on && r.$max >= 0 && sized(r) && edgesOnly(r);
  ensures own: fresh(r) || nothing(r);
  ensures all: forall e *Edge :: {r.$todo[box(*Edge, e)]} {e in em.$set} r.$todo[box(*Edge, e)] == ite(e in em.$set && e.label == label, 1, 0);
}
contract edgeMap.iteratorAnyLabel$1()(r) {
  props C03, C09;
  maintains edgemaps;
  gen v: ite(isEdge(v) && as(*Edge, v) in em.$set, count(strings, as(*Edge, v).label), 0);
  requires ix: em.$ix == listIndex;
  requires em: em.edgeLabelLists == self(em).edgeLabelLists && em.labelMap == self(em).labelMap && em.only == self(em).only && em.n == self(em).n;
  requires many: em.n >= 2;
  inv rest: forall e *Edge :: {e in em.$set} e in em.$set ==> count(strings, e.label) == old(count(strings, e.label));
}
contract edgeMap.iteratorAnyLabel(em, labels, listIndex)(r) {
  props C03, C09;
  maintains edgemaps;
  requires ix: em.n == 0 || em.$ix == listIndex;
  allocates funcIterator, singleEdgeIterator, Iterator, []string;
  ensures new: r != nil && !r.$on && sized(r) && edgesOnly(r);
  ensures own: fresh(r) || nothing(r);
  ensures all: forall e *Edge :: {r.$todo[box(*Edge, e)]} {e in em.$set} r.$todo[box(*Edge, e)] == ite(e in em.$set && e.label in dom(labels.M), 1, 0);
}
