# The reading interface of graphs and nodes (C03, C09), and the creating functions built on the fast ones (C01, C02).

contract Graph.NumNodes(g)(r) { props C01, C03; maintains graphs; requires g != nil; ensures count: r == len(g.allNodes.$set); hint n: len(g.allNodes.$set) == g.allNodes.n; }
contract Graph.NumEdges(g)(r) { props C01, C03; maintains graphs; requires g != nil; ensures count: r == len(g.allEdges.$set); }
contract Graph.GetNodes(g)(r) {
  props C03, C09, C01;
  maintains graphs;
  requires g != nil;
  allocates nodeListIterator, Iterator;
  ensures new: r != nil && fresh(r) && !r.$on && r.$max == g.allNodes.n && sized(r) && nodesOnly(r);
  ensures all: forall n *Node :: {r.$todo[box(*Node, n)]} {n in g.allNodes.$set} r.$todo[box(*Node, n)] == ite(n in g.allNodes.$set, 1, 0);
}
contract Graph.GetEdges(g)(r) {
  props C03, C09, C01;
  maintains graphs;
  requires g != nil;
  allocates allEdgesItr, singleEdgeIterator, Iterator;
  ensures new: r != nil && !r.$on && r.$max == g.allEdges.n && sized(r) && edgesOnly(r);
  ensures own: fresh(r) || nothing(r);
  ensures all: forall e *Edge :: {r.$todo[box(*Edge, e)]} {e in g.allEdges.$set} r.$todo[box(*Edge, e)] == ite(e in g.allEdges.$set, 1, 0);
}
contract Graph.GetEdgesWithAnyLabel(g, set)(r) {
  props C03, C09;
  maintains graphs;
  requires g != nil;
  allocates funcIterator, singleEdgeIterator, Iterator, []string;
  ensures new: r != nil && !r.$on && sized(r) && edgesOnly(r);
  ensures own: fresh(r) || nothing(r);
  ensures all: forall e *Edge :: {r.$todo[box(*Edge, e)]} {e in g.allEdges.$set} r.$todo[box(*Edge, e)] == ite(e in g.allEdges.$set && e.label in dom(set.M), 1, 0);
}

# how often an edge is one of the edges of a node in a direction: loops count twice
pred adj(node *Node, dir int, e *Edge) := ite(dir != 1 && e in node.incoming.$set, 1, 0) + ite(dir != 0 - 1 && e in node.outgoing.$set, 1, 0);

contract Node.GetEdges(node, dir)(r) {
  props C03, C09, C01;
  maintains graphs;
  requires node != nil;
  allocates allEdgesItr, singleEdgeIterator, Iterator, funcIterator, iteratorWithSize, []Iterator;
  ensures new: r != nil && !r.$on && sized(r) && edgesOnly(r);
  ensures own: fresh(r) || nothing(r);
  ensures all: forall e *Edge :: {r.$todo[box(*Edge, e)]} {e in node.incoming.$set} {e in node.outgoing.$set} r.$todo[box(*Edge, e)] == adj(node, dir, e);
}
contract Node.GetEdgesWithLabel(node, dir, label)(r) {
  props C03, C09;
  maintains graphs;
  requires node != nil;
  allocates edgeListIterator, singleEdgeIterator, emptyIterator, Iterator, funcIterator, iteratorWithSize, []Iterator;
  ensures new: r != nil && !r.$on && sized(r) && edgesOnly(r);
  ensures own: fresh(r) || nothing(r);
  ensures all: forall e *Edge :: {r.$todo[box(*Edge, e)]} {e in node.incoming.$set} {e in node.outgoing.$set} r.$todo[box(*Edge, e)] == ite(e.label == label, adj(node, dir, e), 0);
}
contract Node.GetEdgesWithAnyLabel(node, dir, labels)(r) {
  props C03, C09;
  maintains graphs;
  requires node != nil;
  allocates allEdgesItr, singleEdgeIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, []string;
  ensures new: r != nil && !r.$on && sized(r) && edgesOnly(r);
  ensures own: fresh(r) || nothing(r);
  ensures all: forall e *Edge :: {r.$todo[box(*Edge, e)]} {e in node.incoming.$set} {e in node.outgoing.$set} r.$todo[box(*Edge, e)] == ite(len(labels.M) == 0 || e.label in dom(labels.M), adj(node, dir, e), 0);
}

contract NextNodesWith(source, label)(r) {
  props C18, C03;
  maintains graphs;
  requires source != nil;
  allocates edgeListIterator, singleEdgeIterator, emptyIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, []*Node, map[*Node]struct{};
  modifies Iterator.*@{i Iterator :: nothing(i)};
  ensures once: forall n *Node :: {count(r, n)} 0 <= count(r, n) <= 1;
  ensures sound: forall n *Node :: {count(r, n)} count(r, n) == 1 ==> exists e *Edge :: {e in source.outgoing.$set} e in source.outgoing.$set && e.label == label && e.to == n;
  ensures complete: forall e *Edge :: {e in source.outgoing.$set} e in source.outgoing.$set && e.label == label ==> count(r, e.to) == 1;
}
contract PrevNodesWith(source, label)(r) {
  props C18, C03;
  maintains graphs;
  requires source != nil;
  allocates edgeListIterator, singleEdgeIterator, emptyIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, []*Node, map[*Node]struct{};
  modifies Iterator.*@{i Iterator :: nothing(i)};
  ensures once: forall n *Node :: {count(r, n)} 0 <= count(r, n) <= 1;
  ensures sound: forall n *Node :: {count(r, n)} count(r, n) == 1 ==> exists e *Edge :: {e in source.incoming.$set} e in source.incoming.$set && e.label == label && e.from == n;
  ensures complete: forall e *Edge :: {e in source.incoming.$set} e in source.incoming.$set && e.label == label ==> count(r, e.from) == 1;
}

# ---- creating nodes and edges ----

# a copy of a property map: nothing is shared with it
pred copyOf(p properties, m map[string]any) := ite(len(m) == 0, p == nil, p != nil && fresh(p) && dom(p) == dom(m) && forall k string :: {p[k]} k in dom(m) ==> p[k] == m[k]);

contract properties.clone(p, sourceGraph, targetGraph, cloneProperty)(r) {
  props C12;
  requires cloneProperty != nil && forall k string, v any :: {callable(cloneProperty, k, v)} callable(cloneProperty, k, v);
  allocates properties;
  ensures new: r != nil && fresh(r) && dom(r) == dom(p);
  ensures values: forall k string :: {r[k]} k in dom(p) ==> r[k] == app(cloneProperty, k, p[k]);
  inv any (m properties): m != nil && fresh(m) && (forall k string :: {k in dom(m)} k in dom(m) <==> k in $visited) && forall k string :: {m[k]} k in $visited ==> m[k] == app(cloneProperty, k, p[k]);
}
contract Graph.NewNode(g, labels, props)(r) {
  props C01, C02, C04, C05, C12;
  maintains graphs, ids;
  maintains [C04] labels;
  maintains [C05] indexes;
  requires [C04] made: made(g);
  requires ok: g != nil && allocated(g);
  modifies AnyMap.$po@{m map[string]any :: fresh(m) || m == nil}, nodeList.*@g.allNodes, Node.next@g.allNodes.tail, Graph.idBase@g, index.$in, index.$val, NodeMap.$ids, Node.$nm@{n Node :: fresh(n)}, Node.$lab@{n Node :: fresh(n)}, linkedhashmap.Map.$keys, linkedhashmap.Map.$map, map[int]*list.Element, fastSet.$items, list.List.$at@{l list.List :: l.$em == nil}, fastSet.$lhm, fastSet.$lkey;
  allocates Node, list.List, list.Element, map[string]*list.Element, map[int]*list.Element, fastSet, edgeLabelList, properties, map[string]struct{};
  ensures new: r != nil && fresh(r) && r.graph == g;
  ensures labels: forall k string :: {k in dom(r.labels.M)} k in dom(r.labels.M) <==> inSl(k, labels, len(labels));
  ensures props: copyOf(r.properties, props);
  ensures added: r.$lst == &g.allNodes && g.allNodes.$set == add(old(g.allNodes.$set), r);
  ensures count: g.allNodes.n == old(g.allNodes.n) + 1;
  ensures id: r.id == old(g.idBase) && g.idBase == old(g.idBase) + 1;
  inv any (m properties): m != nil && fresh(m) && (forall k string :: {k in dom(m)} k in dom(m) <==> k in $visited) && forall k string :: {m[k]} k in $visited ==> m[k] == props[k];
}
contract Graph.NewEdge(g, from, to, label, props)(r) {
  props C01, C02, C03, C05, C12;
  maintains graphs, ids;
  maintains [C05] indexes;
  requires ok: g != nil && allocated(g) && from != nil && to != nil && allocated(from) && allocated(to);
  requires live: from.$lst != nil && to.$lst != nil;
  panics when from.graph != g || to.graph != g;
  modifies AnyMap.$po@{m map[string]any :: fresh(m) || m == nil}, edgeMap.*@to.incoming, edgeMap.*@from.outgoing, edgeMap.*@g.allEdges, edgeElement.$em@{s edgeElement :: fresh(s)}, edgeElement.next, edgeElement.prev, edgeElement.$lst, edgeElement.$rk, edgeList.*, edgeLabelList.$label@{l edgeLabelList :: fresh(l)}, edgeLabelList.$map@{l edgeLabelList :: fresh(l)}, Graph.idBase@g, map[string]*list.Element, list.Element.$lst, list.List.$em, list.List.$at, index.$in, index.$val;
  allocates Edge, list.List, list.Element, map[string]*list.Element, edgeLabelList, properties;
  ensures new: r != nil && fresh(r) && live(r) && r.from == from && r.to == to && r.label == label;
  ensures props: copyOf(r.properties, props);
  ensures added: g.allEdges.$set == add(old(g.allEdges.$set), r);
  ensures count: g.allEdges.n == old(g.allEdges.n) + 1;
  ensures id: r.id == old(g.idBase) && g.idBase == old(g.idBase) + 1;
  inv any (m properties): m != nil && fresh(m) && (forall k string :: {k in dom(m)} k in dom(m) <==> k in $visited) && forall k string :: {m[k]} k in $visited ==> m[k] == props[k];
}

# ---- detaching and removing through nodes ----
contract Node.Detach(node) {
  props C01, C05;
  maintains graphs;
  maintains [C05] indexes;
  requires ok: node != nil && node.$lst != nil;
  modifies edgeMap.*, edgeElement.*, edgeList.*, map[string]*list.Element, list.Element.$lst, list.List.$em, list.List.$at, index.$in, index.$val, Iterator.*@{i Iterator :: nothing(i)};
  allocates list.List, list.Element, map[string]*list.Element, edgeLabelList, []*Edge, Iterator, allEdgesItr, singleEdgeIterator;
  ensures detached: forall e *Edge :: {e.listElements[0].$em} live(e) <==> old(live(e)) && e.from != node && e.to != node;
  ensures empty: node.incoming.n == 0 && node.outgoing.n == 0;
}
contract Node.DetachAndRemove(node) {
  props C01, C04, C05;
  maintains graphs;
  maintains [C04] labels;
  maintains [C05] indexes;
  requires ok: node != nil && node.$lst != nil;
  modifies edgeMap.*, edgeElement.*, edgeList.*, map[string]*list.Element, list.Element.$lst, list.List.$em, list.List.$at, index.$in, index.$val, map[int]*list.Element, fastSet.$items, fastSet.$lhm, linkedhashmap.Map.$keys, Node.$nm@node, Iterator.*@{i Iterator :: nothing(i)}, nodeList.*@node.graph.allNodes, Node.next@node.prev, Node.prev@node.next, Node.$lst@node;
  allocates list.List, list.Element, map[string]*list.Element, map[int]*list.Element, fastSet, edgeLabelList, []*Edge, Iterator, allEdgesItr, singleEdgeIterator;
  ensures detached: forall e *Edge :: {e.listElements[0].$em} live(e) <==> old(live(e)) && e.from != node && e.to != node;
  ensures removed: node.$lst == nil && node.graph.allNodes.$set == del(old(node.graph.allNodes.$set), node);
  ensures count: node.graph.allNodes.n == old(node.graph.allNodes.n) - 1;
}

contract ForEachNode(g, predicate)(r) {
  props C01;
  maintains graphs;
  requires ok: g != nil && predicate != nil && forall n *Node :: {callable(predicate, n)} callable(predicate, n);
  allocates nodeListIterator, Iterator;
  modifies Iterator.*@{i Iterator :: nothing(i)};
  ensures all: r <==> forall n *Node :: {n in g.allNodes.$set} n in g.allNodes.$set ==> app(predicate, n);
  inv any (it NodeIterator): it != nil && (fresh(it) || nothing(it)) && nodesOnly(it);
  inv any (it NodeIterator): forall n *Node :: {it.$todo[box(*Node, n)]} {n in g.allNodes.$set} n in g.allNodes.$set ==> it.$todo[box(*Node, n)] > 0 || app(predicate, n);
  inv any (it NodeIterator): forall n *Node :: {it.$todo[box(*Node, n)]} it.$todo[box(*Node, n)] > 0 ==> n in g.allNodes.$set;
}
