# C18: queries derived from the edges.

contract EdgesBetweenNodes(from, to)(r) {
  props C18;
  maintains graphs;
  requires from != nil;
  modifies Iterator.*@{i Iterator :: nothing(i)};
  allocates allEdgesItr, singleEdgeIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, []*Edge;
  ensures all: forall e *Edge :: {count(r, e)} {e in from.outgoing.$set} count(r, e) == ite(e in from.outgoing.$set && e.to == to, 1, 0);
  inv any (t []*Edge, it EdgeIterator): forall e *Edge :: {count(t, e)} {it.$todo[box(*Edge, e)]} {e in from.outgoing.$set} count(t, e) + ite(e.to == to, it.$todo[box(*Edge, e)], 0) == ite(e in from.outgoing.$set && e.to == to, 1, 0);
  inv any (it EdgeIterator): it != nil && (fresh(it) || nothing(it)) && edgesOnly(it);
}

# n is a source (sink): no edge enters (leaves) it
pred isSource(n *Node) := forall e *Edge :: {e in n.incoming.$set} !(e in n.incoming.$set);
pred isSink(n *Node) := forall e *Edge :: {e in n.outgoing.$set} !(e in n.outgoing.$set);

contract SourcesItr$1(item)(r) {
  props C18;
  maintains graphs;
  requires node: isNode(item);
  acc v: isSource(as(*Node, v));
  modifies Iterator.*@{i Iterator :: nothing(i)};
  allocates allEdgesItr, singleEdgeIterator, Iterator, funcIterator, iteratorWithSize, []Iterator;
}
contract SourcesItr(graph)(r) {
  props C18;
  maintains graphs;
  requires graph != nil;
  allocates nodeListIterator, filterIterator, Iterator;
  ensures new: r != nil && fresh(r) && !r.$on && sized(r) && nodesOnly(r);
  ensures all: forall n *Node :: {r.$todo[box(*Node, n)]} {n in graph.allNodes.$set} r.$todo[box(*Node, n)] == ite(n in graph.allNodes.$set && isSource(n), 1, 0);
}
contract Sources(graph)(r) {
  props C18;
  maintains graphs;
  requires graph != nil;
  allocates nodeListIterator, filterIterator, Iterator, []*Node;
  ensures all: forall n *Node :: {count(r, n)} {n in graph.allNodes.$set} count(r, n) == ite(n in graph.allNodes.$set && isSource(n), 1, 0);
}
contract SinksItr$1(item)(r) {
  props C18;
  maintains graphs;
  requires node: isNode(item);
  acc v: isSink(as(*Node, v));
  modifies Iterator.*@{i Iterator :: nothing(i)};
  allocates allEdgesItr, singleEdgeIterator, Iterator, funcIterator, iteratorWithSize, []Iterator;
}
contract SinksItr(graph)(r) {
  props C18;
  maintains graphs;
  requires graph != nil;
  allocates nodeListIterator, filterIterator, Iterator;
  ensures new: r != nil && fresh(r) && !r.$on && sized(r) && nodesOnly(r);
  ensures all: forall n *Node :: {r.$todo[box(*Node, n)]} {n in graph.allNodes.$set} r.$todo[box(*Node, n)] == ite(n in graph.allNodes.$set && isSink(n), 1, 0);
}
contract Sinks(graph)(r) {
  props C18;
  maintains graphs;
  requires graph != nil;
  allocates nodeListIterator, filterIterator, Iterator, []*Node;
  ensures all: forall n *Node :: {count(r, n)} {n in graph.allNodes.$set} count(r, n) == ite(n in graph.allNodes.$set && isSink(n), 1, 0);
}

# ---- cursors ----

contract Cursor.Edges(c, dir)(r) {
  props C18;
  maintains graphs;
  requires c != nil;
  allocates allEdgesItr, singleEdgeIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, edgeIterator;
  ensures new: r != nil && !r.$on && sized(r) && edgesOnly(r) && (fresh(r) || nothing(r));
  ensures all: forall e *Edge :: {r.$todo[box(*Edge, e)]} r.$todo[box(*Edge, e)] == ite(c.node == nil, 0, adj(c.node, dir, e));
}
contract Cursor.EdgesWith(c, dir, label)(r) {
  props C18;
  maintains graphs;
  requires c != nil;
  allocates edgeListIterator, singleEdgeIterator, emptyIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, edgeIterator;
  ensures new: r != nil && !r.$on && sized(r) && edgesOnly(r) && (fresh(r) || nothing(r));
  ensures all: forall e *Edge :: {r.$todo[box(*Edge, e)]} r.$todo[box(*Edge, e)] == ite(c.node != nil && e.label == label, adj(c.node, dir, e), 0);
}
contract Cursor.Nodes(c, dir)(r) {
  props C18;
  maintains graphs, ids;
  requires c != nil;
  allocates allEdgesItr, singleEdgeIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, nodesFromEdgesIterator, nodeIterator, map[int]struct{};
  ensures new: r != nil && !r.$on && sized(r) && nodesOnly(r) && (fresh(r) || nothing(r));
  ensures all: forall n *Node :: {r.$todo[box(*Node, n)]} r.$todo[box(*Node, n)] == ite(c.node != nil && n != nil && (exists e *Edge :: {box(*Edge, e)} adj(c.node, dir, e) > 0 && endOf(c.node, dir, e) == n), 1, 0);
}
contract Cursor.NodesWith(c, dir, label)(r) {
  props C18;
  maintains graphs, ids;
  requires c != nil;
  allocates edgeListIterator, emptyIterator, singleEdgeIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, nodesFromEdgesIterator, nodeIterator, map[int]struct{};
  ensures new: r != nil && !r.$on && sized(r) && nodesOnly(r) && (fresh(r) || nothing(r));
  ensures all: forall n *Node :: {r.$todo[box(*Node, n)]} r.$todo[box(*Node, n)] == ite(c.node != nil && n != nil && (exists e *Edge :: {box(*Edge, e)} e.label == label && adj(c.node, dir, e) > 0 && endOf(c.node, dir, e) == n), 1, 0);
}

# the shorthands
contract Cursor.Forward(c)(r) {
  props C18;
  maintains graphs;
  requires c != nil;
  allocates allEdgesItr, singleEdgeIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, edgeIterator;
  ensures all: r != nil && !r.$on && edgesOnly(r) && forall e *Edge :: {r.$todo[box(*Edge, e)]} r.$todo[box(*Edge, e)] == ite(c.node == nil, 0, adj(c.node, 1, e));
}
contract Cursor.ForwardWith(c, label)(r) {
  props C18;
  maintains graphs;
  requires c != nil;
  allocates edgeListIterator, singleEdgeIterator, emptyIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, edgeIterator;
  ensures all: r != nil && !r.$on && edgesOnly(r) && forall e *Edge :: {r.$todo[box(*Edge, e)]} r.$todo[box(*Edge, e)] == ite(c.node != nil && e.label == label, adj(c.node, 1, e), 0);
}
contract Cursor.Backward(c)(r) {
  props C18;
  maintains graphs;
  requires c != nil;
  allocates allEdgesItr, singleEdgeIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, edgeIterator;
  ensures all: r != nil && !r.$on && edgesOnly(r) && forall e *Edge :: {r.$todo[box(*Edge, e)]} r.$todo[box(*Edge, e)] == ite(c.node == nil, 0, adj(c.node, 0 - 1, e));
}
contract Cursor.BackwardWith(c, label)(r) {
  props C18;
  maintains graphs;
  requires c != nil;
  allocates edgeListIterator, singleEdgeIterator, emptyIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, edgeIterator;
  ensures all: r != nil && !r.$on && edgesOnly(r) && forall e *Edge :: {r.$todo[box(*Edge, e)]} r.$todo[box(*Edge, e)] == ite(c.node != nil && e.label == label, adj(c.node, 0 - 1, e), 0);
}
contract Cursor.NextNodes(c)(r) {
  props C18;
  maintains graphs, ids;
  requires c != nil;
  allocates allEdgesItr, singleEdgeIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, edgeIterator, nodesFromEdgesIterator, nodeIterator, map[int]struct{};
  ensures all: r != nil && !r.$on && nodesOnly(r) && forall n *Node :: {r.$todo[box(*Node, n)]} r.$todo[box(*Node, n)] == ite(c.node != nil && n != nil && (exists e *Edge :: {box(*Edge, e)} adj(c.node, 1, e) > 0 && endOf(c.node, 1, e) == n), 1, 0);
}
contract Cursor.NextNodesWith(c, label)(r) {
  props C18;
  maintains graphs, ids;
  requires c != nil;
  allocates edgeListIterator, singleEdgeIterator, emptyIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, edgeIterator, nodesFromEdgesIterator, nodeIterator, map[int]struct{};
  ensures all: r != nil && !r.$on && nodesOnly(r) && forall n *Node :: {r.$todo[box(*Node, n)]} r.$todo[box(*Node, n)] == ite(c.node != nil && n != nil && (exists e *Edge :: {box(*Edge, e)} e.label == label && adj(c.node, 1, e) > 0 && endOf(c.node, 1, e) == n), 1, 0);
}
contract Cursor.PrevNodes(c)(r) {
  props C18;
  maintains graphs, ids;
  requires c != nil;
  allocates allEdgesItr, singleEdgeIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, edgeIterator, nodesFromEdgesIterator, nodeIterator, map[int]struct{};
  ensures all: r != nil && !r.$on && nodesOnly(r) && forall n *Node :: {r.$todo[box(*Node, n)]} r.$todo[box(*Node, n)] == ite(c.node != nil && n != nil && (exists e *Edge :: {box(*Edge, e)} adj(c.node, 0 - 1, e) > 0 && endOf(c.node, 0 - 1, e) == n), 1, 0);
}
contract Cursor.PrevNodesWith(c, label)(r) {
  props C18;
  maintains graphs, ids;
  requires c != nil;
  allocates edgeListIterator, singleEdgeIterator, emptyIterator, Iterator, funcIterator, iteratorWithSize, []Iterator, edgeIterator, nodesFromEdgesIterator, nodeIterator, map[int]struct{};
  ensures all: r != nil && !r.$on && nodesOnly(r) && forall n *Node :: {r.$todo[box(*Node, n)]} r.$todo[box(*Node, n)] == ite(c.node != nil && n != nil && (exists e *Edge :: {box(*Edge, e)} e.label == label && adj(c.node, 0 - 1, e) > 0 && endOf(c.node, 0 - 1, e) == n), 1, 0);
}
