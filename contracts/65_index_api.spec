# C04, C05: labels, properties and indexes through nodes, edges and graphs.

contract Graph.setNodeLabels(g, node, labels) {
  props C04;
  maintains graphs;
  maintains [C04] labels;
  requires ok: g != nil && node != nil && node.$lst == &g.allNodes;
  requires al: allocated(labels.M);
  modifies StringSet.M@node.labels, Node.$lab@node, linkedhashmap.Map.$keys, linkedhashmap.Map.$map, map[int]*list.Element, fastSet.$items, list.List.$at@{l list.List :: l.$em == nil}, list.Element.$lst@{e list.Element :: e.$lst.$em == nil}, fastSet.$lhm, fastSet.$lkey;
  allocates fastSet, list.List, list.Element, map[int]*list.Element, map[string]struct{};
  ensures labels: dom(node.labels.M) == dom(labels.M);
}
contract Node.SetLabels(node, labels) {
  props C04;
  maintains graphs;
  maintains [C04] labels;
  requires ok: node != nil && node.$lst != nil;
  requires al: allocated(labels.M);
  modifies StringSet.M@node.labels, Node.$lab@node, linkedhashmap.Map.$keys, linkedhashmap.Map.$map, map[int]*list.Element, fastSet.$items, list.List.$at@{l list.List :: l.$em == nil}, list.Element.$lst@{e list.Element :: e.$lst.$em == nil}, fastSet.$lhm, fastSet.$lkey;
  allocates fastSet, list.List, list.Element, map[int]*list.Element, map[string]struct{};
  ensures labels: dom(node.labels.M) == dom(labels.M);
}
contract Graph.GetNodesWithAllLabels(g, labels)(r) {
  props C04;
  maintains graphs;
  maintains [C04] labels;
  requires ok: g != nil && made(g);
  requires labels: len(labels.M) > 0;
  allocates listIterator, filterIterator, emptyIterator, iteratorWithSize, Iterator, Predicate;
  ensures new: r != nil && fresh(r) && !r.$on && nodesOnly(r) && sized(r);
  ensures all: forall n *Node :: {r.$todo[box(*Node, n)]} {n.$lst} r.$todo[box(*Node, n)] == ite(n.$lst == &g.allNodes && subset(labels, dom(n.labels.M)), 1, 0);
}

contract graphIndex.isNodePropertyIndexed(g, propertyName)(r) { inline; }
contract graphIndex.isEdgePropertyIndexed(g, propertyName)(r) { inline; }

# the value of one property of a node (edge) changes, and nothing else
contract Graph.setNodeProperty(g, node, key, value) {
  props C05;
  maintains graphs, indexes;
  requires ok: g != nil && node != nil && node.$lst == &g.allNodes && node.graph == g;
  modifies map[string]any@node.properties, Node.properties@node, AnyMap.$po@{m map[string]any :: fresh(m)}, index.$in@{ix index :: ix.$g == g && ix.$of == 1}, index.$val@{ix index :: ix.$g == g && ix.$of == 1};
  allocates properties;
  set AnyMap.$po@node.properties := box(*Node, node);
  ensures value: node.properties != nil && node.properties[key] == value && dom(node.properties) == add(old(dom(node.properties)), key);
  ensures kept: forall k string :: {k in dom(node.properties)} k != key && old(k in dom(node.properties)) ==> node.properties[k] == old(node.properties[k]);
}
contract Graph.removeNodeProperty(g, node, key) {
  props C05;
  maintains graphs, indexes;
  requires ok: g != nil && node != nil && node.$lst == &g.allNodes && node.graph == g;
  modifies map[string]any@node.properties, index.$in@{ix index :: ix.$g == g && ix.$of == 1};
  ensures gone: dom(node.properties) == del(old(dom(node.properties)), key);
  ensures kept: forall k string :: {k in dom(node.properties)} k in dom(node.properties) ==> node.properties[k] == old(node.properties[k]);
}
contract Graph.setEdgeProperty(g, edge, key, value) {
  props C05;
  maintains graphs, indexes;
  requires ok: g != nil && edge != nil && live(edge) && edge.from.graph == g;
  modifies map[string]any@edge.properties, Edge.properties@edge, AnyMap.$po@{m map[string]any :: fresh(m)}, index.$in@{ix index :: ix.$g == g && ix.$of == 2}, index.$val@{ix index :: ix.$g == g && ix.$of == 2};
  allocates properties;
  set AnyMap.$po@edge.properties := box(*Edge, edge);
  ensures value: edge.properties != nil && edge.properties[key] == value && dom(edge.properties) == add(old(dom(edge.properties)), key);
  ensures kept: forall k string :: {k in dom(edge.properties)} k != key && old(k in dom(edge.properties)) ==> edge.properties[k] == old(edge.properties[k]);
}
contract Graph.removeEdgeProperty(g, edge, key) {
  props C05;
  maintains graphs, indexes;
  requires ok: g != nil && edge != nil && live(edge) && edge.from.graph == g;
  modifies map[string]any@edge.properties, index.$in@{ix index :: ix.$g == g && ix.$of == 2};
  ensures gone: dom(edge.properties) == del(old(dom(edge.properties)), key);
  ensures kept: forall k string :: {k in dom(edge.properties)} k in dom(edge.properties) ==> edge.properties[k] == old(edge.properties[k]);
}

contract Node.SetProperty(node, key, value) {
  props C05;
  maintains graphs, indexes;
  requires ok: node != nil && node.$lst != nil;
  modifies map[string]any@node.properties, Node.properties@node, AnyMap.$po@{m map[string]any :: fresh(m)}, index.$in, index.$val;
  allocates properties;
  ensures value: node.properties != nil && node.properties[key] == value && dom(node.properties) == add(old(dom(node.properties)), key);
  ensures kept: forall k string :: {k in dom(node.properties)} k != key && old(k in dom(node.properties)) ==> node.properties[k] == old(node.properties[k]);
}
contract Node.RemoveProperty(node, key) {
  props C05;
  maintains graphs, indexes;
  requires ok: node != nil && node.$lst != nil;
  modifies map[string]any@node.properties, index.$in;
  ensures gone: dom(node.properties) == del(old(dom(node.properties)), key);
  ensures kept: forall k string :: {k in dom(node.properties)} k in dom(node.properties) ==> node.properties[k] == old(node.properties[k]);
}
contract Edge.SetProperty(edge, key, value) {
  props C05;
  maintains graphs, indexes;
  requires ok: edge != nil && live(edge);
  modifies map[string]any@edge.properties, Edge.properties@edge, AnyMap.$po@{m map[string]any :: fresh(m)}, index.$in, index.$val;
  allocates properties;
  ensures value: edge.properties != nil && edge.properties[key] == value && dom(edge.properties) == add(old(dom(edge.properties)), key);
  ensures kept: forall k string :: {k in dom(edge.properties)} k != key && old(k in dom(edge.properties)) ==> edge.properties[k] == old(edge.properties[k]);
}
contract Edge.RemoveProperty(edge, key) {
  props C05;
  maintains graphs, indexes;
  requires ok: edge != nil && live(edge);
  modifies map[string]any@edge.properties, index.$in;
  ensures gone: dom(edge.properties) == del(old(dom(edge.properties)), key);
  ensures kept: forall k string :: {k in dom(edge.properties)} k in dom(edge.properties) ==> edge.properties[k] == old(edge.properties[k]);
}

# looking up through an index: exactly the items with the property (and a value that is the same key)
contract graphIndex.NodesWithProperty(g, key)(r) {
  props C05;
  maintains graphs, indexes;
  requires ok: g != nil;
  allocates Iterator;
  ensures none: r == nil <==> !(key in dom(g.nodeProperties));
  ensures new: r != nil ==> !r.$on && sized(r) && (fresh(r) || nothing(r));
  ensures all: r != nil ==> forall v any :: {r.$todo[v]} {v in g.nodeProperties[key].$in} r.$todo[v] == ite(v in g.nodeProperties[key].$in, 1, 0);
}
contract graphIndex.EdgesWithProperty(g, key)(r) {
  props C05;
  maintains graphs, indexes;
  requires ok: g != nil;
  allocates Iterator;
  ensures none: r == nil <==> !(key in dom(g.edgeProperties));
  ensures new: r != nil ==> !r.$on && sized(r) && (fresh(r) || nothing(r));
  ensures all: r != nil ==> forall v any :: {r.$todo[v]} {v in g.edgeProperties[key].$in} r.$todo[v] == ite(v in g.edgeProperties[key].$in, 1, 0);
}
contract graphIndex.GetIteratorForNodeProperty(g, key, value)(r) {
  props C05;
  maintains graphs, indexes;
  requires ok: g != nil;
  allocates Iterator;
  ensures none: r == nil <==> !(key in dom(g.nodeProperties));
  ensures new: r != nil ==> !r.$on && sized(r) && (fresh(r) || nothing(r));
  ensures all: r != nil ==> let ix := g.nodeProperties[key] :: forall v any :: {r.$todo[v]} {v in ix.$in} r.$todo[v] == ite(v in ix.$in && samekey(ix, ix.$val[v], value), 1, 0);
}
contract graphIndex.GetIteratorForEdgeProperty(g, key, value)(r) {
  props C05;
  maintains graphs, indexes;
  requires ok: g != nil;
  allocates Iterator;
  ensures none: r == nil <==> !(key in dom(g.edgeProperties));
  ensures new: r != nil ==> !r.$on && sized(r) && (fresh(r) || nothing(r));
  ensures all: r != nil ==> let ix := g.edgeProperties[key] :: forall v any :: {r.$todo[v]} {v in ix.$in} r.$todo[v] == ite(v in ix.$in && samekey(ix, ix.$val[v], value), 1, 0);
}

contract Graph.GetNodesWithProperty$1(v)(r) {
  props C05;
  panics when is(*Node, v) && as(*Node, v) == nil;
  ensures has: r <==> is(*Node, v) && property in dom(as(*Node, v).properties);
  acc v: is(*Node, v) && property in dom(as(*Node, v).properties);
}
contract Graph.GetNodesWithProperty(g, property)(r) {
  props C05;
  maintains graphs, indexes;
  requires ok: g != nil;
  allocates Iterator, nodeListIterator, filterIterator, Predicate;
  ensures new: r != nil && !r.$on && (fresh(r) || nothing(r)) && nodesOnly(r);
  ensures all: forall n *Node :: {r.$todo[box(*Node, n)]} {n in g.allNodes.$set} r.$todo[box(*Node, n)] == ite(n in g.allNodes.$set && property in dom(n.properties), 1, 0);
}
contract Graph.GetEdgesWithProperty$1(v)(r) {
  props C05;
  panics when is(*Edge, v) && as(*Edge, v) == nil;
  ensures has: r <==> is(*Edge, v) && property in dom(as(*Edge, v).properties);
  acc v: is(*Edge, v) && property in dom(as(*Edge, v).properties);
}
contract Graph.GetEdgesWithProperty(g, property)(r) {
  props C05;
  maintains graphs, indexes;
  requires ok: g != nil;
  allocates Iterator, allEdgesItr, singleEdgeIterator, filterIterator, Predicate, edgeIterator;
  ensures new: r != nil && !r.$on && (fresh(r) || nothing(r)) && edgesOnly(r);
  ensures all: forall e *Edge :: {r.$todo[box(*Edge, e)]} {e in g.allEdges.$set} r.$todo[box(*Edge, e)] == ite(e in g.allEdges.$set && property in dom(e.properties), 1, 0);
}

# a new index is filled with what the graph already holds
contract graphIndex.NodePropertyIndex(g, propertyName, graph, it) {
  paths;
  props C05;
  maintains graphs, indexes;
  requires ok: graph != nil && allocated(graph) && g == &graph.index && g.nodeProperties != nil;
  modifies map[string]any@g.nodeProperties, index.$in@{ix index :: fresh(ix)}, index.$val@{ix index :: fresh(ix)}, index.$of@{ix index :: fresh(ix)}, index.$g@{ix index :: fresh(ix)}, index.$key@{ix index :: fresh(ix)};
  allocates setTree, hashIndex, nodeListIterator, Iterator, index;
  set index.$of@g.nodeProperties[propertyName] := 1;
  set index.$g@g.nodeProperties[propertyName] := graph;
  set index.$key@g.nodeProperties[propertyName] := propertyName;
  ensures there: dom(g.nodeProperties) == add(old(dom(g.nodeProperties)), propertyName);
  ensures kept: forall k string :: {k in dom(g.nodeProperties)} old(k in dom(g.nodeProperties)) ==> g.nodeProperties[k] == old(g.nodeProperties[k]);
  inv any (ni NodeIterator): ni != nil && fresh(ni) && nodesOnly(ni);
  inv any (ni NodeIterator, nx index): forall n *Node :: {ni.$todo[box(*Node, n)]} {box(*Node, n) in nx.$in} box(*Node, n) in nx.$in <==> n in graph.allNodes.$set && propertyName in dom(n.properties) && ni.$todo[box(*Node, n)] == 0;
  inv any (ni NodeIterator): forall n *Node :: {ni.$todo[box(*Node, n)]} 0 <= ni.$todo[box(*Node, n)] && ni.$todo[box(*Node, n)] <= ite(n in graph.allNodes.$set, 1, 0);
  inv any (nx index): forall n *Node :: {nx.$val[box(*Node, n)]} box(*Node, n) in nx.$in ==> nx.$val[box(*Node, n)] == n.properties[propertyName];
  inv any (nx index): forall v any :: {v in nx.$in} v in nx.$in ==> isNode(v);
}
contract graphIndex.EdgePropertyIndex(g, propertyName, graph, it) {
  paths;
  props C05;
  maintains graphs, indexes;
  requires ok: graph != nil && allocated(graph) && g == &graph.index && g.edgeProperties != nil;
  modifies Iterator.*@{i Iterator :: nothing(i)}, map[string]any@g.edgeProperties, index.$in@{ix index :: fresh(ix)}, index.$val@{ix index :: fresh(ix)}, index.$of@{ix index :: fresh(ix)}, index.$g@{ix index :: fresh(ix)}, index.$key@{ix index :: fresh(ix)};
  allocates setTree, hashIndex, allEdgesItr, singleEdgeIterator, Iterator, index;
  set index.$of@g.edgeProperties[propertyName] := 2;
  set index.$g@g.edgeProperties[propertyName] := graph;
  set index.$key@g.edgeProperties[propertyName] := propertyName;
  ensures there: dom(g.edgeProperties) == add(old(dom(g.edgeProperties)), propertyName);
  ensures kept: forall k string :: {k in dom(g.edgeProperties)} old(k in dom(g.edgeProperties)) ==> g.edgeProperties[k] == old(g.edgeProperties[k]);
  inv any (ni EdgeIterator): ni != nil && (fresh(ni) || nothing(ni)) && edgesOnly(ni);
  inv any (ni EdgeIterator, nx index): forall n *Edge :: {ni.$todo[box(*Edge, n)]} {box(*Edge, n) in nx.$in} box(*Edge, n) in nx.$in <==> n in graph.allEdges.$set && propertyName in dom(n.properties) && ni.$todo[box(*Edge, n)] == 0;
  inv any (ni EdgeIterator): forall n *Edge :: {ni.$todo[box(*Edge, n)]} 0 <= ni.$todo[box(*Edge, n)] && ni.$todo[box(*Edge, n)] <= ite(n in graph.allEdges.$set, 1, 0);
  inv any (nx index): forall n *Edge :: {nx.$val[box(*Edge, n)]} box(*Edge, n) in nx.$in ==> nx.$val[box(*Edge, n)] == n.properties[propertyName];
  inv any (nx index): forall v any :: {v in nx.$in} v in nx.$in ==> isEdge(v);
}
contract Graph.AddNodePropertyIndex(g, propertyName, ix) {
  props C05;
  maintains graphs, indexes;
  requires ok: g != nil && allocated(g) && g.index.nodeProperties != nil;
  modifies map[string]any@g.index.nodeProperties, index.$in@{x index :: fresh(x)}, index.$val@{x index :: fresh(x)}, index.$of@{x index :: fresh(x)}, index.$g@{x index :: fresh(x)}, index.$key@{x index :: fresh(x)};
  allocates setTree, hashIndex, nodeListIterator, Iterator, index;
  ensures there: dom(g.index.nodeProperties) == add(old(dom(g.index.nodeProperties)), propertyName);
  ensures kept: forall k string :: {k in dom(g.index.nodeProperties)} old(k in dom(g.index.nodeProperties)) ==> g.index.nodeProperties[k] == old(g.index.nodeProperties[k]);
}
contract Graph.AddEdgePropertyIndex(g, propertyName, ix) {
  props C05;
  maintains graphs, indexes;
  requires ok: g != nil && allocated(g) && g.index.edgeProperties != nil;
  modifies Iterator.*@{i Iterator :: nothing(i)}, map[string]any@g.index.edgeProperties, index.$in@{x index :: fresh(x)}, index.$val@{x index :: fresh(x)}, index.$of@{x index :: fresh(x)}, index.$g@{x index :: fresh(x)}, index.$key@{x index :: fresh(x)};
  allocates setTree, hashIndex, allEdgesItr, singleEdgeIterator, Iterator, index;
  ensures there: dom(g.index.edgeProperties) == add(old(dom(g.index.edgeProperties)), propertyName);
  ensures kept: forall k string :: {k in dom(g.index.edgeProperties)} old(k in dom(g.index.edgeProperties)) ==> g.index.edgeProperties[k] == old(g.index.edgeProperties[k]);
}

# ---- new graphs ----
contract newGraphIndex()(r) { inline; }
contract NewGraph()(r) {
  props C01, C02, C04, C05;
  maintains fs, dl, graphs, ids;
  maintains [C04] labels;
  maintains [C05] indexes;
  allocates Graph, NodeMap, linkedhashmap.Map, fastSet, list.List, map[int]*list.Element, map[string]index, edgeMap, nodeList;
  set linkedhashmap.Map.$nm@r.index.nodesByLabel.m := &r.index.nodesByLabel;
  set AnyMap.$fs@r.index.nodesByLabel.nolabels.m := &r.index.nodesByLabel.nolabels;
  set list.List.$fs@r.index.nodesByLabel.nolabels.l := &r.index.nodesByLabel.nolabels;
  set fastSet.$items@(&r.index.nodesByLabel.nolabels) := emptyset(any);
  set fastSet.$lhm@(&r.index.nodesByLabel.nolabels) := nil;
  set AnyMap.$po@r.index.nodeProperties := box(*graphIndex, &r.index);
  set AnyMap.$po@r.index.edgeProperties := box(*graphIndex, &r.index);
  ensures new: r != nil && fresh(r) && allocated(r) && r.index.nodeProperties != nil && r.index.edgeProperties != nil;
  ensures empty: (forall n *Node :: {n in r.allNodes.$set} !(n in r.allNodes.$set)) && (forall e *Edge :: {e in r.allEdges.$set} !(e in r.allEdges.$set)) && r.allNodes.n == 0 && r.allEdges.n == 0;
  ensures plain: forall k string :: {k in dom(r.index.nodeProperties)} {k in dom(r.index.edgeProperties)} !(k in dom(r.index.nodeProperties)) && !(k in dom(r.index.edgeProperties));
  ensures [C04] made: made(r);
}
