# C12: copying nodes, edges and graphs. $src is the node (edge) an object was copied from, $cp the last copy of a source object in a graph.

ghost Node.$src : *Node;
ghost Edge.$src : *Edge;
ghost Graph.$cp : gmap[*Edge]*Edge;


# r is a copy of n: same labels, transformed properties, nothing shared
pred sameLabels(a StringSet, b StringSet) := forall k string :: {k in dom(a.M)} {k in dom(b.M)} k in dom(a.M) <==> k in dom(b.M);

contract Graph.cloneNode(g, sourceGraph, sourceNode, cloneProperty)(r) {
  props C01, C02, C04, C05, C12;
  maintains graphs, ids;
  maintains [C04] labels;
  maintains [C05] indexes;
  requires [C04] made: made(g);
  requires ok: g != nil && allocated(g) && sourceNode != nil;
  requires fn: cloneProperty != nil && forall k string, v any :: {callable(cloneProperty, k, v)} callable(cloneProperty, k, v);
  modifies AnyMap.$po@{m map[string]any :: fresh(m) || m == nil}, nodeList.*@g.allNodes, Node.next@g.allNodes.tail, Graph.idBase@g, index.$in, index.$val, NodeMap.$ids, Node.$nm@{n Node :: fresh(n)}, Node.$lab@{n Node :: fresh(n)}, linkedhashmap.Map.$keys, linkedhashmap.Map.$map, map[int]*list.Element, fastSet.$items, list.List.$at@{l list.List :: l.$em == nil}, fastSet.$lhm, fastSet.$lkey;
  allocates Node, list.List, list.Element, map[string]*list.Element, map[int]*list.Element, fastSet, edgeLabelList, properties, map[string]struct{};
  set Node.$src@r := sourceNode;
  ensures new: r != nil && fresh(r) && r.graph == g;
  ensures added: r.$lst == &g.allNodes && g.allNodes.$set == add(old(g.allNodes.$set), r);
  ensures count: g.allNodes.n == old(g.allNodes.n) + 1;
  ensures id: r.id == old(g.idBase) && g.idBase == old(g.idBase) + 1;
  ensures labels: sameLabels(r.labels, sourceNode.labels);
  ensures own: r.labels.M == nil || r.labels.M == sourceNode.labels.M || fresh(r.labels.M) && allocated(r.labels.M);
  ensures properties: ite(sourceNode.properties == nil, r.properties == nil, r.properties != nil && fresh(r.properties) && allocated(r.properties) && dom(r.properties) == dom(sourceNode.properties));
  ensures values: forall k string :: {k in dom(sourceNode.properties)} k in dom(sourceNode.properties) ==> r.properties[k] == app(cloneProperty, k, sourceNode.properties[k]);
}
contract Graph.cloneEdge(g, from, to, sourceEdge, cloneProperty)(r) {
  props C01, C02, C03, C05, C12;
  maintains graphs, ids;
  maintains [C05] indexes;
  requires ok: g != nil && allocated(g) && from != nil && to != nil && allocated(from) && allocated(to) && sourceEdge != nil;
  requires live: from.$lst != nil && to.$lst != nil;
  requires fn: cloneProperty != nil && forall k string, v any :: {callable(cloneProperty, k, v)} callable(cloneProperty, k, v);
  panics when from.graph != g || to.graph != g;
  modifies AnyMap.$po@{m map[string]any :: fresh(m) || m == nil}, edgeMap.*@to.incoming, edgeMap.*@from.outgoing, edgeMap.*@g.allEdges, edgeElement.$em@{s edgeElement :: fresh(s)}, edgeElement.next, edgeElement.prev, edgeElement.$lst, edgeElement.$rk, edgeList.*, edgeLabelList.$label@{l edgeLabelList :: fresh(l)}, edgeLabelList.$map@{l edgeLabelList :: fresh(l)}, Graph.idBase@g, Graph.$cp@g, map[string]*list.Element, list.Element.$lst, list.List.$em, list.List.$at, index.$in, index.$val;
  allocates Edge, list.List, list.Element, map[string]*list.Element, edgeLabelList, properties;
  set Edge.$src@r := sourceEdge;
  set Graph.$cp@g := upd(old(g.$cp), sourceEdge, r);
  set AnyMap.$po@r.properties := box(*Edge, r);
  ensures new: r != nil && fresh(r) && live(r) && r.from == from && r.to == to && r.label == sourceEdge.label;
  ensures added: g.allEdges.$set == add(old(g.allEdges.$set), r);
  ensures count: g.allEdges.n == old(g.allEdges.n) + 1;
  ensures id: r.id == old(g.idBase) && g.idBase == old(g.idBase) + 1;
  ensures properties: ite(sourceEdge.properties == nil, r.properties == nil, r.properties != nil && fresh(r.properties) && allocated(r.properties) && dom(r.properties) == dom(sourceEdge.properties));
  ensures values: forall k string :: {k in dom(sourceEdge.properties)} k in dom(sourceEdge.properties) ==> r.properties[k] == app(cloneProperty, k, sourceEdge.properties[k]);
}
contract CloneEdge(from, to, edge, target, clonePropertyFunc)(r) {
  props C01, C02, C03, C05, C12;
  maintains graphs, ids;
  maintains [C05] indexes;
  requires ok: target != nil && allocated(target) && from != nil && to != nil && allocated(from) && allocated(to) && edge != nil;
  requires live: from.$lst != nil && to.$lst != nil;
  requires fn: clonePropertyFunc != nil && forall k string, v any :: {callable(clonePropertyFunc, k, v)} callable(clonePropertyFunc, k, v);
  panics when from.graph != target || to.graph != target;
  modifies AnyMap.$po@{m map[string]any :: fresh(m) || m == nil}, edgeMap.*@to.incoming, edgeMap.*@from.outgoing, edgeMap.*@target.allEdges, edgeElement.$em@{s edgeElement :: fresh(s)}, edgeElement.next, edgeElement.prev, edgeElement.$lst, edgeElement.$rk, edgeList.*, edgeLabelList.$label@{l edgeLabelList :: fresh(l)}, edgeLabelList.$map@{l edgeLabelList :: fresh(l)}, Graph.idBase@target, Graph.$cp@target, map[string]*list.Element, list.Element.$lst, list.List.$em, list.List.$at, index.$in, index.$val;
  allocates Edge, list.List, list.Element, map[string]*list.Element, edgeLabelList, properties;
  set Edge.$src@r := edge;
  set Graph.$cp@target := upd(old(target.$cp), edge, r);
  set AnyMap.$po@r.properties := box(*Edge, r);
  ensures new: r != nil && fresh(r) && live(r) && r.from == from && r.to == to && r.label == edge.label;
  ensures added: target.allEdges.$set == add(old(target.allEdges.$set), r);
  ensures count: target.allEdges.n == old(target.allEdges.n) + 1;
  ensures id: r.id == old(target.idBase) && target.idBase == old(target.idBase) + 1;
  ensures properties: ite(edge.properties == nil, r.properties == nil, r.properties != nil && fresh(r.properties) && allocated(r.properties) && dom(r.properties) == dom(edge.properties));
  ensures values: forall k string :: {k in dom(edge.properties)} k in dom(edge.properties) ==> r.properties[k] == app(clonePropertyFunc, k, edge.properties[k]);
}
contract CopyEdge(edge, target, clonePropertyFunc, nodeMap)(r) {
  props C05, C12;
  maintains graphs, ids;
  maintains [C05] indexes;
  requires ok: target != nil && allocated(target) && edge != nil && nodeMap[edge.from] != nil && nodeMap[edge.to] != nil && allocated(nodeMap[edge.from]) && allocated(nodeMap[edge.to]);
  requires live: nodeMap[edge.from].$lst != nil && nodeMap[edge.to].$lst != nil;
  requires fn: clonePropertyFunc != nil && forall k string, v any :: {callable(clonePropertyFunc, k, v)} callable(clonePropertyFunc, k, v);
  panics when nodeMap[edge.from].graph != target || nodeMap[edge.to].graph != target;
  modifies AnyMap.$po@{m map[string]any :: fresh(m) || m == nil}, edgeMap.*@nodeMap[edge.to].incoming, edgeMap.*@nodeMap[edge.from].outgoing, edgeMap.*@target.allEdges, edgeElement.$em@{s edgeElement :: fresh(s)}, edgeElement.next, edgeElement.prev, edgeElement.$lst, edgeElement.$rk, edgeList.*, edgeLabelList.$label@{l edgeLabelList :: fresh(l)}, edgeLabelList.$map@{l edgeLabelList :: fresh(l)}, Graph.idBase@target, Graph.$cp@target, map[string]*list.Element, list.Element.$lst, list.List.$em, list.List.$at, index.$in, index.$val;
  allocates Edge, list.List, list.Element, map[string]*list.Element, edgeLabelList, properties;
  set Edge.$src@r := edge;
  set Graph.$cp@target := upd(old(target.$cp), edge, r);
  set AnyMap.$po@r.properties := box(*Edge, r);
  ensures new: r != nil && fresh(r) && live(r) && r.from == nodeMap[edge.from] && r.to == nodeMap[edge.to] && r.label == edge.label;
  ensures added: target.allEdges.$set == add(old(target.allEdges.$set), r);
  ensures count: target.allEdges.n == old(target.allEdges.n) + 1;
  ensures id: r.id == old(target.idBase) && target.idBase == old(target.idBase) + 1;
  ensures properties: ite(edge.properties == nil, r.properties == nil, r.properties != nil && fresh(r.properties) && allocated(r.properties) && dom(r.properties) == dom(edge.properties));
  ensures values: forall k string :: {k in dom(edge.properties)} k in dom(edge.properties) ==> r.properties[k] == app(clonePropertyFunc, k, edge.properties[k]);
}
contract CopyNode(sourceNode, target, clonePropertyFunc)(r) {
  props C01, C02, C04, C05, C12;
  maintains graphs, ids;
  maintains [C04] labels;
  maintains [C05] indexes;
  requires [C04] made: made(target);
  requires ok: target != nil && allocated(target) && sourceNode != nil;
  requires fn: clonePropertyFunc != nil && forall k string, v any :: {callable(clonePropertyFunc, k, v)} callable(clonePropertyFunc, k, v);
  modifies AnyMap.$po@{m map[string]any :: fresh(m) || m == nil}, nodeList.*@target.allNodes, Node.next@target.allNodes.tail, Graph.idBase@target, list.Element.$lst, list.List.$em, list.List.$at, index.$in, index.$val, map[int]*list.Element, fastSet.*, linkedhashmap.Map.$keys, linkedhashmap.Map.$map, NodeMap.$ids, Node.$nm, Node.$lab;
  allocates Node, list.List, list.Element, map[string]*list.Element, map[int]*list.Element, fastSet, edgeLabelList, properties, map[string]struct{};
  set Node.$src@r := sourceNode;
  ensures new: r != nil && fresh(r) && r.graph == target;
  ensures added: r.$lst == &target.allNodes && target.allNodes.$set == add(old(target.allNodes.$set), r);
  ensures count: target.allNodes.n == old(target.allNodes.n) + 1;
  ensures id: r.id == old(target.idBase) && target.idBase == old(target.idBase) + 1;
  ensures labels: sameLabels(r.labels, sourceNode.labels);
  ensures own: r.labels.M == nil || r.labels.M == sourceNode.labels.M || fresh(r.labels.M) && allocated(r.labels.M);
  ensures properties: ite(sourceNode.properties == nil, r.properties == nil, r.properties != nil && fresh(r.properties) && allocated(r.properties) && dom(r.properties) == dom(sourceNode.properties));
  ensures values: forall k string :: {k in dom(sourceNode.properties)} k in dom(sourceNode.properties) ==> r.properties[k] == app(clonePropertyFunc, k, sourceNode.properties[k]);
}
