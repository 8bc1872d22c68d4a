# C01, C02, C03: graphs.

pred live(e *Edge) := e.listElements[0].$em != nil;

heapinv [C01, C03] g.edge: forall e *Edge :: {e.listElements[0].$em} e.listElements[0].$em != nil ==> e.from != nil && e.to != nil && e.from.graph != nil && allocated(e.from) && allocated(e.to) && allocated(e.from.graph) && e.to.graph == e.from.graph
  && e.listElements[0].$em == &e.from.graph.allEdges && e.listElements[1].$em == &e.from.outgoing && e.listElements[2].$em == &e.to.incoming
  && e.from.$lst == &e.from.graph.allNodes && e.to.$lst == &e.from.graph.allNodes;
heapinv [C01, C03] g.slot: forall e *Edge, i int :: {e.listElements[i].$em} e.listElements[i].$em != nil ==> e.listElements[0].$em != nil;
heapinv [C01, C03] g.node: forall n *Node :: {n.$lst} n.$lst != nil ==> n.graph != nil && allocated(n.graph) && n.$lst == &n.graph.allNodes;
heapinv [C01, C03] g.all: forall h *Graph :: {h.allEdges.n} h.allEdges.n == 0 || h.allEdges.$ix == 0;
heapinv [C01, C03] g.out: forall n *Node :: {n.outgoing.n} n.outgoing.n == 0 || n.outgoing.$ix == 1;
heapinv [C01, C03] g.in: forall n *Node :: {n.incoming.n} n.incoming.n == 0 || n.incoming.$ix == 2;

group graphs := edgemaps, nl, g;

# ---- the indexes of a graph (C04, C05) ----
# $po is the node or edge a property map belongs to
ghost AnyMap.$po : any for map[string]any, map[string]index;
pred nix(h *Graph, k string) := h.index.nodeProperties[k];
pred eix(h *Graph, k string) := h.index.edgeProperties[k];
heapinv [C05] ix.n: forall h *Graph, k string :: {k in dom(h.index.nodeProperties)} k in dom(h.index.nodeProperties) ==> let ix := nix(h, k) :: ix != nil && ix.$g == h && ix.$of == 1 && ix.$key == k;
heapinv [C05] ix.e: forall h *Graph, k string :: {k in dom(h.index.edgeProperties)} k in dom(h.index.edgeProperties) ==> let ix := eix(h, k) :: ix != nil && ix.$g == h && ix.$of == 2 && ix.$key == k;
heapinv [C05] ix.gn: forall g *graphIndex, k string :: {k in dom(g.nodeProperties)} k in dom(g.nodeProperties) ==> let ix := g.nodeProperties[k] :: ix != nil && &ix.$g.index == g && ix.$of == 1 && ix.$key == k;
heapinv [C05] ix.ge: forall g *graphIndex, k string :: {k in dom(g.edgeProperties)} k in dom(g.edgeProperties) ==> let ix := g.edgeProperties[k] :: ix != nil && &ix.$g.index == g && ix.$of == 2 && ix.$key == k;
heapinv [C05] ix.own: forall g *graphIndex :: {g.nodeProperties} {g.edgeProperties} (g.nodeProperties != nil ==> g.nodeProperties != g.edgeProperties && allocated(g.nodeProperties) && g.nodeProperties.$po == box(*graphIndex, g)) && (g.edgeProperties != nil ==> allocated(g.edgeProperties) && g.edgeProperties.$po == box(*graphIndex, g));
heapinv [C05] ix.rn: forall ix index :: {ix.$of} ix.$of == 1 ==> ix != nil && ix.$g != nil && allocated(ix.$g) && ix.$key in dom(ix.$g.index.nodeProperties) && base(nix(ix.$g, ix.$key)) == base(ix);
heapinv [C05] ix.re: forall ix index :: {ix.$of} ix.$of == 2 ==> ix != nil && ix.$g != nil && allocated(ix.$g) && ix.$key in dom(ix.$g.index.edgeProperties) && base(eix(ix.$g, ix.$key)) == base(ix);

# an index holds exactly the live nodes (edges) of its graph that have its property, under their values
heapinv [C05] px.e: forall ix index, e *Edge :: {box(*Edge, e) in ix.$in} ix.$of == 2 ==> (box(*Edge, e) in ix.$in <==> live(e) && e.from.graph == ix.$g && ix.$key in dom(e.properties));
heapinv [C05] px.ev: forall ix index, e *Edge :: {ix.$val[box(*Edge, e)]} ix.$of == 2 && box(*Edge, e) in ix.$in ==> ix.$val[box(*Edge, e)] == e.properties[ix.$key];
heapinv [C05] px.eo: forall ix index, v any :: {v in ix.$in} ix.$of == 2 && v in ix.$in ==> isEdge(v);
heapinv [C05] px.n: forall ix index, n *Node :: {box(*Node, n) in ix.$in} ix.$of == 1 ==> (box(*Node, n) in ix.$in <==> n.$lst != nil && n.graph == ix.$g && ix.$key in dom(n.properties));
heapinv [C05] px.nv: forall ix index, n *Node :: {ix.$val[box(*Node, n)]} ix.$of == 1 && box(*Node, n) in ix.$in ==> ix.$val[box(*Node, n)] == n.properties[ix.$key];
heapinv [C05] px.no: forall ix index, v any :: {v in ix.$in} ix.$of == 1 && v in ix.$in ==> isNode(v);
# every node and edge has its own property map
heapinv [C05] px.pe: forall e *Edge :: {e.properties} live(e) && e.properties != nil ==> allocated(e.properties) && e.properties.$po == box(*Edge, e);
heapinv [C05] px.pn: forall n *Node :: {n.properties} n.$lst != nil && n.properties != nil ==> allocated(n.properties) && n.properties.$po == box(*Node, n);

# a property map that belongs to nobody yet
pred unowned(p map[string]any) := p != nil ==> allocated(p) && (forall e *Edge :: {e.properties} live(e) ==> e.properties != p) && (forall n *Node :: {n.properties} n.$lst != nil ==> n.properties != p) && forall g *graphIndex :: {g.nodeProperties} {g.edgeProperties} g.nodeProperties != p && g.edgeProperties != p;

group indexes := ix, px, ids;

# the nodes of a graph are in its label map, under their labels
pred made(h *Graph) := nmlive(&h.index.nodesByLabel);
heapinv [C04] gx.in: forall n *Node :: {n.$lst} n.$lst != nil ==> made(n.graph) && n.$nm == &n.graph.index.nodesByLabel && n.$lab == dom(n.labels.M);
heapinv [C04] gx.al: forall n *Node :: {n.labels.M} n.$lst != nil ==> allocated(n.labels.M);
heapinv [C04] gx.out: forall n *Node :: {n.$nm} n.$nm != nil ==> n.$lst != nil && n.graph != nil && n.$nm == &n.graph.index.nodesByLabel;

group labels := fs, dl, lm, nm, ids, gx, ix;

contract graphIndex.addEdgeToIndex(g, edge, graph) {
  props C05;
  maintains [C05] ix;
  requires ok: g != nil && edge != nil && graph != nil && g == &graph.index;
  requires [C05] new: forall ix index, v any :: {v in ix.$in} ix.$g == graph && ix.$of == 2 && v in ix.$in ==> idOf(v) != edge.id;
  modifies index.$in@{ix index :: ix.$g == graph && ix.$of == 2}, index.$val@{ix index :: ix.$g == graph && ix.$of == 2};
  ensures [C05] in: forall ix index, v any :: {v in ix.$in} ix.$g == graph && ix.$of == 2 ==> (v in ix.$in <==> old(v in ix.$in) || v == box(*Edge, edge) && ix.$key in dom(edge.properties));
  ensures [C05] val: forall ix index, v any :: {ix.$val[v]} ix.$g == graph && ix.$of == 2 ==> ix.$val[v] == ite(v == box(*Edge, edge) && ix.$key in dom(edge.properties), edge.properties[ix.$key], old(ix.$val[v]));
  inv [C05] in: forall ix index, v any :: {v in ix.$in} ix.$g == graph && ix.$of == 2 ==> (v in ix.$in <==> old(v in ix.$in) || v == box(*Edge, edge) && ix.$key in $visited);
  inv [C05] val: forall ix index, v any :: {ix.$val[v]} ix.$g == graph && ix.$of == 2 ==> ix.$val[v] == ite(v == box(*Edge, edge) && ix.$key in $visited, edge.properties[ix.$key], old(ix.$val[v]));
}
contract graphIndex.removeEdgeFromIndex(g, edge, graph) {
  props C05;
  maintains [C05] ix;
  requires ok: g != nil && edge != nil && graph != nil && g == &graph.index;
  requires [C05] uniq: forall ix index, v any :: {v in ix.$in} ix.$g == graph && ix.$of == 2 && v in ix.$in && idOf(v) == edge.id ==> v == box(*Edge, edge) && ix.$val[v] == edge.properties[ix.$key];
  modifies index.$in@{ix index :: ix.$g == graph && ix.$of == 2};
  ensures [C05] out: forall ix index, v any :: {v in ix.$in} ix.$g == graph && ix.$of == 2 ==> (v in ix.$in <==> old(v in ix.$in) && !(v == box(*Edge, edge) && ix.$key in dom(edge.properties)));
  inv [C05] out: forall ix index, v any :: {v in ix.$in} ix.$g == graph && ix.$of == 2 ==> (v in ix.$in <==> old(v in ix.$in) && !(v == box(*Edge, edge) && ix.$key in $visited));
}
contract graphIndex.addNodeToIndex(g, node, graph) {
  props C04, C05;
  maintains fs, dl;
  maintains [C04] lm, nm;
  maintains [C04, C05] ix;
  requires ok: g != nil && node != nil && allocated(node) && graph != nil && g == &graph.index;
  requires [C04] made: made(graph) && node.$nm == nil;
  requires [C04] id: forall n *Node :: {n.$nm} n.$nm == &graph.index.nodesByLabel ==> n.id != node.id;
  requires [C05] new: forall ix index, v any :: {v in ix.$in} ix.$g == graph && ix.$of == 1 && v in ix.$in ==> idOf(v) != node.id;
  modifies index.$in@{ix index :: ix.$g == graph && ix.$of == 1}, index.$val@{ix index :: ix.$g == graph && ix.$of == 1}, NodeMap.$ids@graph.index.nodesByLabel, Node.$nm@node, Node.$lab@node, linkedhashmap.Map.$keys, linkedhashmap.Map.$map, map[int]*list.Element, fastSet.$items, list.List.$at@{l list.List :: l.$em == nil}, fastSet.$lhm@{f fastSet :: fresh(f)}, fastSet.$lkey@{f fastSet :: fresh(f)};
  allocates fastSet, list.List, list.Element, map[int]*list.Element;
  ensures [C04] held: node.$nm == &graph.index.nodesByLabel && node.$lab == dom(node.labels.M);
  ensures [C05] in: forall ix index, v any :: {v in ix.$in} ix.$g == graph && ix.$of == 1 ==> (v in ix.$in <==> old(v in ix.$in) || v == box(*Node, node) && ix.$key in dom(node.properties));
  ensures [C05] val: forall ix index, v any :: {ix.$val[v]} ix.$g == graph && ix.$of == 1 ==> ix.$val[v] == ite(v == box(*Node, node) && ix.$key in dom(node.properties), node.properties[ix.$key], old(ix.$val[v]));
  inv [C05] in: forall ix index, v any :: {v in ix.$in} ix.$g == graph && ix.$of == 1 ==> (v in ix.$in <==> old(v in ix.$in) || v == box(*Node, node) && ix.$key in $visited);
  inv [C05] val: forall ix index, v any :: {ix.$val[v]} ix.$g == graph && ix.$of == 1 ==> ix.$val[v] == ite(v == box(*Node, node) && ix.$key in $visited, node.properties[ix.$key], old(ix.$val[v]));
  ensures lists: forall d *list.Element :: {d.$lst} fresh(d) && d.$lst != nil ==> d.$lst.$em == nil;
}
contract graphIndex.removeNodeFromIndex(g, node, graph) {
  props C04, C05;
  maintains fs, dl;
  maintains [C04] lm, nm;
  maintains [C04, C05] ix;
  requires ok: g != nil && node != nil && graph != nil && g == &graph.index;
  requires [C04] held: made(graph) && node.$nm == &graph.index.nodesByLabel && node.$lab == dom(node.labels.M);
  requires [C05] uniq: forall ix index, v any :: {v in ix.$in} ix.$g == graph && ix.$of == 1 && v in ix.$in && idOf(v) == node.id ==> v == box(*Node, node) && ix.$val[v] == node.properties[ix.$key];
  modifies index.$in@{ix index :: ix.$g == graph && ix.$of == 1}, Node.$nm@node, linkedhashmap.Map.$keys, map[int]*list.Element, fastSet.$items, list.Element.$lst@{e list.Element :: e.$lst.$em == nil}, fastSet.$lhm;
  ensures [C04] gone: node.$nm == nil;
  ensures [C05] out: forall ix index, v any :: {v in ix.$in} ix.$g == graph && ix.$of == 1 ==> (v in ix.$in <==> old(v in ix.$in) && !(v == box(*Node, node) && ix.$key in dom(node.properties)));
  inv [C05] out: forall ix index, v any :: {v in ix.$in} ix.$g == graph && ix.$of == 1 ==> (v in ix.$in <==> old(v in ix.$in) && !(v == box(*Node, node) && ix.$key in $visited));
  ensures lists: forall d *list.Element :: {d.$lst} d.$lst == old(d.$lst) || d.$lst == nil;
}

# ---- linking and unlinking edges ----

contract Graph.connect(g, edge) {
  props C01, C03;
  maintains edgemaps;
  requires ok: edge != nil && allocated(edge) && edge.from != nil && edge.to != nil && allocated(edge.from) && allocated(edge.to);
  requires in: edge.to.incoming.n == 0 || edge.to.incoming.$ix == 2;
  requires out: edge.from.outgoing.n == 0 || edge.from.outgoing.$ix == 1;
  requires free: edge.listElements[1].$em == nil && edge.listElements[2].$em == nil;
  modifies edgeMap.*@edge.to.incoming, edgeMap.*@edge.from.outgoing, edgeElement.$em@edge.listElements[1], edgeElement.$em@edge.listElements[2], edgeElement.next, edgeElement.prev, edgeElement.$lst, edgeElement.$rk, edgeList.*, edgeLabelList.$label@{l edgeLabelList :: fresh(l)}, edgeLabelList.$map@{l edgeLabelList :: fresh(l)}, map[string]*list.Element, list.List.$at@{l list.List :: l.$em != nil};
  allocates list.List, list.Element, map[string]*list.Element, edgeLabelList;
  ensures in: edge.to.incoming.$ix == 2 && edge.to.incoming.n == old(edge.to.incoming.n) + 1;
  ensures out: edge.from.outgoing.$ix == 1 && edge.from.outgoing.n == old(edge.from.outgoing.n) + 1;
  ensures sets: edge.to.incoming.$set == add(old(edge.to.incoming.$set), edge) && edge.from.outgoing.$set == add(old(edge.from.outgoing.$set), edge);
  ensures lists: forall d *list.Element :: {d.$lst} fresh(d) && d.$lst != nil ==> d.$lst.$em != nil;
  ensures linked: edge.listElements[1].$em == &edge.from.outgoing && edge.listElements[2].$em == &edge.to.incoming;
}
contract Graph.disconnect(g, edge) {
  props C01, C03;
  maintains edgemaps;
  requires ok: edge != nil && edge.from != nil && edge.to != nil;
  requires linked: edge.listElements[1].$em == &edge.from.outgoing && edge.listElements[2].$em == &edge.to.incoming;
  modifies edgeMap.*@edge.to.incoming, edgeMap.*@edge.from.outgoing, edgeElement.$em@edge.listElements[1], edgeElement.$em@edge.listElements[2], edgeElement.next, edgeElement.prev, edgeElement.$lst, edgeList.*, map[string]*list.Element, list.Element.$lst@{d list.Element :: d.$lst.$em != nil}, list.List.$em@{l list.List :: l.$em != nil};
  allocates list.List, map[string]*list.Element;
  ensures in: edge.to.incoming.$ix == 2 && edge.to.incoming.n == old(edge.to.incoming.n) - 1;
  ensures out: edge.from.outgoing.$ix == 1 && edge.from.outgoing.n == old(edge.from.outgoing.n) - 1;
  ensures lists: forall d *list.Element :: {d.$lst} d.$lst == old(d.$lst) || d.$lst == nil;
  ensures sets: edge.to.incoming.$set == del(old(edge.to.incoming.$set), edge) && edge.from.outgoing.$set == del(old(edge.from.outgoing.$set), edge);
  ensures unlinked: edge.listElements[1].$em == nil && edge.listElements[2].$em == nil;
}
contract Graph.removeEdge(g, edge) {
  props C01, C03, C05;
  maintains graphs;
  maintains [C05] indexes;
  requires ok: g != nil && edge != nil && live(edge) && edge.from.graph == g;
  modifies edgeMap.*@edge.to.incoming, edgeMap.*@edge.from.outgoing, edgeMap.*@g.allEdges, edgeElement.$em@edge.listElements[0], edgeElement.$em@edge.listElements[1], edgeElement.$em@edge.listElements[2], edgeElement.next, edgeElement.prev, edgeElement.$lst, edgeList.*, map[string]*list.Element, list.Element.$lst, list.List.$em, list.List.$at, index.$in, index.$val;
  allocates list.List, list.Element, map[string]*list.Element;
  ensures removed: !live(edge) && g.allEdges.$set == del(old(g.allEdges.$set), edge);
  ensures count: g.allEdges.n == old(g.allEdges.n) - 1;
}

# ---- identifiers (C02) ----
# every node and edge ever made by a graph, removed ones included
heapinv [C02] ids.node: forall n *Node :: {n.graph} n.graph != nil ==> allocated(n) && allocated(n.graph) && 0 <= n.id && n.id < n.graph.idBase;
heapinv [C02] ids.nodes: forall n *Node, m *Node :: {n.id, m.id} n.graph != nil && n.graph == m.graph && n.id == m.id ==> n == m;
heapinv [C02] ids.edge: forall e *Edge :: {e.from} e.from != nil ==> allocated(e) && allocated(e.from) && e.from.graph != nil && 0 <= e.id && e.id < e.from.graph.idBase;
heapinv [C02] ids.edges: forall e *Edge, f *Edge :: {e.id, f.id} e.from != nil && f.from != nil && e.from.graph == f.from.graph && e.id == f.id ==> e == f;
heapinv [C02] ids.both: forall n *Node, e *Edge :: {n.id, e.id} n.graph != nil && e.from != nil && e.from.graph == n.graph ==> n.id != e.id;
heapinv [C02] ids.base: forall h *Graph :: {h.idBase} h.idBase >= 0;

contract Graph.setEdgeLabel(g, edge, label) {
  props C01, C03, C05;
  maintains graphs;
  maintains [C05] indexes;
  requires ok: g != nil && edge != nil && live(edge) && edge.from.graph == g;
  modifies edgeMap.*@edge.to.incoming, edgeMap.*@edge.from.outgoing, edgeMap.*@g.allEdges, edgeElement.$em@edge.listElements[0], edgeElement.$em@edge.listElements[1], edgeElement.$em@edge.listElements[2], edgeElement.next, edgeElement.prev, edgeElement.$lst, edgeElement.$rk, edgeList.*, edgeLabelList.$label@{l edgeLabelList :: fresh(l)}, edgeLabelList.$map@{l edgeLabelList :: fresh(l)}, Edge.label@edge, map[string]*list.Element, list.Element.$lst, list.List.$em, list.List.$at;
  allocates list.List, list.Element, map[string]*list.Element, edgeLabelList;
  ensures live: live(edge) && edge.label == label;
  ensures same: g.allEdges.$set == old(g.allEdges.$set) && edge.from.outgoing.$set == old(edge.from.outgoing.$set) && edge.to.incoming.$set == old(edge.to.incoming.$set);
}
contract Edge.SetLabel(edge, label) {
  props C01, C03, C05;
  maintains graphs;
  maintains [C05] indexes;
  requires ok: edge != nil && live(edge);
  modifies edgeMap.*@edge.to.incoming, edgeMap.*@edge.from.outgoing, edgeMap.*@edge.from.graph.allEdges, edgeElement.$em@edge.listElements[0], edgeElement.$em@edge.listElements[1], edgeElement.$em@edge.listElements[2], edgeElement.next, edgeElement.prev, edgeElement.$lst, edgeElement.$rk, edgeList.*, edgeLabelList.$label@{l edgeLabelList :: fresh(l)}, edgeLabelList.$map@{l edgeLabelList :: fresh(l)}, Edge.label@edge, map[string]*list.Element, list.Element.$lst, list.List.$em, list.List.$at;
  allocates list.List, list.Element, map[string]*list.Element, edgeLabelList;
  ensures live: live(edge) && edge.label == label;
  ensures same: edge.from.graph.allEdges.$set == old(edge.from.graph.allEdges.$set) && edge.from.outgoing.$set == old(edge.from.outgoing.$set) && edge.to.incoming.$set == old(edge.to.incoming.$set);
}
contract Edge.Remove(edge) {
  props C01, C03, C05;
  maintains graphs;
  maintains [C05] indexes;
  requires ok: edge != nil && live(edge);
  modifies edgeMap.*@edge.to.incoming, edgeMap.*@edge.from.outgoing, edgeMap.*@edge.from.graph.allEdges, edgeElement.$em@edge.listElements[0], edgeElement.$em@edge.listElements[1], edgeElement.$em@edge.listElements[2], edgeElement.next, edgeElement.prev, edgeElement.$lst, edgeElement.$rk, edgeList.*, map[string]*list.Element, list.Element.$lst, list.List.$em, list.List.$at, index.$in, index.$val;
  allocates list.List, list.Element, map[string]*list.Element, edgeLabelList;
  ensures removed: !live(edge) && edge.from.graph.allEdges.$set == del(old(edge.from.graph.allEdges.$set), edge);
  ensures count: edge.from.graph.allEdges.n == old(edge.from.graph.allEdges.n) - 1;
}
contract Graph.FastNewEdge(g, from, to, label, props)(r) {
  props C01, C02, C03, C05;
  maintains graphs, ids;
  maintains [C05] indexes;
  requires ok: g != nil && allocated(g) && from != nil && to != nil && allocated(from) && allocated(to);
  requires live: from.$lst != nil && to.$lst != nil;
  panics when from.graph != g || to.graph != g;
  requires [C05] own: unowned(props);
  modifies AnyMap.$po@props, edgeMap.*@to.incoming, edgeMap.*@from.outgoing, edgeMap.*@g.allEdges, edgeElement.$em@{s edgeElement :: fresh(s)}, edgeElement.next, edgeElement.prev, edgeElement.$lst, edgeElement.$rk, edgeList.*, edgeLabelList.$label@{l edgeLabelList :: fresh(l)}, edgeLabelList.$map@{l edgeLabelList :: fresh(l)}, Graph.idBase@g, map[string]*list.Element, list.Element.$lst, list.List.$em, list.List.$at, index.$in, index.$val;
  allocates Edge, list.List, list.Element, map[string]*list.Element, edgeLabelList;
  set AnyMap.$po@props := box(*Edge, r);
  ensures new: r != nil && fresh(r) && live(r) && r.from == from && r.to == to && r.label == label && r.properties == props;
  ensures added: g.allEdges.$set == add(old(g.allEdges.$set), r);
  ensures count: g.allEdges.n == old(g.allEdges.n) + 1;
  ensures id: r.id == old(g.idBase) && g.idBase == old(g.idBase) + 1;
}
contract Graph.addNode(g, node) {
  props C01, C04, C05;
  maintains graphs;
  maintains [C04] labels;
  maintains [C05] indexes;
  requires [C04] made: made(g);
  requires ok: g != nil && allocated(g) && node != nil && allocated(node) && node.graph == g;
  requires free: node.$lst == nil && node.next == nil;
  requires [C05] own: unowned(node.properties);
  requires [C04, C05] noix: forall g0 *graphIndex :: {g0.nodeProperties} {g0.edgeProperties} node.properties != nil ==> g0.nodeProperties != node.properties && g0.edgeProperties != node.properties;
  requires [C04] al: allocated(node.labels.M);
  modifies AnyMap.$po@node.properties, nodeList.*@g.allNodes, Node.next@g.allNodes.tail, Node.prev@node, Node.$lst@node, Node.$rk@node, index.$in, index.$val, NodeMap.$ids, Node.$nm@node, Node.$lab@node, linkedhashmap.Map.$keys, linkedhashmap.Map.$map, map[int]*list.Element, fastSet.$items, list.List.$at@{l list.List :: l.$em == nil}, fastSet.$lhm, fastSet.$lkey;
  allocates list.List, list.Element, map[string]*list.Element, map[int]*list.Element, fastSet, edgeLabelList;
  set AnyMap.$po@node.properties := box(*Node, node);
  ensures added: node.$lst == &g.allNodes && g.allNodes.$set == add(old(g.allNodes.$set), node);
  ensures count: g.allNodes.n == old(g.allNodes.n) + 1;
}
contract Graph.FastNewNode(g, labels, props)(r) {
  props C01, C02, C04, C05;
  maintains graphs, ids;
  maintains [C04] labels;
  maintains [C05] indexes;
  requires [C04] made: made(g);
  requires ok: g != nil && allocated(g);
  requires [C05] own: unowned(props);
  requires [C04, C05] noix: forall g0 *graphIndex :: {g0.nodeProperties} {g0.edgeProperties} props != nil ==> g0.nodeProperties != props && g0.edgeProperties != props;
  requires [C04] al: allocated(labels.M);
  modifies AnyMap.$po@props, nodeList.*@g.allNodes, Node.next@g.allNodes.tail, Graph.idBase@g, index.$in, index.$val, NodeMap.$ids, Node.$nm@{n Node :: fresh(n)}, Node.$lab@{n Node :: fresh(n)}, linkedhashmap.Map.$keys, linkedhashmap.Map.$map, map[int]*list.Element, fastSet.$items, list.List.$at@{l list.List :: l.$em == nil}, fastSet.$lhm, fastSet.$lkey;
  allocates Node, list.List, list.Element, map[string]*list.Element, map[int]*list.Element, fastSet, edgeLabelList;
  ensures new: r != nil && fresh(r) && r.graph == g && r.labels.M == labels.M && r.properties == props;
  ensures added: r.$lst == &g.allNodes && g.allNodes.$set == add(old(g.allNodes.$set), r);
  ensures count: g.allNodes.n == old(g.allNodes.n) + 1;
  ensures id: r.id == old(g.idBase) && g.idBase == old(g.idBase) + 1;
}

contract Graph.detachNode(g, node) {
  props C01, C03, C05;
  maintains graphs;
  maintains [C05] indexes;
  requires ok: g != nil && node != nil && node.$lst == &g.allNodes;
  modifies edgeMap.*, edgeElement.*, edgeList.*, map[string]*list.Element, list.Element.$lst, list.List.$em, list.List.$at, index.$in, index.$val, Iterator.*@{i Iterator :: nothing(i)};
  allocates list.List, list.Element, map[string]*list.Element, edgeLabelList, []*Edge, Iterator, allEdgesItr, singleEdgeIterator;
  ensures detached: forall e *Edge :: {e.listElements[0].$em} live(e) <==> old(live(e)) && e.from != node && e.to != node;
  ensures empty: node.incoming.n == 0 && node.outgoing.n == 0;
  inv ok: node.$lst == &g.allNodes;
  inv left: forall j int :: {$slice[j]} $i <= j < len($slice) ==> $slice[j] != nil && live($slice[j]) && ($slice[j].to == node || $slice[j].from == node);
  inv gone: forall e *Edge :: {e.listElements[0].$em} live(e) ==> old(live(e));
  inv kept: forall e *Edge :: {e.listElements[0].$em} {old(e.listElements[0].$em)} old(live(e)) && e.from != node && e.to != node ==> live(e);
  inv in: forall e *Edge :: {e.listElements[0].$em} live(e) && e.to == node ==> exists j int :: {$slice[j]} $i <= j < len($slice) && $slice[j] == e;
  inv noin: forall e *Edge :: {e.listElements[0].$em} live(e) ==> e.to != node;
  inv out: forall e *Edge :: {e.listElements[0].$em} live(e) && e.from == node ==> exists j int :: {$slice[j]} $i <= j < len($slice) && $slice[j] == e;
}
contract Graph.detachRemoveNode(g, node) {
  props C01, C03, C04, C05;
  maintains graphs;
  maintains [C04] labels;
  maintains [C05] indexes;
  requires ok: g != nil && node != nil && node.$lst == &g.allNodes;
  modifies edgeMap.*, edgeElement.*, edgeList.*, map[string]*list.Element, list.Element.$lst, list.List.$em, list.List.$at, index.$in, index.$val, map[int]*list.Element, fastSet.$items, fastSet.$lhm, linkedhashmap.Map.$keys, Node.$nm@node, Iterator.*@{i Iterator :: nothing(i)}, nodeList.*@g.allNodes, Node.next@node.prev, Node.prev@node.next, Node.$lst@node;
  allocates list.List, list.Element, map[string]*list.Element, map[int]*list.Element, fastSet, edgeLabelList, []*Edge, Iterator, allEdgesItr, singleEdgeIterator;
  ensures detached: forall e *Edge :: {e.listElements[0].$em} live(e) <==> old(live(e)) && e.from != node && e.to != node;
  ensures removed: node.$lst == nil && g.allNodes.$set == del(old(g.allNodes.$set), node);
  ensures count: g.allNodes.n == old(g.allNodes.n) - 1;
}
