contract CopyGraph(source, target, clonePropertyFunc)(r) {
  props C05, C12;
  maintains graphs, ids;
  maintains [C05] indexes;
  requires ok: source != nil && target != nil && source != target && allocated(source) && allocated(target);
  requires fn: clonePropertyFunc != nil && forall k string, v any :: {callable(clonePropertyFunc, k, v)} callable(clonePropertyFunc, k, v);
  requires eheap: forall e *Edge :: {e in source.allEdges.$set} e in source.allEdges.$set ==> allocated(e) && allocated(e.properties);
  requires heap: forall n *Node :: {n in source.allNodes.$set} n in source.allNodes.$set ==> allocated(n) && allocated(n.labels.M) && allocated(n.properties);
  modifies AnyMap.$po@{m map[string]any :: fresh(m) || m == nil}, nodeList.*@target.allNodes, Node.next, edgeMap.*, edgeElement.$em@{s edgeElement :: fresh(s)}, edgeElement.next, edgeElement.prev, edgeElement.$lst, edgeElement.$rk, edgeList.*, edgeLabelList.$label@{l edgeLabelList :: fresh(l)}, edgeLabelList.$map@{l edgeLabelList :: fresh(l)}, Graph.idBase@target, Graph.$cp@target, map[string]*list.Element, list.Element.$lst, list.List.$em, list.List.$at, index.$in, index.$val, map[int]*list.Element, fastSet.*, linkedhashmap.Map.$keys, linkedhashmap.Map.$map, NodeMap.$ids, Node.$nm, Node.$lab, Iterator.*@{i Iterator :: nothing(i)};
  allocates Node, Edge, list.List, list.Element, map[string]*list.Element, map[int]*list.Element, fastSet, edgeLabelList, properties, map[string]struct{}, map[*Node]*Node, nodeListIterator, Iterator, allEdgesItr, singleEdgeIterator;
  ensures nodes: forall n *Node :: {n in dom(r)} {n in source.allNodes.$set} n in dom(r) <==> n in source.allNodes.$set;
  ensures copies: forall n *Node :: {r[n]} n in dom(r) ==> r[n] != nil && fresh(r[n]) && r[n] in target.allNodes.$set && r[n].$src == n && sameLabels(r[n].labels, n.labels);
  ensures nprops: forall n *Node :: {r[n]} n in dom(r) ==> ite(n.properties == nil, r[n].properties == nil, r[n].properties != nil && fresh(r[n].properties) && dom(r[n].properties) == dom(n.properties));
  ensures nvals: forall n *Node, k string :: {k in dom(n.properties)} n in dom(r) && k in dom(n.properties) ==> r[n].properties[k] == app(clonePropertyFunc, k, n.properties[k]);
  ensures eprops: forall e *Edge :: {target.$cp[e]} {e in source.allEdges.$set} e in source.allEdges.$set ==> ite(e.properties == nil, target.$cp[e].properties == nil, target.$cp[e].properties != nil && fresh(target.$cp[e].properties) && dom(target.$cp[e].properties) == dom(e.properties));
  ensures evals: forall e *Edge, k string :: {k in dom(e.properties)} e in source.allEdges.$set && k in dom(e.properties) ==> target.$cp[e].properties[k] == app(clonePropertyFunc, k, e.properties[k]);
  ensures adj: forall n *Node :: {n.outgoing.$set} {n.incoming.$set} n in source.allNodes.$set ==> n.outgoing.$set == old(n.outgoing.$set) && n.incoming.$set == old(n.incoming.$set);
  ensures only: forall m *Node :: {m in target.allNodes.$set} m in target.allNodes.$set ==> old(m in target.allNodes.$set) || m.$src in dom(r) && r[m.$src] == m;
  ensures kept: forall m *Node :: {old(m in target.allNodes.$set)} old(m in target.allNodes.$set) ==> m in target.allNodes.$set;
  ensures source: source.allNodes.$set == old(source.allNodes.$set) && source.allEdges.$set == old(source.allEdges.$set);
  ensures edges: forall e *Edge :: {target.$cp[e]} {e in source.allEdges.$set} e in source.allEdges.$set ==> target.$cp[e] != nil && fresh(target.$cp[e]) && target.$cp[e] in target.allEdges.$set && target.$cp[e].$src == e && target.$cp[e].from == r[e.from] && target.$cp[e].to == r[e.to] && target.$cp[e].label == e.label;
  ensures onlyedges: forall d *Edge :: {d in target.allEdges.$set} d in target.allEdges.$set ==> old(d in target.allEdges.$set) || d.$src in source.allEdges.$set && target.$cp[d.$src] == d;
  ensures keptedges: forall d *Edge :: {old(d in target.allEdges.$set)} old(d in target.allEdges.$set) ==> d in target.allEdges.$set;
  inv any (it NodeIterator): it != nil && fresh(it) && nodesOnly(it);
  inv any (it NodeIterator, m0 map[*Node]*Node): forall n *Node :: {it.$todo[box(*Node, n)]} {n in dom(m0)} {n in source.allNodes.$set} n in source.allNodes.$set <==> n in dom(m0) || it.$todo[box(*Node, n)] > 0;
  inv any (it NodeIterator, m0 map[*Node]*Node): forall n *Node :: {it.$todo[box(*Node, n)]} {n in dom(m0)} it.$todo[box(*Node, n)] <= 1 && !(n in dom(m0) && it.$todo[box(*Node, n)] > 0);
  inv tal: forall m *Node :: {m in target.allNodes.$set} m in target.allNodes.$set ==> allocated(m);
  inv any (it EdgeIterator): it != nil && (fresh(it) || nothing(it)) && edgesOnly(it);
  inv source: source.allNodes.$set == old(source.allNodes.$set) && source.allEdges.$set == old(source.allEdges.$set);
  inv any (m0 map[*Node]*Node): forall n *Node :: {m0[n]} {n in dom(m0)} n in dom(m0) ==> ite(n.properties == nil, m0[n].properties == nil, m0[n].properties != nil && fresh(m0[n].properties) && allocated(m0[n].properties) && dom(m0[n].properties) == dom(n.properties));
  inv any (m0 map[*Node]*Node): forall n *Node, k string :: {k in dom(n.properties)} n in dom(m0) && k in dom(n.properties) ==> m0[n].properties[k] == app(clonePropertyFunc, k, n.properties[k]);
  inv any (it EdgeIterator): forall e *Edge :: {it.$todo[box(*Edge, e)]} {e in source.allEdges.$set} e in source.allEdges.$set ==> it.$todo[box(*Edge, e)] > 0 || ite(e.properties == nil, target.$cp[e].properties == nil, target.$cp[e].properties != nil && fresh(target.$cp[e].properties) && allocated(target.$cp[e].properties) && dom(target.$cp[e].properties) == dom(e.properties));
  inv any (it EdgeIterator): forall e *Edge :: {it.$todo[box(*Edge, e)]} {e in source.allEdges.$set} e in source.allEdges.$set ==> it.$todo[box(*Edge, e)] > 0 || forall k string :: {k in dom(e.properties)} k in dom(e.properties) ==> target.$cp[e].properties[k] == app(clonePropertyFunc, k, e.properties[k]);
  inv adj: forall n *Node :: {n.outgoing.$set} {n.incoming.$set} n in source.allNodes.$set ==> n.outgoing.$set == old(n.outgoing.$set) && n.incoming.$set == old(n.incoming.$set);
  inv any (m0 map[*Node]*Node): m0 != nil && fresh(m0);
  inv any (m0 map[*Node]*Node): forall n *Node :: {m0[n]} {n in dom(m0)} n in dom(m0) ==> m0[n] != nil && fresh(m0[n]) && m0[n].$lst == &target.allNodes && m0[n].graph == target && m0[n] in target.allNodes.$set;
  inv any (m0 map[*Node]*Node): forall n *Node :: {m0[n]} {n in dom(m0)} n in dom(m0) ==> m0[n].$src == n;
  inv any (m0 map[*Node]*Node): forall n *Node :: {m0[n]} {n in dom(m0)} n in dom(m0) ==> allocated(m0[n]);
  inv any (m0 map[*Node]*Node): forall n *Node :: {m0[n]} {n in dom(m0)} n in dom(m0) ==> allocated(m0[n].labels.M);
  inv heap: forall n *Node :: {n in source.allNodes.$set} n in source.allNodes.$set ==> allocated(n) && allocated(n.labels.M) && allocated(n.properties);
  inv any (m0 map[*Node]*Node): forall n *Node :: {m0[n]} {n in dom(m0)} n in dom(m0) ==> sameLabels(m0[n].labels, n.labels);
  inv any (m0 map[*Node]*Node): forall m *Node :: {m in target.allNodes.$set} m in target.allNodes.$set ==> old(m in target.allNodes.$set) || m.$src in dom(m0) && m0[m.$src] == m;
  inv kept: forall m *Node :: {old(m in target.allNodes.$set)} old(m in target.allNodes.$set) ==> m in target.allNodes.$set;
  inv any (it EdgeIterator): forall e *Edge :: {it.$todo[box(*Edge, e)]} {e in source.allEdges.$set} 0 <= it.$todo[box(*Edge, e)] && it.$todo[box(*Edge, e)] <= 1 && (it.$todo[box(*Edge, e)] > 0 ==> e in source.allEdges.$set);
  inv any (it EdgeIterator, m0 map[*Node]*Node): forall e *Edge :: {it.$todo[box(*Edge, e)]} {e in source.allEdges.$set} e in source.allEdges.$set ==> it.$todo[box(*Edge, e)] > 0 || target.$cp[e] != nil && fresh(target.$cp[e]) && allocated(target.$cp[e]) && target.$cp[e].$src == e && target.$cp[e].from == m0[e.from] && target.$cp[e].to == m0[e.to] && target.$cp[e].label == e.label && live(target.$cp[e]) && target.$cp[e] in target.allEdges.$set;
  inv any (it EdgeIterator): forall d *Edge :: {d in target.allEdges.$set} d in target.allEdges.$set ==> old(d in target.allEdges.$set) || d.$src in source.allEdges.$set && target.$cp[d.$src] == d && it.$todo[box(*Edge, d.$src)] == 0;
  inv keptedges: forall d *Edge :: {old(d in target.allEdges.$set)} old(d in target.allEdges.$set) ==> d in target.allEdges.$set;
  inv any (it NodeIterator): target.allEdges.$set == old(target.allEdges.$set);
  inv sael: forall e *Edge :: {e in source.allEdges.$set} e in source.allEdges.$set ==> allocated(e) && allocated(e.properties) && e.listElements[0].$em == &source.allEdges && e.from in source.allNodes.$set && e.to in source.allNodes.$set;
  inv tael: forall d *Edge :: {d in target.allEdges.$set} d in target.allEdges.$set ==> allocated(d);
}
