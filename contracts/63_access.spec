# Reading a node or an edge: identity, ends, label, labels and properties.

contract Node.GetID(node)(r) {
  inline;
  requires ok: node != nil;
  props C02;
  ensures id: r == node.id;
}
contract Edge.GetID(edge)(r) {
  inline;
  requires ok: edge != nil;
  props C02;
  ensures id: r == edge.id;
}
contract Node.GetGraph(node)(r) {
  inline;
  requires ok: node != nil;
  props C01;
  ensures r == node.graph;
}
contract Edge.GetGraph(edge)(r) {
  inline;
  requires ok: edge != nil;
  props C01;
  requires from: edge.from != nil;
  ensures r == edge.from.graph;
}
contract Edge.GetFrom(edge)(r) {
  inline;
  requires ok: edge != nil;
  props C01;
  ensures r == edge.from;
}
contract Edge.GetTo(edge)(r) {
  inline;
  requires ok: edge != nil;
  props C01;
  ensures r == edge.to;
}
contract Edge.GetLabel(edge)(r) {
  inline;
  requires ok: edge != nil;
  props C01, C03;
  ensures r == edge.label;
}
contract Node.HasLabel(node, s)(r) {
  inline;
  props C04;
  requires ok: node != nil;
  ensures r <==> s in dom(node.labels.M);
}
contract Node.GetLabels(node)(r) {
  props C04;
  requires ok: node != nil;
  allocates map[string]struct{};
  ensures same: sameLabels(r, node.labels);
  ensures own: fresh(r.M) && allocated(r.M) || r.M == nil || r.M == node.labels.M;
}
contract properties.getProperty(p, key)(v, ok) {
  inline;
  props C05;
  requires p != nil;
  ensures has: ok <==> key in dom(*p);
  ensures value: ok ==> v == (*p)[key];
  ensures none: !ok ==> v == nil;
}
contract Node.GetProperty(node, key)(v, ok) {
  inline;
  props C05;
  requires node != nil;
  ensures has: ok <==> key in dom(node.properties);
  ensures value: ok ==> v == node.properties[key];
  ensures none: !ok ==> v == nil;
}
contract Node.ForEachProperty(node, f)(r) {
  props C05;
  requires ok: node != nil && f != nil && forall k string, v any :: {callable(f, k, v)} callable(f, k, v);
  ensures all: r <==> forall k string :: {k in dom(node.properties)} k in dom(node.properties) ==> app(f, k, node.properties[k]);
  inv seen: forall k string :: {k in $visited} k in $visited ==> app(f, k, node.properties[k]);
}
contract Edge.GetProperty(edge, key)(v, ok) {
  inline;
  props C05;
  requires edge != nil;
  ensures has: ok <==> key in dom(edge.properties);
  ensures value: ok ==> v == edge.properties[key];
  ensures none: !ok ==> v == nil;
}
contract Edge.ForEachProperty(edge, f)(r) {
  props C05;
  requires ok: edge != nil && f != nil && forall k string, v any :: {callable(f, k, v)} callable(f, k, v);
  ensures all: r <==> forall k string :: {k in dom(edge.properties)} k in dom(edge.properties) ==> app(f, k, edge.properties[k]);
  inv seen: forall k string :: {k in $visited} k in $visited ==> app(f, k, edge.properties[k]);
}
contract properties.forEachProperty(p, f)(r) {
  inline;
  props C05;
  requires ok: p != nil && f != nil && forall k string, v any :: {callable(f, k, v)} callable(f, k, v);
  ensures all: r <==> forall k string :: {k in dom(*p)} k in dom(*p) ==> app(f, k, (*p)[k]);
  inv seen: forall k string :: {k in $visited} k in $visited ==> app(f, k, (*p)[k]);
}
