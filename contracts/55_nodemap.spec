# C04: the map from labels to nodes. linkedhashmap is an assumed dependency: $keys and $map are its contents.

ghost linkedhashmap.Map.$keys : set[any];
ghost linkedhashmap.Map.$map : gmap[any]any;
# the linked hash map that holds a fast set, and under which key
ghost fastSet.$lhm : *linkedhashmap.Map;
ghost fastSet.$lkey : any;

extern linkedhashmap.New()(m) {
  allocates linkedhashmap.Map;
  ensures new: m != nil && fresh(m);
  ensures empty: m.$keys == emptyset(any);
}
extern linkedhashmap.Map.Get(m, k)(v, ok) {
  requires m != nil;
  ensures found: ok <==> k in m.$keys;
  ensures value: ok ==> v == m.$map[k];
  ensures none: !ok ==> v == nil;
}
extern linkedhashmap.Map.Put(m, k, v) {
  requires m != nil;
  modifies linkedhashmap.Map.$keys@m, linkedhashmap.Map.$map@m, fastSet.$lhm@as(*fastSet, v), fastSet.$lkey@as(*fastSet, v);
  ensures keys: m.$keys == add(old(m.$keys), k);
  ensures map: m.$map == upd(old(m.$map), k, v);
  ensures held: is(*fastSet, v) ==> as(*fastSet, v).$lhm == m && as(*fastSet, v).$lkey == k;
}
extern linkedhashmap.Map.Remove(m, k) {
  requires m != nil;
  modifies linkedhashmap.Map.$keys@m, fastSet.$lhm@as(*fastSet, m.$map[k]);
  ensures keys: m.$keys == del(old(m.$keys), k);
  ensures held: as(*fastSet, m.$map[k]).$lhm == nil;
}
extern linkedhashmap.Map.Size(m)(r) {
  requires m != nil;
  ensures r == len(m.$keys);
}

identity NodeMap;
# the node map a linked hash map belongs to, the node map that holds a node, and the labels it holds the node under
ghost linkedhashmap.Map.$nm : *NodeMap;
ghost Node.$nm : *NodeMap;
ghost Node.$lab : set[string];
ghost NodeMap.$ids : gmap[int]*Node;

pred lset(nm *NodeMap, k any) := as(*fastSet, nm.m.$map[k]);
pred lkey(f *fastSet) := as(string, f.$lkey);
# a node map in use (not one whose contents were moved elsewhere)
pred nmlive(nm *NodeMap) := nm != nil && nm.m != nil && nm.m.$nm == nm;

# the sets a node map consists of
heapinv [C04] lm.alloc: forall nm *NodeMap :: {nm.m} allocated(nm.m) && (nm.m != nil ==> allocated(nm)) && (nmlive(nm) ==> fslive(&nm.nolabels));
heapinv [C04] lm.key: forall nm *NodeMap, k any :: {k in nm.m.$keys} nmlive(nm) && k in nm.m.$keys ==> is(string, k) && is(*fastSet, nm.m.$map[k]) && lset(nm, k) != nil && allocated(lset(nm, k)) && fslive(lset(nm, k)) && lset(nm, k).$lhm == nm.m && lset(nm, k).$lkey == k;
heapinv [C04] lm.own: forall f *fastSet :: {f.$lhm} f.$lhm != nil ==> f != nil && allocated(f) && allocated(f.$lhm) && f.$lkey in f.$lhm.$keys && f.$lhm.$map[f.$lkey] == box(*fastSet, f) && f.$lhm.$nm != nil && f.$lhm.$nm.m == f.$lhm;
heapinv [C04] lm.some: forall nm *NodeMap, k any :: {k in nm.m.$keys} nmlive(nm) && k in nm.m.$keys ==> len(lset(nm, k).m) > 0;
heapinv [C04] lm.zero: forall nm *NodeMap :: {nm.nolabels.m} nmlive(nm) ==> nm.nolabels.$lhm == nil;

# a node is in the sets of its labels, or in the set of nodes without labels
pred nodeAt(f *fastSet, i int) := as(*Node, f.m[i].Value);
pred nodeIn(f *fastSet, i int) := isNode(f.m[i].Value) && nodeAt(f, i).id == i;
pred inSet(nm *NodeMap, l string, n *Node) := box(string, l) in nm.m.$keys && n.id in dom(lset(nm, box(string, l)).m);
heapinv [C04] nm.has: forall n *Node, l string :: {l in n.$lab} n.$nm != nil && l in n.$lab ==> inSet(n.$nm, l, n);
heapinv [C04] nm.in: forall f *fastSet, i int :: {f.m[i]} {i in dom(f.m)} f.$lhm != nil && i in dom(f.m) ==> nodeIn(f, i) && nodeAt(f, i).$nm == f.$lhm.$nm && lkey(f) in nodeAt(f, i).$lab;
heapinv [C04] nm.nohas: forall n *Node :: {n.$nm} n.$nm != nil && len(n.$lab) == 0 ==> n.id in dom(n.$nm.nolabels.m);
heapinv [C04] nm.noin: forall nm *NodeMap, i int :: {nm.nolabels.m[i]} {i in dom(nm.nolabels.m)} nmlive(nm) && i in dom(nm.nolabels.m) ==> nodeIn(&nm.nolabels, i) && nodeAt(&nm.nolabels, i).$nm == nm && len(nodeAt(&nm.nolabels, i).$lab) == 0;
heapinv [C04] nm.id: forall n *Node :: {n.$nm} n.$nm != nil ==> n.$nm.$ids[n.id] == n;
heapinv [C04] nm.node: forall n *Node :: {n.$nm} n.$nm != nil ==> n != nil && allocated(n) && allocated(n.$nm) && nmlive(n.$nm);

group nodemaps := fs, dl, lm, nm;

contract NewNodeMap()(r) {
  props C04;
  maintains fs, dl;
  maintains [C04] lm, nm;
  allocates NodeMap, linkedhashmap.Map, fastSet, list.List, map[int]*list.Element;
  set linkedhashmap.Map.$nm@r.m := r;
  ensures new: r != nil && fresh(r) && nmlive(r) && fslive(&r.nolabels) && fresh(r.m) && fresh(r.nolabels.m) && fresh(r.nolabels.l);
  ensures empty: forall k any :: {k in r.m.$keys} !(k in r.m.$keys);
  ensures none: forall n *Node :: {n.$nm} n.$nm != r;
}
contract NodeMap.Add(nm, node) {
  props C04;
  maintains fs, dl;
  maintains [C04] lm, nm;
  requires [C04] ok: nm != nil && nmlive(nm) && node != nil && allocated(node);
  requires [C04] new: node.$nm == nil;
  requires [C04] id: forall n *Node :: {n.$nm} n.$nm == nm ==> n.id != node.id;
  modifies NodeMap.$ids@nm, Node.$nm@node, Node.$lab@node, linkedhashmap.Map.$keys@nm.m, linkedhashmap.Map.$map@nm.m, map[int]*list.Element@{m map[int]*list.Element :: true}, fastSet.$items@{f fastSet :: f == &nm.nolabels || f.$lhm == nm.m}, list.List.$at@{l list.List :: l.$em == nil}, fastSet.$lhm@{f fastSet :: fresh(f)}, fastSet.$lkey@{f fastSet :: fresh(f)};
  allocates fastSet, list.List, list.Element, map[int]*list.Element;
  set Node.$nm@node := nm;
  set NodeMap.$ids@nm := upd(old(nm.$ids), node.id, node);
  set Node.$lab@node := dom(node.labels.M);
  inv done: forall l string :: {l in $visited} l in $visited ==> inSet(nm, l, node);
  inv in: forall f *fastSet, i int :: {f.m[i]} {i in dom(f.m)} f.$lhm != nil && i in dom(f.m) ==> nodeIn(f, i) && (nodeAt(f, i) != node ==> nodeAt(f, i).$nm == f.$lhm.$nm && lkey(f) in nodeAt(f, i).$lab) && (nodeAt(f, i) == node ==> f.$lhm == nm.m && lkey(f) in $visited);
  ensures lists: forall d *list.Element :: {d.$lst} fresh(d) && d.$lst != nil ==> d.$lst.$em == nil;
  inv lists: forall d *list.Element :: {d.$lst} fresh(d) && d.$lst != nil ==> d.$lst.$em == nil;
}
contract NodeMap.Remove(nm, node) {
  props C04;
  maintains fs, dl;
  maintains [C04] lm, nm;
  requires [C04] ok: self(nm) != nil && nm.m != nil && node != nil;
  requires [C04] same: nm.m == self(nm).m;
  requires [C04] in: node.$nm == self(nm);
  requires [C04] labels: node.$lab == dom(node.labels.M);
  modifies Node.$nm@node, linkedhashmap.Map.$keys@nm.m, map[int]*list.Element@{m map[int]*list.Element :: true}, fastSet.$items@{f fastSet :: f == &self(nm).nolabels || f.$lhm == nm.m}, list.Element.$lst@{e list.Element :: e.$lst.$em == nil}, fastSet.$lhm@{f fastSet :: f.$lhm == nm.m};
  set Node.$nm@node := nil;
  inv gone: forall f *fastSet, i int :: {f.m[i]} {i in dom(f.m)} f.$lhm != nil && i in dom(f.m) ==> nodeIn(f, i) && (nodeAt(f, i) == node ==> f.$lhm == nm.m && lkey(f) in node.$lab && !(lkey(f) in $visited));
  inv has: forall n *Node, l string :: {l in n.$lab} n.$nm != nil && l in n.$lab && !(n == node && l in $visited) ==> inSet(n.$nm, l, n);
  ensures lists: forall d *list.Element :: {d.$lst} d.$lst == old(d.$lst) || d.$lst == nil;
  inv lists: forall d *list.Element :: {d.$lst} d.$lst == old(d.$lst) || d.$lst == nil;
}
contract NodeMap.Replace(nm, node, oldLabels, newLabels) {
  props C04;
  maintains fs, dl;
  maintains [C04] lm, nm;
  requires [C04] ok: nm != nil && nm.m != nil && node != nil;
  requires [C04] in: node.$nm == nm;
  requires [C04] labels: node.$lab == dom(oldLabels.M);
  modifies Node.$lab@node, linkedhashmap.Map.$keys@nm.m, linkedhashmap.Map.$map@nm.m, map[int]*list.Element@{m map[int]*list.Element :: true}, fastSet.$items@{f fastSet :: f == &nm.nolabels || f.$lhm == nm.m}, list.List.$at@{l list.List :: l.$em == nil}, list.Element.$lst@{e list.Element :: e.$lst.$em == nil}, fastSet.$lhm@{f fastSet :: fresh(f) || f.$lhm == nm.m}, fastSet.$lkey@{f fastSet :: fresh(f)};
  allocates fastSet, list.List, list.Element, map[int]*list.Element;
  set Node.$lab@node := dom(newLabels.M);
  inv in1: forall f *fastSet, i int :: {f.m[i]} {i in dom(f.m)} f.$lhm != nil && i in dom(f.m) ==> nodeIn(f, i) && nodeAt(f, i).$nm == f.$lhm.$nm && lkey(f) in nodeAt(f, i).$lab && !(nodeAt(f, i) == node && lkey(f) in $visited && !(lkey(f) in dom(newLabels.M)));
  inv in2: forall f *fastSet, i int :: {f.m[i]} {i in dom(f.m)} f.$lhm != nil && i in dom(f.m) ==> nodeIn(f, i) && nodeAt(f, i).$nm == f.$lhm.$nm && (nodeAt(f, i) == node ==> lkey(f) in dom(newLabels.M) && (lkey(f) in dom(oldLabels.M) || lkey(f) in $visited)) && (nodeAt(f, i) != node ==> lkey(f) in nodeAt(f, i).$lab);
  inv has1: forall n *Node, l string :: {l in n.$lab} n.$nm != nil && l in n.$lab && (n == node ==> l in dom(newLabels.M)) ==> inSet(n.$nm, l, n);
  inv has2: forall l string :: {l in $visited} l in $visited && !(l in dom(oldLabels.M)) ==> inSet(nm, l, node);
  inv nohas: forall n *Node :: {n.$nm} n.$nm != nil && n != node && len(n.$lab) == 0 ==> n.id in dom(n.$nm.nolabels.m);
  inv noin: forall o *NodeMap, i int :: {o.nolabels.m[i]} {i in dom(o.nolabels.m)} nmlive(o) && i in dom(o.nolabels.m) ==> nodeIn(&o.nolabels, i) && nodeAt(&o.nolabels, i).$nm == o && (nodeAt(&o.nolabels, i) != node ==> len(nodeAt(&o.nolabels, i).$lab) == 0);
  inv nonode: node.id in dom(nm.nolabels.m) <==> len(newLabels.M) == 0;
  ensures lists: forall d *list.Element :: {d.$lst} d.$lst == nil || d.$lst.$em == nil || !fresh(d) && d.$lst == old(d.$lst);
  inv lists: forall d *list.Element :: {d.$lst} d.$lst == nil || d.$lst.$em == nil || !fresh(d) && d.$lst == old(d.$lst);
}

contract NodeMap.IsEmpty(nm)(r) {
  props C04;
  maintains nodemaps;
  requires live: nmlive(self(nm)) && nm.m == self(nm).m;
  ensures none: r ==> (forall n *Node :: {n.$nm} n.$nm != self(nm));
  ensures some: (forall n *Node :: {n.$nm} n.$nm != self(nm)) ==> r;
}
pred subset(a StringSet, b set[string]) := forall k string :: {k in dom(a.M)} {k in b} k in dom(a.M) ==> k in b;
contract NodeMap.IteratorAllLabels$1(item)(r) {
  props C04;
  requires node: isNode(item);
  acc v: subset(labels, dom(as(*Node, v).labels.M));
}
contract NodeMap.IteratorAllLabels(nm, labels)(r) {
  props C04, C06;
  maintains nodemaps;
  requires live: nmlive(self(nm)) && nm.m == self(nm).m;
  requires labels: len(labels.M) > 0;
  requires lab: forall n *Node :: {n.$nm} n.$nm == self(nm) ==> n.$lab == dom(n.labels.M);
  allocates listIterator, filterIterator, emptyIterator, iteratorWithSize, Iterator, Predicate;
  ensures new: r != nil && fresh(r) && !r.$on && nodesOnly(r);
  ensures all: forall n *Node :: {r.$todo[box(*Node, n)]} {n.$nm} r.$todo[box(*Node, n)] == ite(n.$nm == self(nm) && subset(labels, n.$lab), 1, 0);
  ensures size: sized(r);
  inv any (s *fastSet): (s == nil ==> len($visited) == 0) && (s != nil ==> s.$lhm == nm.m && lkey(s) in dom(labels.M));
}
