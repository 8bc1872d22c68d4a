# C10: paths. pnode is the node sequence of a path, nnodes its length.

pred src(e PathElement) := ite(e.Reverse, e.Edge.to, e.Edge.from);
pred tgt(e PathElement) := ite(e.Reverse, e.Edge.from, e.Edge.to);
pred nnodes(p *Path) := ite(p.only != nil, 1, ite(len(p.path) == 0, 0, len(p.path) + 1));
pred pnode(p *Path, i int) := ite(p.only != nil, p.only, ite(i == 0, src(p.path[0]), tgt(p.path[i-1])));
pred lastn(p *Path) := ite(p.only != nil, p.only, tgt(p.path[len(p.path) - 1]));
pred real(e PathElement) := e.Edge != nil && e.Edge.from != nil && e.Edge.to != nil;
pred pathOk(p *Path) := (p.only != nil ==> len(p.path) == 0) && (forall i int :: {p.path[i]} 0 <= i < len(p.path) ==> real(p.path[i]));
pred connected(p *Path) := forall i int, j int :: {p.path[i], p.path[j]} 0 <= i && j == i + 1 && j < len(p.path) ==> tgt(p.path[i]) == src(p.path[j]);
# the elements of two slices agree
pred sameEls(a []PathElement, b []PathElement) := len(a) == len(b) && forall i int :: {a[i]} {b[i]} 0 <= i < len(a) ==> a[i] == b[i];

# no two paths share the memory of their elements
heapinv [C10] path.own: forall p *Path, q *Path :: {p.path, q.path} p != q && cap(p.path) > 0 && cap(q.path) > 0 ==> arr(p.path) != arr(q.path);
heapinv [C10] path.alloc: forall p *Path :: {p.path} allocated(p.path);

contract PathElement.GetSourceNode(p)(r) {
  props C10;
  requires p.Edge != nil;
  ensures source: r == src(p);
}
contract PathElement.GetTargetNode(p)(r) {
  props C10;
  requires p.Edge != nil;
  ensures target: r == tgt(p);
}
contract NewPathFromElements(elements)(r) {
  props C10;
  maintains path;
  allocates Path, []PathElement;
  ensures path: r != nil && fresh(r) && r.only == nil && len(r.path) == len(elements) && forall i int :: {r.path[i]} 0 <= i < len(elements) ==> r.path[i] == elements[i];
}
contract NewPathElementsFromEdges(edges)(r) {
  props C10;
  allocates []PathElement;
  ensures elements: len(r) == len(edges) && forall i int :: {r[i]} 0 <= i < len(r) ==> r[i].Edge == edges[i] && !r[i].Reverse;
  inv any (i int, t []PathElement): 0 <= i <= len(edges) && len(t) == len(edges) && (forall j int :: {t[j]} 0 <= j < i ==> t[j].Edge == edges[j]) && (forall j int :: {t[j]} 0 <= j < len(t) ==> !t[j].Reverse);
}
contract PathFromNode(node)(r) {
  props C10;
  maintains path;
  panics when node == nil;
  allocates Path;
  ensures one: r != nil && fresh(r) && r.only == node && len(r.path) == 0;
}
contract Path.Clone(p)(r) {
  props C10;
  maintains path;
  requires p != nil;
  allocates Path, []PathElement;
  ensures copy: r != nil && fresh(r) && fresh(r.path) && r.only == p.only && sameEls(r.path, p.path);
  inv any (i int, els []PathElement): 0 <= i <= len(p.path) && len(els) == len(p.path) && fresh(els) && forall j int :: {els[j]} 0 <= j < i ==> els[j] == p.path[j];
  inv any (i int, els []PathElement): 0 <= i <= len(p.path) && len(els) == i && fresh(els) && forall j int :: {els[j]} 0 <= j < i ==> els[j] == p.path[j];
}
contract Path.SetOnlyNode(p, node)(r) {
  props C10;
  maintains path;
  requires p != nil;
  modifies Path.*@p;
  ensures one: r == p && p.only == node && len(p.path) == 0;
}
contract Path.Clear(p)(r) {
  props C10;
  maintains path;
  requires p != nil;
  modifies Path.*@p;
  ensures empty: r == p && nnodes(p) == 0;
}
contract Path.NumEdges(p)(r) {
  props C10;
  requires p != nil;
  ensures n: r == len(p.path);
}
contract Path.NumNodes(p)(r) {
  props C10;
  requires p != nil;
  ensures n: r == nnodes(p);
}
contract Path.IsEmpty(p)(r) {
  props C10;
  requires p != nil;
  ensures empty: r <==> nnodes(p) == 0;
}
contract Path.First(p)(r) {
  props C10;
  requires p != nil && pathOk(p);
  ensures first: r == ite(nnodes(p) == 0, nil, pnode(p, 0));
}
contract Path.Last(p)(r) {
  props C10;
  requires p != nil && pathOk(p);
  ensures last: r == ite(nnodes(p) == 0, nil, lastn(p));
  ensures nth: nnodes(p) > 0 ==> r == pnode(p, nnodes(p) - 1);
}
contract Path.GetNode(p, n)(r) {
  props C10;
  requires p != nil && pathOk(p);
  panics when !(0 <= n && n < nnodes(p));
  ensures nth: r == pnode(p, n);
}
contract Path.GetEdge(p, n)(r) {
  props C10;
  requires p != nil && pathOk(p);
  requires 0 <= n;
  ensures nth: r == ite(n < len(p.path), p.path[n].Edge, nil);
}
pred joined(e []PathElement) := forall i int, j int :: {e[i], e[j]} 0 <= i && j == i + 1 && j < len(e) ==> tgt(e[i]) == src(e[j]);
contract Path.String(p)(r) {
  props C10;
  trusted;
}
extern fmt.Println(a)(n, e) { }
contract Path.Append(p, path)(r) {
  props C10;
  maintains path;
  requires p != nil && pathOk(p);
  requires real: forall i int :: {path[i]} 0 <= i < len(path) ==> real(path[i]);
  panics when len(path) > 0 && (!joined(path) || nnodes(p) > 0 && lastn(p) != src(path[0]));
  modifies Path.*@p, []PathElement@p.path;
  allocates []PathElement;
  ensures self: r == p && pathOk(p);
  ensures nothing: len(path) == 0 ==> p.only == old(p.only) && p.path == old(p.path);
  ensures len: len(path) > 0 ==> p.only == nil && len(p.path) == old(len(p.path)) + len(path);
  ensures kept: forall i int :: {p.path[i]} 0 <= i < old(len(p.path)) ==> p.path[i] == old(p.path[i]);
  ensures added: len(path) > 0 ==> forall i int :: {p.path[i]} old(len(p.path)) <= i < len(p.path) ==> p.path[i] == old(path[i - len(p.path)]);
  hint kept: forall i int :: {p.path[i]} 0 <= i < old(len(p.path)) ==> p.path[i] == old(p.path[i]);
  hint added: len(path) > 0 ==> forall i int :: {p.path[i]} old(len(p.path)) <= i < len(p.path) ==> p.path[i] == old(path[i - len(p.path)]);
  ensures connected: old(connected(p)) ==> connected(p);
  ensures others: forall q *Path, i int :: {q.path[i]} q != p && 0 <= i < len(q.path) ==> q.path[i] == old(q.path[i]);
  inv any (i int): 0 <= i <= len(path) && forall j int, k int :: {path[j], path[k]} 0 <= j && k == j + 1 && k < i ==> tgt(path[j]) == src(path[k]);
  inv any (i int, n *Node): i > 0 ==> n == tgt(path[i-1]);
  inv any (i int, n *Node): i == 0 ==> n == src(path[0]);
}

# Appending a whole path. The argument is another path.
contract Path.AppendPath(p, path)(r) {
  props C10;
  maintains path;
  requires p != nil && path != nil && pathOk(p) && pathOk(path) && connected(path);
  panics when nnodes(p) > 0 && nnodes(path) > 0 && lastn(p) != pnode(path, 0);
  modifies Path.*@p, []PathElement@p.path;
  allocates []PathElement;
  ensures self: r == p && pathOk(p);
  ensures first: old(nnodes(p)) == 0 ==> p.only == old(path.only) && len(p.path) == old(len(path.path)) && forall i int :: {p.path[i]} 0 <= i < len(p.path) ==> p.path[i] == old(path.path[i]);
  ensures nothing: old(nnodes(p)) > 0 && old(len(path.path)) == 0 ==> p.only == old(p.only) && p.path == old(p.path);
  ensures len: old(nnodes(p)) > 0 && old(len(path.path)) > 0 ==> p.only == nil && len(p.path) == old(len(p.path)) + old(len(path.path));
  ensures kept: old(nnodes(p)) > 0 ==> forall i int :: {p.path[i]} 0 <= i < old(len(p.path)) ==> p.path[i] == old(p.path[i]);
  ensures added: old(nnodes(p)) > 0 && old(len(path.path)) > 0 ==> forall i int :: {p.path[i]} old(len(p.path)) <= i < len(p.path) ==> p.path[i] == old(path.path[i - len(p.path)]);
  ensures connected: old(connected(p)) ==> connected(p);
  ensures argument: path != p ==> path.only == old(path.only) && path.path == old(path.path) && forall i int :: {path.path[i]} 0 <= i < len(path.path) ==> path.path[i] == old(path.path[i]);
  ensures others: forall q *Path, i int :: {q.path[i]} q != p && 0 <= i < len(q.path) ==> q.path[i] == old(q.path[i]);
}

# HasPrefix compares elements, edges and directions.
pred prefixEls(p *Path, e []PathElement) := len(e) <= len(p.path) && forall i int :: {e[i]} 0 <= i < len(e) ==> e[i] == p.path[i];
contract Path.HasPrefix(p, p1)(r) {
  props C10;
  requires p != nil && pathOk(p);
  ensures prefix: r <==> nnodes(p) > 1 && prefixEls(p, p1);
  inv any (i int): 0 <= i <= len(p1) && forall j int :: {p1[j]} 0 <= j < i ==> p1[j] == p.path[j];
}
contract Path.HasPrefixPath(p, p1)(r) {
  props C10;
  requires p != nil && p1 != nil && pathOk(p) && pathOk(p1);
  ensures empty: nnodes(p1) == 0 ==> r;
  ensures longer: nnodes(p1) > nnodes(p) ==> !r;
  ensures one: nnodes(p1) == 1 && nnodes(p) > 0 ==> (r <==> pnode(p, 0) == pnode(p1, 0));
  ensures elements: nnodes(p1) > 1 && nnodes(p) > 1 ==> (r <==> prefixEls(p, p1.path));
}
contract Path.RemoveLast(p)(r) {
  props C10;
  maintains path;
  requires p != nil && pathOk(p);
  modifies Path.*@p;
  ensures self: r == p && pathOk(p);
  ensures nodes: nnodes(p) == ite(old(nnodes(p)) == 0, 0, old(nnodes(p)) - 1);
  ensures kept: forall i int :: {old(p.path[i])} 0 <= i < nnodes(p) ==> pnode(p, i) == old(pnode(p, i));
  ensures first: nnodes(p) > 0 ==> pnode(p, 0) == old(pnode(p, 0));
  ensures edges: len(p.path) > 0 ==> forall i int :: {p.path[i]} 0 <= i < len(p.path) ==> p.path[i] == old(p.path[i]);
  ensures connected: old(connected(p)) ==> connected(p);
}
contract Path.RemoveFirst(p)(r) {
  props C10;
  maintains path;
  requires p != nil && pathOk(p);
  modifies Path.*@p;
  ensures self: r == p && pathOk(p);
  ensures nodes: nnodes(p) == ite(old(nnodes(p)) == 0, 0, old(nnodes(p)) - 1);
  ensures kept: old(connected(p)) ==> forall i int :: {p.path[i]} 0 <= i < nnodes(p) ==> pnode(p, i) == old(pnode(p, i + 1));
  ensures last: nnodes(p) > 0 ==> lastn(p) == old(lastn(p));
  ensures edges: len(p.path) > 0 ==> forall i int :: {p.path[i]} 0 <= i < len(p.path) ==> p.path[i] == old(p.path[i + 1]);
  ensures connected: old(connected(p)) ==> connected(p);
}
# Slice(s, e) keeps the nodes from s up to e (exclusive); -1 stands for the end. Equal bounds give the node at that position.
# The sub-path of one node before the last is the recorded finding slice-one-node and is left open here.
contract Path.Slice(p, startNodeIndex, endNodeIndex)(r) {
  props C10;
  maintains path;
  requires p != nil && pathOk(p);
  requires 0 <= startNodeIndex && -1 <= endNodeIndex;
  let n := nnodes(p);
  let e := ite(endNodeIndex == -1 || endNodeIndex > n, n, endNodeIndex);
  panics when n == 0 || startNodeIndex > n || !(startNodeIndex == 0 && endNodeIndex == 0) && (e < startNodeIndex || startNodeIndex == e && startNodeIndex == n);
  allocates Path, []PathElement;
  ensures ok: r != nil && fresh(r) && pathOk(r);
  ensures one: startNodeIndex == e || startNodeIndex == n - 1 ==> r.only == pnode(p, startNodeIndex);
  ensures count: e - startNodeIndex > 1 ==> nnodes(r) == e - startNodeIndex && r.only == nil;
  ensures elements: e - startNodeIndex > 1 ==> forall i int :: {r.path[i]} 0 <= i < len(r.path) ==> r.path[i] == p.path[i + startNodeIndex];
  ensures nodes: old(connected(p)) && e - startNodeIndex > 1 ==> forall i int :: {r.path[i]} 0 <= i < e - startNodeIndex ==> pnode(r, i) == pnode(p, i + startNodeIndex);
  ensures connected: old(connected(p)) ==> connected(r);
  ensures own: cap(r.path) > 0 ==> fresh(r.path);
}

contract Cursor.Set(c, node)(r) {
  props C10, C18;
  requires c != nil;
  modifies Cursor.node@c;
  ensures at: r == c && c.node == node;
}
contract Cursor.StartPath(c)(r) {
  props C10, C18;
  maintains path;
  requires c != nil;
  panics when c.node == nil;
  modifies Cursor.path@c;
  allocates Path;
  ensures path: r == c && fresh(c.path) && c.path != nil && c.path.only == c.node && len(c.path.path) == 0;
}
contract Cursor.GetPath(c)(r) {
  props C10, C18;
  requires c != nil;
  ensures path: r == c.path;
}
contract Cursor.PushToPath(c, edge)(r) {
  props C10, C18;
  maintains path;
  requires c != nil && c.path != nil && pathOk(c.path) && edge != nil && edge.from != nil && edge.to != nil;
  panics when nnodes(c.path) > 0 && lastn(c.path) != edge.from;
  modifies Path.*@c.path, []PathElement@c.path.path, Cursor.node@c;
  allocates []PathElement;
  ensures moved: r == c && c.node == edge.to && c.path == old(c.path) && pathOk(c.path);
  ensures grown: c.path.only == nil && len(c.path.path) == old(len(c.path.path)) + 1 && c.path.path[len(c.path.path)-1].Edge == edge && !c.path.path[len(c.path.path)-1].Reverse;
  ensures kept: forall i int :: {c.path.path[i]} 0 <= i < old(len(c.path.path)) ==> c.path.path[i] == old(c.path.path[i]);
  ensures connected: old(connected(c.path)) ==> connected(c.path);
  ensures last: lastn(c.path) == c.node;
}
contract Cursor.PopFromPath(c)(r) {
  props C10, C18;
  maintains path;
  requires c != nil && c.path != nil && pathOk(c.path);
  modifies Path.*@c.path, Cursor.node@c;
  ensures shorter: r == c && c.path == old(c.path) && pathOk(c.path) && nnodes(c.path) == ite(old(nnodes(c.path)) == 0, 0, old(nnodes(c.path)) - 1);
  ensures previous: nnodes(c.path) > 0 ==> c.node == lastn(c.path);
  ensures kept: len(c.path.path) > 0 ==> forall i int :: {c.path.path[i]} 0 <= i < len(c.path.path) ==> c.path.path[i] == old(c.path.path[i]);
  ensures first: nnodes(c.path) > 0 ==> pnode(c.path, 0) == old(pnode(c.path, 0));
  ensures connected: old(connected(c.path)) ==> connected(c.path);
}
