# C01, C03: node lists. $lst is the node list a node is in, $rk its rank there.

ghost Node.$lst : *nodeList;
ghost Node.$rk : int;
ghost nodeList.$set : set[*Node];

heapinv [C01, C03] nl.slot: forall n *Node :: {n.$lst} n.$lst != nil ==> n != nil && allocated(n) && allocated(n.$lst) && n in n.$lst.$set;
heapinv [C01, C03] nl.mem: forall L *nodeList, n *Node :: {n in L.$set} n in L.$set ==> L != nil && n != nil && n.$lst == L;
heapinv [C01, C03] nl.rank: forall n *Node, m *Node :: {n.$rk, m.$rk} n.$lst != nil && n.$lst == m.$lst && n.$rk == m.$rk ==> n == m;
heapinv [C01, C03] nl.head: forall L *nodeList :: {L.head} L.head != nil ==> L.head in L.$set && L.head.prev == nil;
heapinv [C01, C03] nl.tail: forall L *nodeList :: {L.tail} L.tail != nil ==> L.tail in L.$set && L.tail.next == nil;
heapinv [C01, C03] nl.first: forall n *Node :: {n.$lst.head} n.$lst != nil ==> n.$lst.head != nil && n.$lst.head.$rk <= n.$rk;
heapinv [C01, C03] nl.last: forall n *Node :: {n.$lst.tail} n.$lst != nil ==> n.$lst.tail != nil && n.$rk <= n.$lst.tail.$rk;
heapinv [C01, C03] nl.next: forall n *Node :: {n.next} n.$lst != nil ==> ite(n.next == nil, n.$lst.tail == n, n.next.$lst == n.$lst && n.next.prev == n && n.next.$rk > n.$rk);
heapinv [C01, C03] nl.prev: forall n *Node :: {n.prev} n.$lst != nil ==> ite(n.prev == nil, n.$lst.head == n, n.prev.$lst == n.$lst && n.prev.next == n);
heapinv [C01, C03] nl.gap: forall n *Node, m *Node :: {n.next, m.$rk} n.$lst != nil && n.$lst == m.$lst && n.$rk < m.$rk ==> n.next != nil && n.next.$rk <= m.$rk;
heapinv [C01, C03] nl.n: forall L *nodeList :: {len(L.$set)} L.n == len(L.$set);

contract nodeList.add(list, node) {
  props C01, C03;
  maintains nl;
  requires ok: list != nil && allocated(list) && node != nil && allocated(node);
  requires free: node.$lst == nil && node.next == nil;
  modifies nodeList.*@list, Node.next@list.tail, Node.prev@node, Node.$lst@node, Node.$rk@node;
  set Node.$lst@node := list;
  set Node.$rk@node := ite(old(list.tail) == nil, 0, old(list.tail.$rk) + 1);
  set nodeList.$set@list := add(old(list.$set), node);
  ensures n: list.n == old(list.n) + 1;
}
contract nodeList.remove(list, node) {
  props C01, C03;
  maintains nl;
  requires ok: list != nil && node != nil;
  requires in: node.$lst == list;
  modifies nodeList.*@list, Node.next@node.prev, Node.prev@node.next, Node.$lst@node;
  set Node.$lst@node := nil;
  set nodeList.$set@list := del(old(list.$set), node);
  ensures n: list.n == old(list.n) - 1;
}

pred nodeFrom(n *Node, m *Node) := n != nil && m != nil && m.$lst == n.$lst && m.$rk >= n.$rk;
pred todo_nodeListIterator(l *nodeListIterator, v any) := ite(is(*Node, v) && nodeFrom(l.next, as(*Node, v)), 1, 0);
pred inv_nodeListIterator(l *nodeListIterator) := l.next != nil ==> l.next.$lst != nil;
pred on_nodeListIterator(l *nodeListIterator) := l.current != nil;
pred curr_nodeListIterator(l *nodeListIterator) := box(*Node, l.current);
pred max_nodeListIterator(l *nodeListIterator) := l.n;
pred sup_nodeListIterator(l *nodeListIterator) := boxset(*Node, l.next.$lst.$set);
iterclass nodeListIterator { kind node; props C03, C09; maintains nl; modifies nodeListIterator.*@l; }
