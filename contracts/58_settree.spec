# C05: tree indexes. gods' btree is an assumed dependency: $keys and $map are its contents, with its keys up to comparison: ckey(v)
# stands for all values that compare equal to v. tbad(t, k): the key cannot be compared with the keys of the tree.

fn ckey(any) any;
fn tbad(*btree.Tree, any) bool;
ghost btree.Tree.$keys : set[any];
ghost btree.Tree.$map : gmap[any]any;
ghost btree.Tree.$st : *setTree;     # the index a tree belongs to
ghost fastSet.$st : *setTree;        # the index a set belongs to, and its key there
ghost fastSet.$sk : any;
identity setTree;
ghost setTree.$in : set[any];
ghost setTree.$val : gmap[any]any;

extern btree.NewWith(order, cmp)(t) {
  allocates btree.Tree;
  ensures new: t != nil && fresh(t);
  ensures empty: t.$keys == emptyset(any);
}
extern btree.Tree.Get(t, k)(v, ok) {
  requires m: t != nil;
  panics when bad(t, k);
  ensures found: ok <==> ckey(k) in t.$keys;
  ensures value: ok ==> v == t.$map[ckey(k)];
}
extern btree.Tree.Put(t, k, v) {
  requires m: t != nil;
  modifies btree.Tree.$keys@t, btree.Tree.$map@t;
  ensures keys: t.$keys == add(old(t.$keys), ckey(k));
  ensures map: t.$map == upd(old(t.$map), ckey(k), v);
}
extern btree.Tree.Remove(t, k) {
  requires m: t != nil;
  modifies btree.Tree.$keys@t;
  ensures keys: t.$keys == del(old(t.$keys), ckey(k));
}
# a key that cannot be compared with the others equals none of them
pred bad(t *btree.Tree, k any) := tbad(t, k) && !(ckey(k) in t.$keys);

pred tlive(s *setTree) := s != nil && s.tree != nil && s.tree.$st == s;
pred tset(s *setTree, k any) := as(*fastSet, s.tree.$map[k]);
# the set belongs to a tree index
pred town(f *fastSet) := f != nil && tlive(f.$st) && f.$sk in f.$st.tree.$keys && tset(f.$st, f.$sk) == f;

heapinv [C05] st.tree: forall s *setTree :: {s.tree} s.tree != nil ==> s != nil && allocated(s) && allocated(s.tree) && s.tree.$st == s;
heapinv [C05] st.nil: forall s *setTree, v any :: {v in s.$in} v in s.$in ==> tlive(s);
heapinv [C05] st.map: forall s *setTree, k any :: {k in s.tree.$keys} tlive(s) && k in s.tree.$keys ==> is(*fastSet, s.tree.$map[k]) && tset(s, k) != nil && allocated(tset(s, k)) && fslive(tset(s, k)) && tset(s, k).$st == s && tset(s, k).$sk == k && tset(s, k).$lhm == nil;
heapinv [C05] st.set: forall f *fastSet, i int :: {f.m[i]} {i in dom(f.m)} town(f) && i in dom(f.m) ==> f.m[i].Value in f.$st.$in && ckey(f.$st.$val[f.m[i].Value]) == f.$sk && idOf(f.m[i].Value) == i;
heapinv [C05] st.has: forall s *setTree, v any :: {v in s.$in} v in s.$in ==> isItem(v) && ckey(s.$val[v]) in s.tree.$keys && idOf(v) in dom(tset(s, ckey(s.$val[v])).m) && tset(s, ckey(s.$val[v])).m[idOf(v)].Value == v;

contract setTree.add(s, key, id, item) {
  props C05;
  maintains fs, dl, lm, st;
  requires live: s != nil && allocated(s);
  requires item: isItem(item) && idOf(item) == id;
  requires new: forall v any :: {v in s.$in} v in s.$in ==> idOf(v) != id;
  requires comparable: s.tree != nil ==> !bad(s.tree, key);
  requires fresh: forall t *btree.Tree :: {tbad(t, key)} !allocated(t) ==> !tbad(t, key);
  modifies setTree.*@s, btree.Tree.$keys@s.tree, btree.Tree.$map@s.tree, map[int]*list.Element@{m map[int]*list.Element :: m.$fs.$st == s}, fastSet.$items@{f fastSet :: f.$st == s}, list.List.$at@{l list.List :: l.$fs.$st == s}, fastSet.$st@{f fastSet :: fresh(f)}, fastSet.$sk@{f fastSet :: fresh(f)}, btree.Tree.$st@{t btree.Tree :: fresh(t)};
  allocates fastSet, list.List, list.Element, map[int]*list.Element, btree.Tree;
  set setTree.$in@s := add(old(s.$in), item);
  set setTree.$val@s := upd(old(s.$val), item, key);
  set btree.Tree.$st@s.tree := s;
  set fastSet.$st@as(*fastSet, s.tree.$map[ckey(key)]) := s;
  set fastSet.$sk@as(*fastSet, s.tree.$map[ckey(key)]) := ckey(key);
}
contract setTree.remove(s, key, id) {
  props C05;
  maintains fs, dl, st;
  requires live: self(s) != nil && allocated(self(s)) && self(s).tree == s.tree;
  requires comparable: s.tree != nil ==> !bad(s.tree, key);
  modifies setTree.$in@self(s), btree.Tree.$keys@s.tree, map[int]*list.Element@{m map[int]*list.Element :: m.$fs.$st == self(s)}, fastSet.$items@{f fastSet :: f.$st == self(s)}, list.Element.$lst@{e list.Element :: e.$lst.$fs.$st == self(s)};
  set setTree.$in@self(s) := ite(old(s.tree != nil && ckey(key) in s.tree.$keys && id in dom(tset(self(s), ckey(key)).m)), del(old(self(s).$in), old(tset(self(s), ckey(key)).m[id].Value)), old(self(s).$in));
  ensures gone: forall v any :: {v in self(s).$in} v in self(s).$in <==> old(v in self(s).$in) && !(idOf(v) == id && ckey(self(s).$val[v]) == ckey(key));
}
contract setTree.find(s, key)(r) {
  props C05;
  maintains fs, dl, st;
  requires live: self(s) != nil && allocated(self(s)) && self(s).tree == s.tree;
  allocates listIterator, iteratorWithSize, Iterator;
  ensures new: r != nil && !r.$on && sized(r) && (fresh(r) || nothing(r));
  ensures all: forall v any :: {r.$todo[v]} {v in self(s).$in} r.$todo[v] == ite(v in self(s).$in && ckey(self(s).$val[v]) == ckey(key), 1, 0);
}
