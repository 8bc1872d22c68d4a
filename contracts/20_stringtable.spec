# C17: string tables. $fr[i] is the position of slot i in the free list (0: in use), $nf the length of the free list.

ghost stringTable.$fr : gmap[int]int;
ghost stringTable.$nf : int;

pred tabOk(t *stringTable) :=
  t.$nf >= 0 &&
  (t.firstFree == -1 <==> t.$nf == 0) &&
  (t.$nf > 0 ==> 0 <= t.firstFree && t.firstFree < len(t.strs) && t.$fr[t.firstFree] == t.$nf) &&
  (forall i int :: {t.$fr[i]} {t.strs[i]} 0 <= i && i < len(t.strs) ==> 0 <= t.$fr[i] && t.$fr[i] <= t.$nf) &&
  (forall i int :: {t.$fr[i]} t.$fr[i] != 0 ==> 0 <= i && i < len(t.strs)) &&
  (forall i int, j int :: {t.$fr[i], t.$fr[j]} t.$fr[i] == t.$fr[j] && t.$fr[i] != 0 ==> i == j) &&
  (forall i int :: {t.$fr[i]} {t.strs[i]} t.$fr[i] == 1 ==> t.strs[i].c == -1) &&
  (forall i int :: {t.$fr[i]} {t.strs[i]} t.$fr[i] > 1 ==> 0 <= t.strs[i].c && t.strs[i].c < len(t.strs) && t.$fr[t.strs[i].c] == t.$fr[i] - 1) &&
  (forall i int :: {t.strs[i]} {t.$fr[i]} 0 <= i && i < len(t.strs) && t.$fr[i] == 0 ==> t.strs[i].c >= 1 && t.strs[i].str in dom(t.strmap) && t.strmap[t.strs[i].str] == i) &&
  (forall k string :: {k in dom(t.strmap)} k in dom(t.strmap) ==> 0 <= t.strmap[k] && t.strmap[k] < len(t.strs) && t.$fr[t.strmap[k]] == 0 && t.strs[t.strmap[k]].str == k) &&
  t.strmap != nil;

# number of allocations of k not yet freed
pred refc(t *stringTable, k string) := ite(k in dom(t.strmap), t.strs[t.strmap[k]].c, 0);

contract stringTable.init(table) {
  props C17;
  requires table != nil;
  modifies stringTable.*@table;
  allocates []rcstring, map[string]int;
  set stringTable.$nf@table := 0;
  set stringTable.$fr@{t *stringTable :: t == table} := zerofr();
  ensures ok: tabOk(table);
  ensures none: forall k string :: {k in dom(table.strmap)} !(k in dom(table.strmap));
}
fn zerofr() gmap[int]int;
axiom zerofr: forall i int :: {zerofr()[i]} zerofr()[i] == 0;

contract stringTable.allocate(table, s)(r) {
  props C17;
  requires table != nil;
  requires tabOk(table);
  modifies stringTable.*@table, []rcstring@table.strs, map[string]int@table.strmap;
  allocates []rcstring;
  set stringTable.$nf@table := ite(old(s in dom(table.strmap)) || old(table.$nf) == 0, old(table.$nf), old(table.$nf) - 1);
  set stringTable.$fr@table := ite(old(s in dom(table.strmap)) || old(table.$nf) == 0, old(table.$fr), upd(old(table.$fr), old(table.firstFree), 0));
  ensures ok: tabOk(table);
  ensures index: s in dom(table.strmap) && r == table.strmap[s];
  ensures keep: old(s in dom(table.strmap)) ==> r == old(table.strmap[s]);
  ensures count: refc(table, s) == old(refc(table, s)) + 1;
  ensures others: forall k string :: {k in dom(table.strmap)} k != s ==> (k in dom(table.strmap) <==> old(k in dom(table.strmap))) && (k in dom(table.strmap) ==> table.strmap[k] == old(table.strmap[k]) && refc(table, k) == old(refc(table, k)));
}

contract stringTable.lookup(table, s)(i, ok) {
  props C17;
  requires table != nil;
  requires tabOk(table);
  ensures found: ok <==> refc(table, s) > 0;
  ensures index: ok ==> i == table.strmap[s];
}

contract stringTable.str(table, i)(r) {
  props C17;
  requires table != nil;
  requires tabOk(table);
  requires live: 0 <= i && i < len(table.strs) && table.$fr[i] == 0;
  ensures inverse: r in dom(table.strmap) && table.strmap[r] == i;
}

contract stringTable.free(table, i) {
  props C17;
  requires table != nil;
  requires tabOk(table);
  requires live: 0 <= i && i < len(table.strs) && table.$fr[i] == 0;
  let s := table.strs[i].str;
  modifies stringTable.*@table, []rcstring@table.strs, map[string]int@table.strmap;
  set stringTable.$nf@table := ite(old(table.strs[i].c) > 1, old(table.$nf), old(table.$nf) + 1);
  set stringTable.$fr@table := ite(old(table.strs[i].c) > 1, old(table.$fr), upd(old(table.$fr), i, old(table.$nf) + 1));
  ensures ok: tabOk(table);
  ensures count: refc(table, s) == old(refc(table, s)) - 1;
  ensures index: refc(table, s) > 0 ==> table.strmap[s] == i;
  ensures others: forall k string :: {k in dom(table.strmap)} k != s ==> (k in dom(table.strmap) <==> old(k in dom(table.strmap))) && (k in dom(table.strmap) ==> table.strmap[k] == old(table.strmap[k]) && refc(table, k) == old(refc(table, k)));
}

contract MapInterner.Intern(i, s)(r) {
  props C17;
  requires i != nil;
  requires own: forall k string :: {k in dom(i)} k in dom(i) ==> i[k] == k;
  modifies map[string]string@i;
  ensures equal: r == s;
  ensures own: forall k string :: {k in dom(i)} k in dom(i) ==> i[k] == k;
}
