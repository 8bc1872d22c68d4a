package main

// Iterators: ghost state of interface values, classes of iterators, closures with contracts, counting.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// IterClass is a type whose values are used as iterators. The predicates todo_T, inv_T, on_T, curr_T, max_T (and init_T) describe it.
type IterClass struct {
	name  string
	kind  string // node, edge or empty
	value bool
}

func (s *Spec) iterClassOf(t types.Type) *IterClass {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return s.iterClasses[typeName(t)]
}

func (s *Spec) iterClassItem(p *parser, t Tok) {
	c := &IterClass{name: p.id()}
	if p.accept("value") {
		c.value = true
	}
	n := &Contract{tok: t, name: c.name + ".Next", params: []string{"l"}, results: []string{"r"}}
	p.expect("{")
	for !p.accept("}") {
		if p.accept("kind") {
			c.kind = p.id()
			p.expect(";")
			continue
		}
		s.contractClause(p, n)
	}
	add := func(n *Contract, text string) {
		q := &parser{toks: lexSpec(t.file, strings.ReplaceAll(text, "T_", c.name))}
		for i := range q.toks {
			q.toks[i].line = t.line
		}
		for q.peek().kind != "eof" {
			s.contractClause(q, n)
		}
	}
	nn := ""
	if !c.value {
		nn = "requires nn: l != nil; "
	}
	add(n, nn+`requires inv: inv_T_(l);
ensures inv: inv_T_(l);
ensures on: r ==> on_T_(l);
ensures step: r ==> (let c := curr_T_(l) :: old(todo_T_(l, c)) >= 1);
ensures rest: r ==> (let c := curr_T_(l) :: forall v any :: todo_T_(l, v) == old(todo_T_(l, v)) - ite(v == c, 1, 0));
ensures done: !r ==> forall v any :: old(todo_T_(l, v)) == 0 && todo_T_(l, v) == 0;`)
	if c.value {
		v := &Contract{tok: t, name: c.name + ".MaxSize", params: []string{"l"}, results: []string{"r"}, props: n.props}
		add(v, "ensures max: r == max_T_(l);")
		for _, k := range []*Contract{n, v} {
			s.contracts[k.name] = k
			s.order = append(s.order, k.name)
		}
		s.iterClasses[c.name] = c
		return
	}
	v := &Contract{tok: t, name: c.name + ".Value", params: []string{"l"}, results: []string{"r"}, props: n.props}
	add(v, nn+"requires inv: inv_T_(l); requires on: on_T_(l); ensures value: r == curr_T_(l);")
	m := &Contract{tok: t, name: c.name + ".MaxSize", params: []string{"l"}, results: []string{"r"}, props: n.props}
	add(m, nn+"requires inv: inv_T_(l); ensures max: r == max_T_(l);")
	cs := []*Contract{n, v, m}
	if c.kind != "" {
		mn, ty := "Node", "*Node"
		if c.kind == "edge" {
			mn, ty = "Edge", "*Edge"
		}
		k := &Contract{tok: t, name: c.name + "." + mn, params: []string{"l"}, results: []string{"r"}, props: n.props}
		add(k, nn+"requires inv: inv_T_(l); requires on: on_T_(l); ensures item: box("+ty+", r) == curr_T_(l);")
		cs = append(cs, k)
	}
	for _, k := range cs {
		if _, dup := s.contracts[k.name]; dup {
			panic(fmt.Sprintf("%s:%d: duplicate contract %s", t.file, t.line, k.name))
		}
		s.contracts[k.name] = k
		s.order = append(s.order, k.name)
	}
	s.iterClasses[c.name] = c
}

func ifaceComps(t types.Type) []*Comp {
	var out []*Comp
	gs := ghostFields["Iterator"]
	for _, n := range sortedKeys(gs) {
		out = append(out, ghostIfaceComp(gs[n]))
	}
	return out
}

func ghostFuncComp(g *GhostField) *Comp { return comp("K:Generator."+g.name, g.ty.sort()) }

// isIterType: an interface with the methods of an iterator.
func isIterType(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	n := 0
	for i := 0; i < it.NumMethods(); i++ {
		switch it.Method(i).Name() {
		case "Next", "Value":
			n++
		}
	}
	return n == 2
}

// identity of the object an iterator value refers to
func irid(b *Term) *Term {
	if strings.HasPrefix(b.op, "box_") {
		if b.args[0].sort == SRef {
			return Rid(b.args[0])
		}
		return IntT(-1)
	}
	return App("irid", SInt, b)
}

func frid(f *Term) *Term { return App("frid", SInt, f) }

// keyID is the allocation number of a heap key.
func keyID(q *Term) *Term {
	switch q.sort {
	case SIface:
		return App("irid", SInt, q)
	case SFunc:
		return frid(q)
	}
	if q.op == "var" {
		return mk("rid", SInt, "", q)
	}
	return Rid(q)
}

func objID(t *Term) *Term {
	switch t.sort {
	case SSlice:
		return Rid(SlArr(t))
	case SIface:
		return irid(ibase(t))
	case SFunc:
		return frid(t)
	}
	return Rid(t)
}

func keyNew(t *Term) *Term {
	if strings.HasPrefix(t.op, "box_") && t.args[0].sort == SRef {
		t = t.args[0]
	}
	return rootNew(t)
}

func appTerm(ts []*Term, i int, s Sort) *Term {
	n := "app"
	for _, t := range ts[1:] {
		n += "_" + sanitize(t.sort)
	}
	return App(fmt.Sprintf("%s__%s_%d", n, sanitize(s), i), s, ts...)
}

func appPre(ts []*Term) *Term {
	n := "appre"
	for _, t := range ts[1:] {
		n += "_" + sanitize(t.sort)
	}
	return App(n, SBool, ts...)
}

func countTerm(c, off, n, v *Term) *Term { return App("cnt_"+sanitize(v.sort), SInt, c, off, n, v) }

// countFact relates the occurrences in a slice before and after appending one element.
func (x *Exec) countFact(st *State, one bool, old, off, n, now, noff, src, t *Term) {
	if !one || !x.spec.usesCount[x.con.name] {
		return
	}
	_, es := arrParts(now.sort)
	q := FreshVar("cv", es)
	v := At(src, SlOff(t), IntT(0))
	l := countTerm(now, noff, Add(n, IntT(1)), q)
	st.assume(Forall([]*Term{q}, [][]*Term{{l}}, Eq(l, Add(countTerm(old, off, n, q), Ite(Eq(q, v), IntT(1), IntT(0))))))
}

func (x *Exec) predVal(env *Env, name string, args ...TV) *Term {
	d := x.spec.preds[name]
	if d == nil {
		panic(evalErr{"no predicate " + name})
	}
	c := *env
	c.vars = map[string]TV{}
	c.lookup = nil
	for i, p := range d.params {
		v := args[i]
		v.ty = x.spec.resolveType(p.typ)
		c.vars[p.name] = v
	}
	return c.val(c.eval(d.body))
}

// typedFact: the remaining elements are nodes (edges).
func (x *Exec) typedFact(td *Term, kind string) *Term {
	n := "Node"
	if kind == "edge" {
		n = "Edge"
	}
	t := types.NewPointer(lookupType(n))
	q := FreshVar("tv", SIface)
	sel := mk("select", SInt, "", td, q)
	return Forall([]*Term{q}, [][]*Term{{sel}}, Implies(Lt(IntT(0), sel), And(TypIs(boxName(t), SRef, q), Not(Eq(Unbox(boxName(t), SRef, q), Nil)))))
}

func iterKind(t types.Type) string {
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "Node":
			return "node"
		case "Edge":
			return "edge"
		}
	}
	return ""
}

// iterFacts gives an iterator value its ghost state when it is created.
func (x *Exec) iterFacts(st *State, b, t *Term, ty types.Type) {
	g := ghostFields["Iterator"]["$todo"]
	if g == nil {
		return
	}
	tc, mc, oc := ghostIfaceComp(g), ghostIfaceComp(ghostFields["Iterator"]["$max"]), ghostIfaceComp(ghostFields["Iterator"]["$on"])
	if wrapperTypes[boxName(ty)] {
		if k := iterKind(ty); k != "" {
			x.oblige(st, "a "+k+" iterator yields "+k+"s only", x.typedFact(Select(x.heapGet(st, tc), ibase(b)), k), "")
		}
		return
	}
	c := x.spec.iterClassOf(ty)
	if c == nil {
		x.unsup("iterator type %s has no class", typeName(ty))
	}
	env := &Env{x: x, vars: map[string]TV{}, heap: x.heapFn(st), old: x.entryFn(), st: st}
	q := FreshVar("iv", SIface)
	recv := TV{t: t}
	if c.value && isPtr(ty) {
		recv = TV{lref: t}
	}
	todo := x.predVal(env, "todo_"+c.name, recv, TV{t: q})
	max := x.predVal(env, "max_"+c.name, recv)
	if c.value {
		td := Select(x.heapGet(st, tc), b)
		sel := mk("select", SInt, "", td, q)
		st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, Eq(sel, todo)))
		st.assume(Eq(Select(x.heapGet(st, mc), b), max))
		st.assume(Eq(Select(x.heapGet(st, oc), b), x.predVal(env, "on_"+c.name, recv)))
		return
	}
	if rootNew(t) == nil {
		x.unsup("conversion of an existing %s to an iterator", c.name)
	}
	inv := x.predVal(env, "inv_"+c.name, recv)
	x.oblige(st, "a new "+c.name+" is well formed", inv, "")
	st.assume(inv)
	if x.spec.preds["init_"+c.name] != nil {
		ini := x.predVal(env, "init_"+c.name, recv)
		x.oblige(st, "a new "+c.name+" is set up correctly", ini, "")
		st.assume(ini)
	}
	x.oblige(st, "a new "+c.name+" has no negative counts", Forall([]*Term{q}, nil, Le(IntT(0), todo)), "")
	bag := Fresh("todo_"+c.name, g.ty.sort())
	sel := mk("select", SInt, "", bag, q)
	st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, Eq(sel, todo)))
	if x.spec.preds["src_"+c.name] != nil {
		// every element is the image of an element of the source: there are no more of them than source elements, if each occurs once
		src := x.predVal(env, "src_"+c.name, recv)
		w, e := Fresh("wit", SIface), FreshVar("e", SIface)
		ss := mk("select", SInt, "", src, e)
		img := x.predVal(env, "img_"+c.name, recv, TV{t: e})
		bw := Select(bag, w)
		st.assume(Or(Le(App("bsize", SInt, bag), App("bsize", SInt, src)), Lt(IntT(1), bw),
			And(Lt(IntT(0), bw), Forall([]*Term{e}, [][]*Term{{ss}}, Implies(Lt(IntT(0), ss), Not(Eq(img, w)))))))
	}
	if x.spec.preds["sup_"+c.name] != nil {
		// a set that holds all elements bounds their number, if each occurs once
		sup := x.predVal(env, "sup_"+c.name, recv)
		w := Fresh("wit", SIface)
		st.assume(Or(Le(App("bsize", SInt, bag), card(sup)), Lt(Ite(Select(sup, w), IntT(1), IntT(0)), Select(bag, w))))
	}
	x.oblige(st, "the size hint of a new "+c.name+" is sound", Or(Eq(max, IntT(-1)), Le(App("bsize", SInt, bag), max)), "")
	st.assume(Or(Eq(max, IntT(-1)), Le(App("bsize", SInt, bag), max)))
	if c.kind != "" {
		x.oblige(st, "a "+c.kind+" iterator yields "+c.kind+"s only", x.typedFact(bag, c.kind), "")
	}
	x.heapSet(st, tc, b, bag)
	x.heapSet(st, mc, b, max)
	x.heapSet(st, oc, b, False)
}

// ---- closures ----

func (x *Exec) fvLookup(heap, old func(*Comp) *Term, fn *ssa.Function, bind []Val) func(string, bool) (TV, bool) {
	return func(name string, inOld bool) (TV, bool) {
		for i, fv := range fn.FreeVars {
			if fv.Name() != name {
				continue
			}
			h := heap
			if inOld {
				h = old
			}
			elem := fv.Type().Underlying().(*types.Pointer).Elem()
			switch r := bind[i].(type) {
			case *Addr:
				if r.kind == "cell" {
					return TV{}, false
				}
				if v, ok := x.loadAddr(nil, r, h).(*Term); ok {
					return TV{t: v, ty: goTy(elem)}, true
				}
			case *Term:
				if isStruct(elem) {
					return TV{lref: r, ty: goTy(elem)}, true
				}
				return TV{t: hsel(h(cellComp(elem)), r), ty: goTy(elem)}, true
			}
		}
		return TV{}, false
	}
}

// bindFreeVars gives the captured variables of a closure verified on its own.
func (x *Exec) bindFreeVars(st *State) {
	x.fvBind = nil
	var refs []*Term
	for i, fv := range x.fn.FreeVars {
		r := Const("fv_"+sanitize(fv.Name()), SRef)
		elem := fv.Type().Underlying().(*types.Pointer).Elem()
		st.assume(Not(Eq(r, Nil)))
		st.assume(Lt(Rid(r), x.alloc0))
		st.assume(Eq(App("rtag", SInt, r), IntT(1)))
		for _, o := range refs {
			st.assume(Not(Eq(Rid(r), Rid(o))))
		}
		refs = append(refs, r)
		if isStruct(elem) && capturedValue(x.fn, i) {
			a := &Addr{kind: "comp", comp: cellComp(elem), ref: r, ty: elem}
			if v, ok := x.loadAddr(st, a, x.heapFn(st)).(*Term); ok {
				x.known(st, v, elem)
			}
			x.fvBind = append(x.fvBind, a)
			continue
		}
		if !isStruct(elem) {
			x.known(st, hsel(x.heapGet(st, cellComp(elem)), r), elem)
		}
		x.fvBind = append(x.fvBind, r)
	}
}

// capturedValue: the captured struct variable is kept as a value (see alloc).
func capturedValue(fn *ssa.Function, i int) bool {
	if fn.Parent() == nil {
		return false
	}
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == fn {
				switch v := mc.Bindings[i].(type) {
				case *ssa.Alloc:
					return captureOnly(v)
				case *ssa.FreeVar:
					for k, fv := range fn.Parent().FreeVars {
						if fv == v {
							return capturedValue(fn.Parent(), k)
						}
					}
				}
			}
		}
	}
	return false
}

// closureFacts states what is known of a function value made from a function with a contract.
func (x *Exec) closureFacts(st *State, f *Term, fn *ssa.Function, bind []Val) {
	con := x.spec.contracts[contractName(fn)]
	id := x.allocObj(st, nil)
	st.assume(Eq(frid(f), Rid(id)))
	if con == nil {
		return
	}
	x.called[con.name] = true
	env := &Env{x: x, vars: map[string]TV{}, heap: x.heapFn(st), old: x.heapFn(st), st: st}
	env.lookup = x.fvLookup(env.heap, env.old, fn, bind)
	env.vars["$counter0"] = TV{t: counter(st), ty: tyInt}
	for _, h := range x.heapinvs(con.maintains) {
		g := env.boolean(h.e)
		x.oblige(st, "closure "+con.name+": invariant "+h.group+"."+h.label, g, "")
		st.assume(g)
	}
	if con.gen != nil || con.acc != nil {
		x.checkCaptured(fn, bind)
		q := FreshVar("gv", SIface)
		if len(con.params) == 1 && con.acc != nil {
			env = env.with(con.params[0], TV{t: q, ty: tyAny})
		}
		var onArg []*Term
		for i, r := range con.requires {
			g := env.boolean(r.e)
			if mentions(g, q) {
				// a condition on the argument
				onArg = append(onArg, g)
				continue
			}
			x.oblige(st, fmt.Sprintf("closure %s: requires %s %d", con.name, r.label, i+1), g, "")
			st.assume(g)
		}
		if con.gen != nil {
			rest := env.with(con.gen.params[0].name, TV{t: q, ty: tyAny})
			v := rest.val(rest.eval(con.gen.body))
			x.oblige(st, "closure "+con.name+": no negative counts", Forall([]*Term{q}, nil, Le(IntT(0), v)), "")
			sel := mk("select", SInt, "", Select(x.heapGet(st, ghostFuncComp(ghostFields["Generator"]["$rest"])), f), q)
			st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, Eq(sel, v)))
			return
		}
		acc := env.with(con.acc.params[0].name, TV{t: q, ty: tyAny}).boolean(con.acc.body)
		sel := mk("select", SBool, "", Select(x.heapGet(st, ghostFuncComp(ghostFields["Predicate"]["$acc"])), f), q)
		st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, Implies(And(onArg...), Eq(sel, acc))))
		st.assume(Eq(Select(x.heapGet(st, ghostFuncComp(ghostFields["Predicate"]["$once"])), f), BoolT(con.once)))
		pre := appPre([]*Term{f, q})
		st.assume(Forall([]*Term{q}, [][]*Term{{pre}}, Implies(And(onArg...), pre)))
		return
	}
	if !con.pure {
		return
	}
	x.checkCaptured(fn, bind)
	ts := []*Term{f}
	var bvs []*Term
	for i, p := range fn.Params {
		q := FreshVar(con.params[i], sortOf(p.Type()))
		ts = append(ts, q)
		bvs = append(bvs, q)
		env = env.with(con.params[i], TV{t: q, ty: goTy(p.Type())})
	}
	var reqs, ens []*Term
	for _, r := range con.requires {
		reqs = append(reqs, env.boolean(r.e))
	}
	var app *Term
	for i, rt := range sigResults(fn.Signature) {
		a := appTerm(ts, i, sortOf(rt))
		if app == nil {
			app = a
		}
		if i < len(con.results) {
			env = env.with(con.results[i], TV{t: a, ty: goTy(rt)})
		}
	}
	for _, e := range con.ensures {
		ens = append(ens, env.boolean(e.e))
	}
	req := And(reqs...)
	pre := appPre(ts)
	if len(bvs) == 0 {
		st.assume(Implies(req, And(append(ens, pre)...)))
		return
	}
	st.assume(Forall(bvs, [][]*Term{{pre}}, Implies(req, pre)))
	if app != nil {
		st.assume(Forall(bvs, [][]*Term{{app}}, Implies(req, And(ens...))))
	}
	if g := ghostFields["Predicate"]["$acc"]; g != nil && isAnyPredicate(fn.Signature) {
		sel := mk("select", SBool, "", Select(x.heapGet(st, ghostFuncComp(g)), f), bvs[0])
		st.assume(Forall(bvs, [][]*Term{{sel}, {app}}, Eq(sel, app)))
		st.assume(Not(Select(x.heapGet(st, ghostFuncComp(ghostFields["Predicate"]["$once"])), f)))
	}
}

func isAnyPredicate(sig *types.Signature) bool {
	if sig.Params().Len() != 1 || sig.Results().Len() != 1 || sortOf(sig.Results().At(0).Type()) != SBool {
		return false
	}
	it, ok := sig.Params().At(0).Type().Underlying().(*types.Interface)
	return ok && it.NumMethods() == 0
}

// checkCaptured: a captured variable must not be written by the enclosing function once the closure exists.
func (x *Exec) checkCaptured(fn *ssa.Function, bind []Val) {
	p := fn.Parent()
	for _, b := range p.Blocks {
		for k, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			later := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock)
			walk = func(b *ssa.BasicBlock) {
				for _, s := range b.Succs {
					if !later[s] {
						later[s] = true
						walk(s)
					}
				}
			}
			walk(b)
			for _, c := range mc.Bindings {
				a, ok := c.(*ssa.Alloc)
				if !ok {
					continue
				}
				for _, r := range *a.Referrers() {
					s, ok := r.(*ssa.Store)
					if !ok || s.Addr != a {
						continue
					}
					after := later[s.Block()]
					if s.Block() == b {
						for _, o := range b.Instrs[k:] {
							after = after || o == ssa.Instruction(s)
						}
					}
					if after {
						x.unsup("variable %s is written after closure %s captured it", a.Comment, fn.Name())
					}
				}
			}
		}
	}
}

func mentions(t, v *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}
